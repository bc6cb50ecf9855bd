#!/bin/bash
# usage: fix.sh PID "what failed" < commit message ; commits /repo's working tree as a fix and records it
set -e
git -C /repo commit -qa -F -
C=$(git -C /repo rev-parse --short HEAD)
echo "fixed: property=$1 $C $2" >> /verif/known_findings.jsonl
tail -1 /verif/known_findings.jsonl
