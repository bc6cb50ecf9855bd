#!/bin/bash
# Nothing to compile: the checks run the interpreters prebuilt in /opt against /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replays
for v in pb5 pb3; do /opt/venv-$v/bin/python -c "import opentelemetry.sdk.trace" ; done
