#!/usr/bin/env python3
"""Lists planted bugs whose removed lines are not the original repository's."""
import glob, re, subprocess, os
for d in sorted(glob.glob(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded/*/patch.diff")):
    f = None; n = 0; orig = other = 0
    for line in open(d):
        if line.startswith("--- a/"):
            f = line[6:].strip()
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.splitlines()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-"):
            if bl[n - 1].startswith("^"): orig += 1
            else: other += 1
            n += 1
        elif line.startswith(" "):
            n += 1
    print(d.split("/")[-2], "original", orig, "mine", other)
