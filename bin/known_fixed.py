#!/usr/bin/env python3
"""Development aid: append a 'fixed:' line to known_findings.jsonl for every fix: commit of /repo not listed yet.
Usage: known_fixed.py PROP [HASH...]   (without hashes: every unlisted one is given PROP)"""
import subprocess, sys
F = "/verif/known_findings.jsonl"
prop, only = sys.argv[1], sys.argv[2:]
try: have = open(F).read()
except OSError: have = ""
out = subprocess.run("git -C /repo log --reverse --format=%h%x09%s 751eb71..HEAD", shell=True, capture_output=True, text=True).stdout
with open(F, "a") as f:
    for l in out.splitlines():
        h, s = l.split("\t")
        if s.startswith("fix: ") and h not in have and (not only or h in only):
            f.write("fixed: property=%s %s %s\n" % (prop, h, s[5:]))
