#!/usr/bin/env python3
"""Prints the lines of a file of /repo that are original (not from my commits): origlines.py FILE"""
import subprocess, sys, re
sh=lambda c: subprocess.run(c,shell=True,capture_output=True,text=True).stdout
mine=set(sh("git -C /repo log --format=%H 20b3496..HEAD").split())
n=0
for l in sh("git -C /repo blame --line-porcelain "+sys.argv[1]).split("\n"):
    if re.match(r"^[0-9a-f]{40} ",l): h=l[:40]; n=int(l.split()[2])
    elif l.startswith("\t"): print(("  " if h not in mine else "* ")+"%4d %s"%(n,l[1:]))
