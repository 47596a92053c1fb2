#!/usr/bin/env python3
"""Lists /repo's fix commits as 'fixed' entries for known-findings.jsonl (dev aid).
usage: fixed.py <property>   appends an entry for each fix commit not yet listed"""
import subprocess,sys,json
prop=sys.argv[1]
path="/verif/known-findings.jsonl"
have=open(path).read()
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout
with open(path,"a") as f:
    for l in log.splitlines():
        h,s=l.split(" ",1)
        if s.startswith("fix:") and h not in have:
            f.write(json.dumps({"status":"fixed","property":prop,"commit":h,"what":s[5:],"entry":f"fixed: property={prop} {h} {s[5:]}"},ensure_ascii=False)+"\n")
