#!/usr/bin/env python3
"""recfix.py PROP COMMIT-SUBJECT-SUBSTRING TEXT: records a fix in known_findings.txt."""
import subprocess,sys
prop,sub,text=sys.argv[1:4]
hs=[l for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines() if sub in l]
assert len(hs)==1,hs
with open('/verif/known_findings.txt','a') as f: f.write(f"fixed: property={prop} {hs[0].split()[0]} {text}\n")
