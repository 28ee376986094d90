import json, sys, os, subprocess, re
import translate, emit
tr = translate.Tr(json.load(open("/tmp/gsx.json")))
txt, order = tr.lean()
names = [tr.names[k] if k in tr.names else k for k in order]
C = emit.Contracts(tr, set(names))
if C.missing: print("MISSING", C.missing)
open("/tmp/w/Contracts.lean","w").write(C.decls())
pat = sys.argv[1]
sel = [n for n in C.specs if re.search(pat, n)]
open("/tmp/w/p.lean","w").write(C.file(sel))
print(len(sel), "specs")
