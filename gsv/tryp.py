import json, sys, re
import translate, emit, props
tr = translate.Tr(json.load(open("/tmp/gsx.json")))
txt, order = tr.lean()
names = [tr.names[k] if k in tr.names else k for k in order]
C = emit.Contracts(tr, set(names))
open("/tmp/w/Contracts.lean","w").write(C.decls())
sel=[p for p in props.PROPS if re.search(sys.argv[1], p.name)]
out=["import Contracts\nimport Gsv.Prp\nset_option linter.all false\nset_option maxHeartbeats 4000000\nopen Gsv Res\nnamespace Gsv\n"]
for p in sel: out.append(emit.prop_text(p))
out.append("end Gsv\n")
open("/tmp/w/pp.lean","w").write("\n".join(out))
