"""gen.py DUMP.json OUT.lean: translate a dump of the crate (for use by hand)"""
import json, sys
import translate
if __name__ == "__main__":
    tr = translate.Tr(json.load(open(sys.argv[1])))
    txt, order = tr.lean()
    open(sys.argv[2], "w").write(txt)
    for k, p in tr.problems.items():
        print("UNSUPPORTED", tr.names[k], p)
    for p in tr.badadts.values():
        print("ADT", p)
    print(len(order), "functions")
