#!/bin/bash
# Compares the translation of the functions in cases.rs with what the compiled functions return.
# run.sh [scratch directory]; prints one line per case: same, refused (with the reason) or DIFFERENT.
d=$(dirname "$(dirname "$(readlink -f "$0")")")
w=${1:-$(mktemp -d)}
mkdir -p "$w/crate/src" "$w/out/Gsv" || exit 1
export PATH=/root/.cargo/bin:/app/lean4-4.33.0/build/release/stage1/bin:$PATH
cp "$d/selftest/cases.rs" "$w/crate/src/cases.rs"
cp -r /repo/src/. "$w/crate/src/"; cp /repo/Cargo.toml "$w/crate/"; cp /repo/Cargo.lock "$w/crate/" 2>/dev/null; cp -r /repo/benches "$w/crate/" 2>/dev/null
echo 'pub mod cases;' >> "$w/crate/src/lib.rs"
CARGO_TARGET_DIR=$w/tx cargo +nightly build --offline --quiet --manifest-path "$d/extract/Cargo.toml" || exit 1
find "$w/tn" -depth -iname 'groth*sahai*' -exec rm -rf {} + 2>/dev/null
(cd "$w/crate" && LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib GSX_OUT=$w/gsx.json CARGO_INCREMENTAL=0 \
  RUSTC_WORKSPACE_WRAPPER=$w/tx/debug/gsx CARGO_TARGET_DIR=$w/tn cargo +nightly check --lib --offline --quiet 2>&1 | grep -E "^error" -A7) 
python3 - "$w" "$d" <<'P'
import re, sys
w, d = sys.argv[1:]
names = re.findall(r"^pub fn (\w+)\(", open(f"{d}/selftest/cases.rs").read(), re.M)
m = "#[path = \"crate/src/cases.rs\"]\nmod cases;\nfn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n"
for n in names:
    m += f'    match std::panic::catch_unwind(cases::{n}) {{ Ok(v) => println!("{n} {{:?}}", v), Err(_) => println!("{n} panic") }}\n'
open(f"{w}/main.rs", "w").write(m + "}\n")
P
rustc --edition 2021 -C debug-assertions=on -A warnings -o "$w/main" "$w/main.rs" && "$w/main" > "$w/real.txt" || exit 1
cd "$d/lean"
for m in Attr Core Env Ser; do
  [ "$w/out/Gsv/$m.olean" -nt Gsv/$m.lean ] || LEAN_PATH=$w/out:$LEAN_PATH lean -R . -o "$w/out/Gsv/$m.olean" Gsv/$m.lean || exit 1
done
cd "$d/gsv" && python3 - "$w" <<'P'
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import translate
w = sys.argv[1]
tr = translate.Tr(json.load(open(w + "/gsx.json")))
txt, order = tr.lean()
head = txt[:txt.index("def ")]
head = re.sub(r"/--[^/]*-/\s*$", "", head)
real = dict(l.split(" ", 1) for l in open(w + "/real.txt").read().splitlines())
open(w + "/out/Defs.lean", "w").write(txt)
env = dict(os.environ, LEAN_PATH=w + "/out:" + os.environ.get("LEAN_PATH", ""))
p = subprocess.run(["lean", "-R", w + "/out", "-o", w + "/out/Defs.olean", w + "/out/Defs.lean"], env=env, capture_output=True, text=True)
if p.returncode:
    print(p.stdout[:3000])
def one(n):
    key = next(k for k in tr.fns if k.endswith("cases::" + n))
    if key in tr.problems:
        return n, "refused: " + tr.problems[key]
    nm = tr.names[key]
    v = real[n]
    rhs = "panic" if v == "panic" else "ok " + v
    src = f"import Defs\nopen Gsv Res\nset_option maxRecDepth 20000\nexample (E : Env) : X.{nm} E = {rhs} := by first | rfl | decide | (simp [X.{nm}]; done)\n"
    open(f"{w}/t_{n}.lean", "w").write(src)
    p = subprocess.run(["lean", f"{w}/t_{n}.lean"], env=env, capture_output=True, text=True)
    return n, "same" if p.returncode == 0 else "DIFFERENT from " + v + " " + " ".join(p.stdout[:250].split())
with ThreadPoolExecutor(6) as ex:
    bad = 0
    for n, r in ex.map(one, real):
        print(n, r, flush=True)
        bad += r.startswith("DIFF")
sys.exit(bad > 0)
P
