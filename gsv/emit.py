"""Turn a translated crate into the Lean files of one run: contracts and their proofs."""
import specs as SP

def unspecced_closure(tr, fns_by_lean, specced, roots):
    """functions reachable from the roots through functions without contracts; and contracted callees"""
    seen, unf, cal = set(), [], []
    st = list(roots)
    while st:
        f = st.pop()
        for dk in sorted(tr.fdeps.get(tr.bykey[f], ())):
            g = tr.names[dk]
            if g in seen or g in roots:
                continue
            seen.add(g)
            if g in specced:
                cal.append(g)
            else:
                unf.append(g)
                st.append(g)
    return unf, cal

class Contracts:
    def __init__(self, tr, avail, drop=()):
        """avail: Lean names of the functions that were translated; drop: contracts to leave out"""
        self.dropped = dict(drop)
        self.byname = {s.name: s for s in SP.SPECS}
        self.tr = tr
        self.avail = avail
        self.specs = {}
        self.missing = {}
        for s in SP.SPECS:
            m = [f for f in s.fns if f not in avail]
            if m:
                self.missing[s.name] = m
            elif s.name not in self.dropped:
                self.specs[s.name] = s
        self.byfn = {}
        for s in self.specs.values():
            for f in s.fns[:s.roots]:
                self.byfn.setdefault(f, []).append(s)

    def decls(self):
        out = ["import Defs\nimport Gsv.Tac\nset_option linter.all false\nset_option maxHeartbeats 4000000\nopen Gsv Res\nnamespace Gsv.S\nvariable (E : Env)\n"]
        for s in self.specs.values():
            out.append(f"abbrev {s.name} : Prop :=\n  {s.stmt}\n")
        out.append("end Gsv.S\n")
        return "\n".join(out)

    def proof(self, s):
        roots = s.fns[:s.roots]
        opaque = set(s.fns[s.roots:])
        unf, cal = unspecced_closure(self.tr, self.avail, set(self.byfn) | opaque, roots)
        hyps = list(dict.fromkeys(t.name for g in cal if g not in opaque for t in self.byfn.get(g, ())))
        UNF = ", ".join(f"X.{g}" for g in roots)
        pre = ""
        hs = []
        for h in hyps:
            if h.endswith("_rt"):
                T = h[:-3]
                pre += f"obtain ⟨enc_{T}, rt_{T}⟩ := h_{h}\n"
                S, D, Z = f"X.{T}_{SP.SER} E", f"X.{T}_{SP.DES} E", f"X.{T}_{SP.SIZ} E"
                V = "(fun _ => rfl)"
                for nm, st, pf in (
                    ("ser", f"∀ c x w, {S} x w c = ok (.ok (), w ++ enc_{T} c x)", f"fun c x w => (rt_{T} c .No).ser x w trivial"),
                    ("de", f"∀ c v x r, {D} (enc_{T} c x ++ r) c v = ok (.ok x, r)", f"fun c v x r => (rt_{T} c v).de x r trivial"),
                    ("sz", f"∀ c x, {Z} x c = ok (enc_{T} c x).length", f"fun c x => (rt_{T} c .No).sz x trivial"),
                    ("vser", f"∀ c l w, Fit1 l → serVec (fun x w => {S} x w c) l w = ok (.ok (), w ++ encVec (enc_{T} c) l)",
                     f"fun c l w h => ((rt_{T} c .No).vec (chk := chkPrim) {V} .No).ser l w h"),
                    ("vde", f"∀ c v chk l r, Vld chk → Fit1 l → deVec (fun r => {D} r c .No) chk v (encVec (enc_{T} c) l ++ r) = ok (.ok l, r)",
                     f"fun c v chk l r hc h => ((rt_{T} c .No).vec hc v).de l r h"),
                    ("vsz", f"∀ c l, Fit1 l → szVec (fun x => {Z} x c) l = ok (encVec (enc_{T} c) l).length",
                     f"fun c l h => ((rt_{T} c .No).vec (chk := chkPrim) {V} .No).sz l h")):
                    pre += f"have {nm}_{T} : {st} := {pf}\n"
                    hs.append(f"{nm}_{T}")
            else:
                hs.append(f"h_{h}")
        HS = ", ".join(hs + [f"X.{g}" for g in unf]) or "id_eq"
        scr = (s.proof or SP.DEF)
        if "gs_provemis" in scr and unf:
            inl = "try simp only [" + ", ".join(f"X.{g}" for g in unf) + "]\n"
            scr = inl + scr.replace("simp only [{UNF}]\n", "simp only [{UNF}]\n" + inl)
        if "{UNF}" not in scr:
            scr = "intros\nsimp only [{UNF}]\nall_goals (" + scr.replace("\n", "\n  ") + ")"
        scr = scr.replace("{UNF}", UNF).replace("{HS}", HS).replace("{H}", HS)
        scr = pre + scr
        txt = f"theorem {s.name}_ok (E : Env)" + "".join(f" (h_{h} : S.{h} E)" for h in hyps) + f" : S.{s.name} E := by\n"
        txt += f"  unfold S.{s.name}\n" + "".join("  " + l + "\n" for l in scr.split("\n"))
        txt += f"#trim {s.name}_ok {len(hyps)}\n"
        return txt, hyps

    def file(self, names):
        out = ["import Contracts\nset_option linter.all false\nset_option maxHeartbeats 4000000\nopen Gsv Res\nnamespace Gsv\n"]
        for n in names:
            out.append(self.proof(self.specs[n])[0])
        out.append("end Gsv\n")
        return "\n".join(out)

def prop_text(p):
    t = f"abbrev P.{p.name} (E : Env) : Prop :=\n  {p.stmt}\n"
    t += f"theorem {p.name}_ok (E : Env)" + "".join(f" (h_{h} : S.{h} E)" for h in p.deps) + f" : P.{p.name} E := by\n"
    t += f"  unfold P.{p.name}\n" + "".join("  " + l + "\n" for l in p.proof.split("\n"))
    t += f"#trim {p.name}_ok {len(p.deps)}\n"
    return t
