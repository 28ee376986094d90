"""Mechanical translation of the compiler's typed bodies (THIR, dumped by extract/) to Lean 4.

Every function body becomes a Lean definition in the panic monad `Res` of lean/Gsv/Core.lean.
References are erased (a `&mut T` parameter becomes an extra result), assignments become functional
updates, iterator chains are evaluated in order, `for` becomes `forR`.  Nothing is guessed: any
construct or library function without a model makes the function "unsupported"."""
import json, re, sys

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass

HIDDEN = ("std::sync::atomic::", "core::sync::atomic::", "std::thread::LocalKey", "std::sync::Mutex", "std::sync::RwLock", "std::sync::OnceLock", "std::sync::LazyLock", "std::sync::Once", "std::cell::", "core::cell::")
def hidden_state(t):
    if isinstance(t, list):
        return len(t) > 1 and t[0] == "adt" and isinstance(t[1], str) and t[1].startswith(HIDDEN) or any(hidden_state(x) for x in t)
    return False
def closures_of(fns, d):
    return [k for k in fns if k == d or k.startswith(d + "::")]
def writes(e, vs):
    """does the expression assign to, or borrow mutably, one of the variables"""
    if isinstance(e, list):
        return any(writes(x, vs) for x in e)
    if not isinstance(e, dict):
        return False
    if e.get("k") in ("assign", "assignop") or (e.get("k") == "borrow" and str(e.get("kind", "")).startswith("Mut")):
        if uses(e.get("l", e.get("e")), vs):
            return True
    return any(writes(x, vs) for x in e.values())
def uses(e, vs):
    if isinstance(e, list):
        return any(uses(x, vs) for x in e)
    if not isinstance(e, dict):
        return False
    return e.get("k") in ("var", "upvar") and e.get("id") in vs or any(uses(x, vs) for x in e.values())


# ---------------------------------------------------------------- values
class V:  # a pure Lean expression
    def __init__(s, x, ty=None):
        s.x, s.ty = x, ty


class Ref:  # a mutable reference to a place
    def __init__(s, place):
        s.place = place


class Place:
    def __init__(s, root, path, ty):
        s.root, s.path, s.ty = root, path, ty  # path: [('f', adt, i) | ('t', n, i) | ('i', expr)]


class Iter:  # an iterator: a Lean list and pending closures
    def __init__(s, base, stages=(), mutplace=None, shape=None):
        # shape: for a mutable iterator beside others, the value that an element of `base` stands for
        s.base, s.stages, s.mutplace, s.shape = base, list(stages), mutplace, shape


class Clos:
    def __init__(s, key, snap=None):
        s.key, s.snap = key, snap or {}  # snap: the values of what is captured by value


class Comp:
    """closures applied one after the other"""
    def __init__(s, fs):
        s.fs = fs


class Ign:
    """a closure without arguments, called once per element of an iterator"""
    def __init__(s, f):
        s.f = f


class Inf:
    """an endless iterator: of the function from the number of elements wanted to a Lean list of them"""
    def __init__(s, mk, stages=()):
        s.mk, s.stages = mk, list(stages)


class FnVal:
    def __init__(s, fn):
        s.fn = fn


UNIT = V("()")


def strip(e):
    while e is not None and e["k"] in ("paren", "nevertoany"):
        e = e["e"]
    return e


def labels(o, loops=(), scope=None):
    """mark the breaks and continues that do not belong to the innermost loop"""
    if isinstance(o, list):
        for x in o:
            labels(x, loops)
    elif isinstance(o, dict):
        kd = o.get("k")
        if kd == "paren":
            return labels(o["e"], loops, o.get("scope") or scope)
        if kd == "loop":
            loops = loops + (scope,)
        elif kd in ("break", "continue"):
            o["outer"] = not loops or loops[-1] != o["label"]
        for x in o.values():
            if isinstance(x, (dict, list)):
                labels(x, loops)


def listy(t):
    """the types whose values are lists of cells (and not iterators)"""
    while t[0] == "ref":
        t = t[2]
    return t[0] in ("array", "slice") or t[0] == "adt" and t[1] in ("std::vec::Vec", "alloc::vec::Vec")


class Cx:
    __slots__ = ("vars", "h")

    def __init__(s, vars, h):
        s.vars, s.h = vars, h

    def set(s, k, v):
        d = dict(s.vars)
        d[k] = v
        return Cx(d, s.h)

    def with_h(s, **kw):
        h = dict(s.h)
        h.update(kw)
        return Cx(s.vars, h)


# the data types declared in lean/Gsv/Env.lean: path -> (lean name, generic, [(field, lean field)])
STRUCTS = {
    "data_structures::Com1": ("Com1", ["0", "1"], ["f0", "f1"], ["G1", "G1"]),
    "data_structures::Com2": ("Com2", ["0", "1"], ["f0", "f1"], ["G2", "G2"]),
    "data_structures::ComT": ("ComT", ["0", "1", "2", "3"], ["f0", "f1", "f2", "f3"], ["GT"] * 4),
    "generator::CRS": ("CRS", None, ["u", "v", "g1_gen", "g2_gen", "gt_gen"],
                       ["[Com1]", "[Com2]", "G1", "G2", "GT"]),
    "prover::commit::Commit1": ("Commit1", None, ["coms", "rand"], ["[Com1]", "[[Fr]]"]),
    "prover::commit::Commit2": ("Commit2", None, ["coms", "rand"], ["[Com2]", "[[Fr]]"]),
    "prover::prove::EquProof": ("EquProof", None, ["pi", "theta", "equ_type", "rand"],
                                ["[Com2]", "[Com1]", "EquType", "[[Fr]]"]),
    "prover::prove::CProof": ("CProof", None, ["xcoms", "ycoms", "equ_proofs"],
                              ["Commit1", "Commit2", "[EquProof]"]),
    "statement::PPE": ("PPE", None, ["a_consts", "b_consts", "gamma", "target"], ["[G1]", "[G2]", "[[Fr]]", "GT"]),
    "statement::MSMEG1": ("MSMEG1", None, ["a_consts", "b_consts", "gamma", "target"],
                          ["[G1]", "[Fr]", "[[Fr]]", "G1"]),
    "statement::MSMEG2": ("MSMEG2", None, ["a_consts", "b_consts", "gamma", "target"],
                          ["[Fr]", "[G2]", "[[Fr]]", "G2"]),
    "statement::QuadEqu": ("QuadEqu", None, ["a_consts", "b_consts", "gamma", "target"],
                           ["[Fr]", "[Fr]", "[[Fr]]", "Fr"]),
}
ENUMS = {"statement::EquType": ("EquType", ["PairingProduct", "MultiScalarG1", "MultiScalarG2", "Quadratic"])}
BASE_STRUCTS, BASE_ENUMS = set(STRUCTS), set(ENUMS)
VARIANTS = {}  # enumerations whose variants carry values
ASSOC = {"ScalarField": "Fr", "G1": "G1", "G1Affine": "G1", "G2": "G2", "G2Affine": "G2"}

PANICS = ("core::panicking::", "std::rt::begin_panic", "core::option::unwrap_failed", "core::option::expect_failed",
          "std::panicking::", "core::result::unwrap_failed", "std::rt::panic")


def norm(k):
    return re.sub(r"::\{impl#\d+\}", "", k)


def binds(p):
    """does a pattern bind variables?"""
    return p is not None and (p["p"] == "bind" or binds(p.get("sub")) or any(binds(s) for _, s in p.get("subs") or [])
                              or any(binds(s) for s in (p.get("pats") or []) + (p.get("prefix") or []) + (p.get("suffix") or []))
                              or binds(p.get("mid")))


def subst(t, m):
    """substitute type parameters"""
    if isinstance(t, list):
        if len(t) > 1 and t[0] in ("param", "const") and t[1] in m:
            return m[t[1]]
        if len(t) == 3 and t[0] == "array" and t[2] in m:
            return ["array", subst(t[1], m), m[t[2]][1]]
        return [subst(x, m) for x in t]
    return t


def mentions(t, ps):
    return isinstance(t, list) and (len(t) > 1 and t[0] in ("param", "const") and t[1] in ps or len(t) == 3 and t[0] == "array" and t[2] in ps or any(mentions(x, ps) for x in t))


class Tr:
    def __init__(self, dump, force=None):
        self.d = dump
        self.forced = force or {}  # functions to keep opaque, and why
        self.sigs = {}
        self.opaque = {}
        self.fns = {f["key"]: f for f in dump["fns"]}
        for f in dump["fns"]:
            labels(f)
        self.adts = {a["path"]: a for a in dump["adts"]}
        for d, base in ((STRUCTS, BASE_STRUCTS), (ENUMS, BASE_ENUMS), (VARIANTS, ())):
            for p in set(d) - set(base):
                del d[p]
        self.newadts, self.adtv = {}, {}
        self.fieldparams, self.tyvars, self.iterparams, self.rngparams, self.ioparams = set(), {}, {}, {}, set()
        self.problems = {}
        self.badadts = {}
        self.check_adts()
        self.names = {}
        self.name_fns()
        self.sumimpl = {}
        for k, f in self.fns.items():
            if f.get("trait"):
                self.sumimpl.setdefault((f["trait"], self.tyname(f["self_ty"]), f["key"].split("::")[-1]), []).append(k)
        self.n = 0
        self.lets = {}
        self.deps = set()
        self.cur = None
        self.out = {}
        self.fdeps = {}
        self.externs = {}
        self.curext = set()

    # ------------------------------------------------------------ types
    def tykey(self, t):
        """short structural name used to compare types"""
        k = t[0]
        if k == "ref":
            return self.tykey(t[2])
        if k == "adt":
            p = t[1]
            if p == "std::vec::Vec":
                return "[" + self.tykey(t[2][0]) + "]"
            if p == "ark_ec::pairing::PairingOutput":
                return "GT"
            if p in STRUCTS:
                return STRUCTS[p][0]
            if p in ENUMS:
                return ENUMS[p][0]
            return p.split("::")[-1] + ("<" + ",".join(self.tykey(a) for a in t[2]) + ">" if t[2] else "")
        if k == "slice" or k == "array":
            return "[" + self.tykey(t[1]) + "]"
        if k == "alias":
            if len(t) > 4 and t[4]:
                tr_ = t[2].split("::")[-1]
                if tr_ == "Pairing" and t[3] in ASSOC and t[4][0][0] == "param":
                    return ASSOC[t[3]]
                st = self.tykey(t[4][0])
                if tr_ == "PrimeField" and t[3] == "BigInt" and st == "Fr":
                    return "BigInt"
                if st in ("G1", "G2") and tr_ in ("AffineRepr", "CurveGroup", "PrimeGroup", "ScalarMul"):
                    if t[3] in ("Group", "Affine", "MulBase"):
                        return st
                    if t[3] == "ScalarField":
                        return "Fr"
                if t[2].startswith(("std::ops::", "core::ops::")) and t[3] == "Output" and (st in ("Fr", "G1", "G2", "GT", "Com1", "Com2", "ComT")):
                    return st
            return t[1]
        if k == "param":
            if self.cur is not None and t[1] in self.fieldparams:
                return "Fr"
            return t[1]
        if k == "tuple":
            return "(" + ",".join(self.tykey(a) for a in t[1]) + ")"
        if k in ("uint", "int"):
            return t[1]
        if k in ("bool", "char", "str", "never", "float"):
            return k
        return str(t[-1])

    def tyname(self, t):
        s = self.tykey(t)
        s = s.replace("[[", "Mat_").replace("]]", "").replace("[", "Vec_").replace("]", "")
        return re.sub(r"\W+", "_", s).strip("_")

    def check_adts(self):
        self.cur = None
        self.fieldparams = set()
        for p, (nm, fields, lf, tys) in STRUCTS.items():
            a = self.adts.get(p)
            names = fields or lf
            got = None
            if a and a["kind"] == "Struct":
                got = [(f["name"], self.tykey(f["ty"])) for f in a["variants"][0]["fields"]]
            if got != list(zip(names, tys)):
                self.badadts[p] = f"data type {nm} is no longer {list(zip(names, tys))} but {got}"
        for p, (nm, vs) in ENUMS.items():
            a = self.adts.get(p)
            got = [v["name"] for v in a["variants"]] if a else None
            if got != vs or any(v["fields"] for v in a["variants"]):
                self.badadts[p] = f"data type {nm} is no longer {vs} but {got}"

    def lean_ty(self, t):
        k = t[0]
        if k == "ref":
            return self.lean_ty(t[2])
        if k == "bool":
            return "Bool"
        if k == "uint":
            return "ℕ"
        if k in ("str", "char"):
            return "Unit"
        if k == "adt":
            p = t[1]
            if p in self.badadts:
                raise Unsupported(self.badadts[p])
            if p in ("std::vec::Vec",):
                return f"(List {self.lean_ty(t[2][0])})"
            if p == "std::boxed::Box":
                return self.lean_ty(t[2][0])
            if p == "ark_ec::pairing::PairingOutput":
                return "E.GT"
            if p in BASE_STRUCTS:
                return f"({STRUCTS[p][0]} E)"
            if p in ENUMS:
                return ENUMS[p][0]
            if p in ("ark_serialize::SerializationError", "ark_std::io::Error", "std::io::Error"):
                return "SerErr"
            if p == "ark_serialize::Compress":
                return "Compress"
            if p == "ark_serialize::Validate":
                return "Validate"
            if p == "std::option::Option":
                return f"(Option {self.lean_ty(t[2][0])})"
            if p == "std::result::Result":
                return f"(Except {self.lean_ty(t[2][1])} {self.lean_ty(t[2][0])})"
            if p == "std::ops::Range":
                return "URange"
            if p in ("std::slice::Iter", "std::vec::IntoIter"):
                return f"(List {self.lean_ty(t[2][0])})"
            if p in self.adts:
                return self.new_adt(t)
            raise Unsupported(f"type {p}")
        if k in ("slice", "array"):
            return f"(List {self.lean_ty(t[1])})"
        if k == "alias":
            s = self.tykey(t)
            if s in ("Fr", "G1", "G2", "GT"):
                return "E." + s
            if s == "BigInt":
                return "E.Fr"
            if s in ("Com1", "Com2", "ComT"):
                return self.lean_ty(["adt", "data_structures::" + s, []])
            raise Unsupported(f"type {t[1]}")
        if k == "param":
            n = t[1]
            if n in self.fieldparams:
                return "E.Fr"
            if n in self.iterparams:
                return f"(List {self.lean_ty(self.iterparams[n])})"
            if n in self.rngparams:
                return "E.Rng"
            if n in self.ioparams:
                return "Bytes"
            if n in self.tyvars:
                return self.tyvars[n]
            raise Unsupported(f"type parameter {n}")
        if k == "tuple":
            if not t[1]:
                return "Unit"
            return "(" + " × ".join(self.lean_ty(a) for a in t[1]) + ")"
        if k == "never":
            return "Unit"
        raise Unsupported(f"type {t}")

    def uses_var(self, t, n):
        """does the type variable n occur in t as a type of values (and not only as the pairing)"""
        if not isinstance(t, (list, tuple)) or not t:
            return False
        if t[0] == "param":
            return t[1] == n
        if t[0] == "alias":
            return False
        if t[0] == "adt":
            if t[1] in self.adts:
                ps = self.adts[t[1]].get("params", [])
                keep = self.adtvars(t[1])
                return any(self.uses_var(a, n) for p_, a in zip(ps, t[2]) if p_ in keep)
            return any(self.uses_var(a, n) for a in t[2])
        return any(self.uses_var(a, n) for a in t[1:] if isinstance(a, list)) or any(
            self.uses_var(b, n) for a in t[1:] if isinstance(a, list) for b in a if isinstance(b, list))

    def adtvars(self, p):
        """type parameters of a data type of the crate that stand for types of values"""
        if p in self.adtv:
            return self.adtv[p]
        self.adtv[p] = []
        a = self.adts[p]
        if p not in BASE_STRUCTS:
            self.adtv[p] = [n for n in a.get("params", []) if any(
                self.uses_var(f["ty"], n) for v in a["variants"] for f in v["fields"])]
        return self.adtv[p]

    def new_adt(self, t):
        p = t[1]
        a = self.adts[p]
        nm = "N_" + re.sub(r"\W+", "_", p)
        vs = self.adtvars(p)
        if nm not in self.newadts:
            self.newadts[nm] = None
            saved = self.cur, self.fieldparams, self.tyvars, self.iterparams, self.rngparams, self.ioparams
            try:
                self.fieldparams, self.iterparams, self.rngparams, self.ioparams = set(), {}, {}, {}
                self.tyvars = {v: "T_" + v for v in vs}
                tv = "".join(f" (T_{v} : Type)" for v in vs)
                if a["kind"] == "Enum" and all(not v["fields"] for v in a["variants"]):
                    txt = (f"inductive {nm} | " + " | ".join(v["name"] for v in a["variants"]) + "\nderiving DecidableEq\n")
                    ENUMS[p] = (nm, [v["name"] for v in a["variants"]])
                elif a["kind"] == "Enum":
                    txt = f"inductive {nm} (E : Env){tv} where\n" + "".join(
                        f"  | {v['name']}" + "".join(f" (a{i} : {self.lean_ty(f['ty'])})" for i, f in enumerate(v["fields"])) + "\n"
                        for v in a["variants"])
                    VARIANTS[p] = nm
                elif a["kind"] == "Struct":
                    fs = a["variants"][0]["fields"]
                    ln = [("f" + f["name"] if f["name"].isdigit() else f["name"] + "'") for f in fs]
                    txt = f"structure {nm} (E : Env){tv} where\n" + "".join(
                        f"  {l} : {self.lean_ty(f['ty'])}\n" for l, f in zip(ln, fs))
                    STRUCTS[p] = (nm, [f["name"] for f in fs], ln, None)
                else:
                    raise Unsupported(f"new data type {p}")
            except Unsupported as ex:
                del self.newadts[nm]
                raise Unsupported(f"new data type {p}: {ex}")
            finally:
                self.cur, self.fieldparams, self.tyvars, self.iterparams, self.rngparams, self.ioparams = saved
            # after the types it mentions
            del self.newadts[nm]
            self.newadts[nm] = txt
        elif self.newadts[nm] is None:
            raise Unsupported(f"recursive data type {p}")
        if p in ENUMS:
            return nm
        args = [self.lean_ty(x) for n, x in zip(a.get("params", []), t[2]) if n in vs]
        return f"({' '.join([nm, 'E'] + args)})"


    # ------------------------------------------------------------ names
    def name_fns(self):
        self.cur = None
        used = {}
        for f in self.d["fns"]:
            if f["kind"] == "Closure":
                continue
            self.fieldparams = {b["self"][1] for b in f.get("bounds", []) if b["b"] == "trait"
                                and b["trait"].split("::")[-1] in ("Field", "PrimeField", "FftField") and b["self"][0] == "param"}
            self.cur = f
            meth = f["key"].split("::")[-1]
            if f.get("self_ty"):
                st = self.tyname(f["self_ty"])
                n = st + ("_" + f["trait"].split("::")[-1] if f.get("trait") else "") + "_" + meth
            else:
                n = meth
            args = tuple(self.tykey(a) for a in f.get("trait_args", [])[1:])
            n = re.sub(r"\W+", "_", n)
            used.setdefault(n, []).append((args, f["key"]))
        self.cur = None
        canon = {"Com1_Add_add": ("Com1",), "Com2_Add_add": ("Com2",), "ComT_Add_add": ("ComT",)}
        for n, l in used.items():
            # the impl the contracts speak about is the one on owned operands declared first
            l.sort(key=lambda x: (len(str(x[0])), ))
            for i, (args, key) in enumerate(l):
                nm = n if i == 0 else n + "_" + re.sub(r"\W+", "_", "_".join(args)) + f"_{i}"
                self.names[key] = nm
        self.bykey = {v: k for k, v in self.names.items()}

    # ------------------------------------------------------------ helpers
    def fresh(self, hint="t"):
        self.n += 1
        hint = re.sub(r"\W", "", re.sub(r"_\d+$", "", hint)) or "t"
        return f"{hint}_{self.n}"

    def bind(self, term, hint, k):
        n = self.fresh(hint)
        return f"Res.bind ({term}) fun {n} =>\n{k(n)}"

    def probj(self, base, n, i):
        """component i of an n-tuple"""
        if n == 1:
            return base
        s = base
        for _ in range(i):
            s += ".2"
        if i < n - 1:
            s += ".1"
        return s

    def tup(self, xs):
        if not xs:
            return "()"
        if len(xs) == 1:
            return xs[0]
        return "(" + ", ".join(xs) + ")"

    def is_mutref(self, t):
        return t[0] == "ref" and t[1]

    # ------------------------------------------------------------ places
    def place_of(self, e, cx, k):
        """k(cx, Place) or k(cx, V) when the expression is not a mutable place"""
        kd = e["k"]
        if kd == "paren":
            return self.place_of(e["e"], cx, k)
        if kd == "var":
            return k(cx, Place(e["id"], [], e["ty"]))
        if kd == "deref":
            inner = e["e"]
            if self.is_mutref(inner["ty"]):
                def k1(cx, r):
                    if isinstance(r, Ref):
                        return k(cx, Place(r.place.root, r.place.path, e["ty"]))
                    return k(cx, r)
                return self.ev(inner, cx, k1)
            if inner["ty"][0] == "adt" and inner["ty"][1] == "std::boxed::Box":
                return self.place_of(inner, cx, k)
            return self.ev(e, cx, k)
        if kd == "field":
            base = e["e"]
            def k1(cx, p):
                if isinstance(p, Place):
                    return k(cx, Place(p.root, p.path + [self.fieldstep(base["ty"], e["i"])], e["ty"]))
                return k(cx, V(self.proj(p, base["ty"], e["i"])))
            return self.place_of(base, cx, k1)
        if kd == "index":
            def k1(cx, p):
                def k2(cx, i):
                    if isinstance(p, Place):
                        return k(cx, Place(p.root, p.path + [("i", self.val(i))], e["ty"]))
                    return self.bind(f"idxR {self.val(p)} {self.val(i)}", "x", lambda n: k(cx, V(n)))
                return self.ev(e["i"], cx, k2)
            return self.place_of(e["e"], cx, k1)
        if kd == "call" and e["fn"] and norm(e["fn"]["key"]) in (
                "core::ops::index::IndexMut::index_mut", "core::ops::deref::DerefMut::deref_mut"):
            return self.ev(e, cx, lambda cx, r: k(cx, r.place if isinstance(r, Ref) else r))
        return self.ev(e, cx, k)

    def fieldstep(self, t, i):
        while t[0] == "ref":
            t = t[2]
        if t[0] == "tuple":
            return ("t", len(t[1]), i)
        if t[0] == "adt":
            self.lean_ty(t)
            if t[1] in STRUCTS:
                return ("f", t[1], i)
        raise Unsupported(f"field of {t}")

    def stepread(self, x, st):
        if st[0] == "f":
            return f"{x}.{STRUCTS[st[1]][2][st[2]]}"
        if st[0] == "t":
            return self.probj(x, st[1], st[2])
        raise AssertionError

    def proj(self, v, t, i):
        return self.stepread(self.val(v), self.fieldstep(t, i))

    def read(self, place, cx, k):
        if place.root not in cx.vars:
            raise Unsupported("unbound place")
        cur = cx.vars[place.root]
        if not place.path:
            return k(cx, cur)
        def go(x, path):
            if not path:
                return k(cx, V(x))
            st = path[0]
            if st[0] == "i":
                return self.bind(f"idxR {x} {st[1]}", "x", lambda n: go(n, path[1:]))
            return go(self.stepread(x, st), path[1:])
        return go(self.val(cur), place.path)

    def write(self, place, newx, cx, k):
        """assign Lean expression (or value) newx to place"""
        if place.root not in cx.vars:
            raise Unsupported("unbound place")
        if not place.path:
            return k(cx.set(place.root, newx if not isinstance(newx, str) else V(newx)))
        newx = newx if isinstance(newx, str) else self.val(newx)
        cur = cx.vars[place.root]

        def upd(x, path, kk):
            if not path:
                return kk(newx)
            st = path[0]
            if st[0] == "f":
                nm, _, lf, _ = STRUCTS[st[1]]
                return upd(self.stepread(x, st), path[1:], lambda nv: kk(
                    f"({nm}.mk " + " ".join(nv if j == st[2] else f"{x}.{f}" for j, f in enumerate(lf)) + f" : {nm} E{' _' * (0 if st[1] in BASE_STRUCTS else len(self.adtvars(st[1])))})"))
            if st[0] == "t":
                return upd(self.stepread(x, st), path[1:], lambda nv: kk(
                    "(" + ", ".join(nv if j == st[2] else self.probj(x, st[1], j) for j in range(st[1])) + ")"))
            if st[0] == "i":
                if len(path) == 1:
                    return self.bind(f"setR {x} {st[1]} {newx}", "l", kk)
                return self.bind(f"idxR {x} {st[1]}", "r", lambda r: upd(
                    r, path[1:], lambda nv: self.bind(f"setR {x} {st[1]} {nv}", "l", kk)))
            raise AssertionError

        def fin(nv):
            n = self.fresh(place.root)
            self.lets[n] = nv
            if re.fullmatch(r"\w+", nv):
                return k(cx.set(place.root, V(nv)))
            return f"let {n} := {nv}\n{k(cx.set(place.root, V(n)))}"
        return upd(self.val(cur), place.path, fin)

    def val(self, v):
        if isinstance(v, V):
            return v.x
        if isinstance(v, Iter) and not v.stages and not v.mutplace:
            return v.base
        raise Unsupported(f"value of {type(v).__name__} needed as data")

    def force_pure(self, v, cx, k):
        """the elements of an iterator whose closures neither have effects nor can panic (a part of them may be consumed)"""
        if isinstance(v, Iter):
            for st in v.stages:
                lam, muts = self.lam(st, 1, cx)
                if muts or not self.as_pure(lam):
                    raise Unsupported("partly consumed iterator")
        return self.force(v, cx, k)

    def force(self, v, cx, k, eff=True):
        """evaluate an iterator to a Lean list; k(cx, expr)"""
        if isinstance(v, Inf):
            raise Unsupported("endless iterator")
        if isinstance(v, V):
            return k(cx, v.x)
        if isinstance(v, Ref):
            if not listy(v.place.ty):
                raise Unsupported("iterator used by reference")
            return self.read(v.place, cx, lambda cx, x: self.force(x, cx, k, eff))
        if not isinstance(v, Iter):
            raise Unsupported("not an iterator")
        if v.mutplace:
            raise Unsupported("iter_mut outside a for loop")
        if not v.stages:
            return k(cx, v.base)
        st = v.stages[0]
        lam, muts = self.lam(st, 1, cx)
        if not eff and any(self.lam(f, 1, cx)[1] for f in v.stages):
            raise Unsupported("iterator stages with side effects")
        if len(v.stages) > 1 and any(self.lam(f, 1, cx)[1] for f in v.stages):
            return self.force(Iter(v.base, [Comp(v.stages)]), cx, k, eff)
        if not muts:
            pure = self.as_pure(lam)
            if pure:
                return self.force(Iter(f"(List.map ({pure}) {v.base})", v.stages[1:]), cx, k, eff)
            return self.bind(f"mapR ({lam}) {v.base}", "l", lambda n: self.force(Iter(n, v.stages[1:]), cx, k, eff))
        st0 = self.tup([self.val(cx.vars[m]) for m in muts])
        n = self.fresh("r")
        c2 = cx
        for j, m in enumerate(muts):
            c2 = c2.set(m, V(self.probj(f"{n}.2", len(muts), j)))
        return f"Res.bind (mapS ({lam}) {v.base} {st0}) fun {n} =>\n{self.force(Iter(n + '.1', v.stages[1:]), c2, k)}"

    def as_pure(self, lam):
        m = re.fullmatch(r"fun (\w+) =>\s*Res\.ok (.*)", lam, re.S)
        if m and "Res." not in m.group(2):
            return f"fun {m.group(1)} => {m.group(2)}"
        return None

    def lam(self, f, nargs, cx, extra=()):
        """closure or function value as a Lean lambda into Res.
        Returns (text, list of mutated variables); with mutation the lambda takes and returns a state tuple."""
        args = [self.fresh("a") for _ in range(nargs)]
        h0 = cx.h

        def body(cxb, k):
            return self.apply(f, [V(a) for a in args], cxb, k)
        # dry run to find mutated variables
        final = []
        def kprobe(c, v):
            final.append(c)
            return "PROBE"
        body(cx, kprobe)
        muts = sorted({m for c in final for m in cx.vars if c.vars.get(m) is not cx.vars[m]})
        if not muts:
            def kv(c, v):
                return f"Res.ok {self.paren(self.dataval(v, c))}"
            return f"fun {' '.join(args)} =>\n" + body(cx, lambda c, v: self.dv(v, c, lambda c, x: f"Res.ok {self.paren(x)}")), []
        s = self.fresh("s")
        c1 = cx
        for j, m in enumerate(muts):
            c1 = c1.set(m, V(self.probj(s, len(muts), j)))
        def kend(c, v):
            return self.dv(v, c, lambda c, x: f"Res.ok ({x}, {self.tup([self.val(c.vars[m]) for m in muts])})")
        return f"fun {' '.join(args)} {s} =>\n" + body(c1, kend), muts

    def dataval(self, v, cx):
        return self.val(v)

    def dv(self, v, cx, k):
        """turn any value into a Lean expression"""
        if isinstance(v, Iter):
            return self.force(v, cx, k)
        if isinstance(v, Ref):
            return self.read(v.place, cx, lambda c, x: self.dv(x, c, k))
        return k(cx, self.val(v))

    def paren(self, x):
        return x if re.fullmatch(r"[\w.]+", x) or (x.startswith("(") and x.endswith(")") and self.balanced(x)) else f"({x})"

    def balanced(self, x):
        d = 0
        for i, c in enumerate(x):
            if c in "([":
                d += 1
            elif c in ")]":
                d -= 1
                if d == 0 and i < len(x) - 1:
                    return False
        return True

    def apply(self, f, args, cx, k):
        """call a closure or function value on values"""
        if isinstance(f, Clos):
            c = self.fns[f.key]
            params = [p for p in c["params"]][1:]  # the first is the closure itself
            if len(params) != len(args):
                raise Unsupported("closure arity")
            for x, v0 in f.snap.items():
                if cx.vars.get(x) is not v0:
                    raise Unsupported("captured value changed since")
            saved = cx.h
            def kret(c2, v):
                return k(Cx(c2.vars, saved), v)
            c1 = cx.with_h(ret=kret, brk=None, cont=None)
            return self.bindpats([p["pat"] for p in params], args, c1, lambda c1: self.ev(
                c["body"], c1, lambda c2, v: k(Cx(c2.vars, saved), v)))
        if isinstance(f, Ign):
            return self.apply(f.f, [], cx, k)
        if isinstance(f, Comp):
            if len(f.fs) == 1:
                return self.apply(f.fs[0], args, cx, k)
            return self.apply(f.fs[0], args, cx, lambda c, v: self.apply(Comp(f.fs[1:]), [v], c, k))
        if isinstance(f, FnVal):
            return self.callfn(f.fn, args, [None] * len(args), cx, k, None)
        raise Unsupported("call of a computed function")

    # ------------------------------------------------------------ patterns
    def hasslice(self, p):
        if p is None:
            return False
        return p["p"] in ("slice", "range") or any(self.hasslice(s) for _, s in p.get("subs") or []) or \
            (p.get("sub") is not None and self.hasslice(p["sub"])) or any(self.hasslice(s) for s in p.get("pats") or [])

    def bindpats(self, ps, vs, cx, k):
        if not ps:
            return k(cx)
        return self.bindpatk(ps[0], vs[0], cx, lambda c: self.bindpats(ps[1:], vs[1:], c, k))

    def bindpatk(self, p, v, cx, k):
        """bind the variables of a pattern that is known to match"""
        if p is None or not self.hasslice(p):
            return k(self.bindpat(p, v, cx))
        if p["p"] == "deref":
            return self.bindpatk(p["sub"], v, cx, k)
        if p["p"] == "range" or (p["p"] == "or" and not any(binds(s) for s in p["pats"])):
            return k(cx)
        if p["p"] == "bind":
            return self.bindpatk(p["sub"], v, self.bindpat(dict(p, sub=None), v, cx), k)
        if isinstance(v, Iter):
            return self.force(v, cx, lambda c, x: self.bindpatk(p, V(x), c, k))
        if p["p"] == "leaf":
            subs = [(i, s) for i, s in p["subs"] if s["p"] != "wild"]
            if isinstance(v, (tuple, list)):
                return self.bindpats([s for _, s in subs], [v[i] for i, _ in subs], cx, k)
            if isinstance(v, Ref):
                raise Unsupported("slice pattern in a mutable place")
            return self.bindpats([s for _, s in subs], [V(self.proj(v, p["ty"], i)) for i, _ in subs], cx, k)
        if p["p"] == "slice":
            if isinstance(v, Ref):
                if self.is_mutref(v.place.ty or ["never"]):
                    raise Unsupported("slice pattern in a mutable place")
                return self.read(v.place, cx, lambda c, x: self.bindpatk(p, x, c, k))
            x = self.paren(self.val(v))
            pre, suf, mid = p["prefix"], p["suffix"], p["mid"]
            todo = [(s, f"idxR {x} {i}") for i, s in enumerate(pre)]
            if mid is None:
                todo += [(s, f"idxR {x} {len(pre) + i}") for i, s in enumerate(suf)]
            else:
                if mid["p"] != "wild":
                    todo.append((mid, f"Res.ok (List.drop {len(pre)} " + (f"(List.take (List.length {x} - {len(suf)}) {x})" if suf else x) + ")"))
                todo += [(s, f"idxR {x} (List.length {x} - {len(suf) - i})") for i, s in enumerate(suf)]
            def go(i, c):
                if i == len(todo):
                    return k(c)
                s, rd = todo[i]
                if s["p"] == "wild":
                    return go(i + 1, c)
                return self.bind(rd, "x", lambda n: self.bindpatk(s, V(n), c, lambda c: go(i + 1, c)))
            return go(0, cx)
        raise Unsupported(f"pattern {p['p']} around a slice pattern")

    def patcond(self, p, v):
        """conditions under which a pattern matches"""
        if p is None or self.irrefutable(p):
            return []
        if p["p"] == "deref" or (p["p"] == "bind" and p.get("sub")):
            return self.patcond(p["sub"], v)
        if p["p"] == "leaf":
            r = []
            for i, s in p["subs"]:
                r += self.patcond(s, v[i] if isinstance(v, (tuple, list)) else V(self.proj(v, p["ty"], i)))
            return r
        if p["p"] == "const":
            x = self.paren(self.val(v))
            m = re.fullmatch(r"(\d+)(?:_?[ui]\w+)?", p["value"])
            if m:
                return [f"(decide ({x} = {m.group(1)}))"]
            if p["value"] in ("true", "false"):
                return [x if p["value"] == "true" else f"(!{x})"]
        if p["p"] == "or":
            return ["(" + " || ".join("(" + " && ".join(self.patcond(s, v) or ["true"]) + ")" for s in p["pats"]) + ")"]
        if p["p"] == "range":
            m = re.fullmatch(r"(?:(\d+)(?:_?[ui]\w+)?)?\.\.(=?)(?:(\d+)(?:_?[ui]\w+)?)?", p["value"])
            if not m or p["ty"][0] != "uint":
                raise Unsupported(f"range pattern {p['value']}")
            x = self.paren(self.val(v))
            return ([f"(decide ({m.group(1)} ≤ {x}))"] if m.group(1) else []) + \
                ([f"(decide ({x} {'≤' if m.group(2) else '<'} {m.group(3)}))"] if m.group(3) else [])
        if p["p"] == "slice":
            if not all(self.irrefutable(s) for s in p["prefix"] + p["suffix"] + ([p["mid"]] if p["mid"] else [])):
                raise Unsupported("refutable pattern inside a slice pattern")
            n = len(p["prefix"]) + len(p["suffix"])
            x = self.paren(self.val(v))
            return [f"(decide (List.length {x} {'=' if p['mid'] is None else '≥'} {n}))"]
        raise Unsupported(f"pattern {p['p']} beside a slice pattern")

    def chain(self, arms, v, cx, k):
        """arms tried one after another"""
        if not arms:
            return "Res.panic"
        p, g, b = arms[0]
        rest = lambda c, k: self.chain(arms[1:], v, c, k)
        def yes(c, k):
            def bound(c):
                if g is None:
                    return b(c, k)
                def kg(c2, gv):
                    x = self.val(gv)
                    return self.branch(c2, [b, rest], lambda ts: f"if {x} = true then {ts[0]}\nelse {ts[1]}", k)
                return self.ev(g, c, kg)
            return self.bindpatk(p, v, c, bound)
        if self.irrefutable(p):
            return yes(cx, k)
        if self.hasslice(p) or isinstance(v, (tuple, list)):
            x = " && ".join(self.patcond(p, v))
            return self.branch(cx, [yes, rest], lambda ts: f"if ({x}) = true then {ts[0]}\nelse {ts[1]}", k)
        if g is None:
            return self.domatch(cx, v, None, [(p, None, b), ({"p": "wild", "ty": p["ty"]}, None, rest)], k, True)
        def gb(c, k):
            def kg(c2, gv):
                x = self.val(gv)
                return self.branch(c2, [b, rest], lambda ts: f"if {x} = true then {ts[0]}\nelse {ts[1]}", k)
            return self.ev(g, c, kg)
        return self.domatch(cx, v, None, [(p, None, gb), ({"p": "wild", "ty": p["ty"]}, None, rest)], k, True)

    def bindpat(self, p, v, cx):
        if p is None:
            return cx
        k = p["p"]
        if k == "wild":
            return cx
        if k == "bind":
            if p.get("sub"):
                cx = self.bindpat(p["sub"], v, cx)
            if "Mut" in p["mode"].replace("BindingMode(No, Mut)", "") and "Ref" in p["mode"]:
                raise Unsupported("ref mut pattern")
            return cx.set(p["var"], v)
        if k == "deref":
            return self.bindpat(p["sub"], v, cx)
        if k == "leaf":
            for i, sp in p["subs"]:
                if sp["p"] == "wild":
                    continue
                if isinstance(v, (tuple, list)):
                    cx = self.bindpat(sp, v[i], cx)
                elif isinstance(v, Ref):
                    cx = self.bindpat(sp, Ref(Place(v.place.root, v.place.path + [self.fieldstep(p["ty"], i)], sp["ty"])), cx)
                else:
                    cx = self.bindpat(sp, V(self.proj(v, p["ty"], i)), cx)
            return cx
        raise Unsupported(f"pattern {k} in binding position")

    def irrefutable(self, p):
        if p is None:
            return True
        k = p["p"]
        if k == "bind" and p.get("sub"):
            return self.irrefutable(p["sub"])
        if k in ("wild", "bind"):
            return True
        if k == "deref":
            return self.irrefutable(p["sub"])
        if k == "leaf":
            return all(self.irrefutable(s) for _, s in p["subs"])
        if k == "slice":
            return p["ty"][0] == "array" and all(
                self.irrefutable(s) for s in p["prefix"] + p["suffix"] + ([p["mid"]] if p["mid"] else []))
        return False

    VAR = {"Some": ".some", "None": ".none", "Ok": ".ok", "Err": ".error"}

    def leanpat(self, p, cx):
        """Lean pattern text and extended context"""
        k = p["p"]
        if k == "wild":
            return "_", cx
        if k == "bind":
            if p.get("sub"):
                raise Unsupported("@ pattern")
            n = self.fresh(p["var"])
            return n, cx.set(p["var"], V(n))
        if k == "deref":
            return self.leanpat(p["sub"], cx)
        if k == "const":
            v = p["value"]
            m = re.fullmatch(r"(\d+)(?:_?[ui]\w+)?", v)
            if m:
                return m.group(1), cx
            if v in ("true", "false"):
                return v, cx
            raise Unsupported(f"constant pattern {v}")
        if k == "leaf":
            t = p["ty"]
            n = len(t[1]) if t[0] == "tuple" else len(STRUCTS[t[1]][2])
            subs = dict((i, s) for i, s in p["subs"])
            parts = []
            for i in range(n):
                if i in subs:
                    s, cx = self.leanpat(subs[i], cx)
                else:
                    s = "_"
                parts.append(s)
            return ("(" + ", ".join(parts) + ")" if t[0] == "tuple" else "⟨" + ", ".join(parts) + "⟩"), cx
        if k == "variant":
            a = p["adt"].split("::")[-1]
            if a in ("Option", "Result"):
                nm = self.VAR[p["variant"]]
            elif p["adt"] in ENUMS or p["adt"] in self.adts or a in ("Compress", "Validate"):
                nm = "." + p["variant"]
            elif a == "Ordering":
                nm = {"Less": ".lt", "Equal": ".eq", "Greater": ".gt"}[p["variant"]]
            else:
                raise Unsupported(f"pattern {p['adt']}::{p['variant']}")
            subs = dict((i, s) for i, s in p["subs"])
            parts = []
            for i in range(p["nf"]):
                if i in subs:
                    s, cx = self.leanpat(subs[i], cx)
                else:
                    s = "_"
                parts.append(s)
            return ("(" + " ".join([nm] + parts) + ")" if parts else nm), cx
        if k == "or":
            parts = []
            for s in p["pats"]:
                t, c2 = self.leanpat(s, cx)
                if c2.vars is not cx.vars:
                    raise Unsupported("or-pattern with bindings")
                parts.append(t)
            return " | ".join(parts), cx
        if k == "slice":
            if p["mid"] is not None and p["suffix"]:
                raise Unsupported("slice pattern")
            parts = []
            for s in p["prefix"] + p["suffix"]:
                t, cx = self.leanpat(s, cx)
                parts.append(t)
            if p["mid"] is None:
                return "[" + ", ".join(parts) + "]", cx
            t, cx = self.leanpat(p["mid"], cx)
            return "(" + " :: ".join(parts + [t]) + ")", cx
        raise Unsupported(f"pattern {k}")

    # ------------------------------------------------------------ branching
    def branch(self, cx, arms, wrap, k):
        """arms: functions (cx, k) -> text; wrap: texts -> text"""
        reach, escaped = [], []
        def probe_h(name):
            orig = cx.h.get(name)
            if orig is None:
                return None
            def h(*a):
                escaped.append(name)
                return "ESC"
            return h
        cxp = cx.with_h(ret=probe_h("ret"), brk=probe_h("brk"), cont=probe_h("cont"))
        texts = []
        save = self.n
        for i, a in enumerate(arms):
            def kp(c, v, i=i):
                reach.append((i, c, v))
                return f"@@{len(reach) - 1}@@"
            texts.append(a(cxp, kp))
        if len(reach) <= 1:
            return wrap([a(cx, k) for a in arms])
        muts = sorted({m for _, c, _ in reach for m in cx.vars if c.vars.get(m) is not cx.vars[m]})
        if not muts and not escaped and all(re.fullmatch(r"@@\d+@@", t) for t in texts) and all(
                isinstance(v, V) for _, _, v in reach):
            vals = [r[2].x for r in reach]
            if all(v == "()" for v in vals):
                return k(cx, UNIT)
            return k(cx, V("(" + wrap(vals) + ")"))
        if escaped:
            return wrap([a(cx, k) for a in arms])
        # all reaching values: data or identical
        unit = all(isinstance(v, V) and v.x == "()" for _, _, v in reach)
        def kj(c, v):
            c = Cx(c.vars, cx.h)
            return self.dv(v, c, lambda c, x: "Res.ok " + self.paren(self.tup(
                ([] if unit else [x]) + [self.val(c.vars[m]) for m in muts])))
        body = wrap([a(cx, kj) for a in arms])
        n = self.fresh("j")
        tot = len(muts) + (0 if unit else 1)
        c2 = cx
        for j, m in enumerate(muts):
            c2 = c2.set(m, V(self.probj(n, tot, j + (0 if unit else 1))))
        v = UNIT if unit else V(self.probj(n, tot, 0))
        return f"Res.bind ({body}) fun {n} =>\n{k(c2, v)}"

    # ------------------------------------------------------------ expressions
    def evs(self, es, cx, k, acc=()):
        if not es:
            return k(cx, list(acc))
        return self.ev(es[0], cx, lambda c, v: self.evs(es[1:], c, k, acc + (v,)))

    def ev(self, e, cx, k):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported(f"expression {e['k']} {e.get('dbg', '')} (line {e.get('line')})")
        return m(e, cx, k)

    def e_paren(self, e, cx, k):
        return self.ev(e["e"], cx, k)

    e_coerce = e_paren

    def e_nevertoany(self, e, cx, k):
        return self.ev(e["e"], cx, lambda c, v: "Res.panic")

    def e_lit(self, e, cx, k):
        d = e.get("dbg", "")
        if d.startswith("Int"):
            m = re.match(r"(\d+)", e["lit"])
            if e["neg"] == "true" or e["neg"] is True:
                raise Unsupported("negative literal")
            return k(cx, V(m.group(1)))
        if d.startswith("Bool"):
            return k(cx, V(e["lit"]))
        return k(cx, V("()"))

    def e_var(self, e, cx, k):
        if e["id"] not in cx.vars:
            raise Unsupported(f"variable {e['id']}")
        v = cx.vars[e["id"]]
        t = e["ty"]
        if t[0] == "param" and (t[1] in self.ioparams or t[1] in self.rngparams) and not isinstance(v, Ref):
            return k(cx, Ref(Place(e["id"], [], t)))
        if self.is_mutref(t) and not isinstance(v, Ref):
            if isinstance(v, Iter):
                return k(cx, v)
            return k(cx, Ref(Place(e["id"], [], e["ty"])))
        return k(cx, v)

    def e_block(self, e, cx, k):
        b = e["b"]
        if b["targeted"]:
            raise Unsupported("labelled block")
        def go(i, cx):
            if i == len(b["stmts"]):
                if b["expr"] is None:
                    return k(cx, UNIT)
                return self.ev(b["expr"], cx, k)
            s = b["stmts"][i]
            if s["s"] == "expr":
                return self.ev(s["e"], cx, lambda c, v: go(i + 1, c))
            if s["init"] is None:
                # declared, assigned later
                p = s["pat"]
                if p["p"] != "bind":
                    raise Unsupported("uninitialised pattern")
                return go(i + 1, cx.set(p["var"], V("()")))
            def kk(c, v):
                if s["else"] is not None and not self.irrefutable(s["pat"]):
                    return self.domatch(c, v, None, [
                        (s["pat"], None, lambda c, k: go(i + 1, c)),
                        ({"p": "wild", "ty": s["pat"]["ty"]}, None, lambda c, k: self.ev(
                            {"k": "block", "b": s["else"], "ty": ["never"]}, c, lambda c, v: "Res.panic"))], None)
                if isinstance(v, V) and s["pat"]["p"] == "bind" and not re.fullmatch(r"[\w.]+", v.x):
                    n = self.fresh(s["pat"]["var"])
                    return f"let {n} := {v.x}\n{go(i + 1, self.bindpat(s['pat'], V(n), c))}"
                return self.bindpatk(s["pat"], v, c, lambda c: go(i + 1, c))
            return self.ev(s["init"], cx, kk)
        return go(0, cx)

    def e_borrow(self, e, cx, k):
        if "Mut" in e["kind"]:
            def k1(c, p):
                if isinstance(p, Place):
                    cur = c.vars.get(p.root)
                    if isinstance(cur, Ref) and not p.path:
                        return k(c, cur)
                    return k(c, Ref(p))
                return k(c, p)
            return self.place_of(e["e"], cx, k1)
        return self.ev(e["e"], cx, k)

    def e_deref(self, e, cx, k):
        def k1(c, v):
            if isinstance(v, Ref):
                return self.read(v.place, c, k)
            return k(c, v)
        return self.ev(e["e"], cx, k1)

    def e_field(self, e, cx, k):
        def k1(c, v):
            if isinstance(v, Ref):
                return self.read(v.place, c, lambda c, x: k(c, V(self.proj(x, e["e"]["ty"], e["i"]))))
            if isinstance(v, (tuple, list)):
                return k(c, v[e["i"]])
            return k(c, V(self.proj(v, e["e"]["ty"], e["i"])))
        return self.ev(e["e"], cx, k1)

    def e_index(self, e, cx, k):
        return self.evs([e["e"], e["i"]], cx, lambda c, vs: self.bind(
            f"idxR {self.paren(self.val(vs[0]))} {self.paren(self.val(vs[1]))}", "x", lambda n: k(c, V(n))))

    def e_tuple(self, e, cx, k):
        def k1(c, vs):
            if all(isinstance(v, V) for v in vs):
                return k(c, V(self.tup([v.x for v in vs])))
            return k(c, tuple(vs))
        return self.evs(e["es"], cx, k1)

    def e_array(self, e, cx, k):
        def k1(c, vs):
            xs = [self.val(v) for v in vs]
            if len(xs) == 1:
                return k(c, V(f"(lit1 {self.paren(xs[0])})"))
            if 2 <= len(xs) <= 6:
                return k(c, V(f"(lit{len(xs)} {' '.join(self.paren(x) for x in xs)})"))
            return k(c, V("[" + ", ".join(xs) + "]"))
        return self.evs(e["es"], cx, k1)

    def e_repeat(self, e, cx, k):
        m = re.match(r"(\d+)", e["n"])
        if not m:
            raise Unsupported("repeat length")
        return self.ev(e["e"], cx, lambda c, v: k(c, V(f"(vec {m.group(1)} fun _ => {self.val(v)})")))

    def e_adt(self, e, cx, k):
        a = e["adt"]
        short = a.split("::")[-1]
        ids = [i for i, _ in e["fields"]]
        def k1(c, vs):
            vals = dict(zip(ids, vs))
            def fin(c, base):
                if short == "Range":
                    return k(c, V(f"(URange.mk {self.paren(self.val(vals[0]))} {self.paren(self.val(vals[1]))})"))
                if short in ("RangeFrom", "RangeTo", "RangeFull", "RangeInclusive"):
                    return k(c, ("range", short, [self.val(vals[i]) for i in sorted(vals)]))
                if short in ("Option", "Result"):
                    nm = {"Some": "some", "None": "none", "Ok": "Except.ok", "Err": "Except.error"}[e["variant"]]
                    return self.dvs([vals[i] for i in sorted(vals)], c, lambda c, xs: k(
                        c, V(f"({' '.join([nm] + [self.paren(x) for x in xs])} : {self.lean_ty(e['ty'])})")))
                if short == "AssertKind":
                    return k(c, UNIT)
                if short == "SerializationError":
                    return k(c, V(f"SerErr.{e['variant']}"))
                if short in ("Compress", "Validate"):
                    return k(c, V(f"{short}.{e['variant']}"))
                self.lean_ty(e["ty"])
                if a in STRUCTS:
                    nm, _, lf, _ = STRUCTS[a]
                    def kk(c, xs):
                        xm = dict(zip(sorted(vals), xs))
                        return k(c, V(f"({nm}.mk " + " ".join(
                            self.paren(xm[i]) if i in xm else f"{base}.{f}" for i, f in enumerate(lf)) + f" : {self.lean_ty(e['ty'])})"))
                    return self.dvs([vals[i] for i in sorted(vals)], c, kk)
                if a in ENUMS:
                    return k(c, V(f"{ENUMS[a][0]}.{e['variant']}"))
                if a in VARIANTS:
                    return self.dvs([vals[i] for i in sorted(vals)], c, lambda c, xs: k(c, V(
                        f"({' '.join([VARIANTS[a] + '.' + e['variant']] + [self.paren(x) for x in xs])} : {self.lean_ty(e['ty'])})")))
                raise Unsupported(f"constructor {a}")
            if e["base"] is not None:
                if e["base"] == "unsupported":
                    raise Unsupported("struct base")
                return self.ev(e["base"], c, lambda c, b: self.dv(b, c, lambda c, x: self.letv(x, "b", lambda n: fin(c, n))))
            return fin(c, None)
        return self.evs([x for _, x in e["fields"]], cx, k1)

    def letv(self, x, hint, k):
        if re.fullmatch(r"[\w.]+", x):
            return k(x)
        n = self.fresh(hint)
        self.lets[n] = x
        return f"let {n} := {x}\n{k(n)}"

    def dvs(self, vs, cx, k, acc=()):
        if not vs:
            return k(cx, list(acc))
        return self.dv(vs[0], cx, lambda c, x: self.dvs(vs[1:], c, k, acc + (x,)))

    def e_closure(self, e, cx, k):
        return k(cx, Clos(e["def"], {x: cx.vars[x] for x in e.get("byval", []) if x in cx.vars}))

    def e_fnref(self, e, cx, k):
        if e["fn"] is None:
            return k(cx, UNIT)
        return k(cx, FnVal(e["fn"]))

    def e_const(self, e, cx, k):
        f = self.fns.get(e["key"])
        if f is not None:
            return self.ev(f["body"], Cx({}, {}), lambda c, v: k(cx, v))
        raise Unsupported(f"constant {e['path']}")

    def e_static(self, e, cx, k):
        """a static without interior mutability is a constant (the expression is a reference to it)"""
        if hidden_state(e["ty"]):
            raise Unsupported(f"static {e['path']} with interior mutability")
        return self.e_const(e, cx, k)

    def ambient(self, e):
        """a call that reads or writes state which is neither an argument nor the random source: a static
        with interior mutability, a thread-local, or what the machine is like"""
        nk = norm(e["fn"]["key"])
        if nk in ("rayon_core::current_num_threads", "rayon_core::max_num_threads", "rayon_core::thread_pool::current_thread_index", "std::thread::functions::available_parallelism"):
            return True
        if not nk.startswith(("std::", "core::", "alloc::")) or not e["args"]:
            return False
        a = e["args"][0]
        while a["k"] in ("paren", "borrow", "deref"):
            a = a["e"]
        return a["k"] in ("const", "static") and hidden_state(a["ty"])

    def ambient_value(self, e, cx, k):
        """what such a call gives is not known: contracts have to hold whatever it is.  It may not touch
        the variables of the function."""
        def closed(a):
            while a["k"] in ("paren", "borrow", "deref"):
                a = a["e"]
            if a["k"] == "closure":
                return not any(writes(self.fns[d]["body"], set(cx.vars)) for d in closures_of(self.fns, a["def"]))
            return not writes(a, set(cx.vars))
        if not all(closed(a) for a in e["args"][1:]):
            raise Unsupported("hidden state used together with local variables")
        def val(t):
            self.nambient = getattr(self, "nambient", 0) + 1
            x = f"(E.amb {self.nambient})"
            if t[0] == "uint":
                return V(x)
            if t[0] == "bool":
                return V(f"(decide ({x} = 0))")
            if t[0] == "tuple":
                return V(self.tup([self.val(val(u)) for u in t[1]])) if t[1] else UNIT
            if t[0] == "adt" and t[1] in ("std::option::Option", "core::option::Option"):
                return V(f"(if {x} = 0 then Option.none else Option.some {self.paren(self.val(val(t[2][0])))})")
            raise Unsupported("hidden state of another type")
        return k(cx, val(e["ty"]))

    def e_bin(self, e, cx, k):
        t = e["l"]["ty"]
        def k1(c, vs):
            a, b = self.paren(self.val(vs[0])), self.paren(self.val(vs[1]))
            op = e["op"]
            if t[0] == "bool":
                m = {"Eq": "==", "Ne": "!=", "BitAnd": "&&", "BitOr": "||", "BitXor": "^^"}.get(op)
                if m:
                    return k(c, V(f"({a} {m} {b})"))
            elif t[0] in ("uint", "int") and (t[0] == "uint" or op in ("Eq", "Ne")):
                m = {"Eq": "=", "Ne": "≠", "Lt": "<", "Le": "≤", "Gt": ">", "Ge": "≥"}.get(op)
                if m:
                    return k(c, V(f"(decide ({a} {m} {b}))"))
                if t[1] in ("usize", "u64", "u128"):
                    m = {"Add": "+", "Mul": "*"}.get(op)
                    if m:
                        return k(c, V(f"({a} {m} {b})"))
                if t[0] == "uint":
                    if op == "Sub":
                        return self.bind(f"subR {a} {b}", "d", lambda n: k(c, V(n)))
                    if op in ("Div", "Rem"):
                        return self.bind(f"{'divNR' if op == 'Div' else 'modNR'} {a} {b}", "d", lambda n: k(c, V(n)))
                    m = {"BitAnd": "&&&", "BitOr": "|||", "BitXor": "^^^", "Shr": ">>>"}.get(op)
                    if op == "Shr" and not (re.fullmatch(r"\d+", b.strip("()")) and int(b.strip("()")) < {"u8": 8, "u16": 16, "u32": 32}.get(t[1], 64)):
                        m = None
                    if m:
                        return k(c, V(f"({a} {m} {b})"))
            raise Unsupported(f"operator {op} on {t}")
        return self.evs([e["l"], e["r"]], cx, k1)

    def e_logic(self, e, cx, k):
        def k1(c, l):
            lx = self.val(l)
            if e["op"] == "And":
                return self.branch(c, [lambda c, k: self.ev(e["r"], c, k), lambda c, k: k(c, V("false"))],
                                   lambda ts: f"if {lx} = true then {ts[0]} else {ts[1]}", k)
            return self.branch(c, [lambda c, k: k(c, V("true")), lambda c, k: self.ev(e["r"], c, k)],
                               lambda ts: f"if {lx} = true then {ts[0]} else {ts[1]}", k)
        return self.ev(e["l"], cx, k1)

    def e_un(self, e, cx, k):
        if e["op"] == "Not" and e["ty"][0] == "bool":
            return self.ev(e["e"], cx, lambda c, v: k(c, V(f"(!{self.paren(self.val(v))})")))
        raise Unsupported(f"operator {e['op']}")

    def e_cast(self, e, cx, k):
        bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
        s, t = e["e"]["ty"], e["ty"]
        if s[0] == "uint" and t[0] == "uint":
            if bits[t[1]] >= bits[s[1]]:
                return self.ev(e["e"], cx, k)
            return self.ev(e["e"], cx, lambda c, v: k(c, V(f"({self.paren(self.val(v))} % {2 ** bits[t[1]]})")))
        if s[0] == "bool" and t[0] == "uint":
            return self.ev(e["e"], cx, lambda c, v: k(c, V(f"(if {self.val(v)} = true then 1 else 0)")))
        if s[0] == "adt" and t[0] == "uint" and s[1] in self.adts and all(not v["fields"] for v in self.adts[s[1]]["variants"]):
            nm = self.lean_ty(s)
            vs = self.adts[s[1]]["variants"]
            if s[1] in ENUMS and all(int(v["disc"]) < 2 ** 63 for v in vs):
                return self.ev(e["e"], cx, lambda c, v: k(c, V(f"(match {self.val(v)} with " + " ".join(
                    f"| {nm}.{w['name']} => {int(w['disc']) % 2 ** bits[t[1]]}" for w in vs) + ")")))
        raise Unsupported("cast")

    def e_if(self, e, cx, k):
        c0 = e["c"]
        while c0["k"] == "paren":
            c0 = c0["e"]
        if c0["k"] == "lit":
            if c0["lit"] == "true":
                return self.ev(e["t"], cx, k)
            return self.ev(e["f"], cx, k) if e["f"] is not None else k(cx, UNIT)
        els = (lambda c, k: self.ev(e["f"], c, k)) if e["f"] is not None else (lambda c, k: k(c, UNIT))
        if c0["k"] == "letcond":
            def k2(c, v):
                return self.domatch(c, v, c0["e"]["ty"], [(c0["pat"], None, lambda c, k: self.ev(e["t"], c, k)),
                                         ({"p": "wild", "ty": c0["pat"]["ty"]}, None, els)], k)
            return self.ev(c0["e"], cx, k2)
        def k1(c, v):
            x = self.val(v)
            return self.branch(c, [lambda c, k: self.ev(e["t"], c, k), els],
                               lambda ts: f"if {x} = true then {ts[0]}\nelse {ts[1]}", k)
        return self.ev(e["c"], cx, k1)

    def domatch(self, cx, v, ty, arms, k, plain=False):
        """arms: (pat, guard, body(cx,k))"""
        if self.irrefutable(arms[0][0]) and arms[0][1] is None:
            if isinstance(v, V) and not re.fullmatch(r"[\w.]+", v.x) and arms[0][0]["p"] != "wild":
                n = self.fresh("m")
                return f"let {n} := {v.x}\n" + self.bindpatk(arms[0][0], V(n), cx, lambda c: arms[0][2](c, k))
            return self.bindpatk(arms[0][0], v, cx, lambda c: arms[0][2](c, k))
        if k is None:
            # `let .. else`: only the first arm goes on
            return self.letelse(cx, v, arms)
        if isinstance(v, (tuple, list)) and any(self.hasslice(p) for p, _, _ in arms):
            return self.chain(arms, tuple(v), cx, k)
        if isinstance(v, tuple):
            return self.dvs(list(v), cx, lambda c, xs: self.domatch(c, V(self.tup(xs)), ty, arms, k))
        if isinstance(v, Ref):
            return self.read(v.place, cx, lambda c, x: self.domatch(c, x, ty, arms, k))
        if isinstance(v, Iter):
            return self.force(v, cx, lambda c, x: self.domatch(c, V(x), ty, arms, k))
        if not plain and any(g is not None or self.hasslice(p) for p, g, _ in arms):
            return self.letv(self.val(v), "m", lambda n: self.chain(arms, V(n), cx, k))
        x = self.val(v)
        pats = []
        bodies = []
        for p, g, b in arms:
            t, _ = self.leanpat(p, cx)
            holder = {}
            def body(c, k, p=p, b=b, t=t):
                # pattern variables are re-created per run so that names agree with the emitted pattern
                save = self.n
                t2, c2 = self.leanpat(p, c)
                body.pt = t2
                r = b(c2, k)
                return r + "" if True else t2
            bodies.append((p, b))
            pats.append(t)
        # emit each arm with its own pattern text
        def mk(p, b):
            def arm(c, k):
                t, c2 = self.leanpat(p, c)
                r = b(c2, k)
                return f"§{t}§{r}"
            return arm
        def wrap(ts):
            out = []
            for t in ts:
                m = re.match(r"§(.*?)§(.*)", t, re.S)
                out.append(f"| {m.group(1)} =>\n{m.group(2)}")
            return f"(match {x} with\n" + "\n".join(out) + ")"
        # pure-arm detection in branch() does not apply: texts carry the pattern prefix
        return self.branch(cx, [mk(p, b) for p, b in bodies], wrap, k)

    def letelse(self, cx, v, arms):
        p, _, b = arms[0]
        els = arms[1][2]
        if isinstance(v, (tuple, list)) and not self.hasslice(p):
            return self.dvs(list(v), cx, lambda c, xs: self.letelse(c, V(self.tup(xs)), arms))
        if isinstance(v, Ref):
            return self.read(v.place, cx, lambda c, x: self.letelse(c, x, arms))
        if isinstance(v, Iter):
            return self.force(v, cx, lambda c, x: self.letelse(c, V(x), arms))
        if self.hasslice(p):
            def go(v):
                x = " && ".join(self.patcond(p, v))
                return f"if ({x}) = true then " + self.bindpatk(p, v, cx, lambda c: b(c, None)) + f"\nelse {els(cx, None)}"
            return go(v) if isinstance(v, (tuple, list)) else self.letv(self.val(v), "m", lambda n: go(V(n)))
        pat, c2 = self.leanpat(p, cx)
        return f"(match {self.val(v)} with\n| {pat} =>\n{b(c2, None)}\n| _ =>\n{els(cx, None)})"

    def e_match(self, e, cx, k):
        s = e["e"]
        while s["k"] == "paren":
            s = s["e"]
        if s["k"] == "call" and s["fn"]:
            nk = norm(s["fn"]["key"])
            if nk == "core::ops::try_trait::Try::branch":
                return self.try_op(s, e, cx, k)
            if nk == "core::iter::traits::collect::IntoIterator::into_iter" and len(e["arms"]) == 1:
                r = self.for_loop(s, e, cx, k)
                if r is not None:
                    return r
        def k1(c, v):
            return self.domatch(c, v, e["e"]["ty"], [(a["pat"], a["guard"], lambda c, k, a=a: self.ev(a["body"], c, k))
                                                     for a in e["arms"]], k)
        return self.ev(e["e"], cx, k1)

    def residual(self, x):
        """error types (of the operand, of the function) in the early return of a `?`"""
        if isinstance(x, dict):
            if x.get("k") == "call" and x.get("fn") and norm(x["fn"]["key"]) == "core::ops::try_trait::FromResidual::from_residual":
                a = x["fn"]["args"]
                try:
                    return a[1][2][1], a[0][2][1]
                except (IndexError, KeyError):
                    raise Unsupported("? operator")
            x = list(x.values())
        if isinstance(x, list):
            for y in x:
                if isinstance(y, (dict, list)):
                    r = self.residual(y)
                    if r is not None:
                        return r
        return None

    def try_op(self, s, e, cx, k):
        val = s["args"][0]
        t = val["ty"]
        cont = next(a for a in e["arms"] if a["pat"].get("variant") == "Continue")
        kind = t[1].split("::")[-1] if t[0] == "adt" else None
        if kind not in ("Result", "Option") or cx.h.get("ret") is None:
            raise Unsupported("? operator")
        conv = None
        if kind == "Result":
            r = self.residual(e["arms"])
            if r is not None and self.tykey(r[0]) != self.tykey(r[1]):
                conv = r
        def k1(c, v):
            n = self.fresh("v")
            body = self.bindpatk(cont["pat"]["subs"][0][1], V(n), c, lambda c: self.ev(cont["body"], c, k))
            if conv:
                import models
                er = self.fresh("e")
                fn = {"key": "core::convert::From::from", "rkey": "core::convert::From::from", "args": [conv[1], conv[0]], "rargs": [conv[1], conv[0]],
                      "local": False, "path": "From::from", "how": "unresolved"}
                bad = models.call(self, fn, [V(er)], [{"ty": conv[0]}], c, lambda c, x: self.dv(
                    x, c, lambda c, x: c.h["ret"](c, V(f"(Except.error {self.paren(x)})"))), {"ty": conv[1]})
                return f"(match {self.val(v)} with\n| .error {er} =>\n{bad}\n| .ok {n} =>\n{body})"
            if kind == "Result":
                er = self.fresh("e")
                return f"(match {self.val(v)} with\n| .error {er} =>\n{c.h['ret'](c, V(f'(Except.error {er})'))}\n| .ok {n} =>\n{body})"
            return f"(match {self.val(v)} with\n| .none =>\n{c.h['ret'](c, V('none'))}\n| .some {n} =>\n{body})"
        return self.ev(val, cx, k1)

    # ------------------------------------------------------------ loops
    def for_loop(self, s, e, cx, k):
        arm = e["arms"][0]
        body = arm["body"]
        while body["k"] in ("paren",):
            body = body["e"]
        if body["k"] != "loop" or arm["pat"]["p"] != "bind":
            return None
        lb = body["e"]
        while lb["k"] == "paren":
            lb = lb["e"]
        if lb["k"] != "block":
            return None
        b = lb["b"]
        inner = b["stmts"][0]["e"] if b["stmts"] else b["expr"]
        while inner["k"] == "paren":
            inner = inner["e"]
        if inner["k"] != "match":
            return None
        some = next(a for a in inner["arms"] if a["pat"].get("variant") == "Some")
        pat = some["pat"]["subs"][0][1]
        def k1(c, it):
            it = self.as_iter(it, s["args"][0]["ty"])
            if isinstance(it, Iter) and it.shape:
                return self.emit_for(it.base, None, some["body"], c, k, lambda x, c, k: self.bindpatk(pat, it.shape(x), c, k))
            if isinstance(it, Iter) and it.mutplace:
                return self.for_mut(it, pat, some["body"], c, k)
            eff = isinstance(it, Iter) and any(self.lam(st, 1, c)[1] for st in it.stages)
            def k2(c, lx):
                return self.emit_for(lx, pat, some["body"], c, k, whole=eff)
            return self.force(it, c, k2)
        return self.ev(s["args"][0], cx, k1)

    def emit_for(self, lx, pat, body, cx, k, bindx=None, evbody=None, drop=(), fin=None, whole=False):
        """the loop over the list lx; `bindx` binds its element (default: the pattern), `evbody` translates the body,
        `drop` are the variables that the element stands for, `fin` updates them when all elements were visited"""
        bindx = bindx or (lambda x, c, k: self.bindpatk(pat, V(x), c, k))
        evbody = evbody or (lambda c, k: self.ev(body, c, k))
        fin = fin or (lambda c: c)
        final = []
        esc = []
        def mkh(n):
            def h(c, *a):
                esc.append(n)
                final.append(c)
                return "ESC"
            return h
        def kp(c, v=None):
            final.append(c)
            return "NEXT"
        x = self.fresh("i")
        ret0 = cx.h.get("ret")
        c0 = cx.with_h(ret=mkh("ret") if ret0 else None, brk=mkh("brk"), cont=lambda c, *a: kp(c))
        bindx(x, c0, lambda c: evbody(c, kp))
        muts = sorted({m for c in final for m in cx.vars if m not in drop and c.vars.get(m) is not cx.vars[m]})
        for m in muts:
            if not isinstance(cx.vars[m], (V,)) and not (isinstance(cx.vars[m], Iter)):
                raise Unsupported(f"loop changes {m}")
        s = self.fresh("s")
        c1 = cx
        for j, m in enumerate(muts):
            c1 = c1.set(m, V(self.probj(s, len(muts), j)))
        st = lambda c: self.tup([self.val(c.vars[m]) for m in muts])
        x = self.fresh("i")
        n = self.fresh("s")
        c2 = cx
        for j, m in enumerate(muts):
            c2 = c2.set(m, V(self.probj(n, len(muts), j)))
        if esc and whole:
            raise Unsupported("partly consumed iterator")
        without = lambda c: Cx({m: v for m, v in c.vars.items() if m not in drop}, c.h)
        if not esc:
            end = lambda c, v=None: f"Res.ok {self.paren(st(c))}"
            c1 = c1.with_h(brk=None, cont=end, ret=None)
            txt = bindx(x, c1, lambda c: evbody(c, end))
            return f"Res.bind (forR {self.paren(lx)} {self.paren(st(cx))} fun {x} {s} =>\n{txt}) fun {n} =>\n{k(fin(c2), UNIT)}"
        rty = self.retty
        end = lambda c, v=None: f"Res.ok (Ctl.next {self.paren(st(c))})"
        brk = lambda c, v=None: f"Res.ok (Ctl.brk {self.paren(st(c))})"
        ret = lambda c, v: self.dv(v, c, lambda c, y: f"Res.ok (Ctl.ret {self.paren(self.tup([y] + [self.val(c.vars[m]) for m in muts]))})")
        c1 = c1.with_h(brk=brk, cont=end, ret=ret if ret0 else None)
        txt = bindx(x, c1, lambda c: evbody(c, end))
        rv = self.fresh("r")
        c3 = without(cx)
        for j, m in enumerate(muts):
            c3 = c3.set(m, V(self.probj(rv, len(muts) + 1, j + 1)))
        after = k(without(c2), UNIT)
        rho = self.rho(muts, cx) if "ret" in esc else "Unit"
        r = f"Res.bind (forC (ρ := {rho}) {self.paren(lx)} {self.paren(st(cx))} fun {x} {s} =>\n{txt}) fun c_ =>\n(Ctl.elim c_ (fun {n} =>\n{after})\n(fun {n} =>\n{after})\n"
        if ret0 and "ret" in esc:
            r += f"(fun {rv} =>\n{ret0(c3, V(self.probj(rv, len(muts) + 1, 0)))}))"
        else:
            r += "(fun _ => Res.panic))"
        return r

    def rho(self, muts, cx):
        return self.retty if not muts else "_"

    def for_mut(self, it, pat, body, cx, k):
        """for x in place.iter_mut() { .. }: the element variable is updated in the list"""
        while pat["p"] == "deref":
            pat = pat["sub"]
        if pat["p"] != "bind":
            raise Unsupported("iter_mut pattern")
        ev_ = pat["var"]
        place = it.mutplace
        final = []
        def kp(c, v=None):
            final.append(c)
            return "NEXT"
        cell = "cell_" + ev_
        def start(c, x):
            return c.set(cell, V(x)).set(ev_, Ref(Place(cell, [], pat["ty"])))
        x = self.fresh("i")
        c0 = cx.with_h(ret=None, brk=None, cont=lambda c, *a: kp(c))
        self.ev(body, start(c0, x), kp)
        muts = sorted({m for c in final for m in cx.vars if c.vars.get(m) is not cx.vars[m]})
        if place.root in muts:
            raise Unsupported("iter_mut aliasing")
        s = self.fresh("s")
        c1 = cx
        for j, m in enumerate(muts):
            c1 = c1.set(m, V(self.probj(s, len(muts), j)))
        x = self.fresh("i")
        end = lambda c, v=None: f"Res.ok ({self.val(c.vars[cell])}, {self.tup([self.val(c.vars[m]) for m in muts])})"
        c1 = c1.with_h(brk=None, cont=end, ret=None)
        txt = self.ev(body, start(c1, x), end)
        n = self.fresh("r")
        st = self.tup([self.val(cx.vars[m]) for m in muts])
        def after(c, cur):
            c2 = c
            for j, m in enumerate(muts):
                c2 = c2.set(m, V(self.probj(n + ".2", len(muts), j)))
            return f"Res.bind (forMutR {self.paren(self.val(cur))} {self.paren(st)} fun {x} {s} =>\n{txt}) fun {n} =>\n" + \
                self.write(place, n + ".1", c2, lambda c: k(c, UNIT))
        return self.read(place, cx, after)

    # `while` loops that visit the elements of a list known beforehand
    def while_parts(self, e):
        """loop { if C { B } else { break } }, loop { if !C { break } B }: (C, negated, statements of B, value of B)"""
        b = strip(e["e"])
        if b["k"] != "block" or b["b"]["targeted"]:
            return None
        b = b["b"]
        isbrk = lambda x: self.only(x) is not None and self.only(x)["k"] == "break" and self.only(x)["e"] is None and not self.only(x)["outer"]
        x = strip(b["expr"]) if b["expr"] is not None else None
        if not b["stmts"] and x is not None and x["k"] == "if" and x["f"] is not None and isbrk(x["f"]):
            t = strip(x["t"])
            if t["k"] != "block" or t["b"]["targeted"]:
                return None
            return strip(x["c"]), False, t["b"]["stmts"], t["b"]["expr"]
        if b["stmts"] and b["stmts"][0]["s"] == "expr":
            x = strip(b["stmts"][0]["e"])
            if x["k"] == "if" and (x["f"] is None) and strip(x["c"])["k"] != "letcond" and isbrk(x["t"]):
                return strip(x["c"]), True, b["stmts"][1:], b["expr"]
        return None

    def only(self, e):
        """the single expression of a block"""
        e = strip(e)
        while e is not None and e["k"] == "block" and not e["b"]["targeted"]:
            b = e["b"]
            if not b["stmts"]:
                e = strip(b["expr"])
            elif len(b["stmts"]) == 1 and b["stmts"][0]["s"] == "expr" and (b["expr"] is None or self.unit(b["expr"])):
                e = strip(b["stmts"][0]["e"])
            else:
                return None
        return e

    def unit(self, e):
        e = strip(e)
        return e["k"] == "tuple" and not e.get("args") and not e.get("es")

    def block_of(self, stmts, expr, ty):
        return {"k": "block", "ty": ty, "b": {"stmts": stmts, "expr": expr, "targeted": False}}

    def step(self, s, op):
        """the variable changed by the statement `v += 1` (`v -= 1`)"""
        if s["s"] != "expr":
            return None
        x = self.only(s["e"])
        if x is None:
            return None
        if x["k"] == "assignop" and x["op"].startswith(op) and strip(x["l"])["k"] == "var" and self.isone(x["r"]):
            return strip(x["l"])["id"]
        if x["k"] == "assign" and strip(x["l"])["k"] == "var":
            r = strip(x["r"])
            if r["k"] == "bin" and r["op"] == op:
                for a, b in ((r["l"], r["r"]), (r["r"], r["l"])):
                    if strip(a)["k"] == "var" and strip(a)["id"] == strip(x["l"])["id"] and self.isone(b):
                        return strip(x["l"])["id"]
                    if op == "Sub":
                        break
        return None

    def isone(self, e):
        r = []
        try:
            self.ev(strip(e), Cx({}, {}), lambda c, v: r.append(self.val(v)) or "")
        except Unsupported:
            return False
        return r in (["1"], ["(1 : ℕ)"])

    def counted(self, e, cx, k):
        w = self.while_parts(e)
        if w is None:
            return None
        cond, neg, stmts, expr = w
        if expr is not None and self.unit(expr):
            expr = None
        if expr is not None and stmts is not None:
            stmts, expr = stmts + [{"s": "expr", "e": expr}], None
        ty = ["tuple", []]
        if cond["k"] == "letcond":
            return self.while_next(cond, stmts, ty, cx, k)
        if cond["k"] != "bin" or not stmts:
            return None
        op = cond["op"]
        if neg:
            op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}.get(op)
        l, r = strip(cond["l"]), strip(cond["r"])
        if op in ("Gt", "Ge"):
            op, l, r = {"Gt": "Lt", "Ge": "Le"}[op], r, l
        if op not in ("Lt", "Ne") or l["ty"][0] != "uint":
            return None
        nocont = dict(cont=None)
        # while v < E { ..; v += 1 }
        v = self.step(stmts[-1], "Add")
        if op == "Ne" and v is not None and r["k"] == "var" and r["id"] == v:
            l, r = r, l
        if v is not None and l["k"] == "var" and l["id"] == v and isinstance(cx.vars.get(v), V):
            start = self.val(cx.vars[v])
            if op == "Ne" and start not in ("0", "(0 : ℕ)"):
                return None
            body = self.block_of(stmts[:-1], None, ty)
            def k1(c, ev):
                bound = self.val(ev)
                if c.vars is not cx.vars and any(c.vars.get(m) is not cx.vars[m] for m in cx.vars):
                    raise Unsupported("loop condition with effects")
                cell = []
                def bindx(x, c, k):
                    cell[:] = [V(x)]
                    return k(c.set(v, cell[0]))
                def evbody(c, k):
                    self.same_bound(r, bound, cx, c)
                    mine = c.vars[v]
                    def kk(c2, u=None):
                        if c2.vars.get(v) is not mine:
                            raise Unsupported("loop variable changed in the loop")
                        self.same_bound(r, bound, cx, c2)
                        return k(c2, UNIT)
                    return self.ev(body, c.with_h(cont=None), kk)
                end = bound if start in ("0", "(0 : ℕ)") else f"(max {self.paren(start)} {self.paren(bound)})"
                return self.emit_for(f"(URange.toList (URange.mk {self.paren(start)} {self.paren(bound)}))", None, None, c, k,
                                     bindx, evbody, (v,), lambda c: c.set(v, V(end)))
            return self.ev(r, cx, k1)
        # while v > 0 { v -= 1; .. }, while v > 0 { ..; v -= 1 }
        iszero = lambda e: e["k"] == "lit" and self.evlit(e) in ("0", "(0 : ℕ)")
        if op == "Ne" and iszero(r):
            l, r = r, l
        if iszero(l) and r["k"] == "var" and isinstance(cx.vars.get(r["id"]), V):
            v = r["id"]
            first, last = self.step(stmts[0], "Sub") == v, self.step(stmts[-1], "Sub") == v
            if not (first or last):
                return None
            body = self.block_of(stmts[1:] if first else stmts[:-1], None, ty)
            start = self.val(cx.vars[v])
            used = []
            def bindx(x, c, k):
                return k(c.set(v, V(x if first else f"({x} + 1)")))
            def evbody(c, k):
                mine = c.vars[v]
                def kk(c2, u=None):
                    if c2.vars.get(v) is not mine:
                        raise Unsupported("loop variable changed in the loop")
                    return k(c2, UNIT)
                return self.ev(body, c.with_h(cont=None), kk)
            lx = f"(URange.toList (URange.mk 0 {self.paren(start)}))"
            uses = re.search(r'"id": "%s"' % re.escape(v), json.dumps(body))
            return self.emit_for(f"(List.reverse {lx})" if uses else lx, None, None, cx, k, bindx, evbody, (v,),
                                 lambda c: c.set(v, V("0")))
        # while l.len() < E { ..; l.push(x) }
        if op == "Lt" and l["k"] == "call" and l["fn"] and norm(l["fn"]["key"]).endswith("::len") and len(l["args"]) == 1:
            a = strip(l["args"][0])
            while a["k"] in ("borrow", "deref", "paren"):
                a = strip(a["e"])
            if a["k"] != "var" or not isinstance(cx.vars.get(a["id"]), V) or not listy(a["ty"]):
                return None
            v = a["id"]
            body = self.block_of(stmts, None, ty)
            def k1(c, ev):
                bound = self.val(ev)
                if any(c.vars.get(m) is not cx.vars[m] for m in cx.vars):
                    raise Unsupported("loop condition with effects")
                def evbody(c, k):
                    self.same_bound(r, bound, cx, c)
                    cur = self.val(c.vars[v])
                    def kk(c2, u=None):
                        new = self.val(c2.vars[v])
                        if not (new.startswith(f"(push {cur} ") or new.startswith(f"push {cur} ")) and not self.pushed(new, cur):
                            raise Unsupported("loop until a length is reached")
                        self.same_bound(r, bound, cx, c2)
                        return k(c2, UNIT)
                    return self.ev(body, c.with_h(cont=None, brk=None), kk)
                return self.emit_for(f"(URange.toList (URange.mk (List.length {self.val(cx.vars[v])}) {self.paren(bound)}))", None, None, c, k,
                                     lambda x, c, k: k(c), evbody)
            return self.ev(r, cx, k1)
        return None

    def pushed(self, new, cur):
        m = self.lets.get(new)
        return m is not None and re.match(r"\(?push %s " % re.escape(cur), m) is not None

    def evlit(self, e):
        r = []
        self.ev(e, Cx({}, {}), lambda c, v: r.append(self.val(v)) or "")
        return r[0]

    def same_bound(self, e, bound, cx0, c):
        """the expression e still has the value `bound` it had before the loop"""
        ids = set(re.findall(r'"id": "([^"]+)"', json.dumps(e)))
        for i in list(ids):
            while isinstance(cx0.vars.get(i), Ref) and cx0.vars[i].place.root not in ids:
                i = cx0.vars[i].place.root
                ids.add(i)
        for i in ids:
            if c.vars.get(i) is not cx0.vars.get(i):
                raise Unsupported("loop bound changed in the loop")

    def while_next(self, cond, stmts, ty, cx, k):
        """while let Some(p) = it.next() { .. }"""
        call, pat = strip(cond["e"]), cond["pat"]
        if call["k"] != "call" or not call["fn"] or len(call["args"]) != 1:
            return None
        how = norm(call["fn"]["key"]).split("::")[-1]
        if how not in ("next", "next_back", "pop", "split_first", "split_last"):
            return None
        if pat["p"] != "variant" or pat.get("variant") != "Some" or not self.irrefutable(pat["subs"][0][1]):
            return None
        a = strip(call["args"][0])
        while a["k"] in ("borrow", "deref", "paren"):
            a = strip(a["e"])
        if a["k"] != "var":
            return None
        v = a["id"]
        cur = cx.vars.get(v)
        body = self.block_of(stmts, None, ty)
        if how in ("pop", "split_first", "split_last"):
            if not listy(a["ty"]) or not isinstance(cur, V):
                return None
            l = self.val(cur)
            fin = lambda c: c.set(v, V(f"([] : {self.lean_ty(a['ty'])})"))
            if how == "pop":
                return self.emit_for(f"(List.reverse {l})", None, None, cx, k,
                                     lambda x, c, k: self.bindpatk(pat["subs"][0][1], V(x), Cx({m: u for m, u in c.vars.items() if m != v}, c.h), k),
                                     lambda c, k: self.ev(body, c, k), (v,), fin)
            # while let Some((x, tail)) = rest.split_first() { ..; rest = tail; }
            back = how == "split_last"
            cell = []
            def bindx(x, c, k):
                nth = f"(List.length {l} - 1 - {x})" if back else x
                tail = f"(List.take {nth} {l})" if back else f"(List.drop ({x} + 1) {l})"
                now = f"(List.take ({nth} + 1) {l})" if back else f"(List.drop {x} {l})"
                def kk(y):
                    cell[:] = [tail]
                    return self.bindpatk(pat["subs"][0][1], (V(y), V(tail)), c.set(v, V(now)), k)
                return self.bind(f"idxR {l} {nth}", "x", kk)
            def evbody(c, k):
                tail = cell[0]
                def kk(c2, u=None):
                    t = self.val(c2.vars[v])
                    while t != tail and t in self.lets:
                        t = self.lets[t]
                    if t != tail:
                        raise Unsupported("list taken apart in a loop")
                    return k(c2, UNIT)
                return self.ev(body, c.with_h(cont=None), kk)
            return self.emit_for(f"(URange.toList (URange.mk 0 (List.length {l})))", None, None, cx, k, bindx, evbody, (v,), fin)
        if listy(a["ty"]):
            return None
        if isinstance(cur, V):
            cur = self.as_iter(cur, a["ty"])
        if not isinstance(cur, Iter) or cur.mutplace:
            return None
        if how == "next_back":
            return None
        def k1(c, lx):
            def bindx(x, c, k):
                c = Cx({m: u for m, u in c.vars.items() if m != v}, c.h)
                return self.bindpatk(pat["subs"][0][1], V(x), c, k)
            def fin(c):
                return Cx({m: u for m, u in c.vars.items() if m != v}, c.h)
            return self.emit_for(lx, None, None, c, k, bindx, lambda c, k: self.ev(body, c, k), (v,), fin, eff)
        eff = any(self.lam(st, 1, cx)[1] for st in cur.stages)
        return self.force(cur, cx, k1)

    def e_loop(self, e, cx, k):
        try:
            r = self.counted(e, cx, k)
            if r is not None:
                return r
        except Unsupported:
            pass
        raise Unsupported("loop of unknown length")

    def e_break(self, e, cx, k):
        h = cx.h.get("brk")
        if h is None or e["outer"]:
            raise Unsupported("break")
        if e["e"] is None:
            return h(cx, UNIT)
        return self.ev(e["e"], cx, lambda c, v: h(c, v))

    def e_continue(self, e, cx, k):
        h = cx.h.get("cont")
        if h is None or e["outer"]:
            raise Unsupported("continue")
        return h(cx)

    def e_return(self, e, cx, k):
        h = cx.h.get("ret")
        if h is None:
            raise Unsupported("return")
        if e["e"] is None:
            return h(cx, UNIT)
        return self.ev(e["e"], cx, lambda c, v: h(c, v))

    # ------------------------------------------------------------ assignment
    def e_assign(self, e, cx, k):
        def k1(c, v):
            def k2(c, p):
                if not isinstance(p, Place):
                    raise Unsupported("assignment target")
                return self.dv(v, c, lambda c, x: self.letv(x, p.root, lambda n: self.write(p, n, c, lambda c: k(c, UNIT))))
            return self.place_of(e["l"], c, k2)
        return self.ev(e["r"], cx, k1)

    def e_assignop(self, e, cx, k):
        t = e["l"]["ty"]
        if t[0] != "uint":
            raise Unsupported("assign op")
        def k1(c, v):
            def k2(c, p):
                def k3(c, cur):
                    a, b = self.paren(self.val(cur)), self.paren(self.val(v))
                    op = e["op"].replace("Assign", "")
                    if op in ("Add", "Mul"):
                        return self.letv(f"{a} {'+' if op == 'Add' else '*'} {b}", p.root, lambda n: self.write(p, n, c, lambda c: k(c, UNIT)))
                    if op == "Sub":
                        return self.bind(f"subR {a} {b}", p.root, lambda n: self.write(p, n, c, lambda c: k(c, UNIT)))
                    raise Unsupported(f"assign op {op}")
                return self.read(p, c, k3)
            return self.place_of(e["l"], c, k2)
        return self.ev(e["r"], cx, k1)

    def e_constparam(self, e, cx, k):
        m = re.match(r"(\d+)", e["name"])
        if not m:
            raise Unsupported("constant parameter")
        return k(cx, V(m[1]))

    # ------------------------------------------------------------ calls
    def e_call(self, e, cx, k):
        if e["fn"] is None:
            def k1(c, vs):
                return self.apply(vs[0], vs[1:], c, k)
            return self.evs([e["fune"]] + e["args"], cx, k1)
        nk = norm(e["fn"]["key"])
        if any(nk.startswith(p) for p in PANICS):
            return "Res.panic"
        if nk in ("core::intrinsics::abort", "std::process::abort", "std::process::exit"):
            raise Unsupported(nk)
        if self.ambient(e):
            return self.ambient_value(e, cx, k)
        return self.evs(e["args"], cx, lambda c, vs: self.callfn(e["fn"], vs, e["args"], c, k, e))

    def callfn(self, fn, vs, aes, cx, k, e):
        key = fn["rkey"] if fn["how"] == "resolved" else None
        if key in self.fns and self.fns[key]["kind"] != "Closure":
            return self.calllocal(key, vs, cx, k, fn["rargs"])
        import models
        return models.call(self, fn, vs, aes, cx, k, e)

    def inouts(self, f):
        """indices of parameters whose final value the caller can see"""
        bp = self.bound_params(f)
        io = bp["io"] | bp["rng"]
        r = []
        for i, p in enumerate(f["params"]):
            t = p["ty"]
            if self.is_mutref(t) or (t[0] == "param" and t[1] in io):
                r.append(i)
        return r

    def bound_params(self, f):
        r = {"field": set(), "iter": {}, "rng": set(), "io": set(), "fn": set(), "ty": []}
        pairing = set()
        for b in f.get("bounds", []):
            if b["b"] == "trait" and b["self"][0] == "param":
                n, tr = b["self"][1], b["trait"].split("::")[-1]
                if tr in ("Field", "PrimeField", "FftField"):
                    r["field"].add(n)
                elif tr in ("Rng", "RngCore"):
                    r["rng"].add(n)
                elif tr in ("Write", "Read"):
                    r["io"].add(n)
                elif tr in ("Fn", "FnMut", "FnOnce"):
                    r["fn"].add(n)
                elif tr == "Pairing":
                    pairing.add(n)
            if b["b"] == "proj" and b["self"][0] == "param" and b["item"].split("::")[-1] == "Item":
                r["iter"][b["self"][1]] = b["ty"]
        known = r["field"] | r["rng"] | r["io"] | r["fn"] | set(r["iter"]) | pairing
        for g in reversed(f.get("generics", [])):
            if g not in known and not g.startswith("'") and not g.startswith("impl "):
                r["ty"].append(g)
        return r

    BENIGN = ("Sized", "MetaSized", "PointeeSized", "Send", "Sync", "Copy", "Clone", "Debug", "Unpin", "Freeze")

    def instance(self, key, targs, need):
        """key of the copy of a generic function at given type arguments (the function itself if it needs none)"""
        import models
        f = self.fns[key]
        bp = self.bound_params(f)
        bounded = {p for b in f.get("bounds", []) if b["b"] == "trait" and b["trait"].split("::")[-1] not in self.BENIGN
                   for p in bp["ty"] if mentions(b["self"], {p})}
        gs = f.get("gargs") or []
        if not bp["ty"] or targs is None or len(gs) != len(targs):
            if bounded:
                raise Unsupported("call of a generic function")
            return key
        field = ["alias", "<E as ark_ec::pairing::Pairing>::ScalarField", "ark_ec::pairing::Pairing", "ScalarField", [["param", "E"]]]
        here = {p: field for p in self.fieldparams}
        sub = {}
        for g, t in zip(gs, targs):
            if g[1] in bp["ty"] or g[1] in bp["field"]:
                sub[g[1]] = subst(t, here)
        for g in bp["ty"]:
            if sub[g][0] == "const":
                if not re.match(r"\d+(_\w+)?$", sub[g][1]):
                    raise Unsupported("constant parameter of unknown value")
                bounded.add(g)
                continue
            try:
                models.cloneable(self, sub[g])
            except Unsupported:
                bounded.add(g)
        if not need and not bounded:
            return key
        if not need and any(mentions(sub[g], set(self.tyvars)) for g in bounded if sub[g][0] != "const"):
            raise Unsupported("generic function with its own bounds, called at a type parameter")
        tag = "<" + ",".join(f"{g}={sub[g]}" for g in sorted(sub)) + ">"
        nk = key + tag
        if nk not in self.fns:
            def copy(o):
                if isinstance(o, list):
                    if len(o) > 1 and o[0] in ("param", "const") and o[1] in sub:
                        return sub[o[1]]
                    if len(o) == 3 and o[0] == "array" and isinstance(o[2], str) and o[2] in sub:
                        return ["array", copy(o[1]), sub[o[2]][1]]
                    return [copy(x) for x in o]
                if not isinstance(o, dict):
                    return o
                o = {x: copy(y) for x, y in o.items()}
                if o.get("k") == "constparam" and o["name"] in sub:
                    o["name"] = sub[o["name"]][1]
                if o.get("k") == "closure":
                    ck = o["def"]
                    o["def"] = ck + tag
                    if o["def"] not in self.fns:
                        self.fns[o["def"]] = copy(dict(self.fns[ck], key=o["def"]))
                elif "rkey" in o and "how" in o and o["how"] != "resolved":
                    self.resolve(o)
                return o
            self.fns[nk] = None
            g = copy(dict(f, key=nk, bounds=[], generics=[x for x in f["generics"] if x not in sub], gargs=[]))
            g["bounds"] = [copy(b) for b in f.get("bounds", []) if "self" in b and not mentions(b["self"], set(sub))]
            self.fns[nk] = g
            self.names[nk] = self.names[key] + "_at_" + "_".join(self.tyname(sub[x]) for x in sorted(sub)) + f"_{len(self.names)}"
            self.bykey[self.names[nk]] = nk
            self.pending.append(nk)
        return nk

    def resolve(self, fn):
        """the crate's implementation of a trait method called at a concrete type"""
        trait, m = fn["path"].rsplit("::", 1)
        if not fn["args"]:
            return
        got = self.sumimpl.get((trait, self.tyname(fn["args"][0]), m)) or []
        want = [self.tykey(a) for a in fn["args"]]
        best = None
        for c in got:
            ta = self.fns[c].get("trait_args") or []
            if [self.tykey(a) for a in ta] == want[:len(ta)]:
                exact = [a[0] == "ref" for a in ta] == [a[0] == "ref" for a in fn["args"][:len(ta)]]
                if best is None or exact:
                    best = c
        if best:
            fn["how"], fn["rkey"], fn["rargs"] = "resolved", best, None
        elif fn["path"].startswith(("data_structures", "prover", "generator", "statement", "verifier")):
            for c, f in self.fns.items():
                if f and c == fn["key"] and f["kind"] == "AssocFn":  # a method with a default body
                    fn["how"], fn["rkey"], fn["rargs"] = "resolved", c, fn["aargs"]

    def calllocal(self, key, vs, cx, k, targs=None):
        clos = any(isinstance(v, (Clos, FnVal)) for v in vs)
        key = self.instance(key, targs, clos)
        f = self.fns[key]
        if clos or self.gives_iter(f["ret"]):
            return self.inline(f, vs, cx, k)
        ios = self.inouts(f)
        name = self.names[key]
        self.deps.add(key)
        places = {}
        def args(i, cx, acc, kk):
            if i == len(vs):
                return kk(cx, acc)
            v = vs[i]
            if i in ios and isinstance(v, Ref):
                places[i] = v.place
                return self.read(v.place, cx, lambda c, x: self.dv(x, c, lambda c, y: args(i + 1, c, acc + [self.paren(y)], kk)))
            return self.dv(v, cx, lambda c, y: args(i + 1, c, acc + [self.paren(y)], kk))
        def fin(cx, acc):
            n = self.fresh("r")
            tot = 1 + len(ios)
            def wr(js, cx):
                if not js:
                    return k(cx, V(self.probj(n, tot, 0)))
                i = js[0]
                if i not in places:
                    return wr(js[1:], cx)
                return self.write(places[i], self.probj(n, tot, 1 + ios.index(i)), cx, lambda c: wr(js[1:], c))
            return f"Res.bind (X.{name} E {' '.join(acc)}) fun {n} =>\n{wr(ios, cx)}"
        return args(0, cx, [], fin)

    def gives_iter(self, t):
        return t[0] == "adt" and t[1].startswith(("std::iter::", "core::iter::", "std::slice::", "core::slice::")) \
            and not t[1].startswith(("std::iter::Sum", "core::iter::Sum"))

    def renamed(self, f, cx):
        """the function with its variables renamed apart from those of earlier inlined calls of it"""
        ids = set()
        def scan(o):
            if isinstance(o, list):
                for x in o:
                    scan(x)
            elif isinstance(o, dict):
                if "p" in o and "var" in o:
                    ids.add(o["var"])
                for x in o.values():
                    scan(x)
        scan([p["pat"] for p in f["params"]])
        if not ids & cx.vars.keys():
            return f
        tag = 1
        while any(f"{i}@{tag}" in cx.vars for i in ids):
            tag += 1
        nk = f"{f['key']}@{tag}"
        if nk not in self.fns:
            def copy(o):
                if isinstance(o, list):
                    return [copy(x) for x in o]
                if not isinstance(o, dict):
                    return o
                o = {x: copy(y) for x, y in o.items()}
                if o.get("k") == "var":
                    o["id"] = f"{o['id']}@{tag}"
                if "p" in o and "var" in o:
                    o["var"] = f"{o['var']}@{tag}"
                if o.get("k") == "closure":
                    ck = o["def"]
                    o["def"] = f"{ck}@{tag}"
                    o["byval"] = [f"{x}@{tag}" for x in o.get("byval", [])]
                    if o["def"] not in self.fns:
                        self.fns[o["def"]] = copy(dict(self.fns[ck], key=o["def"]))
                return o
            self.fns[nk] = None
            g = copy(dict(f, key=nk))
            self.fns[nk] = g
        return dict(self.fns[nk], key=f["key"])

    def inline(self, f, vs, cx, k):
        if f["key"] in getattr(self, "instack", []):
            raise Unsupported("recursive higher-order function")
        f = self.renamed(f, cx)
        out = getattr(self, "instack", [])
        ins = out + [f["key"]]
        def leave(c, v):
            self.instack = out
            try:
                return k(c, v)
            finally:
                self.instack = ins
        self.instack = ins
        try:
            saved = cx.h
            c1 = cx.with_h(ret=lambda c, v: leave(Cx(c.vars, saved), v), brk=None, cont=None)
            return self.bindpats([p["pat"] for p in f["params"]], vs, c1, lambda c1: self.ev(
                f["body"], c1, lambda c, v: leave(Cx(c.vars, saved), v)))
        finally:
            self.instack = out

    def as_iter(self, v, ty):
        """value of type ty, iterated"""
        if isinstance(v, Iter):
            return v
        if isinstance(v, Ref):
            if not listy(v.place.ty):
                raise Unsupported("iterator used by reference")
            return Iter(None, [], v.place)
        t = ty
        while t[0] == "ref":
            t = t[2]
        if isinstance(v, tuple) and v and v[0] == "range":
            if v[1] == "RangeFrom":
                return Inf(lambda n: f"(URange.toList (URange.mk {self.paren(v[2][0])} ({v[2][0]} + {n})))")
            raise Unsupported("range kind")
        if isinstance(v, Inf):
            return v
        if t[0] == "adt" and t[1] == "std::ops::Range":
            return Iter(f"(URange.toList {self.paren(self.val(v))})")
        return Iter(self.val(v))

    # ------------------------------------------------------------ functions
    SKIP = ("fmt", "assert_fields_are_eq")

    def function(self, key):
        f = self.fns[key]
        self.cur = f
        bp = self.bound_params(f)
        self.fieldparams = bp["field"]
        self.iterparams = bp["iter"]
        self.rngparams = bp["rng"]
        self.ioparams = bp["io"]
        self.tyvars = {g: g for g in bp["ty"]}
        if bp["fn"]:
            raise Unsupported("higher-order function (inlined where called)")
        self.n = 0
        self.deps = set()
        self.curext = set()
        ios = self.inouts(f)
        params = []
        vars = {}
        ioids = []
        pre = []
        for i, p in enumerate(f["params"]):
            pat = p["pat"]
            if pat is None or pat["p"] == "wild":
                nm, var = f"_a{i}", None
            elif pat["p"] == "bind":
                var = pat["var"]
                nm = re.sub(r"_\d+$", "", var) + "_"
                if any(nm == x for x, _ in params):
                    nm += str(i)
            else:
                nm, var = f"a{i}_", None
                pre.append((pat, nm))
            params.append((nm, self.lean_ty(p["ty"])))
            if var:
                vars[var] = V(nm)
            if i in ios:
                if var is None:
                    var = f"anon_{i}"
                    vars[var] = V(nm)
                ioids.append(var)
        rt = self.lean_ty(f["ret"])
        iot = [self.lean_ty(f["params"][i]["ty"]) for i in ios]
        full = " × ".join([rt] + iot)
        self.retty = f"({full})"
        def ret(c, v):
            return self.dv(v, c, lambda c, x: "Res.ok " + self.paren(self.tup([x] + [self.val(c.vars[m]) for m in ioids])))
        cx = Cx(vars, {"ret": ret, "brk": None, "cont": None})
        tv = "".join(f" {{{g} : Type}}" for g in bp["ty"])
        ps = "".join(f" ({n} : {t})" for n, t in params)
        name = self.names[key]
        sig = f"{name} (E : Env){tv}{ps} : Res ({full})"
        self.sigs[key] = f"opaque {sig} := Res.panic\n"
        body = self.bindpats([p for p, _ in pre], [V(nm) for _, nm in pre], cx, lambda cx: self.ev(f["body"], cx, ret))
        return f"def {sig} :=\n{body}\n"

    def run(self):
        self.pending = list(self.fns)
        for key in self.pending:  # grows while it is gone through
            f = self.fns[key]
            if f["kind"] not in ("Fn", "AssocFn") or key in self.out or key in self.problems:
                continue
            if key.split("::")[-1] in self.SKIP:
                continue
            try:
                txt = self.function(key)
                self.out[key] = txt
                self.fdeps[key] = set(self.deps)
                self.externs[key] = set(self.curext)
            except Unsupported as ex:
                self.problems[key] = str(ex)
            except Exception as ex:  # a construct the translator does not know
                self.problems[key] = f"translator: {type(ex).__name__} {ex}"
            if key in self.forced and key in self.sigs:
                self.problems[key] = self.forced[key]
                self.out.pop(key, None)
            if key not in self.out and key in self.sigs:
                # signature only: callers can still be verified against its contract
                self.opaque[key] = self.problems[key]
                self.out[key] = self.sigs[key]
                self.fdeps[key], self.externs[key] = set(), set()
        # order
        order, state = [], {}
        def visit(k):
            if k not in self.out:
                return False
            if state.get(k) == 2:
                return True
            if state.get(k) == 1:
                return False
            state[k] = 1
            for dk in sorted(self.fdeps[k]):
                if not visit(dk):
                    if k in self.out and k not in self.opaque:
                        self.problems[k] = self.problems.get(k) or (
                            f"calls {self.names.get(dk, dk)}: " + (self.problems.get(dk) or "recursive"))
                        self.opaque[k] = self.problems[k]
                        self.out[k] = self.sigs[k]
                        self.fdeps[k], self.externs[k] = set(), set()
                    break
            state[k] = 2
            order.append(k)
            return True
        for k in list(self.out):
            visit(k)
        order = [k for k in order if k in self.out]
        return order

    def lean(self):
        order = self.run()
        chunks = ["import Gsv.Env\nimport Gsv.Ser\n/- generated from the compiler's typed bodies; do not edit -/\n",
                  "set_option linter.all false\nset_option maxRecDepth 4000\nnoncomputable section\nnamespace Gsv\nopen Res\n"]
        for t in self.newadts.values():
            chunks.append(t)
        chunks.append("namespace X\n")
        for k in order:
            f = self.fns[k]
            chunks.append(f"/-- {f['file']}:{f['line']} `{f['path']}` -/\n{self.out[k]}")
        chunks.append("end X\nend Gsv\n")
        return "\n".join(chunks), order
