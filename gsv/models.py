"""Models of the library functions the crate calls.  `call` returns the translation of a call, or
raises Unsupported.  Everything listed here is an assumption of the verification (see DESIGN.md):
the Lean side gives each model a definition in lean/Gsv/{Core,Env,Ser}.lean."""
import re
from translate import (Unsupported, V, Ref, Place, Iter, Clos, Comp, Ign, Inf, FnVal, UNIT, STRUCTS, ENUMS, Cx, listy)

ALG = ("Fr", "G1", "G2", "GT")
LOCAL = ("Com1", "Com2", "ComT", "CRS", "Commit1", "Commit2", "EquProof", "CProof", "PPE", "MSMEG1", "MSMEG2",
         "QuadEqu", "EquType")


def strip(t):
    while t[0] == "ref" or (t[0] == "adt" and t[1] == "std::boxed::Box"):
        t = t[2] if t[0] == "ref" else t[2][0]
    return t


def elem(t):
    """element type of a list-like type"""
    t = strip(t)
    if t[0] in ("slice", "array"):
        return t[1]
    if t[0] == "adt" and t[1] in ("std::vec::Vec", "std::slice::Iter", "std::vec::IntoIter", "std::slice::IterMut"):
        return t[2][0]
    return None


def is_list(t):
    t = strip(t)
    return t[0] in ("slice", "array") or (t[0] == "adt" and t[1] == "std::vec::Vec")


def haslocal(tr, t):
    k = tr.tykey(t)
    return any(re.search(r"\b%s\b" % n, k) for n in LOCAL)


def cloneable(tr, t):
    """refuse a type whose clones are made by hand-written code"""
    t = strip(t)
    if t[0] in ("slice", "array"):
        return cloneable(tr, t[1])
    if t[0] == "tuple":
        for x in t[1]:
            cloneable(tr, x)
    if t[0] == "adt":
        k = local_method(tr, t, "Clone", "clone")
        if k and not tr.fns[k].get("derived"):
            raise Unsupported("clone of a container of a type with its own Clone")
        for x in t[2]:
            cloneable(tr, x)


def local_method(tr, t, trait, meth):
    """key of the crate's own implementation of trait::meth for type t"""
    nm = tr.tyname(t)
    for (tr_, ty, m), ks in tr.sumimpl.items():
        if m == meth and ty == nm and tr_.split("::")[-1] == trait:
            return ks[0]
    return None


def usel(tr, key):
    tr.deps.add(key)
    return "X." + tr.names[key]


# ------------------------------------------------------------------ serialization
def prim_enc(tr, t):
    return {"Fr": ("encFr", "decFr", "szFr"), "G1": ("enc1", "dec1", "sz1"), "G2": ("enc2", "dec2", "sz2"),
            "GT": ("encT", "decT", "szT")}.get(tr.tykey(t))


def ser_fn(tr, t, c):
    """Lean function: value -> Bytes -> Res (Except SerErr Unit × Bytes)"""
    t = strip(t)
    p = prim_enc(tr, t)
    if p:
        return f"(serPrim (E.{p[0]} {c}))"
    if t == ["uint", "u8"]:
        return "(serPrim encU8)"
    if t[0] == "uint" and t[1] in ("u64", "usize"):
        return "(serPrim encU64)"
    if t[0] == "bool":
        return "(serPrim encBool)"
    if is_list(t) and t[0] != "array":
        return f"(serVec {ser_fn(tr, elem(t), c)})"
    k = local_method(tr, t, "CanonicalSerialize", "serialize_with_mode")
    if k:
        return f"(fun x w => {usel(tr, k)} E x w {c})"
    raise Unsupported(f"serialization of {tr.tykey(t)}")


def sz_fn(tr, t, c):
    t = strip(t)
    p = prim_enc(tr, t)
    if p:
        return f"(fun _ => Res.ok (E.{p[2]} {c}))"
    if t == ["uint", "u8"] or t[0] == "bool":
        return "(fun _ => Res.ok 1)"
    if t[0] == "uint" and t[1] in ("u64", "usize"):
        return "(fun _ => Res.ok 8)"
    if is_list(t) and t[0] != "array":
        return f"(szVec {sz_fn(tr, elem(t), c)})"
    k = local_method(tr, t, "CanonicalSerialize", "serialized_size")
    if k:
        return f"(fun x => {usel(tr, k)} E x {c})"
    raise Unsupported(f"size of {tr.tykey(t)}")


def chk_fn(tr, t):
    """Lean function: value -> Res (Except SerErr Unit)"""
    t = strip(t)
    if prim_enc(tr, t) or t[0] in ("uint", "bool"):
        return "chkPrim"
    if is_list(t):
        return f"(fun l => {batch_fn(tr, elem(t))} l)"
    k = local_method(tr, t, "Valid", "check")
    if k:
        return f"(fun x => {usel(tr, k)} E x)"
    raise Unsupported(f"validity of {tr.tykey(t)}")


def batch_fn(tr, t):
    """Lean function: list of values -> Res (Except SerErr Unit)"""
    t = strip(t)
    if prim_enc(tr, t) or t[0] in ("uint", "bool"):
        return "chkPrim"
    if is_list(t):
        return f"(fun ls => {batch_fn(tr, elem(t))} (List.flatten ls))"
    k = local_method(tr, t, "Valid", "batch_check")
    if k:
        return f"(fun l => {usel(tr, k)} E l)"
    return f"(chkEach {chk_fn(tr, t)})"


def de_fn(tr, t, c, v):
    """Lean function: Bytes -> Res (Except SerErr T × Bytes)"""
    t = strip(t)
    p = prim_enc(tr, t)
    if p:
        return f"(dePrim (E.{p[1]} {c} {v}))"
    if t == ["uint", "u8"]:
        return "(dePrim decU8)"
    if t[0] == "uint" and t[1] in ("u64", "usize"):
        return "(dePrim decU64)"
    if t[0] == "bool":
        return "(dePrim decBool)"
    if is_list(t) and t[0] != "array":
        e = elem(t)
        return f"(deVec {de_fn(tr, e, c, 'Validate.No')} {batch_fn(tr, e)} {v})"
    k = local_method(tr, t, "CanonicalDeserialize", "deserialize_with_mode")
    if k:
        return f"(fun r => {usel(tr, k)} E r {c} {v})"
    raise Unsupported(f"deserialization of {tr.tykey(t)}")


# ------------------------------------------------------------------ equality
def eq_res(tr, t, a, b, k):
    """continue with a Bool expression deciding a == b the way the Rust impl does"""
    t = strip(t)
    if not haslocal(tr, t):
        x = tr.lean_ty(t)
        if any(re.search(rf"\b{re.escape(v)}\b", x) for v in tr.tyvars.values()):
            raise Unsupported("equality of values of a type parameter")
        return k(f"(decide ({a} = {b}))")
    key = local_method(tr, t, "PartialEq", "eq")
    if key:
        return tr.bind(f"{usel(tr, key)} E {a} {b}", "eq", k)
    if is_list(t):
        x, y = tr.fresh("x"), tr.fresh("y")
        return tr.bind(f"eqListR (fun {x} {y} => {eq_res(tr, elem(t), x, y, lambda e: f'Res.ok {e}')}) {a} {b}", "eq", k)
    raise Unsupported(f"equality of {tr.tykey(t)}")


ITER_CONS = {"sum", "product", "fold", "collect", "for_each", "count", "all", "any", "last", "nth", "reduce", "unzip", "try_fold"}


def call(tr, fn, vs, aes, cx, k, e):
    from translate import norm
    key = norm(fn["key"])
    seg = key.split("::")
    m = seg[-1]
    tm = "::".join(seg[-2:])
    args = fn["args"]
    tr.curext.add(key)
    P = tr.paren
    A = lambda i: P(tr.val(vs[i]))

    def aty(i):
        if aes and i < len(aes) and aes[i] is not None:
            return aes[i]["ty"]
        return None

    def ev(i, kk, c=None):
        """value i as data"""
        return tr.dv(vs[i], c or cx, lambda c, x: kk(c, P(x)))

    def evall(kk):
        return tr.dvs(vs, cx, lambda c, xs: kk(c, [P(x) for x in xs]))

    def ident():
        return k(cx, vs[0])

    # ---------------------------------------------------------------- calls of closures
    if tm in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once") and len(vs) == 2:
        f = vs[0]
        while isinstance(f, Ref) and not f.place.path:
            f = cx.vars.get(f.place.root)
        xs = vs[1]
        n = len(strip(aty(1) or args[1])[1])
        if isinstance(xs, V):
            xs = [] if n == 0 else [V(tr.probj(xs.x, n, i)) for i in range(n)] if re.fullmatch(r"[\w.]+", xs.x) else None
        if xs is None and isinstance(vs[1], V):
            nm = tr.fresh("a")
            return f"let {nm} := {vs[1].x}\n" + tr.apply(f, [V(tr.probj(nm, n, i)) for i in range(n)], cx, k)
        return tr.apply(f, list(xs), cx, k)

    # ---------------------------------------------------------------- closures called by the library
    if key == "rayon_core::join::join":
        return tr.apply(vs[0], [], cx, lambda c, a: tr.dv(a, c, lambda c, a: tr.apply(
            vs[1], [], c, lambda c, b: tr.dv(b, c, lambda c, b: k(c, (V(a), V(b)))))))
    if key in ("core::array::from_fn", "core::array::map"):
        t = e["ty"] if e else ["never"]
        if t[0] != "array" or not re.fullmatch(r"\d+(_usize)?", t[2]):
            raise Unsupported(key)
        if m == "map":
            return ev(0, lambda c, l: tr.force(Iter(l, [vs[1]]), c, lambda c, l: k(c, V(l))))
        return tr.force(Iter("[" + ", ".join(map(str, range(int(t[2].split("_")[0])))) + "]", [vs[0]]), cx, lambda c, l: k(c, V(l)))
    # ---------------------------------------------------------------- references, conversions
    if key in ("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from"):
        to = args[1] if m == "try_into" else args[0]
        fr = args[0] if m == "try_into" else args[1]
        for (t_, ty, me), ks in tr.sumimpl.items():
            if t_.split("::")[-1] == "TryFrom" and me == "try_from" and ty == tr.tyname(to):
                for kk in ks:
                    if tr.tykey(tr.fns[kk]["trait_args"][1]) == tr.tykey(fr):
                        return tr.calllocal(kk, vs, cx, k)
        if to[0] == "array" and is_list(fr) and tr.tykey(elem(fr)) == tr.tykey(to[1]) and re.fullmatch(r"\d+(_usize)?", to[2]):
            return ev(0, lambda c, x: k(c, V(f"(toArr {to[2].split('_')[0]} {x})")))
        raise Unsupported(f"conversion {tr.tykey(fr)} -> {tr.tykey(to)}")
    if key in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::borrow::Borrow::borrow",
               "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "alloc::vec::as_slice",
               "alloc::vec::as_mut_slice", "alloc::slice::to_vec", "alloc::vec::into_boxed_slice", "alloc::slice::into_vec",
               "alloc::borrow::ToOwned::to_owned", "core::slice::to_vec", "alloc::boxed::new", "core::hint::black_box",
               "core::option::as_ref", "core::option::copied", "core::option::cloned"):
        if m in ("to_vec", "to_owned", "cloned"):
            cloneable(tr, aty(0) or args[0])
        if m in ("to_vec", "to_owned", "black_box", "as_ref", "copied", "cloned", "deref") and isinstance(vs[0], Ref) and m != "deref":
            return ev(0, lambda c, x: k(c, V(x)))
        return ident()
    if m == "clone" and seg[-2] == "Clone" or m == "clone":
        t = args[0] if args else aty(0)
        cloneable(tr, t)
        return ev(0, lambda c, x: k(c, V(x)))
    if key in ("core::convert::Into::into", "core::convert::From::from"):
        to = args[1] if m == "into" else args[0]
        fr = args[0] if m == "into" else args[1]
        a, b = tr.tykey(fr), tr.tykey(to)
        if a == b:
            return ev(0, lambda c, x: k(c, V(x)))
        if b == "Fr" and strip(fr)[0] in ("uint", "bool"):
            if strip(fr)[0] == "bool":
                return ev(0, lambda c, x: k(c, V(f"(if {x} = true then (1 : E.Fr) else 0)")))
            return ev(0, lambda c, x: k(c, V(f"(({x} : ℕ) : E.Fr)")))
        for (t_, ty, me), ks in tr.sumimpl.items():
            if t_.split("::")[-1] == "From" and me == "from" and ty == tr.tyname(to):
                for kk in ks:
                    f = tr.fns[kk]
                    if tr.tykey(f["trait_args"][1]) == a:
                        return tr.calllocal(kk, vs, cx, k)
        if strip(fr)[0] == "uint" and to[0] == "uint" and fr[0] == "uint":
            return ev(0, lambda c, x: k(c, V(x)))
        if fr[0] == "bool" and to[0] == "uint":
            return ev(0, lambda c, x: k(c, V(f"(if {x} = true then 1 else 0 : ℕ)")))
        if fr[0] == "adt" and to[0] == "adt" and fr[1] in ("ark_std::io::Error", "std::io::Error") and to[1] == "ark_serialize::SerializationError":
            return ev(0, lambda c, x: k(c, V(x)))
        if is_list(fr) and is_list(to) and tr.tykey(elem(fr)) == tr.tykey(elem(to)):
            cloneable(tr, elem(to))
            return ev(0, lambda c, x: k(c, V(x)))
        raise Unsupported(f"conversion {a} -> {b}")
    if key in ("core::mem::swap",):
        if isinstance(vs[0], Ref) and isinstance(vs[1], Ref):
            return tr.read(vs[0].place, cx, lambda c, a: tr.read(vs[1].place, c, lambda c, b: tr.write(
                vs[0].place, tr.val(b), c, lambda c: tr.write(vs[1].place, tr.val(a), c, lambda c: k(c, UNIT)))))
    if key == "core::mem::replace" and isinstance(vs[0], Ref):
        return tr.read(vs[0].place, cx, lambda c, a: ev(1, lambda c, x: tr.write(vs[0].place, x, c, lambda c: k(c, a)), c))
    if key == "core::mem::take" and isinstance(vs[0], Ref) and is_list(args[0]):
        return tr.read(vs[0].place, cx, lambda c, a: tr.write(
            vs[0].place, f"([] : {tr.lean_ty(args[0])})", c, lambda c: k(c, a)))
    if key in ("core::mem::drop", "core::mem::forget"):
        return k(cx, UNIT)
    # vec![..]
    if key == "alloc::boxed::new_uninit":
        return k(cx, UNIT)
    if key == "alloc::intrinsics::write_box_via_move":
        return k(cx, vs[1])
    if key in ("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::box_assume_init_into_vec_unsafe"):
        return k(cx, vs[0])
    if key == "core::intrinsics::discriminant_value":
        t = strip(args[0])
        tr.lean_ty(t)
        if t[1] in ENUMS and ENUMS[t[1]][0] == "EquType":
            return ev(0, lambda c, x: k(c, V(f"(EquType.idx {x})")))
        raise Unsupported("discriminant")

    # ---------------------------------------------------------------- Vec and slices
    if seg[0] in ("alloc", "core") and seg[1] in ("vec", "slice") or tm in ("Index::index", "IndexMut::index_mut"):
        r = vec_call(tr, key, m, tm, fn, vs, aes, cx, k, e, ev, evall, aty)
        if r is not None:
            return r

    # ---------------------------------------------------------------- iterators
    if m in ("into_iter", "into_par_iter", "par_iter", "iter", "iter_mut", "par_iter_mut") :
        v = vs[0]
        if m in ("iter_mut", "par_iter_mut"):
            if isinstance(v, Ref):
                return k(cx, Iter(None, [], v.place))
            raise Unsupported("iter_mut")
        t = args[0] if args else aty(0)
        if isinstance(v, Ref) and not (t[0] == "ref" and t[1]):
            return tr.read(v.place, cx, lambda c, x: k(c, tr.as_iter(x, t)))
        if isinstance(v, tuple) and v[0] == "range" and v[1] == "RangeInclusive":
            return k(cx, Iter(f"(URange.toList (URange.mk {v[2][0]} ({v[2][1]} + 1)))"))
        return k(cx, tr.as_iter(v, t))
    if "iter" in seg or "range" in seg or "rayon" in seg or (args and strip(args[0])[0] == "adt" and strip(args[0])[1].startswith(("std::iter", "std::slice", "rayon", "std::vec::IntoIter", "std::vec::Drain"))):
        r = iter_call(tr, key, m, fn, vs, aes, cx, k, e, ev, evall, aty)
        if r is not None:
            return r
    if m == "new" and key.startswith("core::ops::range"):
        return k(cx, ("range", "RangeInclusive", [tr.val(v) for v in vs]))

    # ---------------------------------------------------------------- Option / Result
    if seg[:2] in (["core", "option"], ["core", "result"]):
        if seg[1] == "option" and m in ("unwrap", "expect"):
            return ev(0, lambda c, x: tr.bind(f"unwrapR {x}", "u", lambda n: k(c, V(n))))
        if seg[1] == "result" and m in ("unwrap", "expect"):
            n = tr.fresh("u")
            return ev(0, lambda c, x: f"(match {x} with\n| .error _ => Res.panic\n| .ok {n} =>\n{k(c, V(n))})")
        if seg[1] == "option" and m in ("is_some", "is_none"):
            return ev(0, lambda c, x: k(c, V(f"(Option.{'isSome' if m == 'is_some' else 'isNone'} {x})")))
        if seg[1] == "result" and m in ("is_ok", "is_err"):
            f = "isOkB " if m == "is_ok" else "!isOkB "
            return ev(0, lambda c, x: k(c, V(f"({f}{x})")))
        if seg[1] == "option" and m in ("ok_or",):
            return evall(lambda c, xs: k(c, V(f"(optOk {xs[0]} {xs[1]})")))
        if seg[1] == "option" and m == "unwrap_or":
            return evall(lambda c, xs: k(c, V(f"(Option.getD {xs[0]} {xs[1]})")))
        if seg[1] == "option" and m in ("unwrap_or_else", "map_or", "is_some_and", "unwrap_or_default"):
            n = tr.fresh("u")
            if m == "unwrap_or_default":
                d = {"usize": "0", "u64": "0", "Fr": "(0 : E.Fr)", "G1": "(0 : E.G1)", "G2": "(0 : E.G2)", "GT": "(0 : E.GT)"}.get(tr.tykey(args[0]))
                if d is None:
                    raise Unsupported(key)
                return ev(0, lambda c, x: k(c, V(f"(Option.getD {x} {d})")))
            j = tr.fresh("j")
            out = lambda c, v: tr.dv(v, c, lambda c, y: f"Res.ok {P(y)}")
            def go(c, x, some, none):
                ts = [some(c), none(c)]
                return f"Res.bind (match {x} with\n| some {n} =>\n{ts[0]}\n| none =>\n{ts[1]}) fun {j} =>\n{k(c, V(j))}"
            def pure(f, vals, c):
                fin = []
                r = tr.apply(f, vals, c, lambda c2, v: (fin.append(c2), out(c2, v))[1])
                if any(c2.vars.get(q) is not c.vars[q] for c2 in fin for q in c.vars):
                    raise Unsupported(f"side effects in {m}")
                return r
            if m == "unwrap_or_else":
                return ev(0, lambda c, x: go(c, x, lambda c: f"Res.ok {n}", lambda c: pure(vs[1], [], c)))
            if m == "is_some_and":
                return ev(0, lambda c, x: go(c, x, lambda c: pure(vs[1], [V(n)], c), lambda c: "Res.ok false"))
            return ev(0, lambda c, x: ev(1, lambda c, d: go(c, x, lambda c: pure(vs[2], [V(n)], c), lambda c: f"Res.ok {d}"), c))
        if m in ("map", "and_then", "map_err"):
            t = strip(aty(0) or ["never"])
            n = tr.fresh("u")
            lam, muts = tr.lam(vs[1], 1, cx)
            if not muts:
                if seg[1] == "option" and m == "map":
                    return ev(0, lambda c, x: tr.bind(f"optMapR ({lam}) {x}", "o", lambda n: k(c, V(n))))
                if seg[1] == "result" and m == "map":
                    return ev(0, lambda c, x: tr.bind(f"excMapR ({lam}) {x}", "o", lambda n: k(c, V(n))))
                if seg[1] == "result" and m == "and_then":
                    return ev(0, lambda c, x: tr.bind(f"excBindR ({lam}) {x}", "o", lambda n: k(c, V(n))))
        raise Unsupported(key)

    # ---------------------------------------------------------------- randomness
    if key == "ark_std::rand_helper::UniformRand::rand" or (m == "gen" and seg[-2] == "Rng"):
        if m == "gen":
            ty, ri = tr.tykey(args[1]), 0
        else:
            ty, ri = tr.tykey(args[0]), 0
        if ty in ("Fr", "G1", "G2"):
            v = vs[ri]
            def dr(c, x, wr):
                s = P(tr.val(x))
                n = tr.fresh("r")
                return f"let {n} := E.dr{ty} {s}\n" + wr(c, f"(E.nx{ty} {s})", V(n))
            if isinstance(v, Ref):
                return tr.read(v.place, cx, lambda c, x: dr(c, x, lambda c, nx, val: tr.write(
                    v.place, nx, c, lambda c: k(c, val))))
            return dr(cx, v, lambda c, nx, val: k(c, val))
        raise Unsupported(f"random {ty}")
    if m == "test_rng":
        return k(cx, V("E.testRng"))

    # ---------------------------------------------------------------- algebra
    st = tr.tykey(args[0]) if args else None
    if key.startswith("ark_ec::pairing::Pairing::"):
        if m == "pairing":
            return evall(lambda c, xs: k(c, V(f"(E.e {xs[0]} {xs[1]})")))
        if m == "multi_pairing":
            return evall(lambda c, xs: tr.bind(f"Env.multiPairing {xs[0]} {xs[1]}", "mp", lambda n: k(c, V(n))))
        raise Unsupported(key)
    if m in ("into_affine", "into_group", "affine", "into_bigint_group") and st in ALG:
        return ev(0, lambda c, x: k(c, V(x)))
    if m == "batch_convert_to_mul_base" or m == "normalize_batch":
        return ev(0, lambda c, x: k(c, V(x)))
    if m in ("zero", "identity") and st in ALG:
        return k(cx, V(f"(0 : E.{st})"))
    if m == "one" and st == "Fr":
        return k(cx, V("(1 : E.Fr)"))
    if m == "is_zero" and st in ALG:
        return ev(0, lambda c, x: k(c, V(f"(decide ({x} = 0))")))
    if m == "is_one" and st == "Fr":
        return ev(0, lambda c, x: k(c, V(f"(decide ({x} = 1))")))
    if m in ("double", "double_in_place", "square", "square_in_place", "neg_in_place", "inverse", "set_zero", "set_one") and st in ALG:
        f = {"double": lambda x: f"({x} + {x})", "square": lambda x: f"({x} * {x})", "neg": lambda x: f"(-{x})"}
        if m in ("double", "square"):
            return ev(0, lambda c, x: k(c, V(f[m](x))))
        if m == "inverse":
            return ev(0, lambda c, x: k(c, V(f"(if {x} = 0 then none else some ({x}⁻¹))")))
        if isinstance(vs[0], Ref):
            if m.startswith("set_"):
                return tr.write(vs[0].place, f"({0 if m == 'set_zero' else 1} : E.{st})", cx, lambda c: k(c, UNIT))
            b = m[:-len("_in_place")]
            return tr.read(vs[0].place, cx, lambda c, x: tr.write(vs[0].place, f[b](P(tr.val(x))), c, lambda c: k(c, vs[0])))
    ops = {"Add::add": "+", "Sub::sub": "-"}
    if key.startswith("core::ops::arith::"):
        base = tm.replace("Assign", "").replace("_assign", "")
        rt = tr.tykey(args[1]) if len(args) > 1 else st
        assign = "Assign" in tm
        if st in ALG and base in ("Add::add", "Sub::sub") and rt == st:
            f = lambda a, b: f"({a} {ops[base]} {b})"
        elif st == "Fr" and rt == "Fr" and base == "Mul::mul":
            f = lambda a, b: f"({a} * {b})"
        elif st == "Fr" and rt == "Fr" and base == "Div::div":
            if assign:
                raise Unsupported("/=")
            return evall(lambda c, xs: tr.bind(f"divR {xs[0]} {xs[1]}", "d", lambda n: k(c, V(n))))
        elif st in ("G1", "G2", "GT") and rt == "Fr" and base == "Mul::mul":
            f = lambda a, b: f"({b} • {a})"
        elif st in ALG and base == "Neg::neg":
            return ev(0, lambda c, x: k(c, V(f"(-{x})")))
        elif st in ("usize", "u64") and rt == st and base in ("Add::add", "Mul::mul"):
            f = lambda a, b: f"({a} {'+' if base == 'Add::add' else '*'} {b})"
        elif st in ("usize", "u64") and rt == st and base in ("Sub::sub", "Div::div", "Rem::rem") and not assign:
            o = {"Sub::sub": "subR", "Div::div": "divNR", "Rem::rem": "modNR"}[base]
            return evall(lambda c, xs: tr.bind(f"{o} {xs[0]} {xs[1]}", "d", lambda n: k(c, V(n))))
        else:
            raise Unsupported(f"{tm} on {st}, {rt}")
        if not assign:
            return evall(lambda c, xs: k(c, V(f(xs[0], xs[1]))))
        if not isinstance(vs[0], Ref):
            raise Unsupported("assignment target")
        return ev(1, lambda c, y: tr.read(vs[0].place, c, lambda c, x: tr.write(
            vs[0].place, f(P(tr.val(x)), y), c, lambda c: k(c, UNIT))))
    if m == "into_bigint" and st == "Fr":
        return ev(0, lambda c, x: k(c, V(x)))
    if m == "from_bigint" and st == "Fr":
        return ev(0, lambda c, x: k(c, V(f"(some {x})")))
    if m == "mul_bigint" and st in ("G1", "G2") and len(args) > 1 and tr.tykey(args[1]) == "BigInt":
        return evall(lambda c, xs: k(c, V(f"({xs[1]} • {xs[0]})")))
    if m in ("msm", "msm_unchecked") and st in ("G1", "G2"):
        # zip of bases and scalars (both orders of length are truncated by msm_unchecked)
        r = lambda xs: f"(List.sum (List.map (fun p => p.2 • p.1) (List.zip {xs[0]} {xs[1]})))"
        if m == "msm_unchecked":
            return evall(lambda c, xs: k(c, V(r(xs))))
        return evall(lambda c, xs: k(c, V(f"(msmR {xs[0]} {xs[1]})")))
    if m == "pow" and st == "Fr" and len(args) > 1 and strip(args[1])[0] == "array" and strip(args[1])[2].split("_")[0] == "1":
        return evall(lambda c, xs: k(c, V(f"({xs[0]} ^ (List.headD {xs[1]} 0))")))
    if m == "default" and key == "core::default::Default::default":
        if st in ("Fr", "usize", "u64"):
            return k(cx, V("(0 : E.Fr)" if st == "Fr" else "0"))
        if is_list(args[0]) and args[0][0] != "array":
            return k(cx, V(f"([] : {tr.lean_ty(args[0])})"))
        if st == "bool":
            return k(cx, V("false"))
    if m in ("saturating_sub", "checked_sub", "div_ceil") and key.startswith("core::num") and aty(0) and tr.tykey(aty(0)) in ("usize", "u64", "u32", "u8"):
        f = {"saturating_sub": "({0} - {1})", "checked_sub": "(if {1} ≤ {0} then some ({0} - {1}) else none)"}.get(m)
        if m == "div_ceil":
            return evall(lambda c, xs: tr.bind(f"divNR ({xs[0]} + {xs[1]} - 1) {xs[1]}", "d", lambda n: k(c, V(n))))
        return evall(lambda c, xs: k(c, V(f.format(xs[0], xs[1]))))
    if key == "core::convert::identity":
        return evall(lambda c, xs: k(c, V(xs[0])))
    if key in ("core::mem::size_of", "core::mem::align_of") and not vs:
        return k(cx, V(f'(someN "{m} {tr.tykey(args[0])}")'))
    if m == "sum_of_products":
        raise Unsupported(key)

    # ---------------------------------------------------------------- comparisons
    if tm in ("PartialEq::eq", "PartialEq::ne") or (m in ("eq", "ne") and "partial_eq" in key) or (m in ("eq", "ne") and seg[0] in ("core", "alloc")):
        t = args[0]
        if strip(t)[0] == "adt" and strip(t)[1] in ("std::option::Option", "std::result::Result") and haslocal(tr, t):
            raise Unsupported("equality of options")
        if is_list(strip(aty(0) or t)):
            t = aty(0) or t
        neg = m == "ne"
        if strip(t)[0] in ("uint", "bool", "int"):
            return evall(lambda c, xs: k(c, V(f"({'!' if neg else ''}decide ({xs[0]} = {xs[1]}))")))
        return evall(lambda c, xs: eq_res(tr, t, xs[0], xs[1], lambda x: k(c, V(f"(!{x})" if neg else x))))
    if tm in ("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge") and st in ("usize", "u64", "u32", "u8"):
        o = {"lt": "<", "le": "≤", "gt": ">", "ge": "≥"}[m]
        return evall(lambda c, xs: k(c, V(f"(decide ({xs[0]} {o} {xs[1]}))")))
    if key.startswith("core::cmp::Ord::") and m in ("min", "max") and st in ("usize", "u64", "u32", "u8"):
        return evall(lambda c, xs: k(c, V(f"({m} {xs[0]} {xs[1]})")))
    if key in ("core::cmp::min", "core::cmp::max") and st in ("usize", "u64"):
        return evall(lambda c, xs: k(c, V(f"({m} {xs[0]} {xs[1]})")))

    # ---------------------------------------------------------------- serialization
    def io(i, ff):
        return call_io(tr, vs[i], ff, cx, k)
    if tm in ("Write::write_all", "Write::flush", "Read::read_exact") and seg[0] in ("ark_std", "std", "ark_serialize"):
        if m == "flush":
            return k(cx, V("(Except.ok () : Except SerErr Unit)"))
        if m == "write_all":
            return ev(1, lambda cc, b: call_io(tr, vs[0], lambda w: f"Res.ok ((Except.ok () : Except SerErr Unit), {w} ++ {b})", cc, k))
        if isinstance(vs[1], Ref):
            def rd(c, b):
                b = P(tr.val(b))
                def fin(c, r):
                    n = tr.fresh("r")
                    return f"Res.bind (Res.ok {tr.val(r)}) fun {n} =>\n" + tr.write(vs[1].place, n + ".2", c, lambda c: k(c, V(n + ".1")))
                return call_io(tr, vs[0], lambda r: f"readExact {b} {r}", c, fin)
            return tr.read(vs[1].place, cx, rd)
    if seg[0] == "ark_serialize" and seg[-2] in ("CanonicalSerialize", "CanonicalDeserialize", "Valid"):
        t = args[0]
        C = {"serialize_compressed": "Compress.Yes", "serialize_uncompressed": "Compress.No",
             "compressed_size": "Compress.Yes", "uncompressed_size": "Compress.No"}
        if m in ("serialize_with_mode", "serialize_compressed", "serialize_uncompressed"):
            c = A(2) if m == "serialize_with_mode" else C[m]
            if isinstance(vs[0], Ref):
                return tr.read(vs[0].place, cx, lambda cc, x: call(tr, fn, [x] + vs[1:], aes, cc, k, e))
            return io(1, lambda w: f"{ser_fn(tr, t, c)} {A(0)} {w}")
        if m in ("serialized_size", "compressed_size", "uncompressed_size"):
            c = A(1) if m == "serialized_size" else C[m]
            return ev(0, lambda cc, x: tr.bind(f"{sz_fn(tr, t, c)} {x}", "n", lambda n: k(cc, V(n))))
        D = {"deserialize_compressed": ("Yes", "Yes"), "deserialize_compressed_unchecked": ("Yes", "No"),
             "deserialize_uncompressed": ("No", "Yes"), "deserialize_uncompressed_unchecked": ("No", "No")}
        if m == "deserialize_with_mode":
            return io(0, lambda r: f"{de_fn(tr, t, A(1), A(2))} {r}")
        if m in D:
            return io(0, lambda r: f"{de_fn(tr, t, 'Compress.' + D[m][0], 'Validate.' + D[m][1])} {r}")
        if m == "check":
            return ev(0, lambda c, x: tr.bind(f"{chk_fn(tr, t)} {x}", "c", lambda n: k(c, V(n))))
        if m == "batch_check":
            return ev(0, lambda c, x: tr.bind(f"{batch_fn(tr, t)} {x}", "c", lambda n: k(c, V(n))))
    if key in ("core::fmt::format",) or seg[0:2] == ["core", "fmt"] or key.startswith("alloc::fmt") or key.startswith("std::io::stdio"):
        return k(cx, UNIT)
    raise Unsupported(f"library function {key}" + (f" on {st}" if st else ""))


def call_io(tr, v, ff, cx, k):
    """call ff(bytes) -> Lean term of type Res (α × Bytes), on the reader or writer v"""
    def go(c, x, wr):
        n = tr.fresh("r")
        return f"Res.bind ({ff(tr.paren(tr.val(x)))}) fun {n} =>\n" + wr(c, n)
    if isinstance(v, Ref):
        return tr.read(v.place, cx, lambda c, x: go(c, x, lambda c, n: tr.write(
            v.place, n + ".2", c, lambda c: k(c, V(n + ".1")))))
    return go(cx, v, lambda c, n: k(c, V(n + ".1")))


def rangev(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "range"


def vec_call(tr, key, m, tm, fn, vs, aes, cx, k, e, ev, evall, aty):
    P = tr.paren
    args = fn["args"]

    def place(i, kk):
        v = vs[i]
        if isinstance(v, Ref):
            return tr.read(v.place, cx, lambda c, x: tr.dv(x, c, lambda c, y: kk(c, P(y), lambda c, nx, k2: tr.write(v.place, nx, c, k2))))
        raise Unsupported(f"{m} on a temporary")

    if tm in ("Index::index", "IndexMut::index_mut"):
        ixt = strip(aty(1)) if aty(1) else strip(args[1])
        if tm == "IndexMut::index_mut" and isinstance(vs[0], Ref):
            if ixt[0] == "uint":
                return ev(1, lambda c, i: k(c, Ref(Place(vs[0].place.root, vs[0].place.path + [("i", i)], e["ty"]))))
            raise Unsupported("mutable slice")
        if ixt[0] == "uint":
            return evall(lambda c, xs: tr.bind(f"idxR {xs[0]} {xs[1]}", "x", lambda n: k(c, V(n))))
        def lo_hi(c, l):
            v = vs[1]
            if rangev(v):
                if v[1] == "RangeFull":
                    return k(c, V(l))
                if v[1] == "RangeFrom":
                    return tr.bind(f"sliceR {l} {P(v[2][0])} (List.length {l})", "l", lambda n: k(c, V(n)))
                if v[1] == "RangeTo":
                    return tr.bind(f"sliceR {l} 0 {P(v[2][0])}", "l", lambda n: k(c, V(n)))
                if v[1] == "RangeInclusive":
                    return tr.bind(f"sliceR {l} {P(v[2][0])} ({v[2][1]} + 1)", "l", lambda n: k(c, V(n)))
            x = P(tr.val(v))
            return tr.bind(f"sliceR {l} (URange.lo {x}) (URange.hi {x})", "l", lambda n: k(c, V(n)))
        return ev(0, lo_hi)
    if m in ("new", "with_capacity") and key.startswith("alloc::vec"):
        t = e["ty"] if e else None
        if t is None:
            et = args[0]
            return k(cx, V(f"([] : List {tr.lean_ty(et)})"))
        return k(cx, V(f"([] : {tr.lean_ty(t)})"))
    if m == "len":
        return ev(0, lambda c, x: k(c, V(f"(List.length {x})")))
    if m == "is_empty":
        return ev(0, lambda c, x: k(c, V(f"(List.isEmpty {x})")))
    if m == "capacity":
        raise Unsupported(key)
    if m in ("reserve", "reserve_exact", "shrink_to_fit"):
        return k(cx, UNIT)
    if m == "push":
        return tr.dv(vs[1], cx, lambda c, x: tr.read(vs[0].place, c, lambda c, l: tr.write(
            vs[0].place, f"(push {P(tr.val(l))} {P(x)})", c, lambda c: k(c, UNIT)))) if isinstance(vs[0], Ref) else None
    if m == "append":
        if isinstance(vs[0], Ref) and isinstance(vs[1], Ref):
            return tr.read(vs[1].place, cx, lambda c, b: tr.read(vs[0].place, c, lambda c, a: tr.write(
                vs[0].place, f"({P(tr.val(a))} ++ {P(tr.val(b))})", c, lambda c: tr.write(
                    vs[1].place, f"([] : {tr.lean_ty(vs[1].place.ty if vs[1].place.ty else aty(1))})", c, lambda c: k(c, UNIT)))))
        # appending a temporary
        if isinstance(vs[0], Ref):
            return tr.dv(vs[1], cx, lambda c, x: tr.read(vs[0].place, c, lambda c, l: tr.write(
                vs[0].place, f"({P(tr.val(l))} ++ {P(x)})", c, lambda c: k(c, UNIT))))
        return None
    if m in ("extend_from_slice", "extend") and isinstance(vs[0], Ref):
        return tr.dv(vs[1], cx, lambda c, x: tr.read(vs[0].place, c, lambda c, l: tr.write(
            vs[0].place, f"({P(tr.val(l))} ++ {P(x)})", c, lambda c: k(c, UNIT))))
    if m == "drain" and isinstance(vs[0], Ref):
        if rangev(vs[1]) and vs[1][1] == "RangeFull":
            return place(0, lambda c, x, w: tr.letv(x, "d", lambda n: w(
                c, f"([] : {tr.lean_ty(vs[0].place.ty or aty(0))})", lambda c: k(c, Iter(n)))))
        if rangev(vs[1]) or aty(1) and strip(aty(1))[1] == "std::ops::Range":
            def f(c, x, w):
                if not rangev(vs[1]):
                    r = P(tr.val(vs[1]))
                    lo, hi = f"(URange.lo {r})", f"(URange.hi {r})"
                else:
                    lo = P(vs[1][2][0]) if vs[1][1] in ("RangeFrom", "RangeInclusive") else "0"
                    hi = f"(List.length {x})" if vs[1][1] == "RangeFrom" else P(vs[1][2][0]) if vs[1][1] == "RangeTo" else f"({vs[1][2][1]} + 1)"
                return tr.bind(f"drainR {x} {lo} {hi}", "d", lambda n: w(c, n + ".2", lambda c: k(c, Iter(n + ".1"))))
            return place(0, f)
        raise Unsupported("partial drain")
    if m == "clear" and isinstance(vs[0], Ref):
        return place(0, lambda c, x, w: w(c, f"([] : {tr.lean_ty(vs[0].place.ty or aty(0))})", lambda c: k(c, UNIT)))
    if m == "truncate" and isinstance(vs[0], Ref):
        return ev(1, lambda c, n: place(0, lambda c, x, w: w(c, f"(List.take {n} {x})", lambda c: k(c, UNIT))))
    if m == "pop" and isinstance(vs[0], Ref):
        def f(c, x, w):
            n = tr.fresh("p")
            return f"let {n} := List.getLast? {x}\n" + w(c, f"(List.dropLast {x})", lambda c: k(c, V(n)))
        return place(0, f)
    if m == "reverse" and isinstance(vs[0], Ref):
        return place(0, lambda c, x, w: w(c, f"(List.reverse {x})", lambda c: k(c, UNIT)))
    if m == "swap" and isinstance(vs[0], Ref):
        return tr.dvs(vs[1:], cx, lambda c, ij: place(0, lambda c, x, w: tr.bind(
            f"swapR {x} {P(ij[0])} {P(ij[1])}", "l", lambda n: w(c, n, lambda c: k(c, UNIT)))))
    if m == "remove" and isinstance(vs[0], Ref):
        return ev(1, lambda c, i: place(0, lambda c, x, w: tr.bind(f"idxR {x} {i}", "x", lambda n: w(
            c, f"(List.eraseIdx {x} {i})", lambda c: k(c, V(n))))))
    if m == "insert" and isinstance(vs[0], Ref):
        return tr.dvs(vs[1:], cx, lambda c, ys: place(0, lambda c, x, w: tr.bind(
            f"insertR {x} {P(ys[0])} {P(ys[1])}", "l", lambda n: w(c, n, lambda c: k(c, UNIT)))))
    if m == "split_off" and isinstance(vs[0], Ref):
        return ev(1, lambda c, i: place(0, lambda c, x, w: tr.bind(
            f"splitOffR {x} {i}", "l", lambda n: w(c, n + ".1", lambda c: k(c, V(n + ".2"))))))
    if m in ("chunks", "windows", "chunks_exact"):
        f = {"chunks": "chunksR", "windows": "windowsR", "chunks_exact": "chunksExactR"}[m]
        return evall(lambda c, xs: tr.bind(f"{f} {xs[0]} {xs[1]}", "l", lambda n: k(c, Iter(n))))
    if m in ("split_first", "split_last"):
        return ev(0, lambda c, x: k(c, V(f"({'splitFirst' if m == 'split_first' else 'splitLast'} {x})")))
    if m == "fill" and isinstance(vs[0], Ref):
        return ev(1, lambda c, y: place(0, lambda c, x, w: w(c, f"(vec (List.length {x}) fun _ => {y})", lambda c: k(c, UNIT))))
    if m in ("copy_from_slice", "clone_from_slice") and isinstance(vs[0], Ref):
        return ev(1, lambda c, y: place(0, lambda c, x, w: tr.bind(
            f"copyR {x} {y}", "l", lambda n: w(c, n, lambda c: k(c, UNIT)))))
    if m == "contains" and strip(args[0])[0] == "uint":
        return evall(lambda c, xs: k(c, V(f"(decide ({xs[1]} ∈ {xs[0]}))")))
    if m in ("first", "last"):
        return ev(0, lambda c, x: k(c, V(f"(List.head? {x})" if m == "first" else f"(List.getLast? {x})")))
    if m == "get":
        t = strip(aty(1)) if aty(1) else None
        if t and t[0] == "uint":
            return evall(lambda c, xs: k(c, V(f"(getOpt {xs[0]} {xs[1]})")))
        raise Unsupported("get(range)")
    if m == "from_elem":
        cloneable(tr, args[0])
        return evall(lambda c, xs: k(c, V(f"(vec {xs[1]} fun _ => {xs[0]})")))
    if m == "resize_with" and isinstance(vs[0], Ref):
        return tr.dv(vs[1], cx, lambda c, y: tr.read(vs[0].place, c, lambda c, x0: tr.force(
            Iter(f"(URange.toList (URange.mk 0 ({P(y)} - List.length {P(tr.val(x0))})))", [Ign(vs[2])]), c,
            lambda c, l: tr.read(vs[0].place, c, lambda c, x: tr.write(
                vs[0].place, f"(List.take {P(y)} {P(tr.val(x))} ++ {P(l)})", c, lambda c: k(c, UNIT))))))
    if m == "resize" and isinstance(vs[0], Ref):
        return tr.dvs(vs[1:], cx, lambda c, ys: place(0, lambda c, x, w: w(
            c, f"(resize {x} {P(ys[0])} {P(ys[1])})", lambda c: k(c, UNIT))))
    if m == "split_at":
        return evall(lambda c, xs: tr.bind(f"sliceR {xs[0]} 0 {xs[1]}", "l", lambda a: k(c, V(f"({a}, List.drop {xs[1]} {xs[0]})"))))
    if m == "concat":
        return ev(0, lambda c, x: k(c, V(f"(List.flatten {x})")))
    if m in ("iter",):
        if isinstance(vs[0], Ref):
            return tr.read(vs[0].place, cx, lambda c, x: k(c, Iter(tr.val(x))))
        return ev(0, lambda c, x: k(c, Iter(x)))
    if m == "iter_mut" and isinstance(vs[0], Ref):
        return k(cx, Iter(None, [], vs[0].place))
    if m in ("into_iter",):
        return ev(0, lambda c, x: k(c, Iter(x)))
    return None


def itemtype(t):
    """Item type of an iterator type when it is written in the type"""
    return None


def elty(t):
    """the type of the elements of a list type"""
    while t[0] == "ref":
        t = t[2]
    return t[1] if t[0] in ("array", "slice") else t[2][0]


def iter_call(tr, key, m, fn, vs, aes, cx, k, e, ev, evall, aty):
    P = tr.paren
    v = vs[0] if vs else None
    args = fn["args"]

    def it(i, kk, c=None):
        """force iterator argument i to a Lean list"""
        eff = m in ("collect", "sum", "product", "fold", "for_each", "extend", "unzip", "from_iter")
        c = c or cx
        x = vs[i]
        t = aty(i)
        if t is not None and not isinstance(x, Iter):
            if isinstance(x, Ref):
                if not listy(x.place.ty):
                    raise Unsupported("iterator used by reference")
                return tr.read(x.place, c, lambda c, y: tr.force(tr.as_iter(y, t), c, lambda c, l: kk(c, P(l)), eff))
            x = tr.as_iter(x, t)
        return tr.force(x, c, lambda c, l: kk(c, P(l)), eff)

    def as_it(x, i):
        if isinstance(x, Iter):
            return x
        t = aty(i)
        return tr.as_iter(x, t)

    if m == "cloned" and e:
        for x in args:
            cloneable(tr, x)
    if isinstance(v, Ref) and not v.place.path and isinstance(cx.vars.get(v.place.root), Inf):
        raise Unsupported("endless iterator used by reference")
    if m == "repeat_with" and len(vs) == 1:
        return k(cx, Inf(lambda n: f"(URange.toList (URange.mk 0 {n}))", [Ign(vs[0])]))
    if m == "repeat" and len(vs) == 1:
        return ev(0, lambda c, x: k(c, Inf(lambda n: f"(vec {n} fun _ => {x})")))
    if isinstance(v, tuple) and v and v[0] == "range" and v[1] == "RangeFrom":
        v = as_it(v, 0)
    if isinstance(v, Inf):
        if m == "take":
            return ev(1, lambda c, n: k(c, Iter(v.mk(n), v.stages)))
        if m == "map":
            return k(cx, Inf(v.mk, v.stages + [vs[1]]))
        if m in ("into_iter", "copied", "cloned"):
            return k(cx, v)
        if m == "zip" and not v.stages:
            return it(1, lambda c, r: k(c, Iter(f"(List.zip {v.mk(f'(List.length {r})')} {r})")))
        raise Unsupported(f"{m} of an endless iterator")
    if m == "zip" and len(vs) == 2 and not isinstance(vs[1], (Iter, Ref)):
        w = as_it(vs[1], 1) if aty(1) else vs[1]
        if isinstance(w, Inf):
            return it(0, lambda c, l: tr.force(Iter(w.mk(f"(List.length {l})"), w.stages), c, lambda c, r: k(
                c, Iter(f"(List.zip {l} {P(r)})")), False))
    if m in ("copied", "cloned", "by_ref", "with_min_len", "with_max_len", "fuse", "into_iter"):
        return k(cx, as_it(v, 0))
    if m == "map":
        x = as_it(v, 0)
        if x.mutplace:
            raise Unsupported("map over iter_mut")
        # closures capture by value or reference; the pending stage is evaluated when consumed
        return k(cx, Iter(x.base, x.stages + [vs[1]]))
    if m == "collect":
        t = e["ty"] if e else None
        if t and not is_list(t):
            if t[0] == "adt" and t[1] == "std::result::Result" and is_list(t[2][0]):
                return it(0, lambda c, l: k(c, V(f"(collectExc {l})")))
            if t[0] == "adt" and t[1] == "std::option::Option" and is_list(t[2][0]):
                return it(0, lambda c, l: k(c, V(f"(collectOpt {l})")))
            raise Unsupported("collect into " + tr.tykey(t))
        return it(0, lambda c, l: k(c, V(l)))
    if m in ("sum", "product"):
        t = e["ty"] if e else args[-1]
        key2 = local_method(tr, t, "Sum", "sum") if m == "sum" else None
        if key2:
            return it(0, lambda c, l: tr.bind(f"{usel(tr, key2)} E {l}", "s", lambda n: k(c, V(n))))
        ty = tr.tykey(t)
        if ty in ("Fr", "G1", "G2", "GT", "usize", "u64"):
            if m == "sum":
                return it(0, lambda c, l: k(c, V(f"(List.sum {l})")))
            if ty in ("Fr", "usize", "u64"):
                return it(0, lambda c, l: k(c, V(f"(List.prod {l})")))
        raise Unsupported(f"{m} of {ty}")
    if m == "fold" and len(vs) == 3 and "rayon" not in key:
        def kk(c, l):
            lam, muts = tr.lam(vs[2], 2, c)
            if not muts:
                return ev(1, lambda c, s: tr.bind(f"foldR ({lam}) {s} {l}", "s", lambda n: k(c, V(n))), c)
            raise Unsupported("fold with side effects")
        return it(0, kk)
    if m == "reduce" and "rayon" not in key and len(vs) == 2:
        def kr(c, l):
            lam, muts = tr.lam(vs[1], 2, c)
            if muts:
                raise Unsupported("reduce with side effects")
            return tr.bind(f"reduceR ({lam}) {l}", "s", lambda n: k(c, V(n)))
        return it(0, kr)
    if m == "reduce" and "rayon" in key and len(vs) == 3:
        # parallel reduction: sound only for an associative operation with neutral element; the model
        # evaluates it left to right, and `reduceOk` makes the proof show both laws hold
        def kr(c, l):
            lam, muts = tr.lam(vs[2], 2, c)
            if muts:
                raise Unsupported("parallel reduce with side effects")
            return tr.apply(vs[1], [], c, lambda c, s: tr.dv(s, c, lambda c, s: tr.bind(
                f"parReduceR ({lam}) {P(s)} {l}", "s", lambda n: k(c, V(n)))))
        return it(0, kr)
    if m == "for_each" and "rayon" not in key and not (isinstance(v, Iter) and v.mutplace):
        def kk(c, l):
            lam, muts = tr.lam(vs[1], 1, c)
            if not muts:
                return tr.bind(f"mapR ({lam}) {l}", "u", lambda n: k(c, UNIT))
            return tr.emit_for(l, None, None, c, k, lambda x, c, k: k(c.set("element", V(x))),
                               lambda c, k: tr.apply(vs[1], [c.vars["element"]], c, lambda c2, v: k(c2, UNIT)), drop=("element",))
        return it(0, kk)
    def cell(pl, i):
        return Ref(Place(pl.root, pl.path + [("i", i)], elty(pl.ty)))
    if m == "for_each" and isinstance(v, Iter) and v.mutplace:
        f = vs[1]
        def go(c, base, shape):
            return tr.emit_for(base, None, None, c, k, lambda x, c, k: k(c.set("cell arg", shape(x))),
                               lambda c, k: tr.apply(f, [c.vars["cell arg"]], c, lambda c2, v: k(c2, UNIT)), drop=("cell arg",))
        if v.shape:
            return go(cx, v.base, v.shape)
        return tr.read(v.mutplace, cx, lambda c, x: go(c, f"(URange.toList (URange.mk 0 (List.length {P(tr.val(x))})))", lambda i: cell(v.mutplace, i)))
    if m in ("enumerate", "zip") and isinstance(v, Iter) and v.mutplace and not v.shape:
        def idx(c, x):
            n = f"(URange.toList (URange.mk 0 (List.length {P(tr.val(x))})))"
            if m == "enumerate":
                return k(c, Iter(n, [], v.mutplace, lambda i: (V(i), cell(v.mutplace, i))))
            return it(1, lambda c, r: k(c, Iter(f"(List.zip {n} {r})", [], v.mutplace, lambda i: (cell(v.mutplace, i + ".1"), V(i + ".2")))), c)
        return tr.read(v.mutplace, cx, idx)
    if m == "zip" and isinstance(vs[1], Iter) and vs[1].mutplace and not vs[1].shape:
        w = vs[1]
        return it(0, lambda c, l: tr.read(w.mutplace, c, lambda c, x: k(c, Iter(
            f"(List.zip {l} (URange.toList (URange.mk 0 (List.length {P(tr.val(x))}))))", [], w.mutplace, lambda i: (V(i + ".1"), cell(w.mutplace, i + ".2"))))))
    if m == "enumerate":
        return it(0, lambda c, l: k(c, Iter(f"(enum {l})")))
    if m in ("eq", "ne") and key.startswith("core::iter") and len(vs) == 2:
        et = elem(strip(args[0]))
        if et is None or haslocal(tr, et) or not aty(1) or elem(strip(aty(1))) is None or tr.tykey(elem(strip(aty(1)))) != tr.tykey(et):
            raise Unsupported("equality of iterators")
        tr.lean_ty(et)
        return it(0, lambda c, l: it(1, lambda c, r: k(c, V(f"({'!' if m == 'ne' else ''}decide ({l} = {r}))")), c))
    if m == "zip":
        return it(0, lambda c, l: it(1, lambda c, r: k(c, Iter(f"(List.zip {l} {r})")), c))
    if m == "chain":
        return it(0, lambda c, l: it(1, lambda c, r: k(c, Iter(f"({l} ++ {r})")), c))
    if m == "rev":
        return it(0, lambda c, l: k(c, Iter(f"(List.reverse {l})")))
    if m == "take" and isinstance(v, Iter) and v.stages and not v.mutplace:
        for st in v.stages:
            if tr.lam(st, 1, cx)[1]:
                raise Unsupported("iterator stages with side effects")
        return ev(1, lambda c, n: k(c, Iter(f"(List.take {n} {v.base})", v.stages)))
    if m == "take":
        return it(0, lambda c, l: ev(1, lambda c, n: k(c, Iter(f"(List.take {n} {l})")), c))
    if m == "skip":
        return it(0, lambda c, l: ev(1, lambda c, n: k(c, Iter(f"(List.drop {n} {l})")), c))
    if m in ("count", "len"):
        return it(0, lambda c, l: k(c, V(f"(List.length {l})")))
    if m == "last":
        return it(0, lambda c, l: k(c, V(f"(List.getLast? {l})")))
    if m == "nth":
        return it(0, lambda c, l: ev(1, lambda c, n: k(c, V(f"(getOpt {l} {n})")), c))
    if m in ("all", "any", "find", "position", "take_while", "skip_while", "map_while", "partition"):
        def kk(c, l, stages=()):
            lam, muts = tr.lam(Comp(list(stages) + [vs[1]]), 1, c)
            if muts:
                raise Unsupported(f"side effects in {m}")
            if m in ("all", "any"):
                return tr.bind(f"{m}R ({lam}) {l}", "b", lambda n: k(c, V(n)))
            if m == "find":
                return tr.bind(f"findR ({lam}) {l}", "o", lambda n: k(c, V(n)))
            if m == "position":
                return tr.bind(f"positionR ({lam}) {l} 0", "o", lambda n: k(c, V(n)))
            if m == "take_while":
                return tr.bind(f"takeWhileR ({lam}) {l}", "l", lambda n: k(c, Iter(n)))
            if m == "skip_while":
                return tr.bind(f"skipWhileR ({lam}) {l}", "l", lambda n: k(c, Iter(n)))
            if m == "partition":
                return tr.bind(f"filterR ({lam}) {l}", "l", lambda n: tr.bind(
                    f"filterR (fun x => Res.bind (({lam}) x) fun b => ok (! b)) {l}", "r", lambda r: k(c, (V(n), V(r)))))
            raise Unsupported(f"Iterator::{m}")
        if m in ("all", "any") and isinstance(v, Iter) and v.stages and not v.mutplace:
            for st in v.stages:
                if tr.lam(st, 1, cx)[1]:
                    raise Unsupported("iterator stages with side effects")
            return kk(cx, v.base, v.stages)
        return it(0, kk)
    if m == "step_by":
        return it(0, lambda c, l: ev(1, lambda c, n: tr.bind(f"stepByR {l} {n}", "l", lambda x: k(c, Iter(x))), c))
    if m == "filter_map" and "rayon" not in key:
        def kk(c, l):
            lam, muts = tr.lam(vs[1], 1, c)
            if muts:
                raise Unsupported("side effects in filter_map")
            return tr.bind(f"filterMapR ({lam}) {l}", "l", lambda n: k(c, Iter(n)))
        return it(0, kk)
    if m == "filter" and "rayon" not in key:
        def kk(c, l):
            lam, muts = tr.lam(vs[1], 1, c)
            if muts:
                raise Unsupported("side effects in filter")
            return tr.bind(f"filterR ({lam}) {l}", "l", lambda n: k(c, Iter(n)))
        return it(0, kk)
    if m in ("flat_map", "flatten"):
        def kk(c, l):
            if m == "flatten":
                return k(c, Iter(f"(List.flatten {l})"))
            lam, muts = tr.lam(vs[1], 1, c)
            if muts:
                raise Unsupported("side effects in flat_map")
            return tr.bind(f"mapR ({lam}) {l}", "l", lambda n: k(c, Iter(f"(List.flatten {n})")))
        return it(0, kk)
    if m == "unzip":
        return it(0, lambda c, l: k(c, V(f"(List.unzip {l})")))
    if m == "next":
        if isinstance(v, Iter) and not v.mutplace:
            return tr.force_pure(v, cx, lambda c, l: k(c, V(f"(List.head? {l})")))
        if isinstance(v, Ref) and not v.place.path and not listy(v.place.ty):
            cur = cx.vars.get(v.place.root)
            if isinstance(cur, V):
                cur = tr.as_iter(cur, v.place.ty)
                if cur.base.startswith("(URange"):
                    raise Unsupported("Range::next")
            if isinstance(cur, Iter) and not cur.mutplace:
                def kn(c, l):
                    n = tr.fresh("h")
                    return f"let {n} := {l}\n" + k(c.set(v.place.root, Iter(f"(List.drop 1 {n})")), V(f"(List.head? {n})"))
                return tr.force_pure(cur, cx, kn)
        raise Unsupported("Iterator::next")
    if m in ("repeat_n", "repeat"):
        if m == "repeat_n":
            return evall(lambda c, xs: k(c, Iter(f"(vec {xs[1]} fun _ => {xs[0]})")))
    if m == "from_fn":
        raise Unsupported(key)
    if m == "once":
        return evall(lambda c, xs: k(c, Iter(f"(lit1 {xs[0]})")))
    if m == "extend" and isinstance(v, Ref):
        return tr.read(v.place, cx, lambda c0, l0: tr.force(as_it(vs[1], 1) if not isinstance(vs[1], Ref) else vs[1], c0, lambda c, l: tr.read(v.place, c, lambda c, l1: tr.write(
            v.place, f"({P(tr.val(l1))} ++ {P(l)})", c, lambda c: k(c, UNIT)))))
    if m in ("from_iter",):
        return it(0, lambda c, l: k(c, V(l)))
    return None
