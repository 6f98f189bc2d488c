"""Summaries of the standard-library functions the crate (and plausible edits of it) use."""
import re
from .poly import *
from .poly import atom as patom
from .prog import last


_kc = {}


def split(p):
    out, d, seg, i = [], 0, "", 0
    while i < len(p):
        ch = p[i]
        if ch == "<":
            d += 1
        elif ch == ">" and p[i - 1] != "-":
            d -= 1
        if d == 0 and p.startswith("::", i):
            out.append(seg)
            seg = ""
            i += 2
            continue
        seg += ch
        i += 1
    out.append(seg)
    return out


def strip(s):
    i = s.find("<")
    return s if i < 0 else s[:i]


INTN = {"usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}


def key(p):
    if p in _kc:
        return _kc[p]
    segs = split(p)
    name = strip(segs[-1])
    rest = segs[:-1]
    owner = ""
    while rest:
        s = rest[-1]
        if s.startswith("<impl "):
            x = s[6:-1]
            if " for " in x:
                tr, ty = x.split(" for ", 1)
                owner = strip(last(tr))
            elif x == "[T]" or x.startswith("["):
                owner = "array" if ";" in x else "slice"
            elif x.startswith("*"):
                owner = "const_ptr" if x.startswith("*const") else "mut_ptr"
            elif x in INTN:
                owner = "int"
            elif x in ("f32", "f64"):
                owner = "float"
            else:
                owner = strip(last(x))
            break
        if s.startswith("<"):
            x = s[1:-1]
            if " as " in x:
                owner = strip(last(x.split(" as ", 1)[1]))
                break
            rest = rest[:-1]
            continue
        owner = strip(s)
        break
    r = (owner, name)
    _kc[p] = r
    return r


def unref(I, s, v):
    """scalar behind references"""
    from .interp import Ref
    n = 0
    while isinstance(v, Ref) and n < 6:
        v = I.load(s, v.root, v.path)
        n += 1
    return v


def num(I, s, v):
    return I.as_poly(unref(I, s, v))


ARITH = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b}


def is_intval(I, c, i=0):
    t = c["args"][i] if c["args"] else None
    while t and t["k"] == "ref":
        t = t["ty"]
    return bool(t) and t["k"] == "prim" and t["name"] in INTN


def is_uns(I, c, i=0):
    t = c["args"][i] if c["args"] else None
    while t and t["k"] == "ref":
        t = t["ty"]
    return bool(t) and t["k"] == "prim" and t["name"][:1] == "u"


def call(I, s, c, args, fr, sp):
    k = key(c["fn"])
    # prefer the trait view of a resolved method
    f = TABLE.get(k)
    if f is None and c.get("rfn"):
        k = key(c["rfn"])
        f = TABLE.get(k)
    if f is None:
        return NotImplemented
    if c.get("local") and "trait" not in c:
        return NotImplemented
    return f(I, s, c, args, fr, sp)


TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[tuple(n.split("::"))] = f
        return f
    return d


def local_impl(I, c):
    """a trait method of std resolved to an implementation of this crate"""
    return c.get("rlocal") or (c.get("self") and I.find_impl(c) is not None)


# ------------------------------------------------------------------ arithmetic
def _arith(name):
    def f(I, s, c, args, fr, sp):
        if local_impl(I, c):
            return NotImplemented
        a, b = num(I, s, args[0]), num(I, s, args[1])
        ints = is_intval(I, c)
        if name in ARITH:
            v = ARITH[name](a, b)
            if name == "Sub" and ints:
                I.oblig(s, "sub", ge0(v), sp, fr)
            return v
        if name == "Div":
            return (I.idiv(a, b) if is_uns(I, c) else fn("tdiv", a, b)) if ints else a * fn("recip", b)
        return mk_rem(a, b) if ints and is_uns(I, c) else fn("trem", a, b)
    return f


def _arith_assign(name):
    def f(I, s, c, args, fr, sp):
        from .interp import Ref, UNIT
        if local_impl(I, c):
            return NotImplemented
        d = args[0]
        while True:
            v = I.load(s, d.root, d.path)
            if isinstance(v, Ref):
                d = v
                continue
            break
        a, b = I.as_poly(v), num(I, s, args[1])
        ints = is_intval(I, c)
        if name in ARITH:
            r = ARITH[name](a, b)
        elif name == "Div":
            r = (I.idiv(a, b) if is_uns(I, c) else fn("tdiv", a, b)) if ints else a * fn("recip", b)
        else:
            r = mk_rem(a, b) if ints and is_uns(I, c) else fn("trem", a, b)
        I.store(s, d.root, d.path, r)
        return UNIT
    return f


for _n in ("Add", "Sub", "Mul", "Div", "Rem"):
    TABLE[(_n, _n.lower())] = _arith(_n)
    TABLE[(_n + "Assign", _n.lower() + "_assign")] = _arith_assign(_n)


@reg("Neg::neg")
def _(I, s, c, args, fr, sp):
    if local_impl(I, c):
        return NotImplemented
    return -num(I, s, args[0])


@reg("Not::not")
def _(I, s, c, args, fr, sp):
    from .interp import B
    v = unref(I, s, args[0])
    return B(neg(v.c)) if isinstance(v, B) else NotImplemented


@reg("MulAdd::mul_add", "float::mul_add")
def _(I, s, c, args, fr, sp):
    return num(I, s, args[0]) * num(I, s, args[1]) + num(I, s, args[2])


@reg("Zero::zero", "Float::zero")
def _(I, s, c, args, fr, sp):
    return ZERO


@reg("One::one")
def _(I, s, c, args, fr, sp):
    return ONE


@reg(*["FromPrimitive::from_" + x for x in ("f32", "f64", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")])
def _(I, s, c, args, fr, sp):
    """an element of that value: constants every element type represents (to its precision)"""
    if is_intval(I, c):
        return NotImplemented
    v = num(I, s, args[0])
    k, a = v.const(), as_atom(v)
    if k is not None:
        ok = abs(k) < 32768
    elif a is not None and a[:2] == ("fn", "lit"):
        ok = abs(float(a[2])) < 32768
    else:
        ok = "_f" not in last(c["fn"])
    from .interp import Opt
    return Opt(T, v) if ok else NotImplemented


@reg("Zero::is_zero")
def _(I, s, c, args, fr, sp):
    from .interp import B
    return B(I.compare("Eq", num(I, s, args[0]), ZERO, is_intval(I, c)))


@reg("One::is_one")
def _(I, s, c, args, fr, sp):
    from .interp import B
    return B(I.compare("Eq", num(I, s, args[0]), ONE, is_intval(I, c)))


@reg("Zero::set_zero")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT
    I.store(s, args[0].root, args[0].path, ZERO)
    return UNIT


@reg("MatrixDataType::recip", "float::recip", "Inv::inv", "Float::recip")
def _(I, s, c, args, fr, sp):
    if local_impl(I, c):
        return NotImplemented
    return fn("recip", num(I, s, args[0]))


@reg("MatrixDataType::square_root", "float::sqrt", "Float::sqrt")
def _(I, s, c, args, fr, sp):
    if local_impl(I, c):
        return NotImplemented
    return fn("sqrt", num(I, s, args[0]))


@reg("float::powi", "Float::powi", "Pow::pow")
def _(I, s, c, args, fr, sp):
    n = num(I, s, args[1]).const()
    if n is None:
        return NotImplemented
    p = num(I, s, args[0])
    return p ** n if n >= 0 else fn("recip", p ** (-n))


# ------------------------------------------------------------------ integers
def intname(c):
    m = re.search(r"impl ([ui](?:8|16|32|64|128|size))>", c.get("rfn") or c["fn"])
    return m.group(1) if m else None


def intop(op):
    def f(I, s, c, args, fr, sp):
        from .interp import Opt, fits, wrap, NARROW
        how, o = op.split("_")
        a, b = num(I, s, args[0]), num(I, s, args[1])
        v = a + b if o == "add" else a - b if o == "sub" else a * b
        n = intname(c)
        if how == "unchecked":
            if o == "sub":
                I.oblig(s, "unchecked", ge0(v), sp, fr)
            if n in NARROW:
                I.oblig(s, "unchecked", fits(n, v), sp, fr)
            return v
        if how == "wrapping":
            if n in NARROW:
                return wrap(n, v)
            if o == "sub":
                I.oblig(s, "wrap", ge0(v), sp, fr)
            return v
        if how == "saturating":
            if o == "sub" and (n is None or n[0] == "u"):
                return I.psub0(a, b)
            if n in NARROW:
                lo, hi = NARROW[n]
                v = I.pmin(v, P(hi))
                return v if lo == 0 else v + P(lo) - I.pmin(v, P(lo))
            return v
        ok = fits(n, v)
        if ok is None:
            ok = ge0(v) if o == "sub" else T
        return Opt(ok, v)
    return f


for _h in ("wrapping", "saturating", "unchecked", "checked"):
    for _o in ("add", "sub", "mul"):
        reg("int::%s_%s" % (_h, _o))(intop("%s_%s" % (_h, _o)))


@reg("int::pow")
def _(I, s, c, args, fr, sp):
    from .interp import wrap
    n = num(I, s, args[1]).const()
    return wrap(intname(c), num(I, s, args[0]) ** n) if n is not None else NotImplemented


@reg("int::div_ceil")
def _(I, s, c, args, fr, sp):
    return I.ceil_div(num(I, s, args[0]), num(I, s, args[1]))


@reg("int::abs_diff")
def _(I, s, c, args, fr, sp):
    a, b = num(I, s, args[0]), num(I, s, args[1])
    cx = I.curctx()
    return a - b if cx.entails(ge0(a - b)) else b - a if cx.entails(ge0(b - a)) else mk_ite(ge0(a - b), a - b, b - a)


@reg("int::div_euclid", "int::rem_euclid")
def _(I, s, c, args, fr, sp):
    n = intname(c)
    if n is None or n[0] != "u":
        return NotImplemented
    a, b = num(I, s, args[0]), num(I, s, args[1])
    I.oblig(s, "assert:division by zero", ne0(b), sp, fr)
    q = I.idiv(a, b)
    return q if key(c["fn"])[1] == "div_euclid" else mk_rem(a, b)


@reg("Ord::min", "int::min", "cmp::min")
def _(I, s, c, args, fr, sp):
    if not is_intval(I, c):
        return NotImplemented
    return I.pmin(num(I, s, args[0]), num(I, s, args[1]))


@reg("Ord::max", "int::max", "cmp::max")
def _(I, s, c, args, fr, sp):
    if not is_intval(I, c):
        return NotImplemented
    a, b = num(I, s, args[0]), num(I, s, args[1])
    return a + b - I.pmin(a, b)


@reg("Ord::cmp")
def _(I, s, c, args, fr, sp):
    from .interp import CmpV
    if not is_intval(I, c):
        return NotImplemented
    return CmpV(num(I, s, args[0]) - num(I, s, args[1]))


def _cmp(op):
    def f(I, s, c, args, fr, sp):
        from .interp import B, Opt, Agg, CmpV
        if local_impl(I, c):
            return NotImplemented
        a, b = unref(I, s, args[0]), unref(I, s, args[1])
        if isinstance(a, B) and isinstance(b, B):
            from .interp import cite
            e = cite(a.c, b.c, neg(b.c))
            return B(e if op == "Eq" else neg(e))
        if isinstance(a, (Agg, Opt, CmpV)) or isinstance(b, (Agg, Opt, CmpV)):
            return NotImplemented
        return B(I.compare(op, I.as_poly(a), I.as_poly(b), is_intval(I, c)))
    return f


for _o, _m, _t in (("Lt", "lt", "PartialOrd"), ("Le", "le", "PartialOrd"), ("Gt", "gt", "PartialOrd"), ("Ge", "ge", "PartialOrd"), ("Eq", "eq", "PartialEq"), ("Ne", "ne", "PartialEq")):
    TABLE[(_t, _m)] = _cmp(_o)


# ------------------------------------------------------------------ plumbing
@reg("Clone::clone", "ToOwned::to_owned")
def _(I, s, c, args, fr, sp):
    from .interp import Ref, Arr, Agg, Op, Sl
    st = c.get("self")
    if c.get("rlocal") or (st and st["k"] == "adt" and local_impl(I, c)):
        return NotImplemented
    v = I.load(s, args[0].root, args[0].path) if isinstance(args[0], Ref) else args[0]
    if isinstance(v, (Sl,)):
        return v
    if isinstance(v, Arr):
        arr = ("copy", next(I.hid))
        s.arrs[arr] = I.arr_state(s, v.arr)
        return Arr(arr, v.n)
    return v


@reg("Into::into", "From::from")
def _(I, s, c, args, fr, sp):
    if local_impl(I, c):
        return NotImplemented
    # identity conversions and unresolved generic conversions keep the value
    if key(c["fn"]) == ("Into", "into"):
        # find From impl in this crate
        tgt = c["args"][1]
        src = c["args"][0]
        for imp, it in I.prog.impl_items.get(("core::convert::From", "from"), []):
            env = {}
            if imp["self"]["k"] != "param" and I.unify(imp["self"], tgt, env) and I.unify(imp["targs"][1], src, env):
                b = I.prog.bodies.get(it["sp"])
                if b and b.get("body"):
                    return I.run_body(s, b, env, args)
        if src == tgt:
            return args[0]
        from .interp import Op
        v = args[0]
        if isinstance(v, Op):
            from .interp import fz
            return Op(v.name, fz(tgt))
        return v
    if c["args"][0] == c["args"][1]:
        return args[0]
    return NotImplemented


@reg("Default::default")
def _(I, s, c, args, fr, sp):
    from .interp import Agg
    if local_impl(I, c):
        return NotImplemented
    t = c.get("self") or {}
    if t.get("k") == "adt" and last(t["path"]) == "PhantomData":
        return Agg(t["path"], 0, ())
    if t.get("k") == "prim":
        return ZERO
    if t.get("k") == "param":
        return patom(("fn", "default", sym(t["name"])))
    return NotImplemented


def view(I, s, v):
    """slice view of an array-like reference"""
    from .interp import Ref, Arr, Sl, Op, Agg
    n = 0
    while n < 6:
        n += 1
        if isinstance(v, Sl):
            return v
        if isinstance(v, Arr):
            return Sl(v.arr, ZERO, v.n)
        if isinstance(v, Ref):
            v = I.load(s, v.root, v.path)
            continue
        if isinstance(v, Agg) and v.path == "ptr":
            b, ix = v.fields
            return Sl(b.arr, b.off + ix, b.n - ix)
        if isinstance(v, Op):
            from .interp import uz
            t = uz(v.ty)
            if t["k"] in ("param", "alias"):
                return Sl(v.name, ZERO, I.lenof(v.name))
        break
    return None


@reg("AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "Deref::deref", "DerefMut::deref_mut",
     "slice::as_mut_slice", "slice::as_slice", "array::as_slice", "array::as_mut_slice", "Vec::as_slice", "Vec::as_mut_slice", "Box::as_ref", "Box::as_mut", "Vec::into_boxed_slice", "slice::into_vec", "Vec::leak",
     "RowMajorSequentialData::as_slice", "RowMajorSequentialDataMut::as_mut_slice")
def _(I, s, c, args, fr, sp):
    from .interp import Arr, Ref
    if local_impl(I, c):
        return NotImplemented
    if key(c["fn"])[1] in ("into_boxed_slice", "into_vec"):
        return args[0]
    v = view(I, s, args[0])
    if v is None:
        return NotImplemented
    return v


@reg("mem::swap")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT, Ref
    a, b = args
    if not (isinstance(a, Ref) and isinstance(b, Ref)):
        return NotImplemented
    x, y = I.load(s, a.root, a.path), I.load(s, b.root, b.path)
    I.store(s, a.root, a.path, y)
    I.store(s, b.root, b.path, x)
    return UNIT


@reg("mem::replace")
def _(I, s, c, args, fr, sp):
    a = args[0]
    x = I.load(s, a.root, a.path)
    I.store(s, a.root, a.path, args[1])
    return x


@reg("mem::drop", "mem::forget", "hint::black_box", "cmp::Reverse", "convert::identity")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT
    return UNIT if key(c["fn"])[1] in ("drop", "forget") else args[0]


@reg("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def _(I, s, c, args, fr, sp):
    from .interp import Agg, Clo, FnV, Ref, Op
    f = args[0]
    g = f
    while isinstance(g, Ref):
        g = I.load(s, g.root, g.path)
    if isinstance(g, (Clo, FnV)):
        return I.call_closure(s, f, list(args[1].fields) if isinstance(args[1], Agg) else [args[1]], sp)
    return NotImplemented


@reg("size_of::size_of", "mem::size_of", "mem::align_of")
def _(I, s, c, args, fr, sp):
    return fn("size_of", sym(str(c["args"])))


# ------------------------------------------------------------------ slices
@reg("slice::len", "array::len", "Vec::len", "ExactSizeIterator::len", "Iterator::count")
def _(I, s, c, args, fr, sp):
    from .interp import It
    v = unref_it(I, s, args[0])
    if isinstance(v, It):
        return I.seq_len(v.seq) - v.pos - v.end
    v = view(I, s, args[0])
    return v.n if v is not None else NotImplemented


@reg("slice::is_empty", "Vec::is_empty", "ExactSizeIterator::is_empty", "Range::is_empty")
def _(I, s, c, args, fr, sp):
    from .interp import B, It, Agg
    v = unref_it(I, s, args[0])
    if isinstance(v, Agg) and last(v.path) == "Range":
        return B(ge0(I.as_poly(v.fields[0]) - I.as_poly(v.fields[1])))
    if isinstance(v, It):
        return B(ge0(-(I.seq_len(v.seq) - v.pos - v.end)))
    v = view(I, s, args[0])
    return B(eq0(v.n)) if v is not None else NotImplemented


def unref_it(I, s, v):
    from .interp import Ref
    if isinstance(v, Ref):
        try:
            return unref(I, s, v)
        except Exception:
            return v
    return v


@reg("slice::as_ptr", "slice::as_mut_ptr")
def _(I, s, c, args, fr, sp):
    return mkptr(view(I, s, args[0]), ZERO)


# raw pointers into a known storage: (storage view, element offset); every access is an obligation
def mkptr(v, ix):
    from .interp import Agg
    return Agg("ptr", 0, (v, ix)) if v is not None else NotImplemented


def asptr(I, s, v):
    from .interp import Agg, Undecided, Sl, Arr
    if isinstance(v, Agg) and v.path == "ptr":
        return v.fields
    if isinstance(v, (Sl, Arr)):
        w = view(I, s, v)
        return w, ZERO
    raise Undecided("raw pointer of unknown origin")


def deref_ptr(I, s, v, n, sp, fr):
    """place of the first of n accessed elements"""
    b, ix = asptr(I, s, v)
    I.oblig(s, "unchecked", mk_and([ge0(ix), ge0(n), ge0(b.n - n - ix)]), sp, fr)
    return b, ix


PTR = ("const_ptr", "mut_ptr", "non_null", "NonNull")


@reg(*["%s::%s" % (t, m) for t in PTR for m in ("add", "offset", "wrapping_add", "wrapping_offset", "sub", "wrapping_sub", "byte_add")])
def _(I, s, c, args, fr, sp):
    m = key(c["fn"])[1]
    if m == "byte_add":
        return NotImplemented
    b, ix = asptr(I, s, args[0])
    d = num(I, s, args[1])
    return mkptr(b, ix - d if m.endswith("sub") else ix + d)


@reg(*["%s::%s" % (t, m) for t in PTR for m in ("cast_mut", "cast_const", "as_ptr")])
def _(I, s, c, args, fr, sp):
    return args[0]


@reg(*["%s::read" % t for t in PTR], "ptr::read", *["%s::write" % t for t in PTR], "ptr::write")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT
    b, ix = deref_ptr(I, s, args[0], ONE, sp, fr)
    root, path = ("arr", b.arr), (("ix", b.off + ix),)
    if key(c["fn"])[1] == "read":
        return I.load(s, root, path)
    I.store(s, root, path, args[1])
    return UNIT


@reg("raw::from_raw_parts", "raw::from_raw_parts_mut", "slice::from_raw_parts", "slice::from_raw_parts_mut")
def _(I, s, c, args, fr, sp):
    from .interp import Sl
    n = num(I, s, args[1])
    b, ix = deref_ptr(I, s, args[0], n, sp, fr)
    return Sl(b.arr, b.off + ix, n)


@reg("ptr::copy_nonoverlapping", "ptr::copy", "intrinsics::copy_nonoverlapping", "intrinsics::copy", *["%s::%s" % (t, m) for t in PTR for m in ("copy_to", "copy_to_nonoverlapping", "copy_from", "copy_from_nonoverlapping")])
def _(I, s, c, args, fr, sp):
    from .interp import UNIT
    n = num(I, s, args[2])
    src, dst = args[0], args[1]
    if "copy_from" in c["fn"]:
        src, dst = dst, src
    v, i = deref_ptr(I, s, src, n, sp, fr)
    w, j = deref_ptr(I, s, dst, n, sp, fr)
    snap = snapshot(I, s, v)

    def step(x, p):
        I.store(x, ("arr", w.arr), (("ix", w.off + j + p),), I.load(x, ("arr", snap), (("ix", v.off + i + p),)))
    I.for_seq(s, ("range", ZERO, n), step, sp)
    return UNIT


@reg("ptr::swap", *["%s::swap" % t for t in PTR])
def _(I, s, c, args, fr, sp):
    from .interp import UNIT
    b, i = deref_ptr(I, s, args[0], ONE, sp, fr)
    d, j = deref_ptr(I, s, args[1], ONE, sp, fr)
    x, y = (I.load(s, ("arr", u.arr), (("ix", u.off + k),)) for u, k in ((b, i), (d, j)))
    I.store(s, ("arr", b.arr), (("ix", b.off + i),), y)
    I.store(s, ("arr", d.arr), (("ix", d.off + j),), x)
    return UNIT


@reg("slice::split_at_unchecked", "slice::split_at_mut_unchecked")
def _(I, s, c, args, fr, sp):
    from .interp import Agg, Sl
    v = view(I, s, args[0])
    k = num(I, s, args[1])
    I.oblig(s, "unchecked", mk_and([ge0(k), ge0(v.n - k)]), sp, fr)
    return Agg("tuple", 0, (Sl(v.arr, v.off, k), Sl(v.arr, v.off + k, v.n - k)))


@reg("slice::swap_unchecked")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT
    v = view(I, s, args[0])
    i, j = num(I, s, args[1]), num(I, s, args[2])
    for q in (i, j):
        I.oblig(s, "unchecked", mk_and([ge0(q), ge0(v.n - 1 - q)]), sp, fr)
    x, y = I.load(s, ("arr", v.arr), (("ix", v.off + i),)), I.load(s, ("arr", v.arr), (("ix", v.off + j),))
    I.store(s, ("arr", v.arr), (("ix", v.off + i),), y)
    I.store(s, ("arr", v.arr), (("ix", v.off + j),), x)
    return UNIT


@reg("hint::unreachable_unchecked")
def _(I, s, c, args, fr, sp):
    I.oblig(s, "unchecked", F, sp, fr)
    return None


@reg("hint::assert_unchecked")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT
    I.oblig(s, "unchecked", args[0].c, sp, fr)
    return UNIT


def rng(I, s, v, n):
    """(lo, hi) of an index range value"""
    from .interp import Agg
    v = unref(I, s, v)
    if isinstance(v, Poly):
        return None
    if isinstance(v, Agg):
        nm = last(v.path)
        f = [I.as_poly(x) for x in v.fields[:2]]
        if nm == "Range":
            return f[0], f[1]
        if nm == "RangeInclusive":
            return f[0], f[1] + 1
        if nm == "RangeFrom":
            return f[0], n
        if nm == "RangeTo":
            return ZERO, f[0]
        if nm == "RangeToInclusive":
            return ZERO, f[0] + 1
        if nm == "RangeFull":
            return ZERO, n
    return None


@reg("Index::index", "IndexMut::index_mut", "SliceIndex::index", "slice::get_unchecked", "slice::get_unchecked_mut")
def _(I, s, c, args, fr, sp):
    from .interp import Ref, Sl
    if local_impl(I, c):
        return NotImplemented
    v = view(I, s, args[0])
    if v is None:
        return NotImplemented
    un = "unchecked" in c["fn"]
    r = rng(I, s, args[1], v.n)
    if r:
        lo, hi = r
        I.oblig(s, "unchecked" if un else "slice", mk_and([ge0(hi - lo), ge0(v.n - hi)]), sp, fr)
        return Sl(v.arr, v.off + lo, hi - lo)
    i = num(I, s, args[1])
    I.oblig(s, "unchecked" if un else "index", mk_and([ge0(i), ge0(v.n - 1 - i)]), sp, fr)
    return Ref(("arr", v.arr), (("ix", v.off + i),))


@reg("slice::get", "slice::get_mut")
def _(I, s, c, args, fr, sp):
    from .interp import Ref, Sl, Opt
    v = view(I, s, args[0])
    r = rng(I, s, args[1], v.n)
    if r:
        lo, hi = r
        return Opt(mk_and([ge0(hi - lo), ge0(v.n - hi)]), Sl(v.arr, v.off + lo, hi - lo))
    i = num(I, s, args[1])
    return Opt(mk_and([ge0(i), ge0(v.n - 1 - i)]), Ref(("arr", v.arr), (("ix", v.off + i),)))


@reg("slice::first", "slice::first_mut")
def _(I, s, c, args, fr, sp):
    from .interp import Ref, Opt
    v = view(I, s, args[0])
    return Opt(ge0(v.n - 1), Ref(("arr", v.arr), (("ix", v.off),)))


@reg("slice::last", "slice::last_mut")
def _(I, s, c, args, fr, sp):
    from .interp import Ref, Opt
    v = view(I, s, args[0])
    return Opt(ge0(v.n - 1), Ref(("arr", v.arr), (("ix", v.off + v.n - 1),)))


@reg("slice::split_at", "slice::split_at_mut")
def _(I, s, c, args, fr, sp):
    from .interp import Sl, Agg
    v = view(I, s, args[0])
    m = num(I, s, args[1])
    I.oblig(s, "slice", mk_and([ge0(m), ge0(v.n - m)]), sp, fr)
    return Agg("tuple", 0, (Sl(v.arr, v.off, m), Sl(v.arr, v.off + m, v.n - m)))


@reg("slice::split_first", "slice::split_first_mut")
def _(I, s, c, args, fr, sp):
    from .interp import Sl, Agg, Opt, Ref
    v = view(I, s, args[0])
    return Opt(ge0(v.n - 1), Agg("tuple", 0, (Ref(("arr", v.arr), (("ix", v.off),)), Sl(v.arr, v.off + 1, v.n - 1))))


@reg("slice::split_last", "slice::split_last_mut")
def _(I, s, c, args, fr, sp):
    from .interp import Sl, Agg, Opt, Ref
    v = view(I, s, args[0])
    return Opt(ge0(v.n - 1), Agg("tuple", 0, (Ref(("arr", v.arr), (("ix", v.off + v.n - 1),)), Sl(v.arr, v.off, v.n - 1))))


@reg("slice::fill")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT
    v = view(I, s, args[0])
    val = I.as_poly(args[1])

    def step(x, p):
        I.store(x, ("arr", v.arr), (("ix", v.off + p),), val)
    I.for_seq(s, ("range", ZERO, v.n), step, sp)
    return UNIT


@reg("slice::copy_from_slice", "slice::clone_from_slice")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT
    v, w = view(I, s, args[0]), view(I, s, args[1])
    I.oblig(s, "copylen", eq0(v.n - w.n), sp, fr)

    def step(x, p):
        I.store(x, ("arr", v.arr), (("ix", v.off + p),), I.load(x, ("arr", w.arr), (("ix", w.off + p),)))
    I.for_seq(s, ("range", ZERO, v.n), step, sp)
    return UNIT


@reg("slice::swap")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT
    v = view(I, s, args[0])
    i, j = num(I, s, args[1]), num(I, s, args[2])
    for q in (i, j):
        I.oblig(s, "index", mk_and([ge0(q), ge0(v.n - 1 - q)]), sp, fr)
    a, b = ("arr", v.arr), (("ix", v.off + i),)
    x, y = I.load(s, a, b), I.load(s, a, (("ix", v.off + j),))
    I.store(s, a, b, y)
    I.store(s, a, (("ix", v.off + j),), x)
    return UNIT


def snapshot(I, s, v):
    """the contents of a storage as they are now, under a name of their own"""
    nm = ("copy", next(I.hid))
    s.arrs[nm] = I.arr_state(s, v.arr)
    return nm


def permute(I, s, v, src, sp, n=None, dst=ZERO):
    """v[dst + p] := old v[src(p)] for p < n"""
    from .interp import UNIT
    snap = snapshot(I, s, v)

    def step(x, p):
        I.store(x, ("arr", v.arr), (("ix", v.off + dst + p),), I.load(x, ("arr", snap), (("ix", v.off + src(p)),)))
    I.for_seq(s, ("range", ZERO, v.n if n is None else n), step, sp)
    return UNIT


@reg("slice::reverse")
def _(I, s, c, args, fr, sp):
    v = view(I, s, args[0])
    return permute(I, s, v, lambda p: v.n - 1 - p, sp)


@reg("slice::rotate_left", "slice::rotate_right")
def _(I, s, c, args, fr, sp):
    v = view(I, s, args[0])
    m = num(I, s, args[1])
    I.oblig(s, "index", ge0(v.n - m), sp, fr)
    if c["fn"].endswith("rotate_right"):
        m = v.n - m
    return permute(I, s, v, lambda p: mk_ite(ge0(v.n - 1 - m - p), m + p, m + p - v.n), sp)


@reg("slice::copy_within")
def _(I, s, c, args, fr, sp):
    v = view(I, s, args[0])
    from .interp import Undecided
    r = rng(I, s, args[1], v.n)
    if r is None:
        raise Undecided("copy_within range at " + sp)
    a, b, d = r[0], r[1], num(I, s, args[2])
    I.oblig(s, "index", mk_and([ge0(b - a), ge0(v.n - b), ge0(v.n - d - (b - a))]), sp, fr)
    return permute(I, s, v, lambda p: a + p, sp, b - a, d)


@reg("slice::swap_with_slice")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT
    v, w = view(I, s, args[0]), view(I, s, args[1])
    I.oblig(s, "copylen", eq0(v.n - w.n), sp, fr)
    snap = snapshot(I, s, v)

    def one(x, p):
        I.store(x, ("arr", v.arr), (("ix", v.off + p),), I.load(x, ("arr", w.arr), (("ix", w.off + p),)))

    def two(x, p):
        I.store(x, ("arr", w.arr), (("ix", w.off + p),), I.load(x, ("arr", snap), (("ix", v.off + p),)))
    I.for_seq(s, ("range", ZERO, v.n), one, sp)
    I.for_seq(s, ("range", ZERO, v.n), two, sp)
    return UNIT


@reg("vec::from_elem")
def _(I, s, c, args, fr, sp):
    return I.new_filled(s, num(I, s, args[1]), args[0])


@reg("Box::new", "boxed::box_new", "Vec::into_boxed_slice", "slice::into_boxed_slice", "Box::into_inner")
def _(I, s, c, args, fr, sp):
    return args[0]


# ------------------------------------------------------------------ options
@reg("Option::unwrap", "Option::expect", "Option::unwrap_unchecked")
def _(I, s, c, args, fr, sp):
    from .interp import Opt
    o = args[0]
    if not isinstance(o, Opt):
        return NotImplemented
    I.oblig(s, "unchecked" if "unchecked" in c["fn"] else "unwrap", o.c, sp, fr)
    return o.v


@reg("Option::is_some")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, B
    o = unref(I, s, args[0])
    return B(o.c) if isinstance(o, Opt) else NotImplemented


@reg("Option::is_none")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, B
    o = unref(I, s, args[0])
    return B(neg(o.c)) if isinstance(o, Opt) else NotImplemented


@reg("Option::copied", "Option::cloned")
def _(I, s, c, args, fr, sp):
    from .interp import Opt
    o = args[0]
    return Opt(o.c, unref(I, s, o.v)) if isinstance(o, Opt) else NotImplemented


@reg("Option::map")
def _(I, s, c, args, fr, sp):
    from .interp import Opt
    o = args[0]
    if not isinstance(o, Opt):
        return NotImplemented
    return Opt(o.c, maybe(I, s, o.c, args[1], [o.v], sp)) if o.v is not None else o


@reg("Option::unwrap_or")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, vite
    o = args[0]
    return vite(o.c, o.v, args[1]) if isinstance(o, Opt) else NotImplemented


def maybe(I, s, c, f, vals, sp):
    """result of a closure called only if c holds; its effects must be none unless c is certain"""
    from .interp import Undecided
    if c == T:
        return I.call_closure(s, f, vals, sp)
    x = s.copy()
    x.learn(c)
    r = I.call_closure(x, f, vals, sp)
    for old, new in ((s.arrs, x.arrs), (s.mem, x.mem)):
        for k, v in new.items():
            if k not in old:
                old[k] = v
            elif old[k] != v:
                raise Undecided("effects of a closure that may not be called at " + sp)
    return r


@reg("Option::unwrap_or_else", "Option::map_or", "Option::map_or_else", "Option::is_some_and", "Option::is_none_or", "Option::and_then", "Option::filter")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, vite, B, Ref
    o = args[0]
    m = key(c["fn"])[1]
    if not isinstance(o, Opt):
        return NotImplemented
    some = lambda f, *a: maybe(I, s, o.c, f, list(a), sp)
    none = lambda f: maybe(I, s, neg(o.c), f, [], sp)
    if m == "unwrap_or_else":
        return o.v if o.c == T else none(args[1]) if o.v is None else vite(o.c, o.v, none(args[1]))
    if o.v is None:
        return {"map_or": lambda: args[1], "map_or_else": lambda: none(args[1]), "is_some_and": lambda: B(F), "is_none_or": lambda: B(T)}.get(m, lambda: o)()
    if m == "map_or":
        return vite(o.c, some(args[2], o.v), args[1])
    if m == "map_or_else":
        return vite(o.c, some(args[2], o.v), none(args[1]))
    v = o.v
    if m == "filter":
        root = ("h", next(I.hid))
        s.mem[root] = v
        v = Ref(root, ())
    r = some(args[1], v)
    if m == "and_then":
        return Opt(mk_and([o.c, r.c]), r.v) if isinstance(r, Opt) else NotImplemented
    if not isinstance(r, B):
        return NotImplemented
    if m == "filter":
        return Opt(mk_and([o.c, r.c]), o.v)
    return B(mk_and([o.c, r.c]) if m == "is_some_and" else mk_or([neg(o.c), r.c]))


@reg("Try::branch")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, Agg, En
    v = args[0]
    CF = "core::ops::control_flow::ControlFlow"
    if isinstance(v, Opt):
        return En(CF, ((0, v.c, (v.v,)), (1, neg(v.c), (Opt(F, None),))))
    if isinstance(v, Agg) and last(v.path) in ("Result", "ControlFlow"):
        v = En(v.path, ((v.variant, T, v.fields),))
    if isinstance(v, En) and last(v.path) in ("Result", "ControlFlow"):
        return En(CF, tuple((k, g, fs if k == 0 else (Agg(v.path, 1, fs),)) for k, g, fs in v.alts))
    return NotImplemented


@reg("FromResidual::from_residual")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, Agg
    v = args[0]
    if isinstance(v, Opt):
        return v
    if isinstance(v, Agg) and last(v.path) in ("Result", "ControlFlow"):
        return v
    return NotImplemented


@reg("Try::from_output")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, Agg
    t = c.get("self") or (c["args"][0] if c.get("args") else {})
    n = last(t.get("path", ""))
    if n == "Option":
        return Opt(T, args[0])
    if n in ("Result", "ControlFlow"):
        return Agg(t["path"], 0, (args[0],))
    return NotImplemented


@reg("Result::is_ok", "Result::is_err", "ControlFlow::is_continue", "ControlFlow::is_break")
def _(I, s, c, args, fr, sp):
    from .interp import B, Agg, En
    v = unref(I, s, args[0])
    k = 0 if key(c["fn"])[1] in ("is_ok", "is_continue") else 1
    if isinstance(v, Agg):
        return B(T if v.variant == k else F)
    return B(v.cond(k)) if isinstance(v, En) else NotImplemented


@reg("Result::ok", "Result::err")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, Agg, En
    v = args[0]
    k = 0 if key(c["fn"])[1] == "ok" else 1
    if isinstance(v, Agg):
        v = En(v.path, ((v.variant, T, v.fields),))
    if not isinstance(v, En):
        return NotImplemented
    fs = v.pick(k)
    return Opt(v.cond(k), fs[0]) if fs else Opt(F, None)


@reg("Result::unwrap", "Result::expect")
def _(I, s, c, args, fr, sp):
    from .interp import Agg, En
    v = args[0]
    if isinstance(v, Agg):
        v = En(v.path, ((v.variant, T, v.fields),))
    if not isinstance(v, En):
        return NotImplemented
    I.oblig(s, "unwrap", v.cond(0), sp, fr)
    fs = v.pick(0)
    return fs[0] if fs else None


@reg("Option::ok_or", "Option::or", "Option::xor", "Option::unwrap_or_default")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, Agg, En, vite
    o, m = args[0], key(c["fn"])[1]
    if not isinstance(o, Opt):
        return NotImplemented
    if m == "ok_or":
        alts = ((0, o.c, (o.v,)), (1, neg(o.c), (args[1],)))
        return En("core::result::Result", tuple(a for a in alts if a[1] != F))
    if m == "or" and isinstance(args[1], Opt):
        p = args[1]
        return p if o.c == F else o if o.c == T else Opt(mk_or([o.c, p.c]), o.v if p.v is None else vite(o.c, o.v, p.v))
    return NotImplemented


@reg("bool::then", "bool::then_some")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, B
    b = args[0]
    if not isinstance(b, B):
        return NotImplemented
    if key(c["fn"])[1] == "then_some":
        return Opt(b.c, args[1])
    return Opt(F, None) if b.c == F else Opt(b.c, maybe(I, s, b.c, args[1], [], sp))


@reg("Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def _(I, s, c, args, fr, sp):
    from .interp import CmpV, B
    o = args[0]
    if not isinstance(o, CmpV):
        return NotImplemented
    n = key(c["fn"])[1][3:]
    p = o.p
    return B({"lt": ge0(-p - 1), "le": ge0(-p), "gt": ge0(p - 1), "ge": ge0(p), "eq": eq0(p), "ne": ne0(p)}[n])


# ------------------------------------------------------------------ iterators
@reg("IntoIterator::into_iter")
def _(I, s, c, args, fr, sp):
    if local_impl(I, c):
        return NotImplemented
    from .interp import It, Agg, Ref
    if isinstance(args[0], It):
        return args[0]
    if isinstance(args[0], (Agg, Ref)) and own_iterator(I, c):
        return args[0]
    return I.to_iter(s, args[0])


def own_iterator(I, c):
    """a type of this crate that is an iterator itself"""
    t = c.get("self") or (c["args"][0] if c.get("args") else None) or {}
    while t.get("k") == "ref":
        t = t["ty"]
    return t.get("k") == "adt" and any(im["self"].get("path") == t.get("path") for im in I.prog.impls_of("Iterator"))


@reg("slice::iter", "slice::iter_mut", "Vec::iter", "Vec::iter_mut", "array::iter")
def _(I, s, c, args, fr, sp):
    v = view(I, s, args[0])
    return I.to_iter(s, v) if v is not None else NotImplemented


def it_of(I, s, v):
    from .interp import It
    if isinstance(v, It):
        return v
    return I.to_iter(s, v)


def take_it(I, s, v):
    """an iterator argument; by-reference iterators are consumed in place"""
    from .interp import It, Ref
    if isinstance(v, Ref):
        x = I.load(s, v.root, v.path)
        if isinstance(x, It):
            return x, v
        if isinstance(x, Ref):
            return take_it(I, s, x)
        return I.to_iter(s, x), v
    return it_of(I, s, v), None


def _adapt(mk):
    def f(I, s, c, args, fr, sp):
        from .interp import It
        if local_impl(I, c):
            return NotImplemented
        it, r = take_it(I, s, args[0])
        q = mk(I, s, I.it_seq(it), args)
        if r is not None:
            # an adapted by-reference iterator advances by what is consumed; only full consumption is modelled
            if q[0] not in ("zip", "map", "copied", "enum"):
                return NotImplemented
            n, k = I.seq_len(it.seq) - it.pos - it.end, I.seq_len(q)
            more = ONE if q[0] == "zip" and n != k else ZERO          # zip takes one more from a longer left side
            I.store(s, r.root, r.path, It(it.seq, it.pos + (k if more == ZERO else I.pmin(n, k + 1)), it.end))
            I.events.append(("by_ref_take", sp))
        return It(q, ZERO, ZERO)
    return f


TABLE[("Iterator", "rev")] = _adapt(lambda I, s, q, a: ("rev", q))
TABLE[("Iterator", "map")] = _adapt(lambda I, s, q, a: ("map", q, a[1]))
TABLE[("Iterator", "copied")] = _adapt(lambda I, s, q, a: ("copied", q))
TABLE[("Iterator", "cloned")] = _adapt(lambda I, s, q, a: ("copied", q))
TABLE[("Iterator", "enumerate")] = _adapt(lambda I, s, q, a: ("enum", q))
TABLE[("Iterator", "fuse")] = _adapt(lambda I, s, q, a: q)
TABLE[("Iterator", "zip")] = _adapt(lambda I, s, q, a: ("zip", q, I.it_seq(it_of(I, s, a[1]))))
TABLE[("iter", "zip")] = lambda I, s, c, a, fr, sp: _zipfn(I, s, a)
TABLE[("Iterator", "chain")] = _adapt(lambda I, s, q, a: ("chain", q, I.it_seq(it_of(I, s, a[1]))))
TABLE[("Iterator", "skip")] = _adapt(lambda I, s, q, a: ("skip", q, I.as_poly(a[1])))
TABLE[("Iterator", "filter")] = _adapt(lambda I, s, q, a: ("filter", q, a[1]))
TABLE[("Iterator", "flat_map")] = _adapt(lambda I, s, q, a: _flat(I, s, q, a[1]))
TABLE[("Iterator", "step_by")] = _adapt(lambda I, s, q, a: ("step", q, I.as_poly(a[1])))


def _flat(I, s, q, f):
    """every element expands to the same number of elements"""
    from .interp import Undecided, fresh
    f = heap(I, s, f)
    k = fresh("f")
    x = s.copy()
    n = I.seq_len(I.it_seq(I.to_iter(x, I.call_closure(x, f, [I.seq_elem(x, q, sym(k), "")], ""))))
    if mentions(n, k):
        raise Undecided("flat_map over sequences of different lengths")
    return ("flat", q, f, n)


def _zipfn(I, s, a):
    from .interp import It
    return It(("zip", I.it_seq(it_of(I, s, a[0])), I.it_seq(it_of(I, s, a[1]))), ZERO, ZERO)


@reg("Iterator::take")
def _(I, s, c, args, fr, sp):
    from .interp import It
    it, r = take_it(I, s, args[0])
    n = I.as_poly(args[1])
    q = ("take", I.it_seq(it), n)
    if r is not None:
        # by_ref().take(n): the underlying iterator advances by what is consumed; only full consumption is modelled
        k = I.pmin(I.seq_len(it.seq) - it.pos - it.end, n)
        I.store(s, r.root, r.path, It(it.seq, it.pos + k, it.end))
        I.events.append(("by_ref_take", sp))
    return It(q, ZERO, ZERO)


@reg("Iterator::by_ref")
def _(I, s, c, args, fr, sp):
    return args[0]


@reg("iter::once", "once::once")
def _(I, s, c, args, fr, sp):
    from .interp import It
    return It(("once", args[0]), ZERO, ZERO)


@reg("iter::repeat", "repeat::repeat")
def _(I, s, c, args, fr, sp):
    from .interp import It
    return It(("repeat", args[0]), ZERO, ZERO)


@reg("iter::repeat_n", "repeat_n::repeat_n")
def _(I, s, c, args, fr, sp):
    from .interp import It
    return It(("take", ("repeat", args[0]), num(I, s, args[1])), ZERO, ZERO)


# growable storage: only what fills an empty one
def gather(I, s, v, sp):
    from .interp import Agg
    q = consume(I, s, v)
    a = I.new_filled(s, I.seq_len(q), ZERO)

    def step(x, e):
        i, y = e.fields if isinstance(e, Agg) else e
        I.store(x, ("arr", a.arr), (("ix", I.as_poly(i)),), num(I, x, y))
    I.for_seq(s, ("enum", q), step, sp)
    return a


def grows(t):
    return t and t.get("k") == "adt" and (last(t["path"]) == "Vec" or last(t["path"]) == "Box" and t["args"][0]["k"] == "slice")


@reg("Iterator::collect", "FromIterator::from_iter")
def _(I, s, c, args, fr, sp):
    t = (c["args"] or [None])[-1] if key(c["fn"])[1] == "collect" else (c["args"] or [None])[0]
    return gather(I, s, args[0], sp) if grows(t) else NotImplemented


@reg("Vec::new", "Vec::with_capacity")
def _(I, s, c, args, fr, sp):
    return I.new_filled(s, ZERO, ZERO)


def growable(I, s, r):
    """place and value of a growable storage"""
    from .interp import Ref, Arr
    while isinstance(r, Ref):
        v = I.load(s, r.root, r.path)
        if isinstance(v, Arr):
            return r, v
        r = v
    return None, None


@reg("Vec::truncate")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT, Arr
    r, v = growable(I, s, args[0])
    if r is None:
        return NotImplemented
    k = num(I, s, args[1])
    I.store(s, r.root, r.path, Arr(v.arr, mk_ite(ge0(v.n - k), k, v.n)))
    return UNIT


@reg("Vec::clear")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT, Arr
    r, v = growable(I, s, args[0])
    if r is None:
        return NotImplemented
    I.store(s, r.root, r.path, Arr(v.arr, ZERO))
    return UNIT


@reg("Vec::push")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT, Arr
    r, v = growable(I, s, args[0])
    if r is None:
        return NotImplemented
    I.store(s, ("arr", v.arr), (("ix", v.n),), args[1])
    I.store(s, r.root, r.path, Arr(v.arr, v.n + 1))
    return UNIT


@reg("Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to_fit")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT
    return UNIT


@reg("Vec::resize", "Vec::resize_with")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT, Arr
    r, v = growable(I, s, args[0])
    if r is None:
        return NotImplemented
    n = num(I, s, args[1])
    if key(c["fn"])[1] == "resize_with":
        f = heap(I, s, args[2])
        val = lambda x: I.call_closure(x, f, [], sp)
    else:
        val = lambda x: args[2]
    if v.n == ZERO and key(c["fn"])[1] == "resize":
        I.store(s, r.root, r.path, I.new_filled(s, n, args[2]))
        return UNIT
    more = mk_ite(ge0(n - v.n), n - v.n, ZERO)

    def step(x, p):
        I.store(x, ("arr", v.arr), (("ix", v.n + p),), val(x))
    I.for_seq(s, ("range", ZERO, more), step, sp)
    I.store(s, r.root, r.path, Arr(v.arr, n))
    return UNIT


@reg("Extend::extend", "Vec::extend", "Vec::extend_from_slice")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT, Arr, Agg
    r, v = growable(I, s, args[0])
    if r is None:
        return NotImplemented
    src = args[1]
    if key(c["fn"])[1] == "extend_from_slice":
        w = view(I, s, src)
        if w is None:
            return NotImplemented
        src = w
    if v.n == ZERO and key(c["fn"])[1] != "extend_from_slice":
        I.store(s, r.root, r.path, gather(I, s, src, sp))
        return UNIT
    q = consume(I, s, src)

    def step(x, e):
        i, y = e.fields if isinstance(e, Agg) else e
        I.store(x, ("arr", v.arr), (("ix", v.n + I.as_poly(i)),), num(I, x, y))
    n = I.seq_len(q)
    I.for_seq(s, ("enum", q), step, sp)
    I.store(s, r.root, r.path, Arr(v.arr, v.n + n))
    return UNIT


@reg("slice::chunks", "slice::chunks_mut")
def _(I, s, c, args, fr, sp):
    from .interp import It
    n = num(I, s, args[1])
    I.oblig(s, "chunk", ge0(n - 1), sp, fr)
    return It(("chunks", view(I, s, args[0]), n, False), ZERO, ZERO)


@reg("slice::chunks_exact", "slice::chunks_exact_mut")
def _(I, s, c, args, fr, sp):
    from .interp import It
    n = num(I, s, args[1])
    I.oblig(s, "chunk", ge0(n - 1), sp, fr)
    return It(("chunks", view(I, s, args[0]), n, True), ZERO, ZERO)


@reg("slice::windows")
def _(I, s, c, args, fr, sp):
    from .interp import It
    n = num(I, s, args[1])
    I.oblig(s, "chunk", ge0(n - 1), sp, fr)
    return It(("windows", view(I, s, args[0]), n), ZERO, ZERO)


@reg("slice::rchunks", "slice::rchunks_mut")
def _(I, s, c, args, fr, sp):
    from .interp import It
    n = num(I, s, args[1])
    I.oblig(s, "chunk", ge0(n - 1), sp, fr)
    return It(("rchunks", view(I, s, args[0]), n), ZERO, ZERO)


@reg("ChunksExact::remainder", "ChunksExactMut::into_remainder")
def _(I, s, c, args, fr, sp):
    from .interp import It, Sl
    v = unref(I, s, args[0])
    if not isinstance(v, It) or v.seq[0] != "chunks" or not v.seq[3]:
        return NotImplemented
    V, n = v.seq[1], v.seq[2]
    k = I.seq_len(v.seq) * n
    return Sl(V.arr, V.off + k, V.n - k)


@reg("Iterator::position", "Iterator::find", "Iterator::find_map")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, B, Ref, Undecided
    m = key(c["fn"])[1]
    if local_impl(I, c):
        return NotImplemented
    q = consume(I, s, args[0])
    f = heap(I, s, args[1])

    def step(y, e, k):
        a = e
        if m == "find":
            a = Ref(("h", next(I.hid)), ())
            y.mem[a.root] = e
        r = I.call_closure(y, f, [a], sp)
        if m == "find_map" and isinstance(r, Opt):
            return r.c, r.v
        if not isinstance(r, B):
            raise Undecided("predicate value at " + sp)
        return r.c, (k if m == "position" else e)
    return I.early(s, q, step, sp)


@reg("Iterator::try_for_each", "Iterator::try_fold")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, En, Agg, UNIT, Undecided
    if local_impl(I, c):
        return NotImplemented
    fold = key(c["fn"])[1] == "try_fold"
    q = consume(I, s, args[0])
    f = heap(I, s, args[2 if fold else 1])
    acc = ("h", next(I.hid))
    s.mem[acc] = args[1] if fold else UNIT
    kind = []

    def step(y, e, k):
        r = I.call_closure(y, f, ([y.mem[acc]] if fold else []) + [e], sp)
        if isinstance(r, Opt):
            kind.append("Option")
            if fold and r.v is not None:
                y.mem[acc] = r.v
            return neg(r.c), UNIT
        if isinstance(r, Agg):
            r = En(r.path, ((r.variant, T, r.fields),))
        if isinstance(r, En) and last(r.path) in ("Result", "ControlFlow"):
            kind.append(r.path)
            ok, bad = r.pick(0), r.pick(1)
            if fold and ok:
                y.mem[acc] = ok[0]
            return r.cond(1), (bad[0] if bad else UNIT)
        raise Undecided("value of a fallible step at " + sp)
    o = I.early(s, q, step, sp)
    if not kind or len(set(kind)) > 1:
        raise Undecided("value of a fallible step at " + sp)
    v = s.mem[acc]
    if kind[0] == "Option":
        return Opt(neg(o.c), v)
    return En(kind[0], ((0, neg(o.c), (v,)), (1, o.c, (o.v,)))) if o.c != F else Agg(kind[0], 0, (v,))


@reg("Iterator::last")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, Undecided
    if local_impl(I, c):
        return NotImplemented
    q = consume(I, s, args[0])

    def st(x, a, e):
        if not isinstance(e, Poly):
            raise Undecided("last of a sequence of references")
        return e
    n = I.seq_len(q)
    return Opt(ge0(n - 1), folder(I, s, q, ZERO, st, sp))


@reg("Iterator::reduce")
def _(I, s, c, args, fr, sp):
    from .interp import Opt, Undecided
    if local_impl(I, c):
        return NotImplemented
    q = consume(I, s, args[0])
    n = I.seq_len(q)
    f = heap(I, s, args[1])
    x = s.copy()
    e = I.seq_elem(x, q, ZERO, sp)
    if any(x.arrs[a] != I.arr_state(s, a) for a in x.arrs) or any(x.mem.get(k) != v for k, v in s.mem.items()):
        raise Undecided("effects of a reduced sequence")
    for k in x.mem:
        s.mem.setdefault(k, x.mem[k])
    return Opt(ge0(n - 1), folder(I, s, ("skip", q, ONE), e, lambda y, a, b: I.call_closure(y, f, [a, b], sp), sp))


@reg("array::from_fn")
def _(I, s, c, args, fr, sp):
    n = next((I.cpoly(a, {}) for a in c.get("args", []) if a.get("k") in ("cparam", "cval")), None)
    if n is None:
        n = next((x for a in c.get("args", []) if isinstance(a, dict) for x in [a.get("poly")] if x is not None), None)
    if n is None:
        return NotImplemented
    from .interp import It
    f = heap(I, s, args[0])
    return gather(I, s, It(("map", ("range", ZERO, n), f), ZERO, ZERO), sp)


def _next(back, nth=False):
    def f(I, s, c, args, fr, sp):
        from .interp import It, Ref, Opt
        if local_impl(I, c):
            return NotImplemented
        r = args[0]
        if not isinstance(r, Ref):
            return NotImplemented
        v = I.load(s, r.root, r.path)
        while isinstance(v, Ref):
            r = v
            v = I.load(s, r.root, r.path)
        if not isinstance(v, It):
            v = I.to_iter(s, v)
        n = I.seq_len(v.seq)
        k = num(I, s, args[1]) if nth else ZERO
        has = ge0(n - v.pos - v.end - 1 - k)
        if back:
            e = I.seq_elem(s, v.seq, n - 1 - v.end - k, sp)
            nv = It(v.seq, v.pos, v.end + 1 + k)
        else:
            e = I.seq_elem(s, v.seq, v.pos + k, sp)
            nv = It(v.seq, v.pos + 1 + k, v.end)
        # an exhausted iterator does not advance further; callers leave the loop there
        I.store(s, r.root, r.path, nv)
        return Opt(has, e)
    return f


TABLE[("Iterator", "next")] = _next(False)
TABLE[("DoubleEndedIterator", "next_back")] = _next(True)
TABLE[("Iterator", "nth")] = _next(False, True)


@reg("RangeInclusive::new")
def _(I, s, c, args, fr, sp):
    from .interp import Agg
    return Agg("core::ops::range::RangeInclusive", 0, (args[0], args[1], None))


def consume(I, s, v):
    it, r = take_it(I, s, v)
    if r is not None:
        I.store(s, r.root, r.path, type(it)(it.seq, I.seq_len(it.seq) - it.end, it.end))
    return I.it_seq(it)


def folder(I, s, q, init, step, sp):
    root = ("h", next(I.hid))
    s.mem[root] = init

    def st(x, e):
        x.mem[root] = step(x, x.mem[root], e)
    I.for_seq(s, q, st, sp)
    return s.mem[root]


@reg("Iterator::sum")
def _(I, s, c, args, fr, sp):
    q = consume(I, s, args[0])
    return folder(I, s, q, ZERO, lambda x, a, e: I.as_poly(a) + num(I, x, e), sp)


@reg("Sum::sum")
def _(I, s, c, args, fr, sp):
    q = consume(I, s, args[0])
    return folder(I, s, q, ZERO, lambda x, a, e: I.as_poly(a) + num(I, x, e), sp)


@reg("Iterator::fold", "DoubleEndedIterator::rfold")
def _(I, s, c, args, fr, sp):
    q = consume(I, s, args[0])
    if key(c["fn"])[1] == "rfold":
        q = ("rev", q)
    f = heap(I, s, args[2])
    return folder(I, s, q, args[1], lambda x, a, e: I.call_closure(x, f, [a, e], sp), sp)


def heap(I, s, v):
    from .interp import Ref, Clo
    if isinstance(v, Clo):
        root = ("h", next(I.hid))
        s.mem[root] = v
        return Ref(root, ())
    return v


@reg("Iterator::for_each")
def _(I, s, c, args, fr, sp):
    from .interp import UNIT
    q = consume(I, s, args[0])
    f = heap(I, s, args[1])
    I.for_seq(s, q, lambda x, e: I.call_closure(x, f, [e], sp), sp)
    return UNIT


@reg("Iterator::any", "Iterator::all")
def _(I, s, c, args, fr, sp):
    q = consume(I, s, args[0])
    f = heap(I, s, args[1])
    want = key(c["fn"])[1] == "any"
    return I.search_seq(s, q, lambda x, e: I.call_closure(x, f, [e], sp), want, sp)


# ------------------------------------------------------------------ panics and formatting
@reg("panicking::panic", "panicking::panic_fmt", "panicking::assert_failed")
def _(I, s, c, args, fr, sp):
    I.oblig(s, "panic", F, sp, fr)
    return None
