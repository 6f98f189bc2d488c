"""Reciprocal and square root of the element types: the exact operation of the selected backend."""
import re
import struct
from decimal import Decimal, getcontext
from .poly import *
from .prog import last
from .interp import Undecided, Endless, typenum
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED, short
from . import kernels as K
from . import models
from . import storage as St
from .models import key as mkey

RULE = "recip is 1/x and square_root is the principal root, in the type's own precision, by the exact operation of std or libm (micromath's approximations only without both)"
FIXED = {"FixedI32": (32, "I16F16"), "FixedI64": (64, "I32F32")}
# resolved callee -> (function, exact)
FLOAT = {"recip": "recip", "sqrt": "sqrt", "abs": "abs", "cbrt": "cbrt", "exp": "exp", "ln": "ln", "exp2": "exp2", "log2": "log2", "powf": "pow", "powi": "pow", "invsqrt": "rsqrt", "floor": "floor", "trunc": "trunc", "round": "round", "hypot": "hypot", "inv": "recip", "pow": "pow"}
LIBM = {"sqrt": "sqrt", "sqrtf": "sqrt", "cbrt": "cbrt", "cbrtf": "cbrt", "exp": "exp", "log": "ln", "logf": "ln", "pow": "pow", "powf": "pow", "fabs": "abs", "fabsf": "abs", "expf": "exp", "hypot": "hypot", "hypotf": "hypot"}


def ident(c):
    """(function, exact?) of a called operation, or None"""
    p = c.get("rfn") or c["fn"]
    sp = c.get("rsp") or c.get("sp") or ""
    root = sp.split("::")[0]
    n = last(p)
    if root == "libm":
        return (LIBM[n], True) if n in LIBM else None
    if root == "micromath":
        return (FLOAT[n], n in ("abs", "floor", "trunc")) if n in FLOAT else None
    if root in ("core", "std", "num_traits"):
        return (FLOAT[n], True) if n in FLOAT else None
    if root == "fixed":
        n0 = re.sub(r"^(wrapping|saturating|unwrapped|strict)_", "", n)
        if n0 in ("recip", "sqrt", "abs"):
            return (FLOAT[n0], True)
        m = re.match(r"fixed::FixedI(32|64)::", p)
        a = c.get("args") or []
        if m and n0 in ("from_num", "to_num") and a:
            mode = "sat" if n.startswith("saturating") else "wrap"
            if n0 == "from_num":
                return ("q_%s_%s_%s" % (mode, m.group(1), typenum(a[0])), True)
            t = a[1] if len(a) > 1 else {}
            if t.get("path") in ("fixed::FixedI32", "fixed::FixedI64"):
                return ("q_%s_%s_%s" % (mode, t["path"][-2:], typenum(t["args"][0])), True)
            if t.get("name") in ("f32", "f64"):
                return ("narrow_" + t["name"], True)
            if t.get("name") in ("i8", "i16", "i32", "i64", "i128"):
                return ("q_%s_%s_0" % (mode, t["name"][1:]), True)
        if m and n in ("to_bits", "from_bits") and a:
            return ("%s_%s" % (n, typenum(a[0])), True)
    return None


def hook(I, s, c, args, fr, sp):
    k = ident(c)
    if k is None:
        return NotImplemented
    try:
        xs = [models.num(I, s, a) for a in args]
    except Undecided:
        return NotImplemented
    if any(not isinstance(x, Poly) for x in xs):
        return NotImplemented
    f, exact = k
    if f == "pow":
        n = xs[1].const()
        if n is None:
            return NotImplemented
        if n == int(n):
            r = xs[0] ** int(n) if n >= 0 else fn("recip", xs[0] ** int(-n))
        elif n * 2 == int(n * 2):
            r = fn("sqrt", xs[0]) ** abs(int(n * 2))
            r = r if n > 0 else fn("recip", r)
        else:
            return NotImplemented
    elif f == "rsqrt":
        r = fn("recip", fn("sqrt", xs[0]))
    else:
        r = fn(f, *xs)
    return r if exact else fn("approx", r)


def f32(x):
    return Decimal(struct.unpack("f", struct.pack("f", float(x)))[0])


class NoVal(Exception):
    pass


class NoRoot(NoVal):
    pass


def ev(p, env):
    """value of a closed form; (value, widest approximation used)"""
    t = Decimal(0)
    for mono, c in p.t:
        v = Decimal(c.numerator) / Decimal(c.denominator) if hasattr(c, "numerator") else Decimal(c)
        for a, e in mono:
            x = eva(a, env)
            v *= x ** e
        t += v
    return t


def eva(a, env):
    if a[0] == "sym":
        if a[1] in env:
            return env[a[1]]
        raise NoVal(a[1])
    if a[0] == "ite":
        return ev(a[2] if evc(a[1], env) else a[3], env)
    if a[0] != "fn":
        raise NoVal(a[0])
    if a[1] == "lit":
        return Decimal(re.sub(r"_?[fi](32|64)$", "", str(a[2])))
    xs = [ev(x, env) for x in a[2:]] if all(isinstance(x, Poly) for x in a[2:]) else None
    if xs is None:
        raise NoVal(a[1])
    n, x = a[1], xs[0]
    if n == "recip":
        return 1 / x
    if n == "sqrt":
        if x < 0:
            raise NoRoot("root of a negative number")
        return x.sqrt()
    if n == "abs":
        return abs(x)
    if n == "cbrt":
        return x ** (Decimal(1) / 3) if x >= 0 else -((-x) ** (Decimal(1) / 3))
    if n == "exp":
        return x.exp()
    if n == "ln":
        return x.ln()
    if n == "narrow_f32":
        return f32(x)
    if n == "narrow_f64":
        return Decimal(float(x))
    if n[:2] == "q_":
        _, mode, w, f = n.split("_")
        w, v = int(w), int((x * 2 ** int(f)).to_integral_value(rounding="ROUND_FLOOR"))
        lo, hi = -2 ** (w - 1), 2 ** (w - 1) - 1
        v = min(max(v, lo), hi) if mode == "sat" else (v - lo) % 2 ** w + lo
        return Decimal(v) / 2 ** int(f)
    if n[:8] == "to_bits_":
        return x * 2 ** int(n[8:])
    if n[:10] == "from_bits_":
        return x.to_integral_value(rounding="ROUND_FLOOR") / 2 ** int(n[10:])
    if n == "div":
        return (x / xs[1]).to_integral_value(rounding="ROUND_DOWN")
    if n == "floor":
        return x.to_integral_value(rounding="ROUND_FLOOR")
    if n == "trunc":
        return x.to_integral_value(rounding="ROUND_DOWN")
    if n == "approx":
        return x
    if n == "min":
        return min(xs)
    if n == "max":
        return max(xs)
    raise NoVal(n)


def evc(c, env):
    k = c[0]
    if k == "T":
        return True
    if k == "F":
        return False
    if k == "not":
        return not evc(c[1], env)
    if k == "and":
        return all(evc(x, env) for x in c[1])
    if k == "or":
        return any(evc(x, env) for x in c[1])
    if k in ("eq", "lt", "le"):
        a, b = ev(c[1], env), ev(c[2], env)
        return {"eq": a == b, "lt": a < b, "le": a <= b}[k]
    if k in ("ge0", "eq0", "ne0"):
        a = ev(c[1], env)
        return {"ge0": a >= 0, "eq0": a == 0, "ne0": a != 0}[k]
    raise NoVal(k)


def approx_in(p, out):
    for mono, _ in p.t:
        for a, e in mono:
            walk(a, out)
    return out


def walk(a, out):
    if isinstance(a, Poly):
        approx_in(a, out)
    elif isinstance(a, tuple):
        if a[:2] in (("fn", "approx"), ("fn", "narrow_f32"), ("fn", "narrow_f64")) or (len(a) > 2 and a[0] == "fn" and re.match(r"q_|from_bits_|to_bits_", str(a[1]))):
            out.add(a[1])
        for x in a:
            walk(x, out)


SAMPLES = [Decimal(x) for x in ("1", "4", "2.25", "0.25", "3", "0.7", "10.1", "0.011", "123.456", "1e-6", "1e-30", "4e5", "16777217", "1e20")]
NEG = [-x for x in SAMPLES]


def finite(p, env):
    try:
        ev(p, env)
        return True
    except Exception:
        return False


def near(p):
    """values around the constants of a form"""
    out = []

    def f(a):
        if isinstance(a, Poly):
            for mono, c in a.t:
                out.append(Decimal(c.numerator) / Decimal(c.denominator) if hasattr(c, "numerator") else Decimal(c))
                for x, _ in mono:
                    f(x)
        elif isinstance(a, tuple):
            if a[:2] == ("fn", "lit"):
                try:
                    out.append(Decimal(re.sub(r"_?[fi](32|64)$", "", str(a[2]))))
                except Exception:
                    pass
            for x in a:
                f(x)
    f(p)
    return [g * v * k for v in dict.fromkeys(out) if v.is_finite() and v for k in (Decimal("0.5"), Decimal(1), Decimal(2), Decimal("0.001")) for g in (1, -1)]


def ename(ty):
    if ty["k"] == "prim":
        return ty["name"]
    if ty["k"] == "adt" and last(ty["path"]) in FIXED:
        return FIXED[last(ty["path"])][1]
    return ty.get("path", "?")


def expected(feats):
    out = set()
    if feats & {"std", "libm", "micromath"}:
        out |= {"f32", "f64"}
    if "fixed" in feats:
        out |= {"I16F16", "I32F32"}
    return out


def check_backend(prog, ops=("recip", "square_root")):
    getcontext().prec = 60
    feats = set(prog.d["features"])
    weak = "micromath" in feats and not feats & {"std", "libm"}
    out, seen = [], set()
    for b, im in prog.trait_methods("MatrixDataType"):
        m = b["path"].rsplit("::", 1)[1]
        e = ename(im["self"])
        seen.add((e, m))
        if m in ops:
            out.append(one(prog, b, m, e, weak))
    for t in prog.d["traits"]:
        if last(t["path"]) == "MatrixDataType":
            for it in t["items"]:
                b = prog.bodies.get(it["sp"])
                if it["name"] == "recip" and b and b.get("body") and "recip" in ops:
                    out.append(one(prog, b, "recip", "default", weak))
                if it["name"] in ops and not it["default"]:
                    for e in sorted(expected(feats)):
                        if (e, it["name"]) not in seen:
                            out.append(Goal("%s of %s" % (it["name"], e), VIOLATED, "impl MatrixDataType for %s" % e, "no implementation in this configuration", RULE))
    return out


def one(prog, b, m, e, weak):
    ky = "%s of %s" % (m, e)
    wh = K.where_of(b)
    try:
        k = St.Fn(prog, b)
        k.I.hooks.insert(0, hook)
        k.run()
    except Undecided as x:
        if isinstance(x, Endless):
            return Goal(ky, VIOLATED, wh, str(x), RULE)
        return Goal(ky, UNDECIDED, wh, str(x), RULE)
    except NotImplementedError as x:
        return Goal(ky, UNDECIDED, wh, str(x), RULE)
    if k.ret is None:
        return Goal(ky, VIOLATED, wh, "never returns", RULE)
    try:
        got = k.I.as_poly(k.ret)
        x = k.I.as_poly(k.args[0])
    except Undecided as er:
        return Goal(ky, UNDECIDED, wh, str(er), RULE)
    want = fn("recip", x) if m == "recip" else fn("sqrt", x)
    if got == want:
        return Goal(ky, HOLDS, wh, show(got), RULE)
    loose = approx_in(got, set())
    if loose and weak:
        # micromath works in single precision; a double-precision reciprocal needs no backend
        ok = [fn("approx", want)] if e != "f64" or m != "recip" else []
        if e == "f64" and m != "recip":
            ok.append(fn("approx", fn("sqrt", fn("narrow_f32", x))))
        if got in ok:
            return Goal(ky, HOLDS, wh, "%s (micromath without std and libm)" % show(got), RULE)
    if e == "f64" and m == "recip" and "approx" in loose:
        return Goal(ky, VIOLATED, wh, "%s is the single-precision approximation, double precision needs no backend" % show(got), RULE)
    if "approx" in loose and not weak:
        return Goal(ky, VIOLATED, wh, "%s uses micromath's approximation although an exact backend is enabled" % show(got), RULE)
    a = free_syms(x)
    used = 0
    grid = {n: (w, f) for (w, n), f in zip(FIXED.values(), (16, 32))}.get(e)
    for v in SAMPLES + NEG + [Decimal(0)] + near(got):
        if v == 0 and m == "recip":
            if not grid and finite(got, {n: v for n in a}):
                return Goal(ky, VIOLATED, wh, "computes %s, which is finite for x = 0" % show(got)[:200], RULE)
            continue
        if grid:
            # only numbers of the type, results within its range
            v = (v * 2 ** grid[1]).to_integral_value(rounding="ROUND_FLOOR") / 2 ** grid[1]
            top = Decimal(2) ** (grid[0] - 1 - grid[1])
            if v == 0 and m == "recip" or abs(v) >= top or v and abs(1 / v) >= top:
                continue
        env = {n: v for n in a}
        try:
            try:
                w = ev(want, env)
            except NoRoot:
                try:
                    g = ev(got, env)
                except NoVal:
                    continue                            # no value either
                if not grid:
                    return Goal(ky, VIOLATED, wh, "computes %s, e.g. %s for x = %s, which has no root (NaN)" % (show(got)[:200], +g.normalize() if abs(g) < Decimal("1e30") else g, v), RULE)
                continue
            g = ev(got, env)
        except NoVal as er:
            if isinstance(er, NoRoot):
                return Goal(ky, VIOLATED, wh, "computes %s, which has no value for x = %s" % (show(got)[:200], v), RULE)
            return Goal(ky, UNDECIDED, wh, "%s: no rule for %s" % (show(got)[:200], er), RULE)
        except Exception:
            continue
        tol = Decimal("1e-5") if weak and "narrow_f32" in loose else Decimal("1e-40")
        lim = tol * abs(w)
        if grid and loose:
            lim = max(lim, Decimal(4) / 2 ** grid[1])
        elif "narrow_f64" in loose:
            lim = max(lim, Decimal("1e-15") * abs(w))
        if abs(g - w) > lim:
            return Goal(ky, VIOLATED, wh, "computes %s, e.g. %s for x = %s instead of %s" % (show(got)[:200], +g.normalize() if abs(g) < Decimal("1e30") else g, v, w), RULE)
        used += 1
    if used >= 8:
        return Goal(ky, UNDECIDED, wh, "%s agrees with the definition on %d values, not proved equal" % (show(got)[:200], used), RULE)
    return Goal(ky, UNDECIDED, wh, show(got)[:200], RULE)
