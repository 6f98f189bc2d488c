"""Absence of panics and out-of-bounds accesses: every obligation the interpreter meets (index and slice
bounds, counter underflow, assertions, unwraps, unreachable returns) is discharged from the entry facts,
the path condition and the ranges of the enclosing loop counters."""
import itertools
import math
from .poly import *
from .poly import atom as patom
from .fm import Ctx
from .prog import last
from .interp import Undecided, Endless
from .arrays import Q, subterms
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED, short
from . import kernels as K
from . import pit
from . import steps as S

RULE = "no reachable panic, out-of-bounds access or counter underflow for valid dimensions, indices and buffers"
N = K.N
EXTRA = {("MatrixMut", "cholesky_decompose_lower"): dict(lens={1: N * N}, square=True), ("SquareMatrix", "invert_l_cholesky"): dict(lens={1: N * N, 2: N * N})}
# buffers documented to have exactly the stated length
EXACT = {("Matrix", "mult_buffered"): [4]}


def loop_facts(I, o):
    fs = []
    for l in o["loops"]:
        L = I.loops[l]
        t = sym(L.t)
        fs.append(ge0(t))
        if L.N is not None:
            fs.append(ge0(I.norm(L.N) - t - (1 if getattr(L, "counted", False) else 0)))
    return fs


def describe(o):
    k = o["kind"]
    if k.startswith("assert:"):
        return k[7:].split(" ")[0].split("{")[0].strip() or "assertion"
    return {"sub": "unsigned subtraction", "panic": "panic", "slice": "slice range", "index": "index", "copylen": "copy_from_slice length", "unwrap": "unwrap", "chunk": "chunk size", "diverge": "call that never returns", "wrap": "conversion"}.get(k, k)


def small_dims(names, widths=(), bounds=()):
    """a few assignments that make products of dimensions linear"""
    for w in sorted(widths):
        for n in names:
            yield {m: P(2 ** w + 1 if m == n else 2) for m in names}
    for v in ((1, 1, 1, 1), (2, 3, 5, 4), (3, 2, 2, 3), (1, 4, 3, 2), (4, 1, 2, 5)):
        yield {n: P(x) for n, x in zip(names, itertools.cycle(v))}
    for c in sorted(bounds):
        for k in (c, c + 1, math.isqrt(c) + 1):
            yield {n: P(k) for n in names}
            for n in names if k != math.isqrt(c) + 1 else ():
                yield {m: P(k if m == n else 1) for m in names}


def big_consts(*xs):
    """constants the terms compare sizes with"""
    out = set()

    def walk(x):
        if isinstance(x, Poly):
            for m, c in x.t:
                if isinstance(c, int) and 3 < abs(c) < 2 ** 48:
                    out.add(abs(c))
                for a, _ in m:
                    walk(a)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, (tuple, Poly)):
                    walk(y)
    for x in xs:
        walk(x)
    return sorted(out)[:6]


def minmax(xs, cx):
    """what min and max terms satisfy"""
    out = []
    for a in {a for x in xs for a in subterms(x) if a[0] == "fn" and a[1] in ("min", "max") and len(a) == 4}:
        m, p, q = patom(a), a[2], a[3]
        if a[1] == "min":
            out += [ge0(p - m), ge0(q - m)] + ([ge0(m)] if cx.entails(ge0(p)) and cx.entails(ge0(q)) else [])
        else:
            out += [ge0(m - p), ge0(m - q)]
    for a in {a for x in xs for a in subterms(x) if a[0] == "fn" and a[1] in ("as_u8", "as_u16") and len(a) == 3}:
        m = patom(a)
        out += [ge0(m), ge0(P(255 if a[1] == "as_u8" else 65535) - m)] + ([ge0(a[2] - m)] if cx.entails(ge0(a[2])) else [])
    return out


def openites(x):
    """conditional terms that are not below a binder"""
    if isinstance(x, Poly):
        for m, _ in x.t:
            for a, e in m:
                if a[0] == "ite":
                    if e > 0:
                        yield a
                elif a[0] == "fn":
                    for y in a[2:]:
                        yield from openites(y)
    elif isinstance(x, tuple) and x and x[0] in ("ge0", "eq0", "ne0", "and", "or", "not", "lt", "le", "eq"):
        for y in x[1:]:
            if isinstance(y, tuple) and not (y and isinstance(y[0], str)):
                for z in y:
                    yield from openites(z)
            else:
                yield from openites(y)


def pick(x, a, v):
    """the term with a conditional replaced by one of its branches"""
    if isinstance(x, Poly):
        out = ZERO
        for m, c in x.t:
            p = P(c)
            for b, e in m:
                q = v if b == a else patom(pick(b, a, v)) if isinstance(b, tuple) else patom(b)
                for _ in range(e):
                    p = p * q
            out = out + p
        return out
    if isinstance(x, tuple):
        return tuple(pick(y, a, v) if isinstance(y, (tuple, Poly)) else y for y in x)
    return x


def decide(I, o, facts, pos, depth=0):
    """(status, detail); conditional sizes are decided case by case"""
    g = I.norm(o["goal"])
    st, d = decide1(I, o, g, facts, pos)
    if st == HOLDS:
        return st, d
    a = next((a for x in [g] + list(o["conds"]) for a in openites(I.norm(x))), None)
    if a is None:
        return st, d
    if depth > 3:
        return (UNDECIDED if next(openites(g), None) is not None else st), d
    res = []
    for c, v in ((a[1], a[2]), (neg(a[1]), a[3])):
        o2 = dict(o, goal=pick(g, a, v), conds=[pick(I.norm(x), a, v) for x in o["conds"]] + [c])
        res.append(decide(I, o2, facts, pos, depth + 1))
    for k in (VIOLATED, UNDECIDED):
        for r in res:
            if r[0] == k:
                return r
    return res[0]


def decide1(I, o, g, facts, pos):
    nf = len(facts)
    fs = list(facts) + loop_facts(I, o) + [I.norm(c) for c in o["conds"]]
    cx = Ctx(fs, pos)
    mm = minmax([g] + fs, cx)
    if mm:
        fs = fs + mm
        cx = Ctx(fs, pos)
    if cx.entails(g) or cx.infeasible():
        return HOLDS, show(g)[:120]
    # products of a dimension with a counter need the counter's own bound, not one through another counter
    cnt = [sym(I.loops[l].t) for l in o["loops"]]
    more = [b for t in cnt for d in pos for b in (ge0(sym(d) - 1 - t), ge0(sym(d) - t)) if b not in fs and cx.entails(b)]
    cx = Ctx(fs + more, pos)
    if cx.entails(g):
        return HOLDS, show(g)[:120]
    q = Q(I)
    g2 = q.resolve_c(g, cx)
    if cx.entails(g2):
        return HOLDS, show(g2)[:120]
    bad = K.bad_in(g2)
    if bad:
        return UNDECIDED, "cannot follow %s" % "; ".join(bad[:2])
    # is there a size for which the requirement fails on a feasible path?
    names = sorted(pos)
    for m in small_dims(names, pit.narrow(g2, *fs) | {w for w in (8, 16) if str(2 ** w - 1) in show(g2)}, big_consts(g2, *fs)):
        c2 = Ctx([subst(f, m) for f in fs], [p for p in pos if p not in m])
        if c2.infeasible():
            continue
        n = subst(neg(g2), m)
        if n == F:
            continue
        if not c2.plus(n).infeasible():
            return VIOLATED, "requires %s, which the path condition [%s] does not ensure (e.g. %s)" % (show(g2)[:150], ", ".join(show(c)[:60] for c in fs[len(facts):])[:300], ", ".join("%s=%s" % (a, show(b)) for a, b in m.items()))
    return UNDECIDED, "requires %s under [%s]" % (show(g2)[:150], ", ".join(show(c)[:60] for c in fs)[:300])


def collect(I, facts, pos, base, where, out, only=None):
    seen = {}
    for o in I.obl:
        ky = (o["kind"], o["span"], o["fn"], o["goal"], tuple(o["conds"]))
        if ky in seen or (only and not only(o)):
            continue
        seen[ky] = 1
        try:
            st, d = decide(I, o, facts, pos)
        except Undecided as e:
            st, d = UNDECIDED, str(e)
        fn = o["fn"].replace("minikalman::", "")
        out.append(Goal("%s: %s in %s" % (base, describe(o), fn), st, "%s (%s)" % (fn, short(o["span"])), d, RULE))
    return len(seen)


def kernel_facts(k, trait, m, sp):
    fs = K.facts_for(k, sp["lens"])
    for i in EXACT.get((trait, m), ()):
        if i in k.arr:
            fs.append(ge0(sp["lens"][i] - k.arr[i].n))
    return fs


def index_facts(k, sp):
    """valid-index requirements of an access operation"""
    out = []
    if "goals" in sp:
        free = set()
        for label, arr, idx, facts, want in sp["goals"](k):
            for f in facts:
                if not (free_syms(f) & {"r", "c"}) and f not in out and free_syms(f) & argsyms(k):
                    out.append(f)
    return out


def argsyms(k):
    s = set()
    for a in k.args:
        if isinstance(a, Poly):
            s |= free_syms(a)
    return s


def stuck(e):
    """an execution shown never to return"""
    return isinstance(e, Endless)


def aborts(goals):
    """only the ways a function fails to complete (part of what other properties need, decided in full by P25)"""
    return [g for g in goals if g.status == VIOLATED]


def check_kernels(prog, only=None):
    out = []
    todo = dict(EXTRA)
    todo.update(K.SPECS)
    for (t, m), sp in todo.items():
        if only is not None and m not in only:
            continue
        bs = K.bodies(prog, t, m)
        if not bs:
            out.append(Goal("%s::%s: missing" % (t, m), VIOLATED, "minikalman", "no analysable body", RULE))
        for b, imp in bs:
            base = b["path"].replace("minikalman::", "")
            wh = K.where_of(b)
            try:
                k = K.K(prog, b, imp, t, square=sp.get("square", False))
                facts = kernel_facts(k, t, m, sp) + index_facts(k, sp)
                k.I.facts += [f for f in facts]
                k.run()
            except Undecided as e:
                out.append(Goal(base, VIOLATED if stuck(e) else UNDECIDED, wh, str(e), RULE))
                continue
            if k.ret is None:
                out.append(Goal("%s: returns" % base, VIOLATED, wh, "never returns", RULE))
                continue
            n = collect(k.I, facts, K.POS, base, wh, out)
            hard = [x for x in k.I.notes if not x.startswith("uninterpreted")]
            st = UNDECIDED if hard else HOLDS
            out.append(Goal("%s: body followed" % base, st, wh, hard[0] if hard else "%d obligations" % n, RULE))
    return out


def check_steps(prog, kinds=None):
    out = []
    for kind in S.STEPS:
        if kinds is not None and kind not in kinds:
            continue
        for b, l in S.entries(prog, kind):
            base = "%s: %s" % (kind, b["path"].replace("minikalman::", ""))
            wh = K.where_of(b)
            try:
                e = S.Entry(prog, b)
                e.run()
            except Undecided as x:
                out.append(Goal(base, VIOLATED if stuck(x) else UNDECIDED, wh, str(x), RULE))
                continue
            if e.ret is None:
                out.append(Goal("%s: returns" % base, VIOLATED, wh, "never returns", RULE))
                continue
            n = collect(e.I, list(e.I.facts), sorted(e.I.pos), base, wh, out)
            hard = [x for x in e.I.notes if not x.startswith("uninterpreted")]
            out.append(Goal("%s: body followed" % base, UNDECIDED if hard else HOLDS, wh, hard[0] if hard else "%d obligations; kernels %s" % (n, ", ".join(sorted(e.S.used))), RULE))
    return out
