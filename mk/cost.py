"""Work bounds: every loop of an operation runs a number of rounds fixed by the dimensions, and nested rounds multiply to no more
than the operation's order (cubic for products, factorisation and inversion, quadratic for elementwise operations, ...)."""
from .poly import *
from .poly import atom as patom
from .fm import Ctx
from .prog import last
from .interp import Undecided, Endless, Uncounted, B, Sl, Arr, Ref, State
from .arrays import subterms
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED, short
from . import kernels as K
from . import safety
from . import steps as S
from . import storage as St
from . import access as A

RULE = "the rounds of every loop are bounded by the dimensions, and nested rounds multiply to at most the operation's order"
NAMES = {0: "constant", 1: "linear", 2: "quadratic", 3: "cubic"}
ORDER = {"mult": 3, "mult_buffered": 3, "mult_transb": 3, "multadd_transb": 3, "multscale_transb": 3, "cholesky_decompose_lower": 3, "invert_l_cholesky": 3,
         "get_row_copy": 1, "get_column_copy": 1, "get_row_pointer": 0,
         "get": 0, "set": 0, "set_symmetric": 0, "get_at": 0, "set_at": 0, "get_row": 0, "set_row": 0, "get_col": 0, "set_col": 0, "get_value": 0, "set_value": 0}


def order(m):
    return ORDER.get(m, 2)


class Data(Exception):
    """a number of rounds that depends on contents"""


class Open(Exception):
    pass


def degree(p, two, conds=()):
    """order of growth in the dimensions (of an upper bound); storage of a matrix counts as its number of elements"""
    for m, c in p.t:
        for a, e in m:
            if a[0] == "ite" and e == 1 and len(m) == 1 and len(conds) < 3:
                rest = p - P(c) * patom(a)
                return max(degree(rest + P(c) * a[2], two, conds + (a[1],)), degree(rest + P(c) * a[3], two, conds + (neg(a[1]),)))
    if conds and small(p, conds):
        return 0
    for m, c in p.t:
        for a, e in m:
            if a[0] == "fn" and a[1] == "min" and e == 1 and c > 0 and len(m) == 1:
                rest = p - P(c) * patom(a)
                return min(tried(rest + P(c) * x, two) for x in a[2:4])
            if a[0] == "fn" and a[1] in ("max0", "max") and e == 1 and c < 0 and len(m) == 1:
                rest = p - P(c) * patom(a)
                return min(tried(rest + P(c) * x, two) for x in (a[2], a[3] if a[1] == "max" else ZERO))
    d = 0
    for m, c in p.t:
        k = sum(e * adeg(a, two) for a, e in m)
        if c > 0:                                    # what is taken away only lowers the count
            d = max(d, k)
    return d


def small(p, conds):
    """is the count at most a constant where it matters?"""
    names = free_syms(p)
    for c in conds:
        names |= free_syms(c)
    cx = Ctx(list(conds) + [ge0(sym(n)) for n in names])
    ks = {abs(c) for x in [p] + [y for z in conds for y in z[1:] if isinstance(y, Poly)] for m, c in x.t if isinstance(c, int) and abs(c) < 4096}
    return any(cx.entails(ge0(P(k) - p)) for k in sorted(ks))


def tried(p, two):
    try:
        return degree(p, two)
    except Data:
        return 9


def lowest(p):
    """what dividing by a size takes off"""
    return sum(e for a, e in p.t[0][0]) if len(p.t) == 1 and all(a[0] == "sym" for a, e in p.t[0][0]) else 0


def adeg(a, two):
    if a[0] == "sym":
        return 1
    if a[0] == "rd":
        raise Data(show(patom(a)))
    if a[0] == "ite":
        return max(degree(a[2], two), degree(a[3], two))
    if a[0] == "sum":
        return degree(a[2], two) + degree(a[3], two)
    if a[0] == "fn":
        if a[1] == "len":
            return two.get(a[2], 2)
        xs = [x for x in a[2:] if isinstance(x, Poly)]
        if a[1] == "min" and len(xs) == 2:
            return min(tried(x, two) for x in xs)
        if a[1] == "rem" and len(xs) == 2:
            return min(tried(x, two) for x in xs)
        if a[1] == "lit":
            return 0
        if a[1] == "div" and len(xs) == 2:
            return max(0, degree(xs[0], two) - lowest(xs[1]))
        if a[1] in ("max0", "max", "mag", "shr", "as_u8", "as_u16", "as_u32") and xs:
            return max(degree(x, two) for x in xs[:1 if a[1] == "shr" else None])
        if a[1].startswith("abort"):
            return 1
        for s in subterms(a):
            if s[0] == "rd":
                raise Data(show(patom(a)))
    raise Open(show(patom(a)))


def chain(L):
    out = []
    while L is not None:
        out.append(L)
        L = L.parent
    return out[::-1]


def content(x):
    """does a condition look at contents of storage?"""
    return any(s[0] in ("rd", "pd", "lt", "le", "eq") or s[0] == "b" and len(s) > 1 and s[1] in ("pd", "?") or s[0] == "fn" and s[1] in ("recip", "sqrt", "invert_l") for s in subterms(x))


def uncounted(I, e):
    """why a loop without a closed number of rounds is not bounded by the dimensions, or None"""
    hot = set()
    for n in e.pend:
        I.SOL.pop(n, None)
    pend = {n: (I.norm(a) if isinstance(a, Poly) else a, I.norm(b) if isinstance(b, Poly) else b) for n, (a, b) in e.pend.items()}
    more = True

    seen = {}

    def carried(x):
        """through values inner loops carry"""
        for a in subterms(x):
            if a[0] == "fn" and a[1] == "carry" and a[2] in I.REC:
                if a[2] not in seen:
                    seen[a[2]] = False
                    seen[a[2]] = any(content(y) or carried(y) for y in I.REC[a[2]][:2] if isinstance(y, (Poly, tuple)))
                if seen[a[2]]:
                    return True
        return False

    def is_hot(x):
        return content(x) or carried(x) or bool(free_syms(x) & hot)
    while more:
        more = False
        for n, (a, b) in pend.items():
            if n not in hot and (is_hot(a) or is_hot(b)) and not steady(n, b):
                hot.add(n)
                more = True
    ways = [[I.normc(c) for c in x.cond] for _, x in e.exits]
    if ways and all(any(is_hot(c) and not cold(c, is_hot) for c in w) for w in ways):
        return "loop at %s stops only when contents make it stop" % e.where
    return None


def steady(n, b):
    """does a counter move on by at least one in every case?"""
    if not isinstance(b, Poly):
        return False
    for m, c in b.t:
        for a, e in m:
            if a[0] == "ite" and e == 1 and len(m) == 1:
                rest = b - P(c) * patom(a)
                return all(steady(n, rest + P(c) * x) for x in a[2:4]) and len({(rest + P(c) * x - sym(n)).const() > 0 for x in a[2:4] if (rest + P(c) * x - sym(n)).const() is not None}) < 2
    d = (b - sym(n)).const()
    return d is not None and d != 0


def cold(c, is_hot):
    """a disjunction with a part that does not look at contents"""
    return c[0] == "or" and any(not is_hot(x) for x in c[1])


def measure(I, ky, wh, most, events=(), two=None):
    """goals for one followed body"""
    two = two or {}
    out, seen, worst = [], 0, 0

    def total(L):
        d = 0
        for x in chain(L):
            if x.N is None:
                return None
            if x.N.const() is None:
                d += degree(I.norm(x.N), two)
        return d
    work = [(L, ZERO, "loop at %s" % short(L.span), 0) for L in I.loops.values()]
    work += [(L, n, "%s at %s" % (w, short(sp)), 0) for L, n, w, sp in I.bulk]
    work += [(L, ZERO, "%s at %s" % (w, short(sp)), o) for L, w, sp, o in events]
    for L, n, what, more in work:
        try:
            d = total(L)
            if d is None:
                continue
            d += more + degree(I.norm(n), two)
        except Data as e:
            return [Goal(ky, VIOLATED, wh, "%s runs %s times: not bounded by the dimensions" % (what, str(e)[:120]), RULE)]
        except Open as e:
            out.append(Goal("%s: %s" % (ky, what), UNDECIDED, wh, "number of rounds %s" % str(e)[:120], RULE))
            continue
        seen += 1
        worst = max(worst, d)
        if d > most:
            ns = [show(I.norm(x.N))[:40] for x in chain(L)] + ([show(I.norm(n))[:40]] if n != ZERO else [])
            return [Goal(ky, VIOLATED, wh, "%s is nested in rounds %s%s: order %d where %s work is enough" % (what, " x ".join(ns), ", itself of order %d" % more if more else "", d, NAMES[most]), RULE)]
    hard = [x for x in I.notes if not x.startswith("uninterpreted")]
    if hard:
        out.append(Goal(ky, UNDECIDED, wh, hard[0], RULE))
    return out or [Goal(ky, HOLDS, wh, "%d loops and bulk operations, at most %s" % (seen, NAMES[worst]), RULE)]


def stopped(I, ky, wh, e):
    w = uncounted(I, e) if isinstance(e, Uncounted) else None
    if isinstance(e, Endless):
        return Goal(ky, VIOLATED, wh, str(e), RULE)
    return Goal(ky, VIOLATED if w else UNDECIDED, wh, w or str(e), RULE)


def widths(I, args, tys):
    """storage that is one row or column"""
    return {"a%d" % i: 1 for i, t in enumerate(tys, 1) if (t["ty"] if t["k"] == "ref" else t)["k"] == "slice"}


def check_kernels(prog):
    out = []
    todo = dict(safety.EXTRA)
    todo.update(K.SPECS)
    for (t, m), sp in todo.items():
        bs = K.bodies(prog, t, m)
        if not bs:
            out.append(Goal("%s::%s: missing" % (t, m), VIOLATED, "minikalman", "no analysable body", RULE))
        for b, imp in bs:
            ky, wh = b["path"].replace("minikalman::", ""), K.where_of(b)
            k = None
            try:
                k = K.K(prog, b, imp, t, square=sp.get("square", False))
                k.I.facts += safety.kernel_facts(k, t, m, sp) + safety.index_facts(k, sp)
                k.run()
            except Undecided as e:
                out.append(stopped(k.I, ky, wh, e) if k else Goal(ky, UNDECIDED, wh, str(e), RULE))
                continue
            out += measure(k.I, ky, wh, order(m), two=widths(k.I, k.args, k.tys))
    return out


class Entry(S.Entry):
    """a step, with the matrix operations it calls recorded together with the loops around them"""

    def __init__(self, prog, b):
        S.Entry.__init__(self, prog, b)
        self.ops = []
        h = self.S.hook

        def hook(I, s, c, args, fr, sp):
            tr = c.get("trait") or ""
            m = last(c["fn"])
            if last(tr) in S.KERNELS and "minikalman" in tr and (c.get("self") or {}).get("k") in ("param", "alias") and hasattr(self.S, "k_" + m):
                self.ops.append((I.loopstack[-1] if I.loopstack else None, m, sp, order(m)))
                if I.loopstack:
                    return self.any(I, s, c, args, fr, sp)
            return h(I, s, c, args, fr, sp)
        self.I.hooks[self.I.hooks.index(h)] = hook

    def any(self, I, s, c, args, fr, sp):
        """outcome unknown"""
        for a in args:
            if isinstance(a, Ref):
                for n in list(s.arrs):
                    if a.root == ("o", n) or a.root[1:] == (n,):
                        s.arrs[n] = ("init", fresh("k"))
        if m_bool(c):
            return B(("b", "pd", fresh("k")))
        return I.opaque_call(s, c, args, fr, sp)


def m_bool(c):
    return last(c["fn"]) == "cholesky_decompose_lower"


def check_steps(prog):
    out = []
    for kind in S.STEPS:
        for b, l in S.entries(prog, kind):
            ky, wh = "%s: %s" % (kind, b["path"].replace("minikalman::", "")), K.where_of(b)
            e = None
            try:
                e = Entry(prog, b)
                e.run()
            except Undecided as x:
                out.append(stopped(e.I, ky, wh, x) if e else Goal(ky, UNDECIDED, wh, str(x), RULE))
                continue
            out += measure(e.I, ky, wh, 3, events=e.ops)
    return out


CLONES = {"fmt", "eq", "ne", "cmp", "partial_cmp", "hash", "clone", "clone_from"}


def check_accessors(prog):
    """accessors and shape queries take constant time"""
    out = []
    comps = A.components(prog)
    done = set()
    todo = []
    for b in prog.d["bodies"]:
        im = prog.impls.get(b.get("impl"))
        if b["kind"] != "AssocFn" or not b.get("body") or b.get("derive") or not im:
            continue
        L = b["body"]["locals"]
        if im["self"].get("path") in comps and b["body"]["argc"] == 1 and L[0]["k"] == "ref" and L[1]["k"] == "ref" and L[1]["ty"].get("path") == im["self"].get("path"):
            todo.append(b)
    for b, im in St.methods(prog):
        L = b["body"]["locals"]
        if b["body"]["argc"] and L[1]["k"] == "ref" and b["name"] not in CLONES and (L[0]["k"] == "ref" or L[0].get("name") in ("usize", "bool")):
            todo.append(b)
    for b in todo:
        if b["sp"] in done:
            continue
        done.add(b["sp"])
        ky, wh = St.base(b), St.where(b)
        k = None
        try:
            k = St.Fn(prog, b)
            k.I.hooks.insert(0, A.roles)
            k.run()
        except Undecided as e:
            out.append(stopped(k.I, ky, wh, e) if k else Goal(ky, UNDECIDED, wh, str(e), RULE))
            continue
        out += measure(k.I, ky, wh, 0)
    return out


def check_elements(prog):
    """the element types' own operations take constant time"""
    out = []
    for b in prog.d["bodies"]:
        im = prog.impls.get(b.get("impl"))
        if not im or b["kind"] != "AssocFn" or not b.get("body") or last(im.get("trait") or "") != "MatrixDataType":
            continue
        ky, wh = St.base(b), St.where(b)
        k = None
        try:
            k = St.Fn(prog, b)
            k.run()
        except Undecided as e:
            out.append(stopped(k.I, ky, wh, e) if k else Goal(ky, UNDECIDED, wh, str(e), RULE))
            continue
        out += measure(k.I, ky, wh, 0)
    return out
