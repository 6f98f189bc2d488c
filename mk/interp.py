"""Abstract interpreter over generic MIR.

Domain: gated value numbering (values are normal forms over the function's inputs, joins
produce gated values), closed forms for induction variables and accumulators of natural
loops, and parametric array write-maps.  Every basic block is evaluated once per loop
fixpoint round with all inputs, dimensions and loop counters symbolic; nothing is executed.
"""
import itertools
from dataclasses import dataclass
from typing import Any, Tuple

import re
from .poly import *
from .poly import atom as patom
from .fm import Ctx, Undecided, clock
from .prog import last
from . import pp


def typenum(t):
    """value of a typenum type"""
    if last(t.get("path", "")) == "UTerm":
        return 0
    if last(t.get("path", "")) == "UInt":
        n = typenum(t["args"][0])
        return None if n is None else 2 * n + (last(t["args"][1]["path"]) == "B1")
    return None


# ------------------------------------------------------------------ values
@dataclass(frozen=True)
class B:
    c: tuple


@dataclass(frozen=True)
class Ref:
    root: tuple
    path: tuple


@dataclass(frozen=True)
class Sl:
    arr: Any
    off: Poly
    n: Poly


@dataclass(frozen=True)
class Arr:
    arr: Any
    n: Poly


@dataclass(frozen=True)
class Agg:
    path: str
    variant: int
    fields: tuple


@dataclass(frozen=True)
class Opt:
    c: tuple
    v: Any


@dataclass(frozen=True)
class En:
    """a value of an enum whose variant depends on conditions: ((variant, condition, fields), ...)"""
    path: str
    alts: tuple

    def cond(self, k):
        return next((c for v, c, _ in self.alts if v == k), F)

    def pick(self, k):
        return next((f for v, _, f in self.alts if v == k), None)


@dataclass(frozen=True)
class CmpV:
    p: Poly


@dataclass(frozen=True)
class Clo:
    path: str
    gen: tuple
    caps: tuple


@dataclass(frozen=True)
class It:
    seq: tuple
    pos: Poly
    end: Poly      # consumed from the back


@dataclass(frozen=True)
class FnV:
    key: str


@dataclass(frozen=True)
class Op:
    name: str
    ty: Any  # frozen json string


@dataclass(frozen=True)
class Dv:
    v: Any


@dataclass(frozen=True)
class Unk:
    why: str


UNIT = Agg("tuple", 0, ())




import json as _json


class Effectful(Undecided):
    """a predicate that changes something"""


class Endless(Undecided):
    """a loop shown not to terminate"""


class Uncounted(Undecided):
    """a loop whose number of rounds has no closed form"""

    def __init__(self, where, pend, exits):
        Undecided.__init__(self, "trip count of loop at " + where)
        self.where, self.pend, self.exits = where, pend, exits


def fz(t):
    return _json.dumps(t, sort_keys=True)


def uz(s):
    return _json.loads(s)


def vmap(v, f):
    """f maps Poly->Poly and tuple(cond/state)->tuple"""
    if isinstance(v, Poly):
        return f(v)
    if isinstance(v, B):
        return B(f(v.c))
    if isinstance(v, Ref):
        return Ref(v.root, tuple(("ix", f(x[1])) if isinstance(x, tuple) and x[0] == "ix" else x for x in v.path))
    if isinstance(v, Sl):
        return Sl(v.arr, f(v.off), f(v.n))
    if isinstance(v, Arr):
        return Arr(v.arr, f(v.n))
    if isinstance(v, Agg):
        return Agg(v.path, v.variant, tuple(vmap(x, f) for x in v.fields))
    if isinstance(v, Opt):
        return Opt(f(v.c), vmap(v.v, f))
    if isinstance(v, En):
        return En(v.path, tuple((k, f(c), tuple(vmap(x, f) for x in fs)) for k, c, fs in v.alts))
    if isinstance(v, CmpV):
        return CmpV(f(v.p))
    if isinstance(v, Clo):
        return Clo(v.path, v.gen, tuple(vmap(x, f) for x in v.caps))
    if isinstance(v, It):
        return It(tuple(vmap(x, f) for x in v.seq), f(v.pos), f(v.end))
    if isinstance(v, Dv):
        return Dv(vmap(v.v, f))
    if isinstance(v, tuple):
        return tuple(vmap(x, f) for x in v)
    return v


def leaves(v, path=()):
    """(path, Poly|cond) leaves"""
    if isinstance(v, Poly):
        yield path, v
    elif isinstance(v, B):
        yield path, v.c
    elif isinstance(v, Ref):
        for i, x in enumerate(v.path):
            if isinstance(x, tuple) and x[0] == "ix":
                yield path + (i,), x[1]
    elif isinstance(v, Sl):
        yield path + ("off",), v.off
        yield path + ("n",), v.n
    elif isinstance(v, Arr):
        yield path + ("n",), v.n
    elif isinstance(v, Agg):
        for i, x in enumerate(v.fields):
            yield from leaves(x, path + (i,))
    elif isinstance(v, Opt):
        yield path + ("c",), v.c
        yield from leaves(v.v, path + ("v",))
    elif isinstance(v, En):
        for k, c, fs in v.alts:
            yield path + (("c", k),), c
            for i, x in enumerate(fs):
                yield from leaves(x, path + (("v", k), i))
    elif isinstance(v, CmpV):
        yield path + ("p",), v.p
    elif isinstance(v, Clo):
        for i, x in enumerate(v.caps):
            yield from leaves(x, path + (i,))
    elif isinstance(v, It):
        for i, x in enumerate(v.seq):
            yield from leaves(x, path + ("s", i))
        yield path + ("pos",), v.pos
        yield path + ("end",), v.end
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))


def shape(v):
    """value with leaves erased (for comparing structure)"""
    return vmap(v, lambda x: ZERO if isinstance(x, Poly) else T)


def set_leaves(v, m, path=()):
    """replace leaves by m[path]"""
    def go(v, path):
        if isinstance(v, Poly):
            return m.get(path, v)
        if isinstance(v, B):
            return B(m.get(path, v.c))
        if isinstance(v, Ref):
            return Ref(v.root, tuple(("ix", m.get(path + (i,), x[1])) if isinstance(x, tuple) and x[0] == "ix" else x for i, x in enumerate(v.path)))
        if isinstance(v, Sl):
            return Sl(v.arr, m.get(path + ("off",), v.off), m.get(path + ("n",), v.n))
        if isinstance(v, Arr):
            return Arr(v.arr, m.get(path + ("n",), v.n))
        if isinstance(v, Agg):
            return Agg(v.path, v.variant, tuple(go(x, path + (i,)) for i, x in enumerate(v.fields)))
        if isinstance(v, Opt):
            return Opt(m.get(path + ("c",), v.c), go(v.v, path + ("v",)))
        if isinstance(v, En):
            return En(v.path, tuple((k, m.get(path + (("c", k),), c), tuple(go(x, path + (("v", k), i)) for i, x in enumerate(fs))) for k, c, fs in v.alts))
        if isinstance(v, CmpV):
            return CmpV(m.get(path + ("p",), v.p))
        if isinstance(v, Clo):
            return Clo(v.path, v.gen, tuple(go(x, path + (i,)) for i, x in enumerate(v.caps)))
        if isinstance(v, It):
            return It(tuple(go(x, path + ("s", i)) for i, x in enumerate(v.seq)), m.get(path + ("pos",), v.pos), m.get(path + ("end",), v.end))
        if isinstance(v, tuple):
            return tuple(go(x, path + (i,)) for i, x in enumerate(v))
        return v
    return go(v, path)


def vite(c, a, b):
    if a == b or c == T:
        return a
    if c == F:
        return b
    if isinstance(a, Poly) and isinstance(b, Poly):
        return mk_ite(c, a, b)
    if isinstance(a, B) and isinstance(b, B):
        return B(cite(c, a.c, b.c))
    if isinstance(a, Opt) and isinstance(b, Opt):
        cc = cite(c, a.c, b.c)
        if a.v is None or a.c == F:
            return Opt(cc, b.v)
        if b.v is None or b.c == F:
            return Opt(cc, a.v)
        return Opt(cc, vite(c, a.v, b.v))
    if isinstance(a, Agg) and isinstance(b, Agg) and a.path == b.path and a.variant == b.variant and len(a.fields) == len(b.fields):
        return Agg(a.path, a.variant, tuple(vite(c, x, y) for x, y in zip(a.fields, b.fields)))
    if isinstance(a, (Agg, En)) and isinstance(b, (Agg, En)) and a.path == b.path and a.path not in ("tuple", "partial", "ptr"):
        x, y = [v.alts if isinstance(v, En) else ((v.variant, T, v.fields),) for v in (a, b)]
        dx, dy = {k: (q, f) for k, q, f in x}, {k: (q, f) for k, q, f in y}
        alts = []
        for k in sorted(set(dx) | set(dy)):
            (p, f), (q, g) = dx.get(k, (F, None)), dy.get(k, (F, None))
            if f is not None and g is not None and len(f) != len(g):
                return Unk("join of different variants")
            fs = f if g is None or q == F else g if f is None or p == F else tuple(vite(c, u, w) for u, w in zip(f, g))
            alts.append((k, cite(c, p, q), fs))
        return En(a.path, tuple(alts))
    if isinstance(a, Sl) and isinstance(b, Sl) and a.arr == b.arr:
        return Sl(a.arr, mk_ite(c, a.off, b.off), mk_ite(c, a.n, b.n))
    if isinstance(a, It) and isinstance(b, It) and a.seq == b.seq:
        return It(a.seq, mk_ite(c, a.pos, b.pos), mk_ite(c, a.end, b.end))
    if isinstance(a, Clo) and isinstance(b, Clo) and a.path == b.path:
        return Clo(a.path, a.gen, tuple(vite(c, x, y) for x, y in zip(a.caps, b.caps)))
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, Op) and isinstance(b, Op) and a.ty == b.ty and uz(a.ty)["k"] in ("param", "alias"):
        return mk_ite(c, sym(a.name), sym(b.name))
    if isinstance(a, Op) and isinstance(b, Poly):
        return mk_ite(c, sym(a.name), b)
    if isinstance(b, Op) and isinstance(a, Poly):
        return mk_ite(c, a, sym(b.name))
    return Unk("join of %s and %s" % (type(a).__name__, type(b).__name__))


def cite(c, a, b):
    return mk_or([mk_and([c, a]), mk_and([neg(c), b])])


class State:
    __slots__ = ("mem", "arrs", "cond", "known")

    def __init__(self):
        self.mem = {}
        self.arrs = {}
        self.cond = []
        self.known = ()       # what passed assertions and checks ensure on every path to here

    def learn(self, *cs):
        for c in cs:
            if c != T and c not in self.known:
                self.known = self.known + (c,)

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.arrs = dict(self.arrs)
        s.cond = list(self.cond)
        s.known = self.known
        return s


class LoopRec:
    def __init__(self, id, t, params, parent, span):
        self.id = id
        self.t = t
        self.params = params   # names of enclosing counters
        self.parent = parent
        self.N = None
        self.flags = set()     # carried booleans, as 0 or 1
        self.enter = {}        # carried scalars: value on entry
        self.rest = {}         # recurrences of scalars without a closed form
        self.counted = False   # the body runs only for counters below N
        self.init = {}
        self.body = {}
        self.aborts = []
        self.span = span
        self.conds = []        # path condition at loop entry (full, incl. enclosing)


class Frame:
    def __init__(self, fid, b, mir, gen):
        self.fid = fid
        self.b = b
        self.mir = mir
        self.gen = gen


BULK = {"fill", "copy_from_slice", "clone_from_slice", "reverse", "rotate_left", "rotate_right", "copy_within", "swap_with_slice", "fill_with"}
INTS = {"usize", "isize", "u64", "i64", "u128", "i128"}
SMALL = {"u8", "u16", "u32", "i8", "i16", "i32"}
FLOATS = {"f32", "f64"}


def writes(t, depth=0):
    """may a value of this type give write access to storage it does not own?"""
    k = t["k"]
    if k in ("ref", "ptr"):
        return bool(t.get("mut")) or writes(t["ty"], depth + 1)
    if k in ("slice", "array"):
        return writes(t["ty"], depth + 1)
    if k == "tuple":
        return any(writes(x, depth + 1) for x in t["tys"])
    if k == "closure":
        return True
    if k == "adt":
        return "Mut" in t["path"].rsplit("::", 1)[-1] or any(writes(x, depth + 1) for x in t.get("args", []) if isinstance(x, dict) and "k" in x)
    return False


NARROW = {"u8": (0, 255), "u16": (0, 65535), "i8": (-128, 127), "i16": (-32768, 32767)}


def fits(name, v):
    """condition that an integer has a value of the narrow type, None for the wide types (taken as unbounded)"""
    r = NARROW.get(name)
    if r is None:
        return None
    return mk_and([ge0(v - r[0]), ge0(P(r[1]) - v)])


def wrap(name, v):
    """value after wrapping into a narrow type"""
    r = NARROW.get(name)
    if r is None or v.const() is not None and r[0] <= v.const() <= r[1]:
        return v
    a = as_atom(v)
    if a is not None and a[:2] == ("fn", "as_" + name):
        return v
    return fn("as_" + name, v)


def has_cur(x, lid):
    """does x read an array as of an iteration of loop lid; with lid None: the size of x"""
    if isinstance(x, Poly):
        x = tuple(x.t)
    if isinstance(x, (tuple, list)):
        if lid is None:
            return 1 + sum(has_cur(y, lid) for y in x)
        return len(x) > 1 and x[0] == "cur" and x[1] == lid or any(has_cur(y, lid) for y in x)
    return 0


def unsigned(ty):
    return ty.get("name", "")[:1] == "u"


class Interp:
    def __init__(self, prog, pos=(), hooks=None, facts=()):
        self.prog = prog
        self.pos = set(pos)
        self.facts = list(facts)
        self.hooks = hooks or []
        self.consts = {}      # constants kept symbolic
        self.loops = {}
        self.loopstack = []
        self.SOL = {}
        self.REC = {}         # recurrences without closed form: name -> (start, step, counter, enclosing counters)
        self.obl = []
        self.signed = set()  # conversions of signed numbers
        self.bulk = []       # library operations on whole slices: loop, length, name, place
        self.notes = []      # undecided constructs
        self.stack = []
        self.stackargs = []
        self.fid = itertools.count(1)
        self.hid = itertools.count(1)
        self.lid = itertools.count(1)
        self.otypes = {}
        self.arrdims = {}
        self.base_conds = []
        self.lens = {}       # array name -> known length
        self.calls = []      # resolved calls seen (for evidence)
        self.events = []     # analysis-specific events recorded by hooks
        self.blocks_done = 0

    # -------------------------------------------------------------- misc
    def note(self, why):
        if why not in self.notes:
            self.notes.append(why)
        return Unk(why)

    def ctx(self, *facts):
        return Ctx(list(self.facts) + list(facts), self.pos)

    def norm(self, x):
        for _ in range(60):
            fs = free_syms(x)
            m = {k: self.SOL[k] for k in fs if k in self.SOL}
            if not m:
                return x
            x = subst(x, m)
        raise Undecided("closed forms do not converge")

    def oblig(self, st, kind, goal, span, fr):
        self.obl.append(dict(kind=kind, conds=list(self.base_conds) + list(st.cond) + list(st.known), loops=[l.id for l in self.loopstack], goal=goal, span=span, fn=fr.b["path"]))

    def storage(self, st, v, ty):
        """slice behind a value of a concrete matrix type (through its own as_slice)"""
        for imp, it in self.prog.impl_items.get(("minikalman::matrix::row_major::RowMajorSequentialData", "as_slice"), []):
            env = {}
            if imp["self"]["k"] != "param" and self.unify(imp["self"], ty, env):
                b = self.prog.bodies.get(it["sp"])
                r = self.run_body(st, b, env, [v])
                if isinstance(r, Sl):
                    return r
        return None

    def lenof(self, name):
        return self.lens.get(name) or fn("len", name)

    # -------------------------------------------------------------- types
    def ty_sub(self, t, gen):
        k = t["k"]
        if k == "param":
            g = gen.get(t["name"])
            if isinstance(g, dict):
                return g
            return t
        if k == "cparam":
            g = gen.get(t["name"])
            if g is None:
                return t
            return {"k": "cpoly", "v": g} if isinstance(g, Poly) else t
        out = dict(t)
        for f in ("ty", "len"):
            if f in t and isinstance(t[f], dict):
                out[f] = self.ty_sub(t[f], gen)
        for f in ("args", "tys", "upvars"):
            if f in t:
                out[f] = [self.ty_sub(x, gen) for x in t[f]]
        return out

    def cpoly(self, c, gen):
        if c["k"] == "cpoly":
            return c["v"]
        if c["k"] == "cval":
            return P(c["v"])
        if c["k"] == "cparam":
            g = gen.get(c["name"])
            return g if isinstance(g, Poly) else sym(c["name"])
        return fn("const", c.get("s", "?"))

    def genv(self, genlist, args, gen):
        """environment for a callee: names -> Poly | type"""
        env = {}
        for (kind, name), a in zip(genlist, args):
            if kind == "const":
                env[name] = self.cpoly(a, gen)
            else:
                env[name] = self.ty_sub(a, gen)
        return env

    def is_scalar_ty(self, t):
        return t["k"] == "prim"

    # -------------------------------------------------------------- opaque inputs
    def mat(self, st, ty, name):
        """a symbolic value of a type"""
        k = ty["k"]
        if k == "prim":
            if ty["name"] == "bool":
                return B(("b", name))
            return sym(name)
        if k == "ref":
            t = ty["ty"]
            if t["k"] == "slice":
                return Sl(name, ZERO, self.lenof(name))
            root = ("o", name)
            self.otypes[name] = t
            return Ref(root, ())
        if k == "ptr":
            root = ("o", name)
            self.otypes[name] = ty["ty"]
            return Ref(root, ())
        if k == "array":
            return Arr(name, self.cpoly(ty["len"], {}))
        if k == "slice":
            return Arr(name, self.lenof(name))
        if k == "tuple":
            return Agg("tuple", 0, tuple(self.mat(st, t, "%s.%d" % (name, i)) for i, t in enumerate(ty["tys"])))
        if k == "adt":
            p = ty["path"]
            if p.endswith("PhantomData"):
                return Agg(p, 0, ())
            if p.endswith("option::Option"):
                return Opt(("b", name), self.mat(st, ty["args"][0], name + ".some"))
            if last(p) in ("Box", "Vec") :
                inner = ty["args"][0]
                if last(p) == "Vec":
                    return Arr(name, self.lenof(name))
                if inner["k"] == "slice":
                    return Arr(name, self.lenof(name))
            if last(p) == "Range" and "ops" in p:
                return Agg("core::ops::range::Range", 0, (self.mat(st, ty["args"][0], name + ".start"), self.mat(st, ty["args"][0], name + ".end")))
        return Op(name, fz(self.jsonable(ty)))

    def jsonable(self, t):
        if isinstance(t, dict):
            if t.get("k") == "cpoly":
                a = as_atom(t["v"])
                if a and a[0] == "sym":
                    return {"k": "cparam", "name": a[1]}
                c = t["v"].const()
                if c is not None:
                    return {"k": "cval", "v": c}
                return {"k": "cother", "s": show(t["v"])}
            return {k: self.jsonable(v) for k, v in t.items()}
        if isinstance(t, list):
            return [self.jsonable(x) for x in t]
        return t

    def child(self, st, op, f, fty=None):
        ty = uz(op.ty)
        if ty["k"] == "adt":
            a = self.prog.adts.get(ty["path"])
            if a and len(a["variants"]) == 1:
                fd = a["variants"][0]["fields"][f]
                env = {}
                for (kind, name), x in zip(a["gen"], ty["args"]):
                    env[name] = self.cpoly(x, {}) if kind == "const" else x
                return self.mat(st, self.ty_sub(fd["ty"], env), "%s.%s" % (op.name, fd["name"]))
        if ty["k"] == "closure" and f < len(ty["upvars"]):
            return self.mat(st, ty["upvars"][f], "%s.%d" % (op.name, f))
        if fty is not None:
            return self.mat(st, fty, "%s.%d" % (op.name, f))
        return self.note("field %d of opaque %s" % (f, op.name))

    def expand_op(self, st, op):
        ty = uz(op.ty)
        if ty["k"] == "adt":
            a = self.prog.adts.get(ty["path"])
            if a and len(a["variants"]) == 1:
                n = len(a["variants"][0]["fields"])
                return Agg(ty["path"], 0, tuple(self.child(st, op, i) for i in range(n)))
        return None

    # -------------------------------------------------------------- memory
    def root_val(self, st, root):
        if root in st.mem:
            return st.mem[root]
        if root[0] == "o":
            v = self.mat(st, self.otypes[root[1]], root[1])
            st.mem[root] = v
            return v
        return None

    def arr_state(self, st, arr):
        s = st.arrs.get(arr)
        if s is None:
            s = ("init", arr)
            for L in self.loopstack:
                if arr not in L.init:
                    L.init[arr] = s
                s = ("cur", L.id, arr, tuple(sym(p) for p in L.params), sym(L.t))
            st.arrs[arr] = s
        return s

    def load(self, st, root, path):
        if root[0] == "arr":
            if len(path) == 1:
                return patom(("rd", self.arr_state(st, root[1]), path[0][1]))
            return self.note("aggregate array element")
        if root[0] == "sl":
            return Arr(root[1].arr, root[1].n) if not path else self.note("path into slice")
        v = self.root_val(st, root)
        return self.walk(st, v, path)

    def walk(self, st, v, path):
        for i, e in enumerate(path):
            if isinstance(v, Unk):
                return v
            if isinstance(e, tuple) and e[0] == "dc":
                if isinstance(v, Opt):
                    v = Agg("option::payload", e[1], (v.v,)) if e[1] == 1 else Agg("option::payload", 0, ())
                elif isinstance(v, En):
                    fs = v.pick(e[1])
                    if fs is None:
                        return Unk("variant that was never built")
                    v = Agg(v.path, e[1], fs)
                continue
            if isinstance(e, tuple) and e[0] == "ix":
                if isinstance(v, Arr):
                    v = patom(("rd", self.arr_state(st, v.arr), e[1]))
                    continue
                return self.note("index into %s" % type(v).__name__)
            if isinstance(v, Agg):
                if e < len(v.fields):
                    v = v.fields[e]
                else:
                    return self.note("field %r of %s" % (e, v.path))
            elif isinstance(v, Op):
                v = self.child(st, v, e)
            elif isinstance(v, Clo):
                v = v.caps[e]
            elif isinstance(v, Arr) and e == 0:
                # Box<[T]>/Vec internals: stay on the same contents
                continue
            elif v is None:
                return self.note("read of uninitialised value")
            else:
                return self.note("field %r of %s" % (e, type(v).__name__))
        return v

    def store(self, st, root, path, val):
        if root[0] == "arr":
            if len(path) == 1:
                st.arrs[root[1]] = ("st", self.arr_state(st, root[1]), path[0][1], self.as_poly(val))
                return
            self.note("store into aggregate element")
            return
        if root[0] == "sl":
            self.note("store of whole slice")
            return
        if not path:
            if isinstance(val, Arr) or (root in st.mem and isinstance(st.mem[root], Arr)):
                pass
            st.mem[root] = val
            return
        v = self.root_val(st, root)
        st.mem[root] = self.upd(st, v, path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if isinstance(e, tuple) and e[0] == "dc":
            if isinstance(v, Opt) and len(path) >= 2:
                return Opt(v.c, self.upd(st, v.v, path[2:], val))
            return self.upd(st, v, path[1:], val)
        if isinstance(e, tuple) and e[0] == "ix":
            if isinstance(v, Arr):
                st.arrs[v.arr] = ("st", self.arr_state(st, v.arr), e[1], self.as_poly(val))
                return v
            return self.note("indexed store into %s" % type(v).__name__)
        if isinstance(v, Op):
            x = self.expand_op(st, v)
            if x is None:
                return self.note("store into opaque %s" % v.name)
            v = x
        if v is None:
            v = Agg("partial", 0, ())
        if isinstance(v, Agg):
            fs = list(v.fields)
            while len(fs) <= e:
                fs.append(None)
            fs[e] = self.upd(st, fs[e], path[1:], val)
            return Agg(v.path, v.variant, tuple(fs))
        if isinstance(v, Clo):
            fs = list(v.caps)
            fs[e] = self.upd(st, fs[e], path[1:], val)
            return Clo(v.path, v.gen, tuple(fs))
        return self.note("store into field of %s" % type(v).__name__)

    def as_poly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Op):
            return sym(v.name)
        if isinstance(v, B):
            return mk_ite(v.c, ONE, ZERO)
        if isinstance(v, Unk):
            return fn("unknown", v.why)
        self.note("scalar expected, got %s" % type(v).__name__)
        return fn("unknown", fresh("v"))

    def place(self, st, fr, pl):
        root, path = ("l", fr.fid, pl["l"]), ()
        for e in pl["p"]:
            if e == "*":
                v = self.load(st, root, path)
                if isinstance(v, Ref):
                    root, path = v.root, v.path
                elif isinstance(v, Sl):
                    root, path = ("sl", v), ()
                elif isinstance(v, Arr):
                    # deref of Box<[T]> / Vec
                    root, path = ("sl", Sl(v.arr, ZERO, v.n)), ()
                elif isinstance(v, Agg) and v.path == "ptr":
                    s_, ix = v.fields
                    self.oblig(st, "unchecked", mk_and([ge0(ix), ge0(s_.n - 1 - ix)]), fr.b["span"], fr)
                    root, path = ("arr", s_.arr), (("ix", s_.off + ix),)
                elif isinstance(v, Op):
                    t = uz(v.ty)
                    if t["k"] == "adt" and last(t["path"]) == "Box":
                        nm = v.name + ".box"
                        self.otypes[nm] = t["args"][0]
                        root, path = ("o", nm), ()
                    elif t["k"] == "ref" and v.name.startswith("const:"):
                        # literal (a message): never changes
                        nm = v.name + ".*"
                        self.otypes[nm] = t["ty"]
                        root, path = ("o", nm), ()
                    else:
                        raise Undecided("deref of opaque %s" % v.name)
                else:
                    raise Undecided("deref of %s in %s" % (v, fr.b["path"]))
            elif isinstance(e, str):
                raise Undecided("projection %s" % e)
            elif "f" in e:
                if root[0] == "sl":
                    raise Undecided("field of slice")
                path = path + (e["f"],)
            elif "dc" in e:
                path = path + (("dc", e["dc"]),)
            elif "i" in e:
                ix = self.as_poly(self.load(st, ("l", fr.fid, e["i"]), ()))
                root, path = self.index_place(st, root, path, ix)
            elif "ci" in e:
                n = self.len_of_place(st, root, path)
                ix = (n - e["ci"]) if e["end"] else P(e["ci"])
                root, path = self.index_place(st, root, path, ix)
            elif "sub" in e:
                v = self.slice_of_place(st, root, path)
                hi = (v.n - e["to"]) if e["end"] else P(e["to"])
                root, path = ("sl", Sl(v.arr, v.off + e["sub"], hi - e["sub"])), ()
            else:
                raise Undecided("projection")
        return root, path

    def slice_of_place(self, st, root, path):
        if root[0] == "sl":
            return root[1]
        v = self.load(st, root, path)
        if isinstance(v, Arr):
            return Sl(v.arr, ZERO, v.n)
        if isinstance(v, Sl):
            return v
        raise Undecided("slice expected")

    def len_of_place(self, st, root, path):
        return self.slice_of_place(st, root, path).n

    def index_place(self, st, root, path, ix):
        s = self.slice_of_place(st, root, path)
        return ("arr", s.arr), (("ix", s.off + ix),)

    # -------------------------------------------------------------- operands
    def operand(self, st, fr, o):
        if "copy" in o or "move" in o:
            root, path = self.place(st, fr, o.get("copy") or o.get("move"))
            return self.load(st, root, path)
        if "const" in o:
            return self.const(st, fr, o["const"])
        raise Undecided("operand %s" % (o,))

    def const(self, st, fr, c):
        if "fn" in c:
            return FnV(fz(self.jsonable_fn(c, fr)))
        ty = c["ty"]
        if "bits" in c and "uneval" not in c:
            return self.bits(ty, int(c["bits"]))
        if "c" in c:
            return self.cpoly(c["c"], fr.gen) if c["c"]["k"] in ("cparam", "cval", "cpoly") else self.note("const " + str(c["c"]))
        if "uneval" in c:
            if c["uneval"] in self.consts:
                return self.consts[c["uneval"]]
            if "promoted" in c:
                key = ("prom", fr.b["sp"], c["promoted"], fz({k: show(v) if isinstance(v, Poly) else self.jsonable(v) for k, v in fr.gen.items()}))
                b = self.prog.bodies.get(c["sp"])
                mir = b["promoted"][c["promoted"]]
                r = self.run_mir(st, b, mir, fr.gen, [])
                if r is None:
                    raise Undecided("promoted")
                return r
            b = self.prog.bodies.get(c["sp"])
            if b and b.get("body") and c["args"] is not None:
                env = self.genv(b["gen"], c["args"], fr.gen)
                r = self.run_mir(st, b, b["body"], env, [])
                if r is not None:
                    return r
            if "bits" in c:
                return self.bits(ty, int(c["bits"]))
            return fn("const", c["uneval"])
        t = ty
        if t["k"] == "tuple" and not t["tys"]:
            return UNIT
        if t["k"] == "adt" and last(t["path"]) == "PhantomData":
            return Agg(t["path"], 0, ())
        if t["k"] == "closure":
            return Clo(t["path"], tuple(fz(self.jsonable(self.ty_sub(a, fr.gen))) for a in t["args"]), ())
        if "static" in c:
            nm = "static:" + c["static"]
            self.events.append(("static", c["static"], fr.b["path"]))
            if t["k"] in ("ref", "ptr"):
                self.otypes[nm] = t["ty"]
                return Ref(("o", nm), ())
        if t["k"] == "adt" or t["k"] == "tuple" or t["k"] == "fndef":
            return Agg(t.get("path", "const"), 0, ())
        return Op("const:" + str(c.get("v"))[:60], fz(self.jsonable(self.ty_sub(t, fr.gen))))

    def bits(self, ty, v):
        if ty["k"] == "prim":
            n = ty["name"]
            if n == "bool":
                return B(T if v else F)
            if n in ("f32", "f64"):
                import struct
                f = struct.unpack("<f" if n == "f32" else "<d", v.to_bytes(4 if n == "f32" else 8, "little"))[0]
                if f == int(f) if f == f and abs(f) < 2**53 else False:
                    return P(int(f))
                return fn("lit", repr(f))
            if n[0] == "i":
                w = {"isize": 64}.get(n) or int(n[1:])
                if v >= 1 << (w - 1):
                    v -= 1 << w
            return P(v)
        m = re.fullmatch(r"fixed::FixedI(8|16|32|64|128)", ty.get("path", ""))
        if m:
            # fixed-point constant: its bits count units of the last place
            w, f = int(m.group(1)), typenum(ty["args"][0])
            if v >= 1 << (w - 1):
                v -= 1 << w
            if f is None:
                raise Undecided("fixed-point constant")
            return P(v >> f) if v % (1 << f) == 0 else fn("lit", repr(v / (1 << f)))
        return P(v)

    def jsonable_fn(self, c, fr):
        c = dict(c)
        for k in ("args", "rargs"):
            if k in c:
                c[k] = [self.jsonable(self.ty_sub(a, fr.gen)) for a in c[k]]
        if "self" in c:
            c["self"] = self.jsonable(self.ty_sub(c["self"], fr.gen))
        return c

    # -------------------------------------------------------------- rvalues
    def isint(self, ty):
        return ty["k"] == "prim" and (ty["name"] in INTS or ty["name"] in SMALL or ty["name"] == "char")

    def rvalue(self, st, fr, r, span):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, r["a"])
        if k in ("ref", "rawptr"):
            root, path = self.place(st, fr, r["pl"])
            if root[0] == "sl" and not path:
                return root[1]
            return Ref(root, path)
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "bin":
            return self.binop(st, fr, r, span)
        if k == "un":
            a = self.operand(st, fr, r["a"])
            if r["op"] == "Not":
                if isinstance(a, B):
                    return B(neg(a.c))
                return fn("not", self.as_poly(a))
            if r["op"] == "Neg":
                return -self.as_poly(a)
            if r["op"] == "PtrMetadata":
                if isinstance(a, Sl):
                    return a.n
                if isinstance(a, Ref):
                    v = self.load(st, a.root, a.path)
                    if isinstance(v, Arr):
                        return v.n
                return self.note("PtrMetadata")
            return self.note("unop " + r["op"])
        if k == "discr":
            root, path = self.place(st, fr, r["pl"])
            return Dv(self.load(st, root, path))
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in r["ops"])
            ag = r["ag"]
            if ag == "tuple":
                return Agg("tuple", 0, ops)
            if ag == "adt":
                if r["path"].endswith("option::Option"):
                    return Opt(T, ops[0]) if r["variant"] == 1 else Opt(F, None)
                return Agg(r["path"], r["variant"], ops)
            if ag == "closure":
                return Clo(r["path"], tuple(fz(self.jsonable(self.ty_sub(a, fr.gen))) for a in r["args"]), ops)
            if ag == "array":
                arr = ("lit", next(self.hid))
                s = ("init", arr)
                st.arrs[arr] = s
                for i, o in enumerate(ops):
                    if isinstance(o, (Poly, Op, B)):
                        st.arrs[arr] = ("st", st.arrs[arr], P(i), self.as_poly(o))
                    else:
                        return Agg("arraylit", 0, ops)
                return Arr(arr, P(len(ops)))
            return self.note("aggregate " + ag)
        if k == "repeat":
            n = self.cpoly(r["n"], fr.gen)
            v = self.operand(st, fr, r["a"])
            return self.new_filled(st, n, v)
        return self.note("rvalue " + k + " " + r.get("s", "")[:60])

    def new_filled(self, st, n, v):
        arr = ("new", next(self.hid))
        st.arrs[arr] = ("const", arr, self.as_poly(v))
        return Arr(arr, n)

    def cast(self, st, fr, r):
        a = self.operand(st, fr, r["a"])
        ck = r["ck"]
        ty = self.ty_sub(r["ty"], fr.gen)
        if "Unsize" in ck:
            if isinstance(a, Ref):
                v = self.load(st, a.root, a.path)
                if isinstance(v, Arr):
                    return Sl(v.arr, ZERO, v.n)
            return a
        if ck.startswith("Ptr") and ty["k"] == "ptr" and ty["ty"]["k"] not in ("array", "slice") and isinstance(a, (Ref, Sl)):
            v = a if isinstance(a, Sl) else self.load(st, a.root, a.path)
            if isinstance(v, (Arr, Sl)):                 # thin pointer to the first element
                return Agg("ptr", 0, (v if isinstance(v, Sl) else Sl(v.arr, ZERO, v.n), ZERO))
        if "IntToInt" in ck:
            if isinstance(a, B):
                return mk_ite(a.c, ONE, ZERO)
            p = self.as_poly(a)
            n = ty.get("name")
            if n == "usize" and self.ty_sub(r["from"], fr.gen).get("name") in ("isize", "i64", "i32", "i16", "i8") and p.const() is None:
                self.signed.add(p)
            if n in INTS or p.const() is not None and 0 <= p.const() < 100:
                return p
            if n in NARROW:
                return p if self.ty_sub(r["from"], fr.gen).get("name") == n else wrap(n, p)
            return fn("as_" + str(n), p)
        if "FloatToFloat" in ck:
            src = self.ty_sub(r["from"], fr.gen).get("name")
            p = self.as_poly(a)
            if ty.get("name") == "f64" or src == ty.get("name"):
                return p          # widening is exact
            return fn("narrow_f32", p)
        if "IntToFloat" in ck or "FloatToInt" in ck:
            return fn(ck.split("(")[0], self.as_poly(a))
        return a

    def binop(self, st, fr, r, span):
        a = self.operand(st, fr, r["a"])
        b = self.operand(st, fr, r["b"])
        op = r["op"]
        ty = self.ty_sub(r["ty"], fr.gen)
        if isinstance(a, Dv) or isinstance(b, Dv):
            return self.note("arith on discriminant")
        if isinstance(a, B) and isinstance(b, B):
            if op == "BitAnd":
                return B(mk_and([a.c, b.c]))
            if op == "BitOr":
                return B(mk_or([a.c, b.c]))
            if op in ("BitXor", "Ne"):
                return B(cite(a.c, neg(b.c), b.c))
            if op == "Eq":
                return B(cite(a.c, b.c, neg(b.c)))
        if isinstance(a, (Ref, Sl)) or isinstance(b, (Ref, Sl)):
            return self.note("pointer arithmetic %s" % op)
        p, q = self.as_poly(a), self.as_poly(b)
        ints = self.isint(ty)
        if op in ("Add", "AddUnchecked", "AddWithOverflow"):
            v = recombine(p + q) if ints else p + q
        elif op in ("Sub", "SubUnchecked", "SubWithOverflow"):
            v = p - q
            if ints and ty["name"][0] == "u":
                self.oblig(st, "sub", ge0(v), span, fr)
        elif op in ("Mul", "MulUnchecked", "MulWithOverflow"):
            v = p * q
        elif op == "Div":
            v = (self.idiv(p, q) if unsigned(ty) else fn("tdiv", p, q)) if ints else p * fn("recip", q)
        elif op == "Rem":
            v = mk_rem(p, q) if ints and unsigned(ty) else fn("trem", p, q)
        elif op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return B(self.compare(op, p, q, ints))
        elif op in ("Shl", "ShlUnchecked") and q.const() is not None:
            v = p * (1 << q.const())
        elif op in ("Shr", "ShrUnchecked") and q.const() is not None:
            v = self.idiv(p, P(1 << q.const()))
        else:
            v = fn("op" + op, p, q)
        c = fits(ty.get("name"), v) if ints and op[:3] in ("Add", "Sub", "Mul") and not op.endswith("Unchecked") else None
        if op.endswith("WithOverflow"):
            return Agg("tuple", 0, (v, B(F if c is None else neg(c))))
        return v if c is None else wrap(ty["name"], v)

    def idiv(self, p, q):
        if q == ONE:
            return p
        return mk_div(p, q)

    def compare(self, op, p, q, ints):
        if ints:
            return {"Lt": lambda: ge0(q - p - 1), "Le": lambda: ge0(q - p), "Gt": lambda: ge0(p - q - 1),
                    "Ge": lambda: ge0(p - q), "Eq": lambda: eq0(p - q), "Ne": lambda: ne0(p - q)}[op]()
        if p == q:
            # exact arithmetic: a value equals itself
            return {"Lt": F, "Gt": F, "Ne": F, "Le": T, "Ge": T, "Eq": T}[op]
        if op == "Lt":
            return ("lt", p, q)
        if op == "Le":
            return ("le", p, q)
        if op == "Gt":
            return ("lt", q, p)
        if op == "Ge":
            return ("le", q, p)
        x, y = (p, q) if aid(("k", p)) <= aid(("k", q)) else (q, p)
        return ("eq", x, y) if op == "Eq" else ("not", ("eq", x, y))

    # -------------------------------------------------------------- joins
    def merge(self, states):
        if len(states) == 1:
            return states[0]
        items = [(list(s.cond), s) for s in states]

        def clean(items, depth):
            """is this a complete decision tree from depth on?"""
            if len(items) == 1:
                return len(items[0][0]) <= depth
            if any(len(c) <= depth for c, _ in items):
                return False
            lit = items[0][0][depth]
            same = [i for i in items if i[0][depth] == lit]
            rest = [i for i in items if i[0][depth] != lit]
            if not rest or any(i[0][depth] != neg(lit) for i in rest):
                return False
            return clean(same, depth + 1) and clean(rest, depth + 1)

        def guard(c, depth):
            return mk_and(c[depth:])

        def go(items, depth):
            if len(items) == 1:
                return items[0][1]
            if all(len(c) > depth for c, _ in items):
                lit = items[0][0][depth]
                same = [i for i in items if i[0][depth] == lit]
                rest = [i for i in items if i[0][depth] != lit]
                if not rest:
                    return go(items, depth + 1)
                if all(i[0][depth] == neg(lit) for i in rest):
                    return self.join(lit, go(same, depth + 1), go(rest, depth + 1), depth)
            # not a tree of complementary literals: path guards are mutually exclusive anyway
            for n, (c, s) in enumerate(items):
                g = guard(c, depth)
                if g != T:
                    others = items[:n] + items[n + 1:]
                    return self.join(g, s, go(others, depth), depth)
            raise Undecided("join without distinguishing condition")

        m = go(items, 0)
        # common prefix
        pre = []
        for lits in zip(*[c for c, _ in items]):
            if all(l == lits[0] for l in lits):
                pre.append(lits[0])
            else:
                break
        m = m.copy()
        m.cond = pre
        if not clean(items, len(pre)):
            d = mk_or([guard(c, len(pre)) for c, _ in items])
            if d != T:
                m.cond = pre + [d]
        return m

    def join(self, c, a, b, depth):
        s = State()
        s.cond = a.cond[:depth]
        s.known = tuple(x for x in a.known if x in b.known)
        for k in set(a.mem) | set(b.mem):
            x, y = a.mem.get(k), b.mem.get(k)
            if x is None:
                s.mem[k] = y
            elif y is None:
                s.mem[k] = x
            elif x is y or x == y:
                s.mem[k] = x
            else:
                if isinstance(x, Arr) and isinstance(y, Arr):
                    # join of two owned arrays
                    if x.arr == y.arr:
                        s.mem[k] = Arr(x.arr, mk_ite(c, x.n, y.n))
                        continue
                    arr = ("phi", next(self.hid))
                    s.arrs[arr] = ("sel", c, self.arr_state(a, x.arr), self.arr_state(b, y.arr))
                    s.mem[k] = Arr(arr, x.n if x.n == y.n else mk_ite(c, x.n, y.n))
                    continue
                s.mem[k] = vite(c, x, y)
        for k in set(a.arrs) | set(b.arrs):
            x, y = self.arr_state(a, k), self.arr_state(b, k)
            s.arrs[k] = x if x == y else ("sel", c, x, y)
        return s

    # -------------------------------------------------------------- functions
    def run_body(self, st, b, gen, args):
        if not b.get("body"):
            raise Undecided("no body for " + b["path"])
        return self.run_mir(st, b, b["body"], gen, args)

    def run_mir(self, st, b, mir, gen, args):
        """evaluate a body in-place on st; returns the return value or None if it never returns"""
        if sum(1 for x in self.stack if x == (b["sp"], id(mir))) >= 1:
            if any(x == (b["sp"], id(mir)) and y == (list(args), st.arrs) for x, y in zip(self.stack, self.stackargs)):
                raise Endless("recursion through %s with unchanged arguments" % b["path"])
            raise Undecided("recursion through " + b["path"])
        if len(self.stack) > 60:
            raise Undecided("inlining depth")
        self.stack.append((b["sp"], id(mir)))
        self.stackargs.append((list(args), dict(st.arrs)))
        saved = self.base_conds
        try:
            fr = Frame(next(self.fid), b, mir, gen)
            cfg = self.prog.cfg(mir)
            if cfg.irreducible:
                raise Undecided("irreducible control flow in " + b["path"])
            s = st.copy()
            self.base_conds = saved + st.cond
            s.cond = []
            for i, a in enumerate(args):
                s.mem[("l", fr.fid, i + 1)] = a
            if 0 not in cfg.nodes:
                # never returns
                self.oblig(st, "diverge", F, b["span"], fr)
                return None
            exits = self.region(cfg, fr, cfg.nodes, 0, s, None)
            rets = [x for t, x in exits if t == "ret"]
            if not rets:
                return None
            m = self.merge(rets)
            v = m.mem.get(("l", fr.fid, 0), UNIT)
            # drop frame locals unless referenced by the result (references to locals cannot escape)
            keep = {}
            for k, x in m.mem.items():
                if k[0] == "l" and k[1] == fr.fid:
                    if b["kind"] in ("Const", "AssocConst", "AnonConst") or mir is not b.get("body"):
                        keep[k] = x  # promoted/const: result may refer to it
                    continue
                keep[k] = x
            st.mem = keep
            st.arrs = m.arrs
            st.known = m.known
            st.learn(*m.cond)
            return v
        finally:
            self.base_conds = saved
            self.stack.pop()
            self.stackargs.pop()

    def region(self, cfg, fr, nodes, entry, st, header):
        pending = {entry: [st]}
        skip = set()
        exits = []

        def emit(t, s):
            if t == "ret" or t not in nodes or t == header:
                exits.append((t, s))
            else:
                pending.setdefault(t, []).append(s)

        first = True
        for b in cfg.rpo:
            if b not in nodes or b not in pending:
                continue
            s = self.merge(pending.pop(b))
            if b in cfg.loops and b != header:
                for t, x in self.run_loop(cfg, fr, b, s):
                    emit(t, x)
            else:
                for t, x in self.block(cfg, fr, b, s):
                    emit(t, x)
        return exits

    def indexed(self, s, fr, m):
        """the index of a bounds check, where it was converted from a signed number"""
        m = re.match(r"BoundsCheck .*index: (?:copy|move) _(\d+)", m) if self.signed else None
        if not m:
            return None
        try:
            v = self.as_poly(self.load(s, ("l", fr.fid, int(m[1])), ()))
        except (Undecided, KeyError):
            return None
        return v if v in self.signed else None

    def span(self, fr, ln):
        return "%s:%s" % (fr.b["span"].rsplit(":", 1)[0], ln)

    def block(self, cfg, fr, bi, s):
        self.blocks_done += 1
        blk = fr.mir["blocks"][bi]
        s = s.copy()
        for pl, r, ln in blk["s"]:
            if pl is None:
                if "assume" in r.get("s", ""):
                    continue
                self.note("statement " + r["s"][:60])
                continue
            sp = self.span(fr, ln)
            v = self.rvalue(s, fr, r, sp)
            root, path = self.place(s, fr, pl)
            if isinstance(v, Arr):
                v = self.copy_arr(s, fr, r, v, pl)
            self.store(s, root, path, v)
        t = blk["t"]
        k = t["k"]
        sp = self.span(fr, t["ln"])
        if k == "goto":
            return [(t["t"], s)]
        if k == "drop":
            return [(t["t"], s)]
        if k == "return":
            return [("ret", s)]
        if k == "assert":
            c = self.operand(s, fr, t["c"])
            cc = c.c if isinstance(c, B) else ("b", "?")
            if not t["e"]:
                cc = neg(cc)
            ix = self.indexed(s, fr, t["m"])
            if ix is not None:                           # a negative index becomes a huge one
                cc = mk_and([ge0(ix), cc])
            self.oblig(s, "assert:" + t["m"], cc, sp, fr)
            s.learn(cc)
            return [(t["t"], s)]
        if k == "switch":
            return self.switch(cfg, fr, s, t, sp)
        if k == "call":
            clock()
            if t["t"] is None or t["t"] not in cfg.nodes:
                self.oblig(s, "panic", F, sp, fr)
                return []
            v = self.call_term(s, fr, t, sp)
            if v is None:
                self.oblig(s, "diverge", F, sp, fr)
                return []
            root, path = self.place(s, fr, t["d"])
            self.store(s, root, path, v)
            return [(t["t"], s)]
        raise Undecided("terminator " + k)

    def copy_arr(self, s, fr, r, v, pl):
        """arrays are values: a copy (not a move) gets a fresh identity"""
        if not pl["p"] and fr.mir["locals"][pl["l"]]["k"] not in ("array", "param", "alias"):
            return v                 # pointer inside a box
        if r["k"] == "use" and "copy" in r["a"]:
            arr = ("copy", next(self.hid))
            s.arrs[arr] = self.arr_state(s, v.arr)
            return Arr(arr, v.n)
        return v

    def switch(self, cfg, fr, s, t, sp):
        d = self.operand(s, fr, t["d"])
        edges = []  # (cond, target)
        rest = []

        def eqc(val):
            val = int(val)
            if isinstance(d, B):
                return d.c if val else neg(d.c)
            if isinstance(d, Dv):
                v = d.v
                if isinstance(v, Opt):
                    return v.c if val == 1 else neg(v.c)
                if isinstance(v, Agg):
                    return T if v.variant == val else F
                if isinstance(v, En):
                    return v.cond(val)
                if isinstance(v, CmpV):
                    if val == 0:
                        return eq0(v.p)
                    if val == 1:
                        return ge0(v.p - 1)
                    return ge0(-v.p - 1)
                if isinstance(v, Op):
                    return ("b", "discr", v.name, val)
                return ("b", "discr", str(v), val)
            if isinstance(d, Poly):
                a = as_atom(d)
                if a and a[0] == "ite" and a[2].const() is not None and a[3].const() is not None:
                    if a[2].const() == val:
                        return a[1]
                    if a[3].const() == val:
                        return neg(a[1])
                    return F
                return eq0(d - val)
            return ("b", "switch", str(d), val)

        chain = []
        for val, tgt in t["ts"]:
            c = eqc(val)
            edges.append((chain + [c], tgt))
            chain = chain + [neg(c)]
        edges.append((chain, t["o"]))
        # exhaustive option / ordering / enum switches: the otherwise edge may be unreachable
        out = []
        live = []
        dead = []
        for cs, tgt in edges:
            cs = [c for c in cs if c != T]
            if F in cs or mk_and(cs) == F:
                continue
            (live if tgt in cfg.nodes else dead).append((cs, tgt))
        for cs, tgt in dead:
            if fr.mir["blocks"][tgt]["t"]["k"] == "unreachable":
                continue
            self.oblig(s, "panic", neg(mk_and(cs)), sp, fr)
        if len(live) == 1:
            s.learn(*live[0][0])
            out.append((live[0][1], s))
            return out
        for cs, tgt in live:
            x = s.copy()
            for c in cs:
                # a condition already decided on this path
                if c in x.cond:
                    continue
                if neg(c) in x.cond:
                    x = None
                    break
                x.cond.append(c)
            if x is not None:
                out.append((tgt, x))
        # drop pruning asymmetry: if only one edge survived, its literal is implied
        if len(out) == 1:
            out[0][1].learn(*out[0][1].cond[len(s.cond):])
            out[0][1].cond = list(s.cond)
        return out

    # -------------------------------------------------------------- loops
    def run_loop(self, cfg, fr, h, start):
        nodes = cfg.loops[h]

        def body(s):
            return self.region(cfg, fr, nodes, h, s, h)

        def split(exits):
            return [x for t, x in exits if t == h], [(t, x) for t, x in exits if t != h]

        ln = fr.mir["blocks"][h]["t"]["ln"]
        return self.loop(start, lambda s: split(body(s)), self.span(fr, ln))

    def loop(self, start, body, span, N=None, mainexit=None):
        """summarise a loop.  body(state) -> (back states, [(target, exit state)])."""
        carried = {}      # (root, leafpath) -> sym name
        base = list(start.cond)
        dropped = set()
        for rnd in range(12):
            mark = (len(self.obl), len(self.notes), len(self.events))
            Lid = next(self.lid)
            t = "t%d" % Lid
            params = [l.t for l in self.loopstack]
            L = LoopRec(Lid, t, params, self.loopstack[-1] if self.loopstack else None, span)
            L.conds = list(self.base_conds) + base
            L.counted = N is not None
            self.loops[Lid] = L
            s = start.copy()
            s.cond = []
            for arr in list(s.arrs):
                L.init[arr] = s.arrs[arr]
                s.arrs[arr] = ("cur", Lid, arr, tuple(sym(p) for p in params), sym(t))
            names = {}
            byroot = {}
            for (root, lp) in carried:
                byroot.setdefault(root, []).append(lp)
            for root, lps in byroot.items():
                m = {}
                v0 = start.mem[root]
                lv = dict(leaves(v0))
                for lp in lps:
                    nm = "c%d.%s.%s" % (Lid, "_".join(map(str, root)), "_".join(map(str, lp)))
                    names[(root, lp)] = nm
                    L.enter[nm] = lv[lp]
                    m[lp] = sym(nm) if isinstance(lv[lp], Poly) else ne0(sym(nm))       # flags are 0 or 1
                s.mem[root] = set_leaves(v0, m)
            for root in dropped:
                s.mem[root] = Unk("loop-carried value changes shape")
            self.loopstack.append(L)
            sb = self.base_conds
            self.base_conds = self.base_conds + base
            try:
                backs, exits = body(s)
            finally:
                self.loopstack.pop()
                self.base_conds = sb
            if not backs:
                # body never repeats: not a loop on live paths; t = 0
                z = {t: ZERO}
                out = []
                for tg, x in exits:
                    x = self.sub_state(x, z, names, start)
                    x.cond = base + x.cond
                    out.append((tg, x))
                L.N = ONE
                for arr in L.init:
                    L.body.setdefault(arr, ("cur", Lid, arr, tuple(sym(p) for p in params), sym(t)))
                return out
            for x in backs + [y for _, y in exits]:
                for arr in L.init:
                    if arr not in x.arrs:
                        x.arrs[arr] = ("cur", Lid, arr, tuple(sym(p) for p in params), sym(t))
            back = self.merge(backs)
            # newly changing leaves?
            new = {}
            newdrop = set()
            for root, v0 in start.mem.items():
                v1 = back.mem.get(root)
                if v1 is None or v1 is s.mem.get(root) or v1 == s.mem.get(root):
                    continue
                if root in dropped:
                    continue
                if isinstance(v1, Unk) or shape(v1) != shape(v0):
                    newdrop.add(root)
                    continue
                l0 = dict(leaves(s.mem[root]))
                for lp, x in leaves(v1):
                    if (root, lp) not in carried and x != l0.get(lp):
                        new[(root, lp)] = None
            if new or newdrop:
                carried.update(new)
                for r in newdrop:
                    dropped.add(r)
                    for k in [k for k in carried if k[0] == r]:
                        del carried[k]
                del self.obl[mark[0]:]
                del self.notes[mark[1]:]
                del self.events[mark[2]:]
                continue
            break
        else:
            raise Undecided("loop state does not stabilise at " + span)

        ts = sym(t)
        for arr in L.init:
            L.body[arr] = back.arrs.get(arr, ("cur", Lid, arr, tuple(sym(p) for p in params), ts))
        # arrays the loop leaves alone are read as they were before it
        same = {arr: L.init[arr] for arr in L.init if L.body[arr] == ("cur", Lid, arr, tuple(sym(p) for p in params), ts)}
        if same:
            for _, x in exits:
                for arr in same:
                    x.arrs[arr] = same[arr] if x.arrs.get(arr, ("cur", Lid, arr))[:3] == ("cur", Lid, arr) else x.arrs[arr]
        # ---- closed forms
        pend = {}
        for (root, lp), nm in names.items():
            v0 = dict(leaves(start.mem[root]))[lp]
            v1 = dict(leaves(back.mem[root]))[lp]
            if not isinstance(v0, Poly):
                v0, v1 = mk_ite(v0, ONE, ZERO), mk_ite(v1, ONE, ZERO)
                L.flags.add(nm)
            pend[nm] = (v0, v1)
        steps = dict(pend)
        self.solve(pend, t, None, L)
        # ---- trip count
        if N is not None:
            N = (self.norm(N), [x for x in exits if x[0] == "exit"], [x for x in exits if x[0] != "exit"])
        else:
            N = self.trip(L, backs, exits, pend)
        if N is None:
            from . import pit
            w = pit.endless(self, L, pend, exits, self.obl[mark[0]:])
            for nm in pend:
                self.SOL[nm] = fn("carry", nm, ts)
            if w is not None:
                raise Endless("loop at %s %s" % (span, w))
            raise Uncounted(span, steps, exits)
        N, mains, aborts = N
        L.N = N
        if pend:
            cx = self.ctx(ge0(ts), ge0(N - 1 - ts), *[self.normc(c) for c in L.conds])
            cx = self.loop_ctx(cx)
            self.solve(pend, t, cx, L, final=True)
        cx = self.loop_ctx(self.ctx(*[self.normc(c) for c in L.conds]))
        Nx = N if cx.entails(ge0(N)) else (N if N.const() is not None and N.const() >= 0 else fn("max0", N))
        out = []
        for _, x in mains + aborts:
            for arr in L.init:
                if arr not in x.arrs:
                    x.arrs[arr] = ("cur", Lid, arr, tuple(sym(p) for p in params), ts)
        # aborting exits
        ablits = []
        for k, (tg, x) in enumerate(aborts):
            rel = [self.normc(c) for c in x.cond]
            at = "abort%d_%d" % (Lid, k)
            L.aborts.append((rel, tg))
            lit = ("abort", Lid, k, tuple(sym(p) for p in params))
            y = self.sub_state(x, {t: fn(at, *[sym(p) for p in params]) if params else sym(at)}, names, start)
            y.cond = base + ablits + [lit]
            out.append((tg, y))
            ablits = ablits + [("not", lit)]
        vals = self.unroll(L, Nx) if mains else {}
        for tg, x in mains:
            y = self.sub_state(x, {t: Nx}, names, start)
            if vals:
                y = self.set_carry(y, vals, Nx)
            y.cond = base + ablits
            out.append((tg, y))
        if len(mains) > 1:
            raise Undecided("several counted exits of loop at " + span)
        return out

    def normc(self, c):
        return self.norm(c)

    def loop_ctx(self, cx):
        """add what is known about the enclosing counters (their ranges may still be open)"""
        fs = []
        for L in self.loopstack:
            fs.append(ge0(sym(L.t)))
            if L.N is not None:
                fs.append(ge0(L.N - 1 - sym(L.t)))
        return cx.plus(*fs)

    def sub_state(self, x, m, names, start):
        def f(v):
            return subst(self.norm(v), m)
        y = State()
        y.cond = [f(c) for c in x.cond]
        y.known = tuple(f(c) for c in x.known)
        for k, v in x.mem.items():
            y.mem[k] = vmap(v, f) if v is not None else None
        for k, v in x.arrs.items():
            y.arrs[k] = f(v)
        return y

    def solve(self, pend, t, cx, L, final=False):
        ts = sym(t)

        def un(x, me=()):
            fs = free_syms(x)
            return [k for k in pend if k in fs and k not in me]

        progress = True
        while progress:
            progress = False
            for nm in list(pend):
                v0, v1 = pend[nm]
                v1 = self.norm(v1)
                cs = sym(nm)
                v1 = pull(v1, ("sym", nm))
                d = v1 - cs
                if not un(d):
                    if not mentions(d, t):
                        self.SOL[nm] = v0 + d * ts
                    else:
                        k = fresh("k")
                        self.SOL[nm] = v0 + mk_sum(k, ts, subst(d, {t: sym(k)}))
                elif not un(v1):
                    self.SOL[nm] = mk_ite(eq0(ts), v0, subst(v1, {t: ts - 1}))
                elif final:
                    v1 = self.simp(v1, cx)
                    a = as_atom(v1)
                    if a and a[0] == "ite" and a[1] in (eq0(ts), ne0(ts)) and not un(v1, (nm,)):
                        # a first iteration of its own that agrees with the others
                        x, y = (a[2], a[3]) if a[1][0] == "eq0" else (a[3], a[2])
                        if subst(x, {t: ZERO, nm: v0}) == subst(y, {t: ZERO, nm: v0}):
                            pend[nm] = (v0, y)
                            progress = True
                            continue
                    if not un(v1):
                        self.SOL[nm] = mk_ite(eq0(ts), v0, subst(v1, {t: ts - 1}))
                    else:
                        a = as_atom(v1)
                        done = nm in L.flags and self.flag(nm, v0, v1, t, un)
                        if a and a[0] == "ite":
                            c, x, y = a[1], a[2], a[3]
                            if x == cs:
                                c, x, y = neg(c), y, x
                            if y == cs and not un(x) and not un(c):
                                if c[0] == "eq0":
                                    q = c[1].coeff(("sym", t))
                                    if q and q[0].const() in (1, -1):
                                        at = -q[1] * q[0].const()
                                        if not mentions(at, t):
                                            self.SOL[nm] = mk_ite(ge0(ts - at - 1), subst(x, {t: at}), v0)
                                            done = True
                        if not done:
                            continue
                else:
                    continue
                del pend[nm]
                progress = True
        if final:
            L.rest = {nm: tuple(self.norm(v) for v in x) for nm, x in pend.items() if isinstance(x[0], Poly) and isinstance(x[1], Poly)}
            for nm in pend:
                if isinstance(pend[nm][0], Poly) and isinstance(pend[nm][1], Poly):
                    self.REC[nm] = (pend[nm][0], pend[nm][1], t, list(L.params))
                self.SOL[nm] = fn("carry", nm, ts, *[sym(p) for p in L.params])
            pend.clear()

    def unroll(self, L, N):
        """values of the scalars a loop of few iterations computes, by iterating their recurrences"""
        n = N.const()
        rest = L.rest
        if not rest or n is None or not 0 <= n <= 32:
            return {}
        if any(has_cur(v, L.id) for x in rest.values() for v in x):
            return {}
        vals = {nm: x[0] for nm, x in rest.items()}
        for i in range(int(n)):
            m = dict(vals)
            m[L.t] = P(i)
            vals = {nm: self.norm(subst(x[1], m)) for nm, x in rest.items()}
            if any(has_cur(v, None) > 200 for v in vals.values()):
                return {}
        return vals

    def set_carry(self, x, vals, N):
        def g(a):
            if a[0] == "fn" and a[1] == "carry" and a[2] in vals and a[3] == N:
                return vals[a[2]]
            return None

        def f(v):
            return rebuild(v, g)
        y = State()
        y.cond = [f(c) for c in x.cond]
        y.known = tuple(f(c) for c in x.known)
        for k, v in x.mem.items():
            y.mem[k] = vmap(v, f) if v is not None else None
        for k, v in x.arrs.items():
            y.arrs[k] = f(v)
        return y

    def flag(self, nm, v0, v1, t, un):
        """closed form of a flag that is only ever cleared, or only ever set"""
        if un(v1, (nm,)):
            return False
        on, off = (ne0(subst(v1, {nm: x})) for x in (ONE, ZERO))
        k = fresh("q")
        c0 = ne0(v0)
        if off == F:                                   # stays set while `on` holds
            c = mk_and([c0, neg(("b", "exists", k, sym(t), subst(neg(on), {t: sym(k)})))])
        elif on == T:                                  # set once `off` holds
            c = mk_or([c0, ("b", "exists", k, sym(t), subst(off, {t: sym(k)}))])
        else:
            return False
        self.SOL[nm] = mk_ite(c, ONE, ZERO)
        return True

    def simp(self, p, cx):
        """decide gates under a context"""
        def f(a):
            if a[0] == "ite":
                c = self.norm(a[1])
                if cx.entails(c):
                    return rebuild(a[2], f)
                if cx.entails(neg(c)):
                    return rebuild(a[3], f)
            return None
        return rebuild(p, f)

    def trip(self, L, backs, exits, pend):
        t = L.t
        mains, aborts = [], []
        N = None
        l0s = [b.cond[0] if b.cond else None for b in backs]
        for tg, x in exits:
            ok = False
            if len(x.cond) >= 1:
                lit = x.cond[0]
                if all(l is not None and l == neg(lit) for l in l0s) and len(x.cond) == 1:
                    n = self.count(self.norm(neg(lit)), t, pend, L)
                    if n is not None:
                        N = n
                        mains.append((tg, x))
                        ok = True
            if not ok:
                aborts.append((tg, x))
        if N is None:
            # counted exit not at the top: (body prefix before the test)
            for i, (tg, x) in enumerate(aborts):
                if x.cond and all(neg(x.cond[-1]) in b.cond for b in backs) and len(x.cond) == 1:
                    n = self.count(self.norm(neg(x.cond[-1])), t, pend, L)
                    if n is not None:
                        mains.append(aborts.pop(i))
                        return n, mains, aborts
            return None
        return N, mains, aborts

    def count(self, c, t, pend, L=None):
        """number of leading t for which the continue-condition holds"""
        if c[0] in ("and", "or") and L is not None:
            # a flag computed by the previous iteration: the bound it stands for, if the first iteration agrees
            ts = sym(t)
            cx = self.loop_ctx(self.ctx(*[self.normc(x) for x in L.conds]))
            for p in [x[1] for y in c[1] for x in (y[1] if y[0] in ("and", "or") else (y,)) if x[0] == "ge0" and mentions(x, t)]:
                c0, p0 = subst(c, {t: ZERO}), ge0(subst(p, {t: ZERO}))
                c1, p1 = [subst(x, {t: ts + 1}) for x in (c, ge0(p))]
                cx1 = cx.plus(ge0(ts))
                if all(z.plus(x).entails(y) and z.plus(y).entails(x) for z, x, y in ((cx, c0, p0), (cx1, self.cut(c1, cx1), p1))):
                    return self.count(ge0(p), t, pend)
            return None
        if c[0] in ("ge0", "ne0"):
            p = c[1]
            if any(k in free_syms(p) for k in pend):
                return None
            q = p.coeff(("sym", t))
            if not q or mentions(q[1], t):
                return None
            k = q[0].const()
            if c[0] == "ge0":
                if k is None or k >= 0:
                    # symbolic negative step (e.g. stride parameters)
                    return self.count_sym(q, t)
                if k == -1:
                    return q[1] + 1
                return self.idiv(q[1], P(-k)) + 1
            if k in (1, -1):
                return -q[1] * k
        return None

    def cut(self, c, cx):
        """drop what the context decides"""
        if c[0] in ("and", "or"):
            return (mk_and if c[0] == "and" else mk_or)([self.cut(x, cx) for x in c[1]])
        return T if cx.entails(c) else F if cx.refutes(c) else c

    def count_sym(self, q, t):
        # q1*t + q0 >= 0 with q1 = -S, S a positive parameter: N = floor(q0/S)+1
        s = -q[0]
        cx = self.loop_ctx(self.ctx())
        if not cx.entails(ge0(s - 1)):
            return None
        # exact when q0 = S*m - 1 .. : (S*m-1)/S + 1 = m
        a = as_atom(s)
        if a is not None:
            r = (q[1] + 1).coeff(a)
            if r and r[1] == ZERO:
                return r[0]
            r2 = q[1].coeff(a)
            if r2 and cx.entails(ge0(r2[1])) and cx.entails(ge0(s - 1 - r2[1])):
                return r2[0] + 1
            if r2 and cx.entails(ge0(r2[1] + s)) and cx.entails(ge0(-1 - r2[1])):
                return r2[0]
        return self.idiv(q[1], s) + 1

    # -------------------------------------------------------------- calls
    def call_term(self, s, fr, t, sp):
        args = [self.operand(s, fr, a) for a in t["a"]]
        if "const" in t["f"] and "fn" in t["f"]["const"]:
            c = self.jsonable_fn(t["f"]["const"], fr)
            for i, (a, o) in enumerate(zip(args, t["a"])):
                if isinstance(a, Arr) and "copy" in o:
                    arr = ("copy", next(self.hid))
                    s.arrs[arr] = self.arr_state(s, a.arr)
                    args[i] = Arr(arr, a.n)
            self.mutarg = any(self.may_write(s, fr, o, a) for o, a in zip(t["a"], args))
            return self.call(s, c, args, fr, sp)
        f = self.operand(s, fr, t["f"])
        if isinstance(f, FnV):
            return self.call(s, uz(f.key), args, fr, sp)
        if isinstance(f, Clo) or isinstance(f, Ref) and isinstance(self.load(s, f.root, f.path), (Clo, FnV)):
            return self.call_closure(s, f, args, sp)
        return self.note("indirect call at " + sp)

    def may_write(self, s, fr, o, a):
        """could a callee modify storage through this operand?"""
        p = o.get("copy") or o.get("move")
        if p is None:
            return False
        if isinstance(a, (Poly, B)):
            return False
        if not isinstance(p, dict) or p.get("p"):
            return isinstance(a, (Ref, Sl, Clo))
        return writes(fr.b["body"]["locals"][p["l"]])

    def call(self, s, c, args, fr, sp):
        from . import models
        mut, self.mutarg = getattr(self, "mutarg", False), False
        path = c.get("rfn") if c.get("rfn") and "rkind" not in c else c["fn"]
        self.calls.append((fr.b["path"], c["fn"]))
        if last(path) in BULK:
            self.bulk += [(self.loopstack[-1] if self.loopstack else None, a.n, last(path), sp) for a in args[:1] if isinstance(a, (Sl, Arr))]
        for h in self.hooks:
            r = h(self, s, c, args, fr, sp)
            if r is not NotImplemented:
                return r
        r = models.call(self, s, c, args, fr, sp)
        if r is not NotImplemented:
            return r
        # local bodies
        b, env = self.resolve(c)
        if b is not None:
            return self.run_body(s, b, env, args)
        if mut:
            raise Undecided("unmodelled call %s at %s may modify its argument" % (c.get("rfn") or c["fn"], sp))
        return self.opaque_call(s, c, args, fr, sp)

    def gen_env(self, genlist, args):
        env = {}
        for (kind, name), a in zip(genlist, args):
            env[name] = self.cpoly(a, {}) if kind == "const" else a
        return env

    def resolve(self, c):
        prog = self.prog
        if c.get("rsp") and "rkind" not in c:
            b = prog.bodies.get(c["rsp"])
            if b is not None and b.get("body"):
                return b, self.gen_env(b["gen"], c["rargs"])
            if not c.get("rlocal"):
                return None, None
        b = prog.bodies.get(c["sp"])
        if "trait" in c and c["local"] or ("trait" in c and "self" in c):
            imp = self.find_impl(c)
            if imp:
                return imp
        if b is not None and b.get("body"):
            return b, self.gen_env(b["gen"], c["args"])
        return None, None

    def unify(self, pat, t, env):
        k = pat["k"]
        if k == "param":
            if pat["name"] in env:
                return True
            env[pat["name"]] = t
            return True
        if k == "cparam":
            env.setdefault(pat["name"], self.cpoly(t, {}))
            return True
        if k == "cval":
            return t["k"] != "cval" or t["v"] == pat["v"]
        if k != t["k"]:
            return False
        if k == "adt":
            if pat["path"] != t["path"] or len(pat["args"]) != len(t["args"]):
                return False
            return all(self.unify(a, b, env) for a, b in zip(pat["args"], t["args"]))
        if k in ("ref", "slice", "ptr"):
            return pat.get("mut") == t.get("mut") and self.unify(pat["ty"], t["ty"], env)
        if k == "array":
            return self.unify(pat["ty"], t["ty"], env) and self.unify(pat["len"], t["len"], env)
        if k == "tuple":
            return len(pat["tys"]) == len(t["tys"]) and all(self.unify(a, b, env) for a, b in zip(pat["tys"], t["tys"]))
        if k == "prim":
            return pat["name"] == t["name"]
        return pat == t

    def find_impl(self, c):
        st = c.get("self")
        if not st or st["k"] == "param" or st["k"] == "alias":
            return None
        name = last(c["fn"])
        for imp, it in self.prog.impl_items.get((c["trait"], name), []):
            env = {}
            if imp["self"]["k"] == "param":
                continue
            if self.unify(imp["self"], st, env):
                ok = True
                for a, b in zip(imp["targs"][1:], c["args"][1:]):
                    if not self.unify(a, b, env):
                        ok = False
                if not ok:
                    continue
                b = self.prog.bodies.get(it["sp"])
                if b and b.get("body"):
                    # method generics follow the impl generics
                    n_trait = len([g for g in c["gen"]]) - 0
                    own = b["gen"][len(imp["gen"]):]
                    cown = c["args"][len(c["args"]) - len(own):] if own else []
                    for (kind, nm), a in zip(own, cown):
                        env[nm] = self.cpoly(a, {}) if kind == "const" else a
                    return b, env
        # blanket impls over a parameter
        for imp, it in self.prog.impl_items.get((c["trait"], name), []):
            if imp["self"]["k"] == "param":
                env = {}
                self.unify(imp["self"], st, env)
                for a, b in zip(imp["targs"][1:], c["args"][1:]):
                    self.unify(a, b, env)
                b = self.prog.bodies.get(it["sp"])
                if b and b.get("body"):
                    return b, env
        return None

    def opaque_call(self, s, c, args, fr, sp):
        """unmodelled callee: pure scalar functions become uninterpreted, others are undecided"""
        ps = []
        for a in args:
            if isinstance(a, Ref):
                a = self.load(s, a.root, a.path)
            if isinstance(a, Poly):
                ps.append(a)
            elif isinstance(a, Op):
                ps.append(sym(a.name))
            elif isinstance(a, B):
                ps.append(mk_ite(a.c, ONE, ZERO))
            else:
                return self.note("unmodelled call %s at %s" % (c.get("rfn") or c["fn"], sp))
        for a in args:
            if isinstance(a, Ref):
                return self.note("unmodelled call %s at %s" % (c.get("rfn") or c["fn"], sp))
        self.notes.append("uninterpreted %s at %s" % (c.get("rfn") or c["fn"], sp))
        return fn("call:" + (c.get("rfn") or c["fn"]), *ps)

    # -------------------------------------------------------------- closures and sequences
    def call_closure(self, s, f, args, sp):
        """f: Clo | FnV | Ref to one"""
        while isinstance(f, Ref):
            ref = f
            f = self.load(s, f.root, f.path)
            if isinstance(f, Clo):
                b = self.prog.bodies.get(f.path)
                if b is None:
                    raise Undecided("closure body")
                env = self.clo_env(b, f)
                selfty = b["body"]["locals"][1]
                a0 = ref if selfty["k"] == "ref" else f
                return self.run_body(s, b, env, [a0] + list(args))
        if isinstance(f, Clo):
            b = self.prog.bodies.get(f.path)
            if b is None:
                raise Undecided("closure body")
            env = self.clo_env(b, f)
            selfty = b["body"]["locals"][1]
            if selfty["k"] == "ref":
                root = ("h", next(self.hid))
                s.mem[root] = f
                return self.run_body(s, b, env, [Ref(root, ())] + list(args))
            return self.run_body(s, b, env, [f] + list(args))
        if isinstance(f, FnV):
            fr = Frame(0, {"path": "?", "sp": "?", "span": sp}, None, {})
            return self.call(s, uz(f.key), list(args), fr, sp)
        raise Undecided("call of %s" % (f,))

    def clo_env(self, b, f):
        env = {}
        for (kind, name), a in zip(b["gen"], [uz(x) for x in f.gen]):
            env[name] = self.cpoly(a, {}) if kind == "const" else a
        return env

    def seq_len(self, q):
        k = q[0]
        if k == "range":
            return q[2]
        if k == "slice":
            return q[1].n
        if k in ("rev", "map", "copied", "enum"):
            return self.seq_len(q[1])
        if k == "zip":
            return self.pmin(self.seq_len(q[1]), self.seq_len(q[2]))
        if k == "take":
            return self.pmin(self.seq_len(q[1]), q[2])
        if k == "skip":
            return self.psub0(self.seq_len(q[1]), q[2])
        if k == "chain":
            return self.seq_len(q[1]) + self.seq_len(q[2])
        if k == "step":
            n = self.seq_len(q[1])
            return self.ceil_div(n, q[2])
        if k == "chunks":
            if q[3]:
                return self.floor_div(q[1].n, q[2])
            return self.ceil_div(q[1].n, q[2])
        if k == "windows":
            return self.psub0(q[1].n + 1, q[2])
        if k == "rchunks":
            return self.ceil_div(q[1].n, q[2])
        if k == "flat":
            return self.seq_len(q[1]) * q[3]
        if k == "once":
            return ONE
        if k == "repeat":
            return fn("len", "infinite")
        raise Undecided("sequence length " + str(k))

    def curctx(self):
        cx = self.loop_ctx(self.ctx(*[self.normc(c) for c in self.base_conds]))
        return cx

    def floor_div(self, n, d):
        a = as_atom(d)
        if d == ONE:
            return n
        if a is not None:
            r = n.coeff(a)
            if r and r[1] == ZERO:
                return r[0]
        return self.idiv(n, d)

    def ceil_div(self, n, d):
        a = as_atom(d)
        if d == ONE:
            return n
        if a is not None:
            r = n.coeff(a)
            if r and r[1] == ZERO:
                return r[0]
            # ceil((m*S + x)/S) = m+1 for 1 <= x <= S
            if r:
                cx = self.curctx()
                for k in (1, 2, 0):
                    x = r[1] - (k - 1) * d
                    if cx.entails(ge0(x - 1)) and cx.entails(ge0(d - x)):
                        return r[0] + k
        return self.idiv(n + d - 1, d)

    def pmin(self, a, b):
        if a == b:
            return a
        if as_atom(a) == ("fn", "len", "infinite"):
            return b
        if as_atom(b) == ("fn", "len", "infinite"):
            return a
        cx = self.curctx()
        if cx.entails(ge0(b - a)):
            return a
        if cx.entails(ge0(a - b)):
            return b
        x, y = sorted((a, b), key=lambda p: aid(("k", p)))
        return fn("min", x, y)

    def psub0(self, a, b):
        if self.curctx().entails(ge0(a - b)):
            return a - b
        return fn("max0", a - b)

    def seq_elem(self, s, q, p, sp):
        k = q[0]
        if k == "range":
            return q[1] + p
        if k == "slice":
            return Ref(("arr", q[1].arr), (("ix", q[1].off + p),))
        if k == "rev":
            return self.seq_elem(s, q[1], self.seq_len(q[1]) - 1 - p, sp)
        if k == "map":
            x = self.seq_elem(s, q[1], p, sp)
            return self.call_closure(s, q[2], [x], sp)
        if k == "copied":
            x = self.seq_elem(s, q[1], p, sp)
            return self.load(s, x.root, x.path) if isinstance(x, Ref) else x
        if k == "enum":
            return Agg("tuple", 0, (p, self.seq_elem(s, q[1], p, sp)))
        if k == "zip":
            return Agg("tuple", 0, (self.seq_elem(s, q[1], p, sp), self.seq_elem(s, q[2], p, sp)))
        if k == "take":
            return self.seq_elem(s, q[1], p, sp)
        if k == "skip":
            return self.seq_elem(s, q[1], p + q[2], sp)
        if k == "step":
            return self.seq_elem(s, q[1], p * q[2], sp)
        if k == "chunks":
            sl = q[1]
            n = q[2]
            if not q[3]:
                a = as_atom(n)
                if not (a is not None and sl.n.coeff(a) and sl.n.coeff(a)[1] == ZERO):
                    n = self.pmin(n, sl.n - p * n)
            return Sl(sl.arr, sl.off + p * q[2], n)
        if k == "windows":
            return Sl(q[1].arr, q[1].off + p, q[2])
        if k == "rchunks":
            lo, hi = self.psub0(q[1].n, (p + 1) * q[2]), q[1].n - p * q[2]
            return Sl(q[1].arr, q[1].off + lo, hi - lo)
        if k == "flat":
            i = self.idiv(p, q[3])
            it = self.to_iter(s, self.call_closure(s, q[2], [self.seq_elem(s, q[1], i, sp)], sp))
            return self.seq_elem(s, self.it_seq(it), p - i * q[3], sp)
        if k == "once":
            return q[1]
        if k == "repeat":
            return q[1]
        if k == "chain":
            n1 = self.seq_len(q[1])
            a = self.seq_elem(s, q[1], p, sp)
            b = self.seq_elem(s, q[2], p - n1, sp)
            return vite(ge0(n1 - 1 - p), a, b)
        raise Undecided("sequence element " + str(k))

    def to_iter(self, s, v):
        if isinstance(v, It):
            return v
        if isinstance(v, Agg) and last(v.path) == "Range":
            lo, hi = self.as_poly(v.fields[0]), self.as_poly(v.fields[1])
            return It(("range", lo, hi - lo), ZERO, ZERO)
        if isinstance(v, Agg) and last(v.path) == "RangeInclusive":
            lo, hi = self.as_poly(v.fields[0]), self.as_poly(v.fields[1])
            return It(("range", lo, hi - lo + 1), ZERO, ZERO)
        if isinstance(v, Sl):
            return It(("slice", v), ZERO, ZERO)
        if isinstance(v, Arr):
            return It(("copied", ("slice", Sl(v.arr, ZERO, v.n))), ZERO, ZERO)
        if isinstance(v, Ref):
            x = self.load(s, v.root, v.path)
            if isinstance(x, Arr):
                return It(("slice", Sl(x.arr, ZERO, x.n)), ZERO, ZERO)
            if isinstance(x, (It,)):
                return x
            return self.to_iter(s, x)
        if isinstance(v, Opt) and v.c == T:
            return It(("once", v.v), ZERO, ZERO)
        raise Undecided("iteration over %s" % type(v).__name__)

    def it_seq(self, it):
        """remaining sequence of an iterator value"""
        q = it.seq
        if it.pos == ZERO and it.end == ZERO:
            return q
        if it.pos != ZERO:
            q = ("skip", q, it.pos)
        if it.end != ZERO:
            q = ("take", q, self.seq_len(q) - it.end)
        return q

    def for_seq(self, s, q, step, span):
        """run step(state, element) for every element of a sequence"""
        q, step = self.inline(q, step, span)
        n = self.seq_len(q)

        def body(x):
            L = self.loopstack[-1]
            y = x.copy()
            step(y, self.seq_elem(y, q, sym(L.t), span))
            return [y], [("exit", x.copy())]

        res = self.loop(s, body, span, N=n)
        out = [y for tg, y in res if tg == "exit"][0]
        s.mem, s.arrs = out.mem, out.arrs

    def inline(self, q, step, span):
        """elements that are skipped depending on their value become conditional steps"""
        def deep(q):
            return q[0] == "filter" or q[0] in ("map", "copied") and deep(q[1])
        while deep(q):
            q, step = q[1], self.stage(q, step, span)
        return q, step

    def stage(self, q, step, span):
        if q[0] == "map":
            return lambda x, e: step(x, self.call_closure(x, q[2], [e], span))
        if q[0] == "copied":
            return lambda x, e: step(x, self.load(x, e.root, e.path) if isinstance(e, Ref) else e)

        def cond(x, e):
            root = ("h", next(self.hid))
            x.mem[root] = e
            r = self.call_closure(x, q[2], [Ref(root, ())], span)
            if not isinstance(r, B):
                raise Undecided("filter predicate at " + span)
            if r.c == F:
                return
            y = x.copy()
            y.cond = x.cond + ([r.c] if r.c != T else [])
            step(y, e)
            if r.c != T:
                z = x.copy()
                z.cond = x.cond + [neg(r.c)]
                for k in [k for k in y.mem if k not in x.mem]:
                    z.mem[k] = y.mem[k]
                y = self.merge([y, z])
            x.mem, x.arrs = y.mem, y.arrs
        return cond

    def early(self, s, q, step, span):
        """a search: step(state, element) -> (condition to stop, value then); (found, value) afterwards, with effects"""
        n = self.seq_len(q)
        root = ("h", next(self.hid))
        s.mem[root] = Opt(F, None)

        def body(x):
            L = self.loopstack[-1]
            y = x.copy()
            c, v = step(y, self.seq_elem(y, q, sym(L.t), span), sym(L.t))
            if c == F:
                return [y], [("exit", x.copy())]
            if c == T:
                raise Undecided("search that stops at once at " + span)
            h = y.copy()
            h.cond = h.cond + [c]
            h.mem[root] = Opt(T, v)
            y.cond = y.cond + [neg(c)]
            return [y], [("exit", x.copy()), ("hit", h)]

        res = self.loop(s, body, span, N=n)
        m = self.merge([y for _, y in res])
        out = m.mem.pop(root)
        s.mem, s.arrs, s.known = m.mem, m.arrs, m.known
        return out

    def search_seq(self, s, q, pred, want, span):
        """any / all"""
        mark = len(self.obl), len(self.notes), len(self.events)
        try:
            return self.search_pure(s, q, pred, want, span)
        except Effectful:
            del self.obl[mark[0]:]
            del self.notes[mark[1]:]
            del self.events[mark[2]:]

        def step(y, e, k):
            r = pred(y, e)
            if not isinstance(r, B):
                raise Undecided("predicate value")
            return (r.c if want else neg(r.c)), UNIT
        o = self.early(s, q, step, span)
        return B(o.c if want else neg(o.c))

    def search_pure(self, s, q, pred, want, span):
        """any / all over a sequence with a pure predicate"""
        n = self.seq_len(q)
        k = fresh("q")
        L = LoopRec(next(self.lid), k, [l.t for l in self.loopstack], self.loopstack[-1] if self.loopstack else None, span)
        L.N = n
        L.counted = True
        self.loops[L.id] = L
        x = s.copy()
        for arr in list(x.arrs):
            L.init[arr] = x.arrs[arr]
        self.loopstack.append(L)
        try:
            r = pred(x, self.seq_elem(x, q, sym(k), span))
        finally:
            self.loopstack.pop()
        for arr in x.arrs:
            if x.arrs[arr] not in (self.arr_state(s, arr), ("cur", L.id, arr, tuple(sym(p) for p in L.params), sym(L.t))):
                raise Effectful("effectful predicate")
        for z in s.mem:
            if z in x.mem and x.mem[z] != s.mem[z]:
                raise Effectful("effectful predicate")
        if not isinstance(r, B):
            raise Undecided("predicate value")
        c = r.c if want else neg(r.c)
        e = ("b", "exists", k, n, c)
        return B(e if want else neg(e))
