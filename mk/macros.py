"""Buffer macros: sizes and declared buffers, decided on the type-checked expansion in a witness crate."""
import os
import re
from .poly import *
from .fm import Ctx
from .prog import Prog, last
from .interp import Interp, State, Undecided, Agg
from .arrays import equal
from . import pit
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED
from . import build
from . import storage as St
from .builders import leaves, dims_of

RULE = "size_buffer_* is rows x columns of the role; impl_buffer_* declares a buffer of that role and shape with every element the given value"
# Dimensions of the witness declarations: pairwise distinct primes (a product of two determines its factors), in
# several orders and with the extreme 1.  size_buffer_* is decided for symbolic dimensions.
CASES = [{"S": 1009, "C": 1013, "M": 1019}, {"S": 31, "C": 29, "M": 23}, {"S": 5, "C": 7, "M": 1}, {"S": 1, "C": 1, "M": 2}]
# role: (macro parameters, rows, columns, buffer type, role trait it has to satisfy)
ROLES = {
    "x": ("S", "S", "1", "StateVectorBuffer", "StateVectorMut<NS, E>"),
    "A": ("S", "S", "S", "StateTransitionMatrixMutBuffer", "StateTransitionMatrixMut<NS, E>"),
    "P": ("S", "S", "S", "EstimateCovarianceMatrixBuffer", "EstimateCovarianceMatrix<NS, E>"),
    "Q_direct": ("S", "S", "S", "DirectProcessNoiseCovarianceMatrixMutBuffer", "DirectProcessNoiseCovarianceMatrixMut<NS, E>"),
    "u": ("C", "C", "1", "ControlVectorBuffer", "ControlVectorMut<NC, E>"),
    "B": ("SC", "S", "C", "ControlMatrixMutBuffer", "ControlMatrixMut<NS, NC, E>"),
    "Q_control": ("C", "C", "C", "ControlProcessNoiseCovarianceMatrixMutBuffer", "ControlProcessNoiseCovarianceMatrixMut<NC, E>"),
    "z": ("M", "M", "1", "MeasurementVectorBuffer", "MeasurementVectorMut<NM, E>"),
    "H": ("MS", "M", "S", "ObservationMatrixMutBuffer", "ObservationMatrixMut<NM, NS, E>"),
    "R": ("M", "M", "M", "MeasurementNoiseCovarianceMatrixBuffer", "MeasurementNoiseCovarianceMatrix<NM, E>"),
    "y": ("M", "M", "1", "InnovationVectorBuffer", "InnovationVector<NM, E>"),
    "S": ("M", "M", "M", "InnovationCovarianceMatrixBuffer", "InnovationCovarianceMatrix<NM, E>"),
    "K": ("SM", "S", "M", "KalmanGainMatrixBuffer", "KalmanGainMatrix<NS, NM, E>"),
    "temp_x": ("S", "S", "1", "PredictedStateEstimateVectorBuffer", "PredictedStateEstimateVector<NS, E>"),
    "temp_P": ("S", "S", "S", "TemporaryStateMatrixBuffer", "TemporaryStateMatrix<NS, E>"),
    "temp_BQ": ("SC", "S", "C", "TemporaryBQMatrixBuffer", "TemporaryBQMatrix<NS, NC, E>"),
    "temp_S_inv": ("M", "M", "M", "TemporaryResidualCovarianceInvertedMatrixBuffer", "TemporaryResidualCovarianceInvertedMatrix<NM, E>"),
    "temp_HP": ("MS", "M", "S", "TemporaryHPMatrixBuffer", "TemporaryHPMatrix<NM, NS, E>"),
    "temp_PHt": ("SM", "S", "M", "TemporaryPHTMatrixBuffer", "TemporaryPHTMatrix<NS, NM, E>"),
    "temp_KHP": ("S", "S", "S", "TemporaryKHPMatrixBuffer", "TemporaryKHPMatrix<NS, E>"),
}
HEADS = """#![allow(warnings)]
use minikalman::prelude::*;
use minikalman::*;
use minikalman::buffers::types::*;
pub type E = %(E)s;
pub const NS: usize = %(S)d;
pub const NC: usize = %(C)d;
pub const NM: usize = %(M)d;
"""
# binding forms: (name, prefix, uses the binding mutably)
LOCAL = [("plain", "", ""), ("mut", "mut ", "&mut v;"), ("let", "let ", ""), ("letmut", "let mut ", "&mut v;")]
STATIC = [("static", "static "), ("staticmut", "static mut ")]


def params(role):
    return ", ".join("N" + c for c in ROLES[role][0])


def dim(c):
    return "1" if c == "1" else "N" + c


def snippet(role):
    """witness items of one role"""
    _, r, c, ty, tr = ROLES[role]
    t = "%s<%s, E, MatrixDataArray<%s, %s, { %s * %s }, E>>" % (ty, typargs(role), dim(r), dim(c), dim(r), dim(c))
    out = "pub fn size_%s() -> usize { size_buffer_%s!(%s) }\n" % (role, role, params(role))
    out += "pub const CSIZE_%s: usize = size_buffer_%s!(%s);\n" % (role, role, params(role))
    for n, pre, use in LOCAL:
        out += "pub fn %s_%s(init: E) -> %s { impl_buffer_%s!(%sv, %s, E, init); %s v }\n" % (n, role, t, role, pre, params(role), use)
    for n, pre in STATIC:
        out += "pub mod %s_%s { use super::*; impl_buffer_%s!(%sV, %s, E, 7.5); pub fn get() -> &'static %s { unsafe { &*core::ptr::addr_of!(V) } } }\n" % (n, role, role, pre, params(role), t)
    out += "pub fn role_%s() { fn want<B: %s>(_: B) {} impl_buffer_%s!(v, %s, E, 0.0); want(v) }\n" % (role, tr, role, params(role))
    return out


def typargs(role):
    """const arguments of the role's buffer type: its dimensions, a square one given once"""
    _, r, c, ty, tr = ROLES[role]
    if c == "1" or r == c:
        return dim(r)
    return "%s, %s" % (dim(r), dim(c))


def names():
    """macros the crate exports now"""
    out = set()
    for f in ("lib.rs", "static_macros.rs"):
        p = os.path.join(build.REPO, "crates/minikalman/src", f)
        if os.path.exists(p):
            out |= set(re.findall(r"macro_rules!\s+((?:size|impl)_buffer_\w+)", open(p).read()))
    return out


def check_macros(cfg):
    out = []
    try:
        d = os.path.dirname(build.dump(cfg))
    except build.BuildError as e:
        return [Goal("witness crate", UNDECIDED, cfg, "configuration does not build", RULE)]
    for n, D in enumerate(CASES):
        out += case(cfg, d, n, D)
    for m in sorted(names()):
        r = m.split("_buffer_", 1)[1]
        if r not in ROLES:
            out.append(Goal(m, UNDECIDED, "macro " + m, "no specification for this macro", RULE))
    for g in out:
        g.config = cfg
    return out


def case(cfg, d, n, D):
    out = []
    head = HEADS % dict(D, E=["f32", "f64"][n % 2])
    nm = "mkmacros%d" % n
    ok, err = build.rustc(cfg, head + "".join(snippet(r) for r in ROLES), nm, True)
    files = {r: nm for r in ROLES}
    if not ok:
        for r in ROLES:                                   # attribute the failure
            files[r] = "%s_%s" % (nm, r)
            good, e = build.rustc(cfg, head + snippet(r), files[r], True)
            if not good:
                out.append(Goal("macros of role %s" % r, VIOLATED, "macros size_buffer_%s, impl_buffer_%s" % (r, r), "expansion does not type-check as a %s of %s x %s (%s): %s" % (ROLES[r][3], ROLES[r][1], ROLES[r][2], D, e.strip().splitlines()[0][-300:] if e.strip() else ""), RULE))
                files.pop(r)
    progs = {}
    for r, f in files.items():
        if f not in progs:
            progs[f] = Prog(os.path.join(d, "minikalman.json"), os.path.join(d, "w", f + ".json"))
        out += role_goals(progs[f], f, r, D, n == 0)
    return out


def find(prog, crate, path):
    b = prog.bypath.get("%s::%s" % (crate, path))
    if b is None:
        for x in prog.d["bodies"]:
            if x["path"].startswith(crate + "::") and x["sp"].endswith("::" + path):
                return x
    return b


def role_goals(prog, crate, role, D, first):
    ns = St.names(prog)
    _, r, c, ty, tr = ROLES[role]
    R, C = (D[x] if x != "1" else 1 for x in (r, c))
    n = R * C
    out = []
    for key, fn_ in () if not first else (("size_buffer_%s" % role, "size_" + role), ("size_buffer_%s as a constant" % role, "CSIZE_" + role)):
        def go():
            b = find(prog, crate, fn_)
            if b is None:
                return [Goal(key, UNDECIDED, key, "witness not found", RULE)]
            I = Interp(prog)
            I.consts = {crate + "::N" + c: sym(c) for c in D}
            v = I.run_body(State(), b, {}, [])
            got = I.as_poly(v)
            want = P(1)
            for x in (r, c):
                want = want * (sym(x) if x != "1" else ONE)
            soft = UNDECIDED if [x for x in I.notes if not x.startswith("uninterpreted")] else VIOLATED
            return [Goal(key, pit.verdict(got, want, Ctx([ge0(sym(x)) for x in D], []), soft, I), "macro size_buffer_%s" % role, "%s, required %s" % (show(got), show(want)), RULE)]
        out += St.guarded(RULE, key, key, go)
    for form in [f[0] for f in LOCAL] + [f[0] for f in STATIC]:
        key = "impl_buffer_%s: %s" % (role, form)

        def go():
            st = State()
            I = Interp(prog)
            if form.startswith("static"):
                b = find(prog, crate, "%s_%s::V" % (form, role))
                args = []
            else:
                b = find(prog, crate, "%s_%s" % (form, role))
                args = [sym("init")]
            if b is None or not b.get("body"):
                return [Goal(key, UNDECIDED, key, "witness not found", RULE)]
            rty = I.ty_sub(b["body"]["locals"][0], {})
            v = I.run_body(st, b, {}, args)
            if v is None:
                return [Goal(key, VIOLATED, key, "never returns", RULE)]
            k = Shim(prog, I, st)
            lv = list(leaves(k, v, rty, ns))
            if len(lv) != 1:
                return [Goal(key, UNDECIDED, key, "%d buffers" % len(lv), RULE)]
            s = storage(k, lv[0][1], lv[0][2])
            if s is None:
                return [Goal(key, UNDECIDED, key, "no storage view", RULE)]
            dd = dims_of(k, ns, lv[0][2])
            cx = Ctx([], [])
            wh = "macro impl_buffer_%s" % role
            if not (equal(dd[0], P(R), cx) and equal(dd[1], P(C), cx)):
                return [Goal(key, VIOLATED, wh, "shape %s x %s for %s" % (show(dd[0]), show(dd[1]), D), RULE)]
            if not equal(s.n, P(n), cx) or s.off != ZERO:
                return [Goal(key, VIOLATED, wh, "%s elements for %s, required %s" % (show(s.n), D, n), RULE)]
            x = sym("x")
            got = k.now(s, x, Ctx([ge0(x), ge0(P(n) - 1 - x)], []))
            want = args[0] if args else None
            soft = UNDECIDED if St.lib_notes(k) else VIOLATED
            vd = pit.verdict(got, want, cx, soft, I) if want is not None else HOLDS if is75(got) else soft
            return [Goal(key, vd, wh, "every element is %s" % show(got), RULE)]
        out += St.guarded(RULE, key, key, go)
    return out


def is75(p):
    if show(p) == "lit(7.5)":
        return True
    c = p.const()
    return c is not None and float(c) == 7.5


class Shim:
    """the part of storage.Fn that views need"""

    def __init__(self, prog, I, st):
        self.prog, self.I, self.st = prog, I, st

    view = St.Fn.view
    now = St.Fn.now

    def stores(self, name):
        return False


def storage(k, v, ty):
    return k.view(v, ty, "ret")
