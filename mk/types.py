"""Properties carried by the type system: dimension mismatches do not build, read-only storage offers no mutable
access, nothing is shared behind the user's back.  Decided by type-checking generated witness programs against the
current library (a rejected program, next to an accepted twin that differs in one place only) and by inspecting the
type-checked program itself."""
import os
import re
from concurrent.futures import ThreadPoolExecutor
from .prog import Prog, last
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED, short
from . import build
from .macros import ROLES, typargs

HEAD = """#![allow(warnings)]
use minikalman::prelude::*;
use minikalman::*;
use minikalman::buffers::types::*;
use minikalman::regular::*;
use minikalman::extended::{ExtendedKalman, ExtendedKalmanBuilder, ExtendedObservation, ExtendedObservationBuilder};
pub type A<const R: usize, const C: usize> = MatrixDataMut<'static, R, C, f32>;
pub type D<const R: usize, const C: usize> = MatrixDataMut<'static, R, C, f64>;
pub type V<const R: usize, const C: usize> = MatrixDataRef<'static, R, C, f32>;
"""
# library macros are not imported through globs of these names; the macro-free API is enough here


class W:
    """one witness: a program that must be rejected and its accepted twin"""

    def __init__(self, key, good, bad, what):
        self.key, self.good, self.bad, self.what = key, good, bad, what


def run(cfg, ws, nm):
    """{key: (twin accepted, program rejected, diagnostics)}"""
    goods, start = [], {}
    res = {}

    def crate(items, tag):
        src = HEAD
        lines = {}
        for i, it in items:
            n = src.count("\n") + 1
            src += it + "\n"
            lines[i] = (n, src.count("\n"))
        ok, err = build.rustc(cfg, src, nm + tag)
        hit = {}
        if not ok:
            for m in re.finditer(r"^[^\n]*?%s\.rs:(\d+):\d+: error(\[E\d+\])?:([^\n]*)" % (nm + tag), err, re.M):
                ln = int(m.group(1))
                for i, (a, b) in lines.items():
                    if a <= ln <= b:
                        hit.setdefault(i, (m.group(2) or "") + m.group(3))
        return ok, hit, err
    g = [(i, "pub fn w%d%s" % (i, w.good)) for i, w in enumerate(ws)]
    b = [(i, "pub fn w%d%s" % (i, w.bad)) for i, w in enumerate(ws)]
    with ThreadPoolExecutor(2) as ex:
        f1, f2 = ex.submit(crate, g, "_good"), ex.submit(crate, b, "_bad")
        gok, ghit, gerr = f1.result()
        bok, bhit, berr = f2.result()
    # programs without a diagnostic of their own are type-checked alone
    lone = [i for i, w in enumerate(ws) if i not in bhit]
    glone = [i for i, w in enumerate(ws) if not gok and i not in ghit]

    def alone(i, src, tag):
        return build.rustc(cfg, HEAD + "pub fn w%d%s\n" % (i, src), "%s_%s%d" % (nm, tag, i))
    with ThreadPoolExecutor(8) as ex:
        bl = dict(zip(lone, ex.map(lambda i: alone(i, ws[i].bad, "b"), lone)))
        gl = dict(zip(glone, ex.map(lambda i: alone(i, ws[i].good, "g"), glone)))
    for i, w in enumerate(ws):
        twin = i not in ghit and (gok or gl[i][0])
        rej = i in bhit or not bl[i][0]
        msg = bhit.get(i) or (first_error(bl[i][1]) if i in bl else "")
        res[w.key] = (twin, rej, msg if twin else ghit.get(i) or (first_error(gl[i][1]) if i in gl else ""))
    return res


def first_error(err):
    m = re.search(r"error(\[E\d+\])?:[^\n]*", err)
    return m.group(0) if m else err.strip()[-200:]


def goals(cfg, ws, nm, rule):
    try:
        build.dump(cfg)
    except build.BuildError:
        return [Goal("witnesses", UNDECIDED, cfg, "configuration does not build", rule)]
    res = run(cfg, ws, nm)
    out = []
    for w in ws:
        twin, rej, msg = res[w.key]
        if not rej:
            g = Goal(w.key, VIOLATED, w.what, "accepted by the compiler: fn w%s" % w.bad[:400], rule)
        elif not twin:
            g = Goal(w.key, UNDECIDED, w.what, "the well-typed twin does not build either: %s" % msg[:300], rule)
        else:
            g = Goal(w.key, HOLDS, w.what, "rejected: %s" % msg[:200], rule)
        g.config = cfg
        out.append(g)
    return out


# ------------------------------------------------------------------ P19: dimension mismatches
DIMR = "a program that combines matrices of mismatching dimensions, element types or roles is rejected by the compiler; its well-typed twin is accepted"
# method: (self shape, mutable self, [(shape, mutable, slice)], call) over R=2, C=3, U=5
KERN = {
    "mult": ("RC", 0, [("CU", 0), ("RU", 1)]),
    "mult_buffered": ("RC", 0, [("CU", 0), ("RU", 1)]),
    "mult_rowvector": ("RC", 0, [("C1", 0), ("R1", 1)]),
    "multadd_rowvector": ("RC", 0, [("C1", 0), ("R1", 1)]),
    "mult_transb": ("RC", 0, [("UC", 0), ("RU", 1)]),
    "multadd_transb": ("RC", 0, [("UC", 0), ("RU", 1)]),
    "multscale_transb": ("RC", 0, [("UC", 0), ("RU", 1)]),
    "sub": ("RC", 0, [("RC", 0), ("RC", 1)]),
    "add_inplace_b": ("RC", 0, [("RC", 1)]),
    "sub_inplace_b": ("RC", 0, [("RC", 1)]),
    "add_inplace_a": ("RC", 1, [("RC", 0)]),
    "sub_inplace_a": ("RC", 1, [("RC", 0)]),
    "copy": ("RC", 0, [("RC", 1)]),
    "copy_to": ("RC", 0, [("RC", 1)]),
    "copy_from": ("RC", 1, [("RC", 0)]),
    "invert_l_cholesky": ("RR", 0, [("RR", 1)]),
}
VAL = {"R": 2, "C": 3, "U": 5, "1": 1}


def shape(s, v=VAL):
    return "A<%d, %d>" % (v[s[0]], v[s[1]])


def kern(m, tys, sm, ps):
    args = ", ".join("&mut p%d" % i if mu else "&p%d" % i for i, (_, mu) in enumerate(ps))
    extra = {"mult_buffered": ", &mut [0.0; 3]"}.get(m, "")
    call = "s.%s(%s%s);" % (m, args, extra)
    if m == "multscale_transb":
        call = "s.multscale_transb(&p0, 2.0, &mut p1);"
    return "(mut s: %s, %s) { %s }" % (tys[0], ", ".join("mut p%d: %s" % (i, t) for i, t in enumerate(tys[1:])), call)


def kernel_witnesses():
    ws = []
    for m, (s, sm, ps) in KERN.items():
        shapes = [s] + [p[0] for p in ps]
        good = kern(m, [shape(x) for x in shapes], sm, ps)
        for i in range(1, len(shapes)):
            x = shapes[i]
            dims = [VAL[x[0]], VAL[x[1]]]
            muts = [("rows", [7, dims[1]]), ("columns", [dims[0], 7])]
            if dims[0] != dims[1]:
                muts.append(("transposed", dims[::-1]))
            for nm, d in muts:
                tys = [shape(y) for y in shapes]
                tys[i] = "A<%d, %d>" % tuple(d)
                ws.append(W("%s: operand %d, wrong %s" % (m, i, nm), good, kern(m, tys, sm, ps), "Matrix::%s" % m))
            tys = [shape(y) for y in shapes]
            tys[i] = tys[i].replace("A<", "D<")
            ws.append(W("%s: operand %d, other element type" % (m, i), good, kern(m, tys, sm, ps), "Matrix::%s" % m))
            if ps[i - 1][1]:
                tys = [shape(y) for y in shapes]
                tys[i] = tys[i].replace("A<", "V<")
                ws.append(W("%s: operand %d, read-only output" % (m, i), good, kern(m, tys, sm, ps), "Matrix::%s" % m))
        if sm:
            tys = [shape(y) for y in shapes]
            tys[0] = tys[0].replace("A<", "V<")
            ws.append(W("%s: read-only receiver" % m, good, kern(m, tys, sm, ps), "MatrixMut::%s" % m))
    sq = lambda call, a="A<3, 3>", b="A<3, 2>": ("(mut s: %s) { %s }" % (a, call), "(mut s: %s) { %s }" % (b, call))
    for m, call in (("make_identity", "s.make_identity();"), ("make_scalar", "s.make_scalar(1.0);"), ("make_comatrix", "s.make_comatrix(1.0, 2.0);"), ("set_diagonal_to_scalar", "s.set_diagonal_to_scalar(1.0);")):
        ws.append(W("%s: not square" % m, *sq(call), "SquareMatrixMut::%s" % m))
    ws.append(W("invert_l_cholesky: not square", "(s: A<3, 3>, mut p: A<3, 3>) { s.invert_l_cholesky(&mut p); }", "(s: A<3, 2>, mut p: A<3, 2>) { s.invert_l_cholesky(&mut p); }", "SquareMatrix::invert_l_cholesky"))
    for m, call, a, b in (("get_value", "let _: f32 = s.get_value();", "A<1, 1>", "A<2, 1>"), ("get_row", "let _: f32 = s.get_row(0);", "A<3, 1>", "A<3, 2>"), ("get_col", "let _: f32 = s.get_col(0);", "A<1, 3>", "A<2, 3>"),
                          ("set_value", "s.set_value(1.0);", "A<1, 1>", "A<1, 2>"), ("set_row", "s.set_row(0, 1.0);", "A<3, 1>", "A<3, 2>"), ("set_col", "s.set_col(0, 1.0);", "A<1, 3>", "A<2, 3>")):
        ws.append(W("%s: wrong shape" % m, *sq(call, a, b), "vector access %s" % m))
    return ws


DIM = {"S": 3, "C": 2, "M": 5, "1": 1}


def bt(role, dims=None, store=None, ro=False):
    """buffer type of a role over storage A, at given dimensions"""
    p, r, c, ty, tr = ROLES[role]
    d = dict(DIM)
    d.update(dims or {})
    if ro:
        ty = ty.replace("MutBuffer", "Buffer")
    a = typargs(role)
    for k in "SCM":
        a = a.replace("N" + k, str(d[k]))
    st = store or (d[r], d[c])
    return "%s<%s, f32, A<%d, %d>>" % (ty, a, st[0], st[1])


CTORS = {
    "RegularKalmanBuilder": ("RegularKalmanBuilder::new::<3, f32>", ["A", "x", "P", "Q_direct", "temp_x", "temp_P"]),
    "ExtendedKalmanBuilder": ("ExtendedKalmanBuilder::new::<3, f32>", ["A", "x", "P", "Q_direct", "temp_x", "temp_P"]),
    "ControlBuilder": ("ControlBuilder::new::<3, 2, f32>", ["B", "u", "Q_control", "temp_BQ"]),
    "RegularObservationBuilder": ("RegularObservationBuilder::new::<3, 5, f32>", ["H", "z", "R", "y", "S", "K", "temp_S_inv", "temp_HP", "temp_PHt", "temp_KHP"]),
    "ExtendedObservationBuilder": ("ExtendedObservationBuilder::new::<3, 5, f32>", ["H", "z", "R", "y", "S", "K", "temp_S_inv", "temp_HP", "temp_PHt", "temp_KHP"]),
}


EQ = {"S": 3, "C": 3, "M": 3}


def col(r):
    return ROLES[r][2] == "1"


def raw(r, d):
    return "A<%d, %d>" % (d[ROLES[r][1]], d[ROLES[r][2]])


def others(r):
    """every other role whose buffers have the same shape when all counts agree, and bare storage"""
    return [(q, bt(q, EQ)) for q in ROLES if q != r and col(q) == col(r)] + [("bare storage", raw(r, dict(DIM, **EQ)))]


def ctor(name, tys, eq=False):
    f, roles = CTORS[name]
    if eq:
        f = re.sub(r"\b[25]\b", "3", f)
    return "(%s) { let _ = %s(%s); }" % (", ".join("a%d: %s" % (i, t) for i, t in enumerate(tys)), f, ", ".join("a%d" % i for i in range(len(tys))))


def ctor_witnesses():
    ws = []
    for name, (f, roles) in CTORS.items():
        tys = [bt(r) for r in roles]
        good = ctor(name, tys)
        for i, r in enumerate(roles):
            p = ROLES[r][0]
            for k in dict.fromkeys(p):
                t = list(tys)
                t[i] = bt(r, {k: 7})
                ws.append(W("%s: %s of other %s" % (name, r, {"S": "state", "C": "control", "M": "measurement"}[k] + " count"), good, ctor(name, t), "%s::new" % name))
            if len(set(p)) == 2:
                t = list(tys)
                t[i] = bt(r, {p[0]: DIM[p[1]], p[1]: DIM[p[0]]})
                ws.append(W("%s: %s transposed" % (name, r), good, ctor(name, t), "%s::new" % name))
            t = list(tys)
            t[i] = t[i].replace("f32, A<", "f64, D<")
            ws.append(W("%s: %s of other element type" % (name, r), good, ctor(name, t), "%s::new" % name))
        # roles of the same shape are not interchangeable
        for i in range(len(roles)):
            for j in range(i):
                a, b = ROLES[roles[i]], ROLES[roles[j]]
                if a[1:3] == b[1:3]:
                    t = list(tys)
                    t[i], t[j] = t[j], t[i]
                    ws.append(W("%s: %s and %s exchanged" % (name, roles[j], roles[i]), good, ctor(name, t), "%s::new" % name))
        # nor is anything else of the same shape accepted in a role
        tys = [bt(r, EQ) for r in roles]
        good = ctor(name, tys, True)
        for i, r in enumerate(roles):
            for q, ty in others(r):
                t = list(tys)
                t[i] = ty
                ws.append(W("%s: %s in place of %s" % (name, q, r), good, ctor(name, t, True), "%s::new" % name))
    for r, (p, rr, cc, ty, tr) in ROLES.items():
        d = DIM[rr], DIM[cc]
        for nm, st in (("rows", (7, d[1])), ("columns", (d[0], 7))):
            mk = lambda st: "(s: A<%d, %d>) { let _ = %s::new(s); }" % (st[0], st[1], bt(r).split(", f32, A<")[0].replace("<", "::<") + ", f32, _>")
            ws.append(W("%s::new: storage with other %s" % (ty, nm), mk(d), mk(st), "%s::new" % ty))
    return ws


def step_witnesses():
    ws = []
    filt = lambda k, n: "%s<%d, f32, %s>" % (k, n, ", ".join(bt(r, {"S": n}) for r in ["A", "x", "P", "Q_direct", "temp_x", "temp_P"]))
    # type parameters of the filter are (A, X, P, Q, PX, TempP)
    ctl = lambda n: "Control<%d, 2, f32, %s>" % (n, ", ".join(bt(r, {"S": n}) for r in ["B", "u", "Q_control", "temp_BQ"]))
    obs = lambda k, n: "%s<%d, 5, f32, %s>" % (k, n, ", ".join(bt(r, {"S": n}) for r in ["H", "z", "R", "y", "S", "K", "temp_S_inv", "temp_HP", "temp_PHt", "temp_KHP"]))
    RK, EK = filt("RegularKalman", 3), filt("ExtendedKalman", 3)
    f = lambda a, b, call: "(mut f: %s, mut o: %s) { %s }" % (a, b, call)
    ws.append(W("correct: observation of other state count", f(RK, obs("RegularObservation", 3), "f.correct(&mut o);"), f(RK, obs("RegularObservation", 7), "f.correct(&mut o);"), "RegularKalman::correct"))
    ws.append(W("control: control of other state count", f(RK, ctl(3), "f.control(&mut o);"), f(RK, ctl(7), "f.control(&mut o);"), "RegularKalman::control"))
    nl = "f.correct_nonlinear(&mut o, |_, _| {});"
    ws.append(W("correct_nonlinear: observation of other state count", f(EK, obs("ExtendedObservation", 3), nl), f(EK, obs("ExtendedObservation", 7), nl), "ExtendedKalman::correct_nonlinear"))
    ws.append(W("correct: nonlinear observation", f(RK, obs("RegularObservation", 3), "f.correct(&mut o);"), f(RK, obs("ExtendedObservation", 3), "f.correct(&mut o);"), "RegularKalman::correct"))
    ws.append(W("correct_nonlinear: linear observation", f(EK, obs("ExtendedObservation", 3), nl), f(EK, obs("RegularObservation", 3), nl), "ExtendedKalman::correct_nonlinear"))
    g = lambda o, x, p, call: "(mut o: %s, mut x: %s, mut p: %s) { %s }" % (o, x, p, call)
    for nm, o, call in (("Control::apply_control", ctl(3), "o.apply_control(&mut x, &mut p);"), ("RegularObservation::correct", obs("RegularObservation", 3), "o.correct(&mut x, &mut p);"),
                        ("ExtendedObservation::correct_nonlinear", obs("ExtendedObservation", 3), "o.correct_nonlinear(&mut x, &mut p, |_, _| {});")):
        good = g(o, bt("x"), bt("P"), call)
        ws.append(W("%s: state vector of other size" % nm, good, g(o, bt("x", {"S": 7}), bt("P"), call), nm))
        ws.append(W("%s: covariance of other size" % nm, good, g(o, bt("x"), bt("P", {"S": 7}), call), nm))
        ws.append(W("%s: state and covariance exchanged" % nm, good, g(o, bt("P"), bt("x"), call), nm))
        for q, ty in others("x"):
            if DIM[ROLES.get(q, ("", "S"))[1]] == 3:
                ws.append(W("%s: %s in place of x" % (nm, q), good, g(o, ty, bt("P"), call), nm))
        for q, ty in others("P"):
            if q == "bare storage" or {DIM[ROLES[q][1]], DIM[ROLES[q][2]]} == {3}:
                ws.append(W("%s: %s in place of P" % (nm, q), good, g(o, bt("x"), ty, call), nm))
    for nm, F in (("RegularKalman", "KalmanFilter<3, f32>"), ("ExtendedKalman", "ExtendedKalmanFilter<3, f32>")):
        w = lambda n: "(f: %s) { fn want<X: minikalman::prelude::%s>(_: X) {} want(f); }" % (filt(nm, n), F)
        ws.append(W("%s is a filter of its own state count only" % nm, w(3), w(7), nm))
    return ws


def dims_witnesses():
    return kernel_witnesses() + ctor_witnesses() + step_witnesses()


def check_dims(cfgs):
    out = []
    for c in cfgs:
        out += goals(c, dims_witnesses(), "mkdims", DIMR)
    return out


# ------------------------------------------------------------------ P18: read-only storage
ROR = "read-only buffers and containers offer no mutable access: no mutable trait, method, public field or filter accessor"
RO = {"A": "StateTransitionMatrix", "B": "ControlMatrix", "H": "ObservationMatrix", "Q_direct": "DirectProcessNoiseCovarianceMatrix", "Q_control": "ControlProcessNoiseCovarianceMatrix"}


def readonly_witnesses():
    ws = []
    # instances: (name, read-only type, mutable sibling, rows, cols, role trait)
    inst = []
    for r, tr in RO.items():
        p, rr, cc, ty, _ = ROLES[r]
        d = DIM[rr], DIM[cc]
        inst.append((ty.replace("MutBuffer", "Buffer"), bt(r, ro=True), bt(r), d, "%sMut<%s, f32>" % (tr, ", ".join(str(DIM[k]) for k in (p if len(set(p)) > 1 else p[0])))))
    inst.append(("MatrixDataRef", "V<2, 3>", "A<2, 3>", (2, 3), None))
    rm = "MatrixDataRowMajor%s<2, 3, A<2, 3>, f32>"
    inst.append(("MatrixDataRowMajor", rm % "", rm % "Mut", (2, 3), None))
    for nm, ro, mu, (r, c), tr in inst:
        uses = {"set": "b.set(0, 0, 1.0);", "as_mut_slice": "b.as_mut_slice()[0] = 1.0;", "index": "b[0] = 1.0;", "clear": "b.clear();", "apply": "b.apply(|_| {});", "copy_from": "let o: A<%d, %d> = todo!(); b.copy_from(&o);" % (r, c), "set_at": "b.set_at(0, 0, 1.0);"}
        if nm.endswith("Buffer"):
            uses["as_matrix_mut"] = "let _ = b.as_matrix_mut();"
        for u, code in uses.items():
            ws.append(W("%s: no %s" % (nm, u), "(b: &mut %s) { %s }" % (mu, code), "(b: &mut %s) { %s }" % (ro, code), nm))
        traits = ["MatrixMut<%d, %d, f32>" % (r, c), "RowMajorSequentialDataMut<%d, %d, f32>" % (r, c), "core::ops::IndexMut<usize>"] + ([tr] if tr else [])
        for t in traits:
            code = "{ fn want<X: %s>(_: X) {} want(b); }" % t
            ws.append(W("%s: not %s" % (nm, t.split("<")[0]), "(b: %s) %s" % (mu, code), "(b: %s) %s" % (ro, code), nm))
        for t in ("AsMut<[f32]>", "core::ops::DerefMut", "core::borrow::BorrowMut<[f32]>"):
            code = "{ fn want<X: %s>(_: X) {} want(b); }" % t
            ws.append(W("%s: not %s" % (nm, t.split("<")[0]), "(b: Box<[f32]>) %s" % code, "(b: %s) %s" % (ro, code), nm))
    # accessors of the filter, control and observation
    fr = ["A", "x", "P", "Q_direct", "temp_x", "temp_P"]
    orr = ["H", "z", "R", "y", "S", "K", "temp_S_inv", "temp_HP", "temp_PHt", "temp_KHP"]
    cr = ["B", "u", "Q_control", "temp_BQ"]

    def obj(k, n, roles, ro=None):
        return "%s<%s, f32, %s>" % (k, n, ", ".join(bt(r, ro=(r == ro)) for r in roles))
    for k, n, roles, acc in (("RegularKalman", "3", fr, {"A": "state_transition_mut", "Q_direct": "direct_process_noise_mut"}),
                             ("ExtendedKalman", "3", fr, {"A": "state_transition_jacobian_mut", "Q_direct": "direct_process_noise_mut"}),
                             ("Control", "3, 2", cr, {"B": "control_matrix_mut", "Q_control": "process_noise_covariance_mut"}),
                             ("RegularObservation", "3, 5", orr, {"H": "observation_matrix_mut"}), ("ExtendedObservation", "3, 5", orr, {"H": "observation_jacobian_matrix_mut"})):
        for r, m in acc.items():
            f = lambda o: "(mut o: %s) { let _ = o.%s(); }" % (o, m)
            ws.append(W("%s::%s needs a mutable %s" % (k, m, r), f(obj(k, n, roles)), f(obj(k, n, roles, r)), "%s::%s" % (k, m)))
    return ws


def has_mut(t, depth=0):
    """does a type contain a mutable reference?"""
    if not isinstance(t, dict):
        return False
    if t.get("k") in ("ref", "ptr") and t.get("mut"):
        return True
    for v in t.values():
        if isinstance(v, dict) and has_mut(v, depth + 1):
            return True
        if isinstance(v, list) and any(has_mut(x, depth + 1) for x in v):
            return True
    return False


def ro_names(prog):
    names = {last(a["path"]) for a in prog.d["adts"]}
    out = {n for n in names if n.endswith("Buffer") and not n.endswith("MutBuffer") and n.replace("Buffer", "MutBuffer") in names}
    return out | ({"MatrixDataRef", "MatrixDataRowMajor"} & names)


def ref_to(t, paths):
    """is this a reference to one of these types?"""
    return t["k"] == "ref" and (t["ty"].get("path") in paths or ref_to(t["ty"], paths))


def write_paths(prog, paths):
    """(function, span, what) of every function that gets a reference to one of these types from its caller and
    borrows the storage inside mutably, assigns to it, or returns mutable access"""
    out = []
    for b in prog.d["bodies"]:
        if not b.get("body") or b["kind"] not in ("Fn", "AssocFn"):
            continue
        im = prog.impls.get(b.get("impl")) or {}
        if not im.get("trait") and b.get("vis") != "pub":
            continue
        for w in writer(prog, b, paths, set()):
            out.append((b, w))
    return out


def writer(prog, b, paths, seen, args=None):
    if b["sp"] in seen:
        return []
    seen.add(b["sp"])
    m = b["body"]
    L = m["locals"]
    tr = {i for i in range(1, m["argc"] + 1) if ref_to(L[i], paths)} if args is None else set(args)
    if not tr:
        return []
    out = []
    if has_mut(L[0]) and args is None and not ref_to(L[0], paths):
        out.append("returns a mutable reference")
    inside = set()                      # mutable borrows of the storage
    grown = True
    while grown:
        grown = False
        for bl in m["blocks"]:
            if bl["cleanup"]:
                continue
            for st in bl["s"]:
                if not isinstance(st[0], dict) or "l" not in st[0]:
                    continue
                d, r = st[0], st[1]
                src = None
                if r.get("k") in ("ref", "rawptr"):
                    src = r["pl"]
                elif r.get("k") == "use":
                    src = r["a"].get("copy") or r["a"].get("move") if isinstance(r.get("a"), dict) else None
                if src and src["l"] in tr and not d["p"]:
                    if not any(isinstance(e, dict) and "f" in e for e in src["p"]) and (L[d["l"]]["k"] == "ref") and d["l"] not in tr and d["l"] != 0:
                        tr.add(d["l"])
                        grown = True
                    elif r.get("k") in ("ref", "rawptr") and r.get("mut") in (True, "Mut") and any(isinstance(e, dict) and "f" in e for e in src["p"]) and d["l"] not in inside:
                        inside.add(d["l"])
                        out.append("borrows the storage mutably")
                if d["l"] in tr and any(isinstance(e, dict) and "f" in e for e in d["p"]):
                    out.append("assigns to the storage")
    for bl in m["blocks"]:
        t = bl["t"]
        if t["k"] != "call" or bl["cleanup"]:
            continue
        f = t["f"].get("const", {}) if isinstance(t["f"], dict) else {}
        nb = prog.bypath.get(f.get("rfn") or f.get("fn")) if f.get("local") else None
        if nb is None or nb.get("vis") == "pub":
            continue                    # judged on its own
        a = [i + 1 for i, x in enumerate(t["a"]) if (x.get("copy") or x.get("move") or {"l": -1})["l"] in tr]
        if a:
            out += ["%s, which %s" % ("calls " + nb["name"], w) for w in writer(prog, nb, paths, seen, a)]
    return list(dict.fromkeys(out))


def check_readonly(prog):
    """the program-level part of P18"""
    out = []
    ns = ro_names(prog)
    want = {v + "Buffer" for v in RO.values()} | {"MatrixDataRef", "MatrixDataRowMajor"}
    for n in sorted(want - ns):
        out.append(Goal("%s: present" % n, UNDECIDED, "minikalman", "no read-only type of this name with a mutable sibling", ROR))
    for n in sorted(ns):
        adt = [a for a in prog.d["adts"] if last(a["path"]) == n][0]
        bad = []
        for f in adt["variants"][0]["fields"]:
            if f.get("vis") == "pub" and "PhantomData" not in str(f["ty"].get("path")):
                bad.append("public field %s" % f["name"])
        nm = 0
        for i in prog.d["impls"]:
            if i["self"].get("path") != adt["path"]:
                continue
            t = last(i["trait"]) if "trait" in i else None
            if t and (t.endswith("Mut") or t in ("AsMut", "DerefMut", "IndexMut", "BorrowMut")) and not i.get("negative"):
                bad.append("impl %s (%s)" % (t, short(i["span"])))
            for it in i["items"]:
                b = prog.bodies.get(it["sp"])
                if not b or not b.get("body") or it["kind"] != "Fn":
                    continue
                nm += 1
        for b, w in write_paths(prog, {adt["path"]}):
            bad.append("%s %s (%s)" % (b["name"], w, short(b["span"])))
        out.append(Goal("%s: no mutable access" % n, VIOLATED if bad else HOLDS, adt["path"].replace("minikalman::", ""), "; ".join(bad) if bad else "%d functions and the impl list" % nm, ROR))
    return out


def check_readonly_w(cfgs):
    out = []
    for c in cfgs:
        out += goals(c, readonly_witnesses(), "mkro", ROR)
    return out


# ------------------------------------------------------------------ P28: nothing shared
SHR = "no static, thread-local, interior mutability, reference counting or raw pointer in the crate's state; filters are Send and Sync when their storages are"
INNER = ("core::cell::", "core::sync::", "std::sync::", "alloc::rc::", "alloc::sync::", "std::thread::", "core::ptr::non_null", "std::cell")


def inner(t):
    if isinstance(t, dict):
        if t.get("k") == "ptr":
            return "raw pointer"
        if t.get("k") == "adt" and t["path"].startswith(INNER):
            return t["path"]
        if t.get("k") == "dyn":
            return "trait object"
        for v in t.values():
            r = inner(v)
            if r:
                return r
    elif isinstance(t, list):
        for v in t:
            r = inner(v)
            if r:
                return r
    return None


def check_shared(prog):
    out = []
    for s in prog.d["statics"]:
        nm = s.get("path", str(s))
        bad = s.get("mut") or inner(s.get("ty"))
        out.append(Goal("static %s" % nm, VIOLATED if bad else HOLDS, "%s (%s)" % (nm, short(s.get("span", ""))), "mutable state shared by all filters" if bad else "immutable", SHR))
    for a in prog.d["adts"]:
        for v in a["variants"]:
            for f in v["fields"]:
                r = inner(f["ty"])
                if r:
                    out.append(Goal("%s.%s" % (a["path"], f["name"]), VIOLATED, a["path"], "holds %s" % r, SHR))
    n = 0
    uses = {}
    for b in prog.d["bodies"]:
        if not b.get("body"):
            continue
        n += 1
        for bl in b["body"]["blocks"]:
            t = bl["t"]
            if t["k"] == "call" and not bl["cleanup"]:
                f = t["f"].get("const", {}) if isinstance(t["f"], dict) else {}
                nm = f.get("rfn") or f.get("fn") or ""
                if nm.lstrip("<").startswith(INNER) and "non_null" not in nm:
                    uses.setdefault(b["path"], nm)
    for p, nm in uses.items():
        out.append(Goal("use of %s in %s" % (last(nm), p.replace("minikalman::", "")), VIOLATED, p, "calls %s" % nm, SHR))
    out.append(Goal("statics and interior mutability", HOLDS if not any(g.status == VIOLATED for g in out) else VIOLATED, "minikalman", "%d statics, %d types, %d bodies searched" % (len(prog.d["statics"]), len(prog.d["adts"]), n), SHR))
    return out


def shared_witnesses():
    ws = []
    fr = ["A", "x", "P", "Q_direct", "temp_x", "temp_P"]
    orr = ["H", "z", "R", "y", "S", "K", "temp_S_inv", "temp_HP", "temp_PHt", "temp_KHP"]
    cr = ["B", "u", "Q_control", "temp_BQ"]
    ss = "fn want<X: Send + Sync + Unpin>(_: &X) {} want(&o);"
    for k, n, roles in (("RegularKalman", "3", fr), ("ExtendedKalman", "3", fr), ("Control", "3, 2", cr), ("RegularObservation", "3, 5", orr), ("ExtendedObservation", "3, 5", orr)):
        ws.append((k, "(o: %s<%s, f32, %s>) { %s }" % (k, n, ", ".join(bt(r) for r in roles), ss)))
    for t in ("MatrixDataArray<2, 3, 6, f32>", "A<2, 3>", "V<2, 3>", "MatrixDataRowMajor<2, 3, A<2, 3>, f32>", "MatrixDataRowMajorMut<2, 3, A<2, 3>, f32>"):
        ws.append((t.split("<")[0].replace("A", "MatrixDataMut") if t[0] == "A" else "MatrixDataRef" if t[0] == "V" else t.split("<")[0], "(o: %s) { %s }" % (t, ss)))
    # two filters in two threads
    return ws


def check_shared_w(cfgs):
    out = []
    for c in cfgs:
        try:
            build.dump(c)
        except build.BuildError:
            out.append(Goal("witnesses", UNDECIDED, c, "configuration does not build", SHR))
            continue
        ws = shared_witnesses()
        plain = [(k, w.replace("want<X: Send + Sync + Unpin>", "want<X>")) for k, w in ws]
        ok, err = build.rustc(c, HEAD + "\n".join("pub fn w%d%s" % (i, w) for i, (k, w) in enumerate(ws)), "mksend")
        for i, (k, w) in enumerate(ws):
            st, d = HOLDS, "Send + Sync"
            if not ok:
                o1, e1 = build.rustc(c, HEAD + "pub fn w%s" % w, "mksend_%d" % i)
                if not o1:
                    o2, e2 = build.rustc(c, HEAD + "pub fn w%s" % plain[i][1], "mksendp_%d" % i)
                    st, d = (VIOLATED, first_error(e1)) if o2 else (UNDECIDED, "type no longer nameable: " + first_error(e2))
            g = Goal("%s can be sent and shared between threads" % k, st, k, d, SHR)
            g.config = c
            out.append(g)
    return out
