"""Generality: everything the crate offers is available for every element type, storage and dimension its traits admit.
Decided by type-checking generated programs that are generic over all of them (what the compiler accepts for a type
parameter it accepts for every instance) and programs that bring storages, element types, role types, controls and
observations of their own."""
import re
from concurrent.futures import ThreadPoolExecutor
from itertools import product
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED, short
from .poly import P, T as TRUE, F, subst, neg, show
from .interp import Undecided
from .macros import ROLES
from .types import first_error, KERN
from . import build

RULE = "a program generic over element type, storage and dimensions, with the documented traits as its only bounds, is accepted by the compiler"
HEAD = """#![allow(warnings)]
use minikalman::prelude::*;
use minikalman::buffers::types::*;
use minikalman::regular::{Control, ControlBuilder, RegularKalman, RegularKalmanBuilder, RegularObservation, RegularObservationBuilder};
use minikalman::extended::{ExtendedKalman, ExtendedKalmanBuilder, ExtendedObservation, ExtendedObservationBuilder};
use core::ops::{Index, IndexMut};
"""
# the user's own storage, element type, control and observation
OWN = """
pub struct Own<const R: usize, const C: usize, T>(pub [[T; C]; R]);
impl<const R: usize, const C: usize, T> RowMajorSequentialData<R, C, T> for Own<R, C, T> { fn as_slice(&self) -> &[T] { todo!() } }
impl<const R: usize, const C: usize, T> RowMajorSequentialDataMut<R, C, T> for Own<R, C, T> { fn as_mut_slice(&mut self) -> &mut [T] { todo!() } }
impl<const R: usize, const C: usize, T> Index<usize> for Own<R, C, T> { type Output = T; fn index(&self, i: usize) -> &T { todo!() } }
impl<const R: usize, const C: usize, T> IndexMut<usize> for Own<R, C, T> { fn index_mut(&mut self, i: usize) -> &mut T { todo!() } }
impl<const R: usize, const C: usize, T> Matrix<R, C, T> for Own<R, C, T> {}
impl<const R: usize, const C: usize, T> MatrixMut<R, C, T> for Own<R, C, T> {}
"""
NUM = """
#[derive(Clone, Copy, PartialEq, PartialOrd)] pub struct Num(f64);
impl core::ops::Add for Num { type Output = Num; fn add(self, o: Num) -> Num { todo!() } }
impl core::ops::Sub for Num { type Output = Num; fn sub(self, o: Num) -> Num { todo!() } }
impl core::ops::Mul for Num { type Output = Num; fn mul(self, o: Num) -> Num { todo!() } }
impl core::ops::Div for Num { type Output = Num; fn div(self, o: Num) -> Num { todo!() } }
impl core::ops::Neg for Num { type Output = Num; fn neg(self) -> Num { todo!() } }
impl core::ops::AddAssign for Num { fn add_assign(&mut self, o: Num) { todo!() } }
impl core::ops::SubAssign for Num { fn sub_assign(&mut self, o: Num) { todo!() } }
impl core::iter::Sum for Num { fn sum<I: Iterator<Item = Num>>(i: I) -> Num { todo!() } }
impl minikalman::num_traits::Zero for Num { fn zero() -> Num { todo!() } fn is_zero(&self) -> bool { todo!() } }
impl minikalman::num_traits::One for Num { fn one() -> Num { todo!() } }
impl minikalman::num_traits::FromPrimitive for Num { fn from_i64(n: i64) -> Option<Num> { todo!() } fn from_u64(n: u64) -> Option<Num> { todo!() } }
impl MatrixDataType for Num { fn square_root(self) -> Num { todo!() } }
"""
ROLE = {   # role: (trait, mutable trait) over named dimensions
    "A": ("StateTransitionMatrix<S, T>", "StateTransitionMatrixMut<S, T>"), "X": ("StateVector<S, T>", "StateVectorMut<S, T>"), "P": ("EstimateCovarianceMatrix<S, T>",) * 2,
    "Q": ("DirectProcessNoiseCovarianceMatrix<S, T>", "DirectProcessNoiseCovarianceMatrixMut<S, T>"), "PX": ("PredictedStateEstimateVector<S, T>",) * 2, "TP": ("TemporaryStateMatrix<S, T>",) * 2,
    "B": ("ControlMatrix<S, C, T>", "ControlMatrixMut<S, C, T>"), "U": ("ControlVector<C, T>", "ControlVectorMut<C, T>"), "QC": ("ControlProcessNoiseCovarianceMatrix<C, T>", "ControlProcessNoiseCovarianceMatrixMut<C, T>"), "BQ": ("TemporaryBQMatrix<S, C, T>",) * 2,
    "H": ("ObservationMatrix<O, S, T>", "ObservationMatrixMut<O, S, T>"), "Z": ("MeasurementVector<O, T>", "MeasurementVectorMut<O, T>"), "R": ("MeasurementNoiseCovarianceMatrix<O, T>",) * 2, "Y": ("InnovationVector<O, T>",) * 2, "SC": ("InnovationCovarianceMatrix<O, T>",) * 2,
    "K": ("KalmanGainMatrix<S, O, T>",) * 2, "SI": ("TemporaryResidualCovarianceInvertedMatrix<O, T>",) * 2, "HP": ("TemporaryHPMatrix<O, S, T>",) * 2, "PH": ("TemporaryPHTMatrix<S, O, T>",) * 2, "KH": ("TemporaryKHPMatrix<S, T>",) * 2,
}
FR, CR, OR = ["A", "X", "P", "Q", "PX", "TP"], ["B", "U", "QC", "BQ"], ["H", "Z", "R", "Y", "SC", "K", "SI", "HP", "PH", "KH"]
KIND = {"RegularKalman": ("S", FR), "ExtendedKalman": ("S", FR), "Control": ("SC", CR), "RegularObservation": ("SO", OR), "ExtendedObservation": ("SO", OR)}
# the storage a role is kept in, as the role trait's own associated types are
VEC = {"StateVector", "StateVectorMut", "ControlVector", "ControlVectorMut", "MeasurementVector", "MeasurementVectorMut", "PredictedStateEstimateVector", "InnovationVector"}


class G:
    def __init__(self, key, src, where):
        self.key, self.src, self.where = key, src, where


def consts(ds):
    return ", ".join("const %s: usize" % d for d in dict.fromkeys(ds))


def obj(kind):
    ds, rs = KIND[kind]
    return "%s<%s, T, %s>" % (kind, ", ".join(ds), ", ".join(rs))


def bounds(rs, mut=()):
    """type parameters of these roles, bounded by the role trait (the mutable one where named)"""
    return ", ".join("%s: %s" % (r, ROLE[r][1 if r in mut else 0]) for r in rs)


def gen(ds, t, *more):
    return "<%s>" % ", ".join(x for x in (consts(ds), t) + more if x)


def kernels():
    out = []
    T = "T: MatrixDataType"
    dim = lambda c: "1" if c == "1" else c
    for m, (s, sm, ps) in KERN.items():
        if m == "copy":
            continue
        ds = [c for x in [s] + [p[0] for p in ps] for c in x if c != "1"]
        elem = "T: Copy" if m.startswith("copy") else T
        ty = lambda sh, mu: "Matrix%s<%s, %s, T>" % ("Mut" if mu else "", dim(sh[0]), dim(sh[1]))
        tys = [("M0", s, sm)] + [("M%d" % i, p[0], p[1]) for i, p in enumerate(ps, 1)]
        if m == "copy_from":
            tys[1] = ("M1", ps[0][0], 1)        # its source is bounded by MatrixMut
        g = gen(ds, elem, ", ".join("%s: %s" % (n, ty(sh, mu)) for n, sh, mu in tys))
        args = ", ".join("p%d" % i for i in range(1, len(ps) + 1))
        if m == "mult_buffered":
            args += ", aux"
        if m == "multscale_transb":
            args = "p1, k, p2"
        call = "s.%s(%s)" % (m, args)
        sig = ["s: &%sM0" % ("mut " if sm else "")] + ["p%d: &%sM%d" % (i, "mut " if p[1] else "", i) for i, p in enumerate(ps, 1)] + ["aux: &mut [T]", "k: T"]
        out.append(G("Matrix::%s" % m, "%s(%s) { let _ = %s; }" % (g, ", ".join(sig), call), "matrix/traits.rs"))
    N = "const N: usize"
    for m, call, b, elem in (("cholesky_decompose_lower", "let _: bool = s.cholesky_decompose_lower()", "MatrixMut<N, N, T>", T), ("make_identity", "s.make_identity()", "MatrixMut<N, N, T>", T),
                             ("make_scalar", "s.make_scalar(k)", "MatrixMut<N, N, T>", T), ("make_comatrix", "s.make_comatrix(k, k)", "MatrixMut<N, N, T>", T), ("set_diagonal_to_scalar", "s.set_diagonal_to_scalar(k)", "MatrixMut<N, N, T>", T)):
        out.append(G("SquareMatrixMut::%s" % m, "<const N: usize, %s, M: %s>(s: &mut M, k: T) { %s; }" % (elem, b, call), "matrix/traits.rs"))
    RC = "const R: usize, const C: usize"
    for m, call, mu, elem in (("get", "let _: T = s.get(0, 0)", 0, "T: Copy"), ("get_at", "let _: T = RowMajorSequentialData::get_at(s, 0, 0)", 0, "T: Copy"), ("get_row_copy", "s.get_row_copy(0, d)", 0, "T: Copy"), ("get_column_copy", "s.get_column_copy(0, d)", 0, "T: Copy"),
                              ("inspect", "let _: usize = s.inspect(|m| m.len())", 0, "T"), ("rows", "let _: usize = s.rows() + s.cols()", 0, "T"), ("len", "let _: usize = s.len(); let _: bool = s.is_empty() && s.is_valid()", 0, "T"), ("as_slice", "let _: &[T] = s.as_slice()", 0, "T"),
                              ("index", "let _: &T = &s[0]", 0, "T"), ("apply", "let _: usize = s.apply(|m| m.len())", 1, "T"), ("set", "s.set(0, 0, k)", 1, "T"), ("set_at", "RowMajorSequentialDataMut::set_at(s, 0, 0, k)", 1, "T"), ("set_symmetric", "s.set_symmetric(0, 0, k)", 1, "T: Copy"),
                              ("set_all", "s.set_all(k)", 1, "T: Copy"), ("set_zero", "s.set_zero()", 1, "T: MatrixDataType"), ("clear", "s.clear()", 1, "T: MatrixDataType"), ("as_mut_slice", "let _: &mut [T] = s.as_mut_slice()", 1, "T"), ("index_mut", "s[0] = k", 1, "T")):
        out.append(G("element access %s" % m, "<%s, %s, M: Matrix%s<R, C, T>>(s: &%sM, d: &mut [T], k: T) { %s; }" % (RC, elem, "Mut" if mu else "", "mut " if mu else "", call), "matrix/traits.rs, row_major.rs"))
    out.append(G("inspect with any function", "<%s, T, M: Matrix<R, C, T>, O, F: FnMut(&M) -> O>(s: &M, f: F) -> O { s.inspect(f) }" % RC, "matrix/traits.rs"))
    out.append(G("apply with any function", "<%s, T, M: MatrixMut<R, C, T>, O, F: FnMut(&mut M) -> O>(s: &mut M, f: F) -> O { s.apply(f) }" % RC, "matrix/traits.rs"))
    for tr, n, c, call, mu in (("Scalar", "", "<T: Copy, M: Matrix<1, 1, T>>", "let _: T = s.get_value()", 0), ("RowVector", "N", "<const N: usize, T: Copy, M: Matrix<N, 1, T>>", "let _: T = s.get_row(0)", 0), ("ColumnVector", "N", "<const N: usize, T: Copy, M: Matrix<1, N, T>>", "let _: T = s.get_col(0)", 0),
                               ("ScalarMut", "", "<T, M: MatrixMut<1, 1, T>>", "s.set_value(k)", 1), ("RowVectorMut", "N", "<const N: usize, T, M: MatrixMut<N, 1, T>>", "s.set_row(0, k)", 1), ("ColumnVectorMut", "N", "<const N: usize, T, M: MatrixMut<1, N, T>>", "s.set_col(0, k)", 1)):
        out.append(G("%s for every matrix of its shape" % tr, "%s(s: &%sM, k: T) { %s; }" % (c, "mut " if mu else "", call), "matrix/traits.rs"))
    return out


def containers(feats):
    out = []
    RC = "const R: usize, const C: usize"
    w = lambda t, mu: "fn m<%s, T, M: Matrix%s<R, C, T> + Index<usize, Output = T>%s>(_: &M) {} m::<R, C, T, _>(&v);" % (RC, "Mut" if mu else "", " + IndexMut<usize>" if mu else "")
    f = "matrix/data"
    out.append(G("arrays of any element type", "<%s, const N: usize, T>(d: [T; N]) -> [T; N] { let v: MatrixDataArray<R, C, N, T> = MatrixData::new_array::<R, C, N, T>(d); %s v.into_inner() }" % (RC, w("", 1)), f))
    out.append(G("arrays from and into their data", "<%s, const N: usize, T>(d: [T; N]) -> [T; N] { let v: MatrixDataArray<R, C, N, T> = d.into(); let v = MatrixDataArray::<R, C, N, T>::new(v.into()); IntoInnerData::into_inner(MatrixDataArray::<R, C, N, T>::new_unchecked(v.into_inner())) }" % RC, f))
    out.append(G("borrowed slices of any element type", "<'a, %s, T>(d: &'a [T]) -> &'a [T] { let v: MatrixDataRef<'a, R, C, T> = MatrixData::new_ref::<R, C, T>(d); %s let v = MatrixDataRef::<'a, R, C, T>::from(v.into_inner()); v.into() }" % (RC, w("", 0)), f))
    out.append(G("read-only view of a mutable slice", "<'a, %s, T>(d: &'a mut [T]) -> MatrixDataRef<'a, R, C, T> { d.into() }" % RC, f))
    out.append(G("mutable slices of any element type", "<'a, %s, T>(d: &'a mut [T]) -> &'a mut [T] { let v: MatrixDataMut<'a, R, C, T> = MatrixData::new_mut::<R, C, T>(d); %s let v = MatrixDataMut::<'a, R, C, T>::from(v.into_inner()); v.into() }" % (RC, w("", 1)), f))
    out.append(G("wrapped storage of any kind", "<%s, T: Copy, D: RowMajorSequentialData<R, C, T>>(d: D) -> D { let v: MatrixDataRowMajor<R, C, D, T> = MatrixData::new_from::<R, C, T, D>(d); %s v.into_inner() }" % (RC, w("", 0)), f))
    out.append(G("wrapped mutable storage of any kind", "<%s, T: Copy, D: RowMajorSequentialDataMut<R, C, T>>(d: D) -> D { let v: MatrixDataRowMajorMut<R, C, D, T> = MatrixData::new_mut_from::<R, C, T, D>(d); %s v.into_inner() }" % (RC, w("", 1)), f))
    out.append(G("wrappers from their storage", "<%s, T, D: RowMajorSequentialDataMut<R, C, T>, E: RowMajorSequentialData<R, C, T>>(d: D, e: E) -> (D, E) { (MatrixDataRowMajorMut::<R, C, D, T>::from(d).into_inner(), MatrixDataRowMajor::<R, C, E, T>::from(e).into_inner()) }" % RC, f))
    out.append(G("containers in constants", "() { struct X; const A: MatrixDataArray<1, 2, 2, u8> = MatrixData::new_array([1, 2]); const B: MatrixDataRef<'static, 1, 2, u8> = MatrixData::new_ref(&[1, 2]); static C: StateTransitionMatrixBuffer<1, u8, MatrixDataRef<'static, 1, 1, u8>> = StateTransitionMatrixBuffer::new(MatrixData::new_ref(&[1])); const D: MatrixDataRowMajor<1, 2, MatrixDataRef<'static, 1, 2, u8>, u8> = MatrixDataRowMajor::new(B); }", f))
    if "alloc" in feats or "std" in feats:
        out.append(G("heap storage of any element type", "<%s, T>(d: Vec<T>) -> Box<[T]> { let v: MatrixDataBoxed<R, C, T> = MatrixData::new_boxed::<R, C, T, _>(d); %s let v = MatrixDataBoxed::<R, C, T>::from(v.into_inner()); IntoInnerData::into_inner(v) }" % (RC, w("", 1)), f))
        out.append(G("heap storage filled with any value", "<%s, T: Copy>(d: T) -> MatrixDataBoxed<R, C, T> { MatrixData::new::<R, C, T>(d) }" % RC, f))
    return out


DN = {"S": "S", "C": "C", "M": "O", "1": "1"}


def buffers():
    out = []
    for r, (p, rr, cc, ty, tr) in ROLES.items():
        a = ", ".join(DN[k] for k in p)
        ds = [DN[k] for k in p]
        sh = "%s, %s" % (DN[rr], DN[cc])
        tr0 = tr.split("<")[0]
        for t, mu, tb in [(ty, 1, tr0)] + ([(ty.replace("MutBuffer", "Buffer"), 0, tr0[:-3])] if "MutBuffer" in ty else []):
            T = "%s<%s, T, M>" % (t, a)
            want = "%s<%s, T> + Matrix%s<%s, T> + Index<usize, Output = T>" % (tb, a, "Mut" if mu else "", sh)
            g = gen(ds, "T", "M: Matrix%s<%s, T>" % ("Mut" if mu else "", sh))
            out.append(G("%s over any storage and element type" % t, "%s(m: M) { fn w<%s, T, B: %s>(_: &B) {} let b: %s = %s::new(m); w::<%s, T, _>(&b); let _: &[T] = b.as_slice(); let _: usize = b.len(); let _: bool = b.is_empty(); }" % (g, consts(ds), want, T, t, a), "buffers/types"))
            out.append(G("%s gives its storage back" % t, "%s(b: %s) -> M::Target { IntoInnerData::into_inner(b) }" % (gen(ds, "T", "M: MatrixMut<%s, T> + IntoInnerData" % sh), T), "buffers/types"))
            x = lambda st: "%s<%s, T, %s>" % (t, a, st)
            n = "N" if tr0 not in VEC else DN[rr]       # a vector's data is as long as the vector
            out.append(G("%s from arrays" % t, "%s(d: [T; %s]) -> %s { d.into() }" % ("<%s, T>" % consts(ds + ["N"] * (n == "N")), n, x("MatrixDataArray<%s, %s, T>" % (sh, n))), "buffers/types"))
            if mu:
                out.append(G("%s from mutable slices" % t, "<'a, %s, T>(d: &'a mut [T]) -> %s { d.into() }" % (consts(ds), x("MatrixDataMut<'a, %s, T>" % sh)), "buffers/types"))
            else:
                out.append(G("%s from slices" % t, "<'a, %s, T>(d: &'a [T]) -> %s { d.into() }" % (consts(ds), x("MatrixDataRef<'a, %s, T>" % sh)), "buffers/types"))
    return out


def filters():
    out = []
    T = "T: MatrixDataType"
    vs = lambda d, rs: ", ".join("%s: %s" % (r.lower(), r) for r in rs)
    for k, (ds, rs) in KIND.items():
        o = obj(k)
        x = ("X",) if k.endswith("Kalman") else ()
        out.append(G("%s of any parts" % k, "%s(%s) -> %s { %sBuilder::new::<%s, T>(%s) }" % (gen(ds, T, bounds(rs, x)), vs(ds, rs), o, k, ", ".join(ds), ", ".join(r.lower() for r in rs)), k))
        # the parts themselves, under their own bound only
        free = ", ".join(r for r in rs)
        for acc, r, mu in ACC[k]:
            b = ", ".join("%s: %s" % (q, ROLE[q][mu]) if q == r else q for q in rs)
            out.append(G("%s::%s" % (k, acc), "%s(o: &%s%s) -> &%s%s { o.%s() }" % (gen(ds, "T", b), "mut " if acc.endswith("_mut") else "", o, "mut " if acc.endswith("_mut") else "", r, acc), k))
        out.append(G("%s: dimensions" % k, "%s(o: &%s) -> usize { o.states() }" % (gen(ds, "T", free), o), k))
    FB = bounds(FR, ("X",))
    cl = "|_: &X, _: &mut PX| {}"
    for m, k, call in (("predict", "RegularKalman", "f.predict()"), ("predict_tuned", "RegularKalman", "f.predict_tuned(k)"), ("predict_nonlinear", "ExtendedKalman", "f.predict_nonlinear(%s)" % cl), ("predict_tuned_nonlinear", "ExtendedKalman", "f.predict_tuned_nonlinear(k, %s)" % cl)):
        out.append(G("%s::%s" % (k, m), "%s(f: &mut %s, k: T) { %s; }" % (gen("S", T, FB), obj(k), call), k))
    for m, call in (("predict_nonlinear", "f.predict_nonlinear(h)"), ("predict_tuned_nonlinear", "f.predict_tuned_nonlinear(k, h)")):
        out.append(G("ExtendedKalman::%s with any function" % m, "%s(f: &mut %s, k: T, h: F0) { %s; }" % (gen("S", T, FB, "F0: FnMut(&X, &mut PX)"), obj("ExtendedKalman"), call), "ExtendedKalman"))
    out.append(G("correct_nonlinear with any function", "%s(f: &mut %s, c: &mut %s, h: F0) { f.correct_nonlinear(c, h); }" % (gen("SO", T, FB, bounds(OR), "F0: FnMut(&X, &mut Y)"), obj("ExtendedKalman"), obj("ExtendedObservation")), "ExtendedKalman"))
    out.append(G("ExtendedObservation::correct_nonlinear with any function", "%s(c: &mut %s, x: &mut X, p: &mut P, h: F0) { c.correct_nonlinear(x, p, h); }" % (gen("SO", T, bounds(OR), "X: StateVectorMut<S, T>, P: EstimateCovarianceMatrix<S, T>, F0: FnMut(&X, &mut Y)"), obj("ExtendedObservation")), "ExtendedObservation"))
    two = lambda rs, *m: gen("SCO" if "C" in KIND[rs][0] else "SO" if "O" in KIND[rs][0] else "S", T, FB, bounds(KIND[rs][1]), *m)
    out.append(G("RegularKalman::control", "%s(f: &mut %s, c: &mut %s) { f.control(c); }" % (gen("SC", T, FB, bounds(CR)), obj("RegularKalman"), obj("Control")), "RegularKalman"))
    out.append(G("RegularKalman::correct", "%s(f: &mut %s, c: &mut %s) { f.correct(c); }" % (gen("SO", T, FB, bounds(OR)), obj("RegularKalman"), obj("RegularObservation")), "RegularKalman"))
    out.append(G("ExtendedKalman::correct_nonlinear", "%s(f: &mut %s, c: &mut %s) { f.correct_nonlinear(c, |_: &X, _: &mut Y| {}); }" % (gen("SO", T, FB, bounds(OR)), obj("ExtendedKalman"), obj("ExtendedObservation")), "ExtendedKalman"))
    xp = "X: StateVectorMut<S, T>, P: EstimateCovarianceMatrix<S, T>"
    out.append(G("Control::apply_control", "%s(c: &mut %s, x: &mut X, p: &mut P) { c.apply_control(x, p); }" % (gen("SC", T, bounds(CR), xp), obj("Control")), "Control"))
    out.append(G("RegularObservation::correct", "%s(c: &mut %s, x: &mut X, p: &mut P) { c.correct(x, p); }" % (gen("SO", T, bounds(OR), xp), obj("RegularObservation")), "RegularObservation"))
    out.append(G("ExtendedObservation::correct_nonlinear", "%s(c: &mut %s, x: &mut X, p: &mut P) { c.correct_nonlinear(x, p, |_: &X, _: &mut Y| {}); }" % (gen("SO", T, bounds(OR), xp), obj("ExtendedObservation")), "ExtendedObservation"))
    # generic entry points
    w = lambda tr, ds: "fn w<%s, T, F: %s>(_: &F) {} w::<%s, T, _>(f);" % (consts(ds), tr, ", ".join(ds))
    for k, tr, ds, mut in (("RegularKalman", "KalmanFilter<S, T> + KalmanFilterStateTransitionMut<S, T>", "S", ("X", "A", "Q")), ("ExtendedKalman", "ExtendedKalmanFilter<S, T> + ExtendedKalmanFilterStateTransitionMut<S, T> + KalmanFilterDirectProcessNoiseMut<S, T>", "S", ("X", "A", "Q")),
                           ("Control", "KalmanFilterControl<S, C, T> + KalmanFilterControlApplyToFilter<S, T> + KalmanFilterControlTransitionMut<S, C, T>", "SC", ("U", "QC", "B")),
                           ("RegularObservation", "KalmanFilterObservation<S, O, T> + KalmanFilterObservationTransformationMut<S, O, T>", "SO", ("Z", "H")), ("ExtendedObservation", "ExtendedKalmanFilterObservation<S, O, T> + ExtendedKalmanFilterObservationTransformationMut<S, O, T>", "SO", ("Z", "H"))):
        out.append(G("%s is a %s of any parts" % (k, tr.split("<")[0]), "%s(f: &%s) { %s }" % (gen(ds, T, bounds(KIND[k][1], mut)), obj(k), w(tr, ds)), "kalman/filter_trait.rs"))
        if k in ("RegularKalman", "ExtendedKalman"):
            tr2 = tr.split(" + ")[0]
            out.append(G("%s is a %s of read-only model parts" % (k, tr.split("<")[0]), "%s(f: &%s) { %s }" % (gen(ds, T, bounds(KIND[k][1], ("X",))), obj(k), w(tr2, ds)), "kalman/filter_trait.rs"))
        if k.endswith("Observation"):
            tr2 = tr.split(" + ")[0]
            out.append(G("%s is a %s of read-only model parts" % (k, tr.split("<")[0]), "%s(f: &%s) { %s }" % (gen(ds, T, bounds(KIND[k][1], ("Z",))), obj(k), w(tr2, ds)), "kalman/filter_trait.rs"))
    # the associated type of a trait accessor is the component's own type
    for k, tr, ds, r, ty in ASSOC:
        src = "%s(f: &%s) { fn w<V, T, %s, F: %s<%s, T, %s = V>>(_: &F) {} w::<%s, T, %s, _>(f); }" % (gen(KIND[k][0], T, bounds(KIND[k][1], (r, "X") if r == "PX" else (r,))), obj(k), consts(ds), tr, ", ".join(ds), ty, r, ", ".join(ds))
        out.append(G("%s: %s::%s is the component" % (k, tr, ty), src, "kalman/filter_trait.rs"))
    k = "K0: KalmanFilter<S, T>, C0: KalmanFilterControlApplyToFilter<S, T>, O0: KalmanFilterObservationCorrectFilter<S, T>"
    out.append(G("steps through KalmanFilter", "<const S: usize, T, %s>(f: &mut K0, c: &mut C0, o: &mut O0) { f.predict(); f.control(c); f.correct(o); let _ = (f.state_vector_mut(), 0); let _ = (f.estimate_covariance_mut(), 0); let _ = f.state_transition(); }" % k, "kalman/filter_trait.rs"))
    out.append(G("steps through ExtendedKalmanFilter", "<const S: usize, const O: usize, T, K0: ExtendedKalmanFilter<S, T>, O0: KalmanFilterNonlinearObservationCorrectFilter<S, O, T>>(f: &mut K0, o: &mut O0) { f.predict_nonlinear(|_, _| {}); f.correct_nonlinear(o, |_, _| {}); let _ = (f.state_vector_mut(), 0); let _ = f.state_transition_jacobian(); }", "kalman/filter_trait.rs"))
    out.append(G("nonlinear steps through ExtendedKalmanFilter with any function", "<const S: usize, const O: usize, T, K0: ExtendedKalmanFilter<S, T>, O0: KalmanFilterNonlinearObservationCorrectFilter<S, O, T>, F0: FnMut(&K0::StateVectorMut, &mut K0::NextStateVector), F1: FnMut(&K0::StateVectorMut, &mut O0::ObservationVector)>(f: &mut K0, o: &mut O0, h: F0, g: F1) { f.predict_nonlinear(h); f.correct_nonlinear(o, g); }", "kalman/filter_trait.rs"))
    return out


ACC = {
    "RegularKalman": [("state_vector", "X", 0), ("state_vector_mut", "X", 1), ("state_transition", "A", 0), ("state_transition_mut", "A", 1), ("estimate_covariance", "P", 0), ("estimate_covariance_mut", "P", 1), ("direct_process_noise", "Q", 0), ("direct_process_noise_mut", "Q", 1)],
    "ExtendedKalman": [("state_vector", "X", 0), ("state_vector_mut", "X", 1), ("state_transition_jacobian", "A", 0), ("state_transition_jacobian_mut", "A", 1), ("estimate_covariance", "P", 0), ("estimate_covariance_mut", "P", 1), ("direct_process_noise", "Q", 0), ("direct_process_noise_mut", "Q", 1)],
    "Control": [("control_vector", "U", 0), ("control_vector_mut", "U", 1), ("control_matrix", "B", 0), ("control_matrix_mut", "B", 1), ("process_noise_covariance", "QC", 0), ("process_noise_covariance_mut", "QC", 1)],
    "RegularObservation": [("measurement_vector", "Z", 0), ("measurement_vector_mut", "Z", 1), ("observation_matrix", "H", 0), ("observation_matrix_mut", "H", 1), ("measurement_noise_covariance", "R", 0), ("measurement_noise_covariance_mut", "R", 1)],
    "ExtendedObservation": [("measurement_vector", "Z", 0), ("measurement_vector_mut", "Z", 1), ("observation_jacobian_matrix", "H", 0), ("observation_jacobian_matrix_mut", "H", 1), ("measurement_noise_covariance", "R", 0), ("measurement_noise_covariance_mut", "R", 1)],
}


ASSOC = [(k, tr, ds, r, ty) for ks, tr, ds, r, ty in (
    (("RegularKalman", "ExtendedKalman"), "KalmanFilterStateVector", "S", "X", "StateVector"), (("RegularKalman", "ExtendedKalman"), "KalmanFilterStateVectorMut", "S", "X", "StateVectorMut"),
    (("RegularKalman",), "KalmanFilterStateTransition", "S", "A", "StateTransitionMatrix"), (("RegularKalman",), "KalmanFilterStateTransitionMut", "S", "A", "StateTransitionMatrixMut"),
    (("ExtendedKalman",), "ExtendedKalmanFilterStateTransition", "S", "A", "StateTransitionMatrix"), (("ExtendedKalman",), "ExtendedKalmanFilterStateTransitionMut", "S", "A", "StateTransitionMatrixMut"),
    (("RegularKalman", "ExtendedKalman"), "KalmanFilterEstimateCovariance", "S", "P", "EstimateCovarianceMatrix"), (("RegularKalman", "ExtendedKalman"), "KalmanFilterEstimateCovarianceMut", "S", "P", "EstimateCovarianceMatrixMut"),
    (("ExtendedKalman",), "KalmanFilterDirectProcessNoiseCovariance", "S", "Q", "ProcessNoiseCovarianceMatrix"), (("ExtendedKalman",), "KalmanFilterDirectProcessNoiseMut", "S", "Q", "ProcessNoiseCovarianceMatrixMut"),
    (("ExtendedKalman",), "KalmanFilterNonlinearPredict", "S", "PX", "NextStateVector"),
    (("Control",), "KalmanFilterControlVector", "C", "U", "ControlVector"), (("Control",), "KalmanFilterControlVectorMut", "C", "U", "ControlVectorMut"),
    (("Control",), "KalmanFilterControlTransition", "SC", "B", "ControlTransitionMatrix"), (("Control",), "KalmanFilterControlTransitionMut", "SC", "B", "ControlTransitionMatrixMut"),
    (("Control",), "KalmanFilterControlProcessNoiseCovariance", "C", "QC", "ProcessNoiseCovarianceMatrix"), (("Control",), "KalmanFilterControlProcessNoiseMut", "C", "QC", "ProcessNoiseCovarianceMatrixMut"),
    (("RegularObservation", "ExtendedObservation"), "KalmanFilterMeasurementVector", "O", "Z", "MeasurementVector"), (("RegularObservation", "ExtendedObservation"), "KalmanFilterObservationVectorMut", "O", "Z", "MeasurementVectorMut"),
    (("RegularObservation",), "KalmanFilterObservationTransformation", "SO", "H", "ObservationTransformationMatrix"), (("RegularObservation",), "KalmanFilterObservationTransformationMut", "SO", "H", "ObservationTransformationMatrixMut"),
    (("ExtendedObservation",), "ExtendedKalmanFilterObservationTransformation", "SO", "H", "ObservationTransformationJacobianMatrix"), (("ExtendedObservation",), "ExtendedKalmanFilterObservationTransformationMut", "SO", "H", "ObservationTransformationJacobianMatrixMut"),
    (("RegularObservation", "ExtendedObservation"), "KalmanFilterMeasurementNoiseCovariance", "O", "R", "MeasurementNoiseCovarianceMatrix"), (("RegularObservation", "ExtendedObservation"), "KalmanFilterMeasurementNoiseCovarianceMut", "O", "R", "MeasurementNoiseCovarianceMatrixMut"),
    (("ExtendedObservation",), "KalmanFilterNonlinearObservationCorrectFilter", "SO", "Y", "ObservationVector"),
) for k in ks]


def own():
    """implementations of the crate's traits by the user's types"""
    out = []

    def mod(i, body):
        return "<const Z: usize>() { %s }" % body
    out.append(G("a storage of the user's own is a matrix", mod(0, OWN + "fn t<const R: usize, const C: usize, T: MatrixDataType>(a: &Own<R, C, T>, b: &Own<C, R, T>, c: &mut Own<R, R, T>) { a.mult(b, c); c.cholesky_decompose_lower(); c.set_zero(); let _: T = c.get(0, 0); }"), "matrix/traits.rs"))
    out.append(G("an element type of the user's own", mod(0, NUM + "fn t<M: MatrixMut<2, 2, Num>, N: MatrixMut<2, 2, Num>>(m: &mut M, n: &mut N) { m.mult(n, &mut MatrixData::new_array::<2, 2, 4, Num>([Num(0.0); 4])); m.cholesky_decompose_lower(); m.invert_l_cholesky(n); let _ = Num(0.0).recip(); }"), "matrix/data_type.rs"))
    out.append(G("buffers over storage of the user's own", mod(0, OWN + "fn t<T: MatrixDataType>(a: Own<3, 3, T>, x: Own<3, 1, T>, p: Own<3, 3, T>, q: Own<3, 3, T>, y: Own<3, 1, T>, tp: Own<3, 3, T>) { let mut f = RegularKalmanBuilder::new::<3, T>(StateTransitionMatrixBuffer::new(a), StateVectorBuffer::new(x), EstimateCovarianceMatrixBuffer::new(p), DirectProcessNoiseCovarianceMatrixBuffer::new(q), PredictedStateEstimateVectorBuffer::new(y), TemporaryStateMatrixBuffer::new(tp)); f.predict(); }"), "kalman/regular.rs"))
    # role types of the user's own
    body = OWN
    am = "impl<const R: usize, const C: usize, T> AsMatrix<R, C, T> for Own<R, C, T> { type Target = Own<R, C, T>; fn as_matrix(&self) -> &Self::Target { self } }\nimpl<const R: usize, const C: usize, T> AsMatrixMut<R, C, T> for Own<R, C, T> { type TargetMut = Own<R, C, T>; fn as_matrix_mut(&mut self) -> &mut Self::TargetMut { self } }\n"
    for r, (a, b) in ROLE.items():
        for t, mu in [(a, a == b), (b, True)] if a != b else [(a, True)]:
            n = t.split("<")[0]
            ds = [d.strip() for d in t[t.index("<") + 1:-1].split(",")][:-1]
            if n in VEC:
                out.append(G("%s of the user's own" % n, mod(0, OWN + am + "".join("impl<const %s: usize, T> %s<%s, T> for Own<%s, 1, T> {}\n" % (ds[0], x, ds[0], ds[0]) for x in dict.fromkeys([n[:-3] if n.endswith("Mut") else n, n]))), "kalman/matrix_types.rs"))
                continue
            sh = ", ".join(ds if len(ds) == 2 else ds * 2)
            one = "type Target = Own<%s, T>; fn as_matrix(&self) -> &Self::Target { self }" % sh
            two = "type TargetMut = Own<%s, T>; fn as_matrix_mut(&mut self) -> &mut Self::TargetMut { self }" % sh
            im = lambda x, items: "impl<%s, T> %s<%s, T> for Own<%s, T> { %s }\n" % (consts(ds), x, ", ".join(ds), sh, items)
            src = im(n, one + " " + two) if a == b else im(a.split("<")[0], one) + (im(n, two) if mu else "")
            out.append(G("%s of the user's own" % n, mod(0, OWN + src), "kalman/matrix_types.rs"))
    out.append(G("an observation of the user's own", "<const S: usize, T: MatrixDataType, %s>(f: &mut %s) { struct W; impl<const S: usize, T> KalmanFilterObservationCorrectFilter<S, T> for W { fn correct<X: StateVectorMut<S, T>, P: EstimateCovarianceMatrix<S, T>>(&mut self, x: &mut X, p: &mut P) {} } f.correct(&mut W); }" % (bounds(FR, ("X",)), obj("RegularKalman")), "kalman/filter_trait.rs"))
    out.append(G("a control of the user's own", "<const S: usize, T: MatrixDataType, %s>(f: &mut %s) { struct W; impl<const S: usize, T> KalmanFilterControlApplyToFilter<S, T> for W { fn apply_to<X: StateVectorMut<S, T>, P: EstimateCovarianceMatrix<S, T>>(&mut self, x: &mut X, p: &mut P) {} } f.control(&mut W); }" % (bounds(FR, ("X",)), obj("RegularKalman")), "kalman/filter_trait.rs"))
    # filters, controls and observations of the user's own
    acc = lambda tr, par, ty, at, fn_, mu: "impl<%%s> %s<%s, T> for W<%%s> { type %s = %s; fn %s(&%sself) -> &%sSelf::%s { todo!() } }\n" % (tr, par, ty, at, fn_, *(("mut ", "mut ") if mu else ("", "")), ty)
    num = lambda tr, par: "impl<%%s> %s<%s> for W<%%s> {}\n" % (tr, par)
    sv = acc("KalmanFilterStateVector", "S", "StateVector", "X", "state_vector", 0) + acc("KalmanFilterStateVectorMut", "S", "StateVectorMut", "X", "state_vector_mut", 1)
    cov = acc("KalmanFilterEstimateCovariance", "S", "EstimateCovarianceMatrix", "P", "estimate_covariance", 0) + acc("KalmanFilterEstimateCovarianceMut", "S", "EstimateCovarianceMatrixMut", "P", "estimate_covariance_mut", 1)
    zz = num("KalmanFilterNumStates", "S") + num("KalmanFilterNumObservations", "O") + acc("KalmanFilterMeasurementVector", "O", "MeasurementVector", "Z", "measurement_vector", 0) + acc("KalmanFilterObservationVectorMut", "O", "MeasurementVectorMut", "Z", "measurement_vector_mut", 1) \
        + acc("KalmanFilterMeasurementNoiseCovariance", "O", "MeasurementNoiseCovarianceMatrix", "R", "measurement_noise_covariance", 0) + acc("KalmanFilterMeasurementNoiseCovarianceMut", "O", "MeasurementNoiseCovarianceMatrixMut", "R", "measurement_noise_covariance_mut", 1)
    xp = "X0: StateVectorMut<S, T>, P0: EstimateCovarianceMatrix<S, T>"
    mine = [
        ("KalmanFilter", "S", "XAP", "X", num("KalmanFilterNumStates", "S") + sv + acc("KalmanFilterStateTransition", "S", "StateTransitionMatrix", "A", "state_transition", 0) + cov
         + "impl<%s> KalmanFilterPredict<S, T> for W<%s> { fn predict(&mut self) {} }\nimpl<%s> KalmanFilterApplyControl<S, T> for W<%s> { fn control<I: KalmanFilterControlApplyToFilter<S, T>>(&mut self, c: &mut I) {} }\nimpl<%s> KalmanFilterUpdate<S, T> for W<%s> { fn correct<M: KalmanFilterObservationCorrectFilter<S, T>>(&mut self, m: &mut M) {} }\n"),
        ("ExtendedKalmanFilter", "S", "XAP", "X", num("KalmanFilterNumStates", "S") + sv + acc("ExtendedKalmanFilterStateTransition", "S", "StateTransitionMatrix", "A", "state_transition_jacobian", 0) + cov
         + "impl<%s> KalmanFilterNonlinearPredict<S, T> for W<%s> { type NextStateVector = PX; fn predict_nonlinear<F: FnMut(&X, &mut Self::NextStateVector)>(&mut self, f: F) {} }\nimpl<%s> KalmanFilterNonlinearUpdate<S, T> for W<%s> { fn correct_nonlinear<M: KalmanFilterNonlinearObservationCorrectFilter<S, O, T>, F: FnMut(&X, &mut M::ObservationVector), const O: usize>(&mut self, m: &mut M, f: F) {} }\n"),
        ("KalmanFilterControl", "SC", "UBQC", "U QC", num("KalmanFilterNumStates", "S") + num("KalmanFilterNumControls", "C") + acc("KalmanFilterControlVector", "C", "ControlVector", "U", "control_vector", 0) + acc("KalmanFilterControlVectorMut", "C", "ControlVectorMut", "U", "control_vector_mut", 1)
         + acc("KalmanFilterControlTransition", "S, C", "ControlTransitionMatrix", "B", "control_matrix", 0) + acc("KalmanFilterControlProcessNoiseCovariance", "C", "ProcessNoiseCovarianceMatrix", "QC", "process_noise_covariance", 0) + acc("KalmanFilterControlProcessNoiseMut", "C", "ProcessNoiseCovarianceMatrixMut", "QC", "process_noise_covariance_mut", 1)
         + "impl<%%s> KalmanFilterControlApplyToFilter<S, T> for W<%%s> { fn apply_to<%s>(&mut self, x: &mut X0, p: &mut P0) {} }\n" % xp),
        ("KalmanFilterObservation", "SO", "ZHR", "Z", zz + acc("KalmanFilterObservationTransformation", "S, O", "ObservationTransformationMatrix", "H", "observation_matrix", 0)
         + "impl<%%s> KalmanFilterObservationCorrectFilter<S, T> for W<%%s> { fn correct<%s>(&mut self, x: &mut X0, p: &mut P0) {} }\n" % xp),
        ("ExtendedKalmanFilterObservation", "SO", "ZHR", "Z", zz + acc("ExtendedKalmanFilterObservationTransformation", "S, O", "ObservationTransformationJacobianMatrix", "H", "observation_jacobian_matrix", 0)
         + "impl<%%s> KalmanFilterNonlinearObservationCorrectFilter<S, O, T> for W<%%s> { type ObservationVector = Y; fn correct_nonlinear<%s, F: FnMut(&X0, &mut Self::ObservationVector)>(&mut self, x: &mut X0, p: &mut P0, f: F) {} }\n" % xp),
    ]
    for tr, ds, _, mut, src in mine:
        rs = {"KalmanFilter": ["X", "A", "P"], "ExtendedKalmanFilter": ["X", "A", "P", "PX"], "KalmanFilterControl": ["U", "B", "QC"], "KalmanFilterObservation": ["Z", "H", "R"], "ExtendedKalmanFilterObservation": ["Z", "H", "R", "Y"]}[tr]
        par, arg = "%s, T, %s" % (consts(ds), bounds(rs, mut.split())), "%s, T, %s" % (", ".join(ds), ", ".join(rs))
        decl = "struct W<%s, T, %s>(core::marker::PhantomData<T>, %s);\n" % (consts(ds), ", ".join(rs), ", ".join(rs))
        w = "fn w<%s>(f: &W<%s>) { fn t<%s, T, K0: %s<%s, T>>(_: &K0) {} t::<%s, T, _>(f) }" % (par, arg, consts(ds), tr, ", ".join(ds), ", ".join(ds))
        out.append(G("a %s of the user's own" % tr, mod(0, decl + src.replace("<%s>", "<\0>").replace("impl<\0>", "impl<%s>" % par).replace("W<\0>", "W<%s>" % arg) + w), "kalman/filter_trait.rs"))
    return out


def builders(feats):
    if "alloc" not in feats:
        return []
    out = []
    T = "T: MatrixDataType + Default"
    for m, k in (("regular", "RegularKalman"), ("extended", "ExtendedKalman")):
        e = ""
        B = "minikalman::%s::builder::%sKalmanFilterBuilder" % (m, e)
        out.append(G("%s builders for any element type" % m, "<const S: usize, const O: usize, %s>() { let b = %s::<S, T>::default(); let f: minikalman::%s::builder::%sKalmanFilterType<S, T> = b.build(); let o: minikalman::%s::builder::%sKalmanFilterObservationType<S, O, T> = b.observations().build::<O>(); }" % (T, B, m, e, m, e), "kalman_builder/%s.rs" % m))
    out.append(G("control builder for any element type", "<const S: usize, const C: usize, %s>() { let b = minikalman::regular::builder::KalmanFilterBuilder::<S, T>::new(); let c: minikalman::regular::builder::KalmanFilterControlType<S, C, T> = b.controls().build::<C>(); }" % T, "kalman_builder/regular.rs"))
    return out


def programs(feats):
    return kernels() + containers(feats) + buffers() + filters() + own() + builders(feats)


LIM = "no constant of the crate refuses a dimension (compile-time assertions hold for every dimension)"


def check_consts(prog):
    """compile-time assertions on dimensions: one that fails for some dimension, whatever the others are, bounds it"""
    from .storage import Fn
    from .safety import big_consts
    out, n = [], 0
    for b in prog.d["bodies"]:
        if "Const" not in b["kind"] or not b.get("body") or not any(k == "const" for k, _ in b["gen"]):
            continue
        n += 1
        nm = b["path"].replace("minikalman::", "")
        try:
            f = Fn(prog, b)
            f.run()
        except Undecided as e:
            out.append(Goal("constant %s" % nm, UNDECIDED, short(b["span"]), str(e), LIM))
            continue
        for o in f.I.obl:
            g, cs = f.I.norm(o["goal"]), [f.I.norm(c) for c in o["conds"]]
            w = refuses(f.pos, g, cs, big_consts(g, *cs))
            out.append(Goal("constant %s: %s" % (nm, o["kind"][:60]), VIOLATED if w else HOLDS, short(o["span"]), "asserts %s, which refuses %s" % (show(g)[:150], w) if w else show(g)[:150], LIM))
    out.append(Goal("constants", HOLDS, "minikalman", "%d constants depend on dimensions" % n, LIM))
    return out


def refuses(names, g, cs, bounds):
    for p in names:
        for v in sorted({2, 3, 33, 257, 65537} | {x for c in bounds for x in (c, c + 1)}):
            rest = [q for q in names if q != p]
            ok = False
            for ws in product((1, 2, 3, v, v * v, 2 * v, 3 * v), repeat=len(rest)):
                m = {p: P(v), **{q: P(w) for q, w in zip(rest, ws)}}
                if subst(g, m) != F or any(subst(c, m) != TRUE for c in cs):
                    ok = True
                    break
            if not ok:
                return "%s = %d" % (p, v)
    return None


def check_generic(cfgs):
    out = []
    for c in cfgs:
        try:
            build.dump(c)
        except build.BuildError:
            out.append(Goal("programs", UNDECIDED, c, "configuration does not build", RULE))
            continue
        from .prog import Prog
        feats = set(Prog(build.dump(c)).d["features"])
        ps = programs(feats)
        src, lines = HEAD, []
        for i, p in enumerate(ps):
            a = src.count("\n") + 1
            src += "pub fn w%d%s\n" % (i, p.src)
            lines.append((a, src.count("\n")))
        ok, err = build.rustc(c, src, "mkgen")
        hit = {}
        if not ok:
            for m in re.finditer(r"^[^\n]*?mkgen\.rs:(\d+):\d+: error(\[E\d+\])?:([^\n]*)", err, re.M):
                for i, (a, b) in enumerate(lines):
                    if a <= int(m.group(1)) <= b:
                        hit.setdefault(i, (m.group(2) or "") + m.group(3))
            # one error can hide those of later compiler phases: every other program alone
            rest = [i for i in range(len(ps)) if i not in hit]
            lone = HEAD + "".join("pub fn w%d%s\n" % (i, ps[i].src) for i in rest)
            if hit and build.rustc(c, lone, "mkgen_rest")[0]:
                rest = []
            with ThreadPoolExecutor(8) as ex:
                for i, (k, e) in zip(rest, ex.map(lambda i: build.rustc(c, HEAD + "pub fn w%d%s\n" % (i, ps[i].src), "mkgen_%d" % i), rest)):
                    if not k:
                        hit[i] = first_error(e)
        for i, p in enumerate(ps):
            g = Goal(p.key, VIOLATED if i in hit else HOLDS, p.where, "rejected: %s; program: fn w%s" % (hit[i].strip()[:300], p.src[-400:]) if i in hit else "accepted", RULE)
            g.config = c
            out.append(g)
    return out
