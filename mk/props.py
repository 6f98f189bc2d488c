"""Which analyses decide which property."""
from . import kernels as K
from . import steps as S
from . import storage as St
from . import builders as Bu
from . import macros as Ma
from . import safety as Sa
from . import unsafety as Un
from . import nalg as Na
from . import types as Ty
from . import backend as Be
from . import access as Ac
from . import noalloc as No
from . import features as Fe
from . import generic as Ge
from . import stack as Sk
from . import cost as Co
from .cfgs import more

QUICK = ["full", "libm", "fixed", "release", "no_assert"]


GROUP = {"cholesky": {"cholesky_decompose_lower"}, "inverse": {"invert_l_cholesky"}}


def completes(groups=(), names=(), kinds=()):
    """an operation that aborts or never returns does not compute its result"""
    def f(prog):
        ms = set(names)
        for g in groups:
            ms |= set(K.GROUPS.get(g, ())) | GROUP.get(g, set())
        out = Sa.check_kernels(prog, ms) if ms else []
        if kinds:
            out += Sa.check_steps(prog, kinds)
        return Sa.aborts(out)
    return f


def grp(*gs):
    def f(prog):
        out = []
        for g in gs:
            if g == "cholesky":
                out += K.check_cholesky(prog)
            elif g == "inverse":
                out += K.check_inverse(prog)
            else:
                out += K.check_group(prog, g)
        return out
    return f


def methods(*names):
    def f(prog):
        out = []
        for (t, m) in K.SPECS:
            if m in names:
                out += K.check_method(prog, t, m)
        return out
    return f


def steps(kinds, what=("spec", "frame", "fresh"), only=None):
    def f(prog):
        out = []
        for k in kinds:
            out += S.check_step(prog, k, what, only)
        return out
    return f


def reject(prog):
    return St.check_reject(prog, {"no_assert": set(), "release": {"owned"}}.get(prog.cfgname, {"slice", "owned"}))


STO = ("Every function of the crate's storage types (enumerated from the type-checked program, not from a list) is interpreted symbolically on an arbitrary "
       "value of its type; the storage the result denotes (array, offset, length) is compared with the storage of the argument.")
MAC = ("Every exported buffer macro is expanded in a generated crate that is type-checked against the current library, in every binding form; the expansion's MIR is "
       "interpreted: size macros over symbolic dimensions, declarations at distinct-prime dimension triples (type, shape, storage length, every element, role trait).")
NAL = ("The crate's implementations of nalgebra's raw storage traits are interpreted symbolically on an arbitrary value of the container: base pointer, shape, strides, "
       "linear offsets and slices are compared with the container's row-major storage, for all dimensions.")
SAF = ("Every panic condition, bounds check, unsigned subtraction, slice range, copy length and assertion met while interpreting the MIR of the matrix operations and filter steps becomes an obligation; "
       "it is discharged by linear arithmetic (with products of dimensions) from the entry facts, the path condition and the ranges of the enclosing loop counters. A function with no returning path, or recursion without end, is a violation.")
UNS = ("Every unsafe block, function and impl of the crate is enumerated from the compiler's own unsafety check. In configurations without the feature `unsafe` there may be none; otherwise each unchecked access "
       "must be proved in bounds for arbitrary storage handed in through safe code, by interpretation of the enclosing function and its safe callers.")
A_ST = ["const-generic dimensions and slice lengths are arbitrary (zero included for shape queries and size checks)", "user-supplied matrix types implement as_slice/as_mut_slice as two views of the same row-major storage",
        "summaries of core conversions (Into, From, AsRef, Index, Box)"]
DIM = ("Pairs of witness programs that differ in one dimension, element type, role or mutability are type-checked against the current library: the well-typed twin must be accepted and the other rejected. "
       "Every dimension of every operand of every matrix operation, builder argument, container wrapper and filter step is varied.")
RDO = ("The read-only buffers and containers are found in the type-checked program (types with a mutable sibling); their impl lists, methods and fields are searched for mutable access, and generated programs that ask for it "
       "must be rejected while the same program over the mutable sibling is accepted.")
SHA = ("Statics, fields of all types and all calls of the type-checked crate are searched for shared or interior-mutable state; generated programs require the filters to be Send and Sync when their storage is.")
BAK = ("The MIR of every element type's reciprocal and square root (and the trait's default) is interpreted with the backends' functions (std, libm, micromath, fixed) as named operations; the closed form is compared with the exact operation.")
ACC = ("The MIR of every constructor, accessor and visitor of filters, controls, observations and matrices is interpreted symbolically on an arbitrary object: which component is returned, under which condition, and what was changed.")
HEA = ("A call graph over the type-checked crate (trait calls resolved to every local implementation) is searched from every filter step, matrix operation, accessor and borrowing conversion for callees in alloc or std that allocate or use services; the linked crates are listed for no_std configurations.")
FEA = ("Every combination of the crate's features (read from its manifest, 256 of them) is type-checked; public items, signatures and trait implementations of smaller configurations are looked up in larger ones.")
SPECX = ("spec",)
PRED = ("mult", "mult_transb", "add_inplace_b", "mult_rowvector", "copy_to")
ABS = ("Abstract interpretation of the MIR of every implementation of the operation: values are normal forms over the function's inputs "
       "(gated value numbering, polynomial normal form), loops are summarised by closed forms of their counters and parametric write maps; the "
       "result is compared with the defining equation as a normal form. All sizes, contents and paths are symbolic; nothing is executed.")
STEP = ("The step's MIR is interpreted over the free algebra of matrices: matrix kernels are replaced by their contracts (themselves decided element by "
        "element in the same run), matrices are roles found through the trait bounds of the type parameters, user functions are uninterpreted. "
        "The final contents of the state and covariance are compared with the defining equation as normal forms, for every entry point.")
A_EX = ["exact arithmetic: element type operations are those of a commutative ring with uninterpreted reciprocal and square root; rounding and evaluation order are outside the property",
        "const-generic dimensions are at least 1", "user-supplied matrix types implement as_slice/as_mut_slice as two views of the same row-major storage"]

GEN = ("Programs generic over element type, storage, role types and dimensions, with the documented traits as their only bounds, and programs implementing the crate's traits for types of their own, are type-checked against the current library; "
       "every constant of the crate that depends on dimensions is interpreted and its assertions searched for a dimension they refuse.")

COST = "Every body is summarised symbolically; the trip count of every loop (and the length given to every library operation on slices) is a term in the dimensions, whose order, multiplied along the nesting, must not exceed the order of the operation; counts that read contents, or loops all of whose exits test contents, are violations."
STK = ("Every function of the type-checked crate reachable from a filter step, matrix operation or accessor (trait calls resolved to every local implementation) is examined: the types of its locals for arrays of symbolic length and values that contain storage, "
       "the call graph for cycles other than those bounded by the nesting of the storage's own type.")

PROPS = {
    "P01": dict(title="", analyses=[("step", steps(["predict"], SPECX), True), ("kernels", methods(*PRED), False), ("completes", completes(names=PRED, kinds=["predict"]), False)], technique="abstract interpretation of MIR, matrix normal forms", explanation=STEP, assumptions=A_EX, floor=4),
    "P02": dict(analyses=[("step", steps(["predict_tuned"], SPECX), True), ("kernels", methods(*PRED, "multscale_transb"), False), ("element type", Be.check_backend, False), ("completes", completes(names=PRED + ("multscale_transb",), kinds=["predict_tuned"]), False)], technique="abstract interpretation of MIR, matrix normal forms", explanation=STEP, assumptions=A_EX, floor=2),
    "P03": dict(analyses=[("step", steps(["predict_nonlinear", "predict_tuned_nonlinear"], SPECX), True), ("kernels", methods(*PRED, "multscale_transb"), False), ("element type", Be.check_backend, False), ("completes", completes(names=PRED + ("multscale_transb",), kinds=["predict_nonlinear", "predict_tuned_nonlinear"]), False)], technique="abstract interpretation of MIR, matrix normal forms", explanation=STEP, assumptions=A_EX, floor=9),
    "P04": dict(analyses=[("step", steps(["control", "control_delegate"], SPECX), True), ("kernels", methods("mult", "multadd_rowvector", "multadd_transb"), False), ("completes", completes(names=("mult", "multadd_rowvector", "multadd_transb"), kinds=["control", "control_delegate"]), False)], technique="abstract interpretation of MIR, matrix normal forms", explanation=STEP, assumptions=A_EX, floor=8),
    "P05": dict(analyses=[("step", steps(["correct", "correct_delegate"], SPECX), True), ("kernels", methods("mult", "mult_transb", "mult_rowvector", "multadd_rowvector", "sub_inplace_a", "sub_inplace_b", "add_inplace_a"), False), ("inversion", grp("cholesky", "inverse"), False), ("element type", Be.check_backend, False), ("completes", completes(["cholesky", "inverse"], ("mult", "mult_transb", "mult_rowvector", "multadd_rowvector", "sub_inplace_a", "sub_inplace_b", "add_inplace_a"), ["correct", "correct_delegate"]), False)], technique="abstract interpretation of MIR, matrix normal forms", explanation=STEP, assumptions=A_EX, floor=8),
    "P06": dict(analyses=[("step", steps(["correct_nonlinear", "correct_nl_delegate"], SPECX), True), ("kernels", methods("mult", "mult_transb", "multadd_rowvector", "sub_inplace_a", "sub_inplace_b", "add_inplace_a"), False), ("inversion", grp("cholesky", "inverse"), False), ("element type", Be.check_backend, False), ("completes", completes(["cholesky", "inverse"], ("mult", "mult_transb", "multadd_rowvector", "sub_inplace_a", "sub_inplace_b", "add_inplace_a"), ["correct_nonlinear", "correct_nl_delegate"]), False)], technique="abstract interpretation of MIR, matrix normal forms", explanation=STEP, assumptions=A_EX, floor=10),
    "P07": dict(analyses=[("step", steps(list(S.STEPS), ("frame",)), True), ("kernels", K.check_frames, False)], technique="abstract interpretation of MIR, frame condition", explanation=STEP, assumptions=A_EX, floor=40),
    "P08": dict(analyses=[("step", steps(list(S.STEPS), ("fresh",)), True), ("kernels", K.check_fresh, False)], technique="abstract interpretation of MIR, dependence on initial scratch contents", explanation=STEP, assumptions=A_EX, floor=36),
    "P09": dict(analyses=[("dispatch", S.check_dispatch, True)], technique="abstract interpretation of MIR, sibling cross-check", explanation=STEP, assumptions=A_EX, floor=7),
    "P10": dict(analyses=[("kernels", grp("products"), True), ("completes", completes(["products"]), False)], technique="abstract interpretation of MIR, element-level closed forms", explanation=ABS, assumptions=A_EX, floor=15),
    "P11": dict(analyses=[("kernels", grp("elementwise"), True), ("completes", completes(["elementwise"]), False)], technique="abstract interpretation of MIR, element-level closed forms", explanation=ABS, assumptions=A_EX, floor=10),
    "P12": dict(analyses=[("kernels", grp("access"), True), ("completes", completes(["access"]), False)], technique="abstract interpretation of MIR, element-level closed forms", explanation=ABS, assumptions=A_EX, floor=30),
    "P13": dict(analyses=[("kernels", grp("cholesky"), True), ("element type", Be.check_backend, False), ("completes", completes(["cholesky"]), False)], technique="abstract interpretation of MIR, recurrence matching", explanation=ABS, assumptions=A_EX, floor=4),
    "P14": dict(analyses=[("kernels", grp("inverse"), True), ("element type", Be.check_backend, False), ("completes", completes(["inverse"]), False)], technique="abstract interpretation of MIR, recurrence matching", explanation=ABS, assumptions=A_EX, floor=5),
    "P15": dict(analyses=[("shape", St.check_shape, True)], technique="abstract interpretation of MIR, shape queries against the type's dimensions", explanation=STO, assumptions=A_ST, floor={"*": 78, "core": 70, "std": 78, "fixed": 78}),
    "P16": dict(analyses=[("views", St.check_views, True)], technique="abstract interpretation of MIR, view and storage identity", explanation=STO, assumptions=A_ST, floor={"*": 260, "core": 220}),
    "P17": dict(analyses=[("reject", reject, True)], technique="abstract interpretation of MIR, path conditions of panics", explanation=STO, assumptions=A_ST, floor={"*": 85, "core": 60}),
    "P20": dict(analyses=[("builders", Bu.check_builders, True)], technique="abstract interpretation of MIR, buffer sizes and contents of built objects", explanation=STO, assumptions=A_ST, floor={"*": 150, "core": 85}),
    "P21": dict(analyses=[], whole=[("macros", lambda tier: sum((Ma.check_macros(c) for c in (["full", "core"] if tier != "thorough" else ["full", "core", "libm", "no_assert", "fixed"])), []), )], technique="type-checked expansions in witness crates, abstract interpretation of their MIR", explanation=MAC, assumptions=A_ST[:0] + ["summaries of core array repetition", "declared shapes of impl_buffer_* are examined at four dimension triples (distinct primes in two orders, and the extremes with 1); size_buffer_* for symbolic dimensions"], floor=1),
    "P22": dict(extra=dict(need=("nalgebra", "unsafe")), analyses=[("nalgebra", Na.check_nalgebra, True)], configs=["full", "nalgebra"], technique="abstract interpretation of MIR, storage and stride identity", explanation=NAL, assumptions=A_ST[:1] + ["nalgebra reads a RawStorage only through the functions of that trait and of IsContiguous"], floor=10),
    "P25": dict(analyses=[("kernels", Sa.check_kernels, True), ("steps", Sa.check_steps, True)], technique="abstract interpretation of MIR, linear discharge of panic obligations", explanation=SAF, assumptions=["const-generic dimensions are at least 1", "buffers hold at least the number of elements of their declared shape (enforced at construction, P17), the documented exact length where one is stated", "indices passed to element access are inside the matrix", "user functions and element type operations return"], floor=40),
    "P27": dict(analyses=[("unsafe", Un.check_unsafe, True)], configs=["full", "libm", "fixed", "release", "no_assert", "nrelease"], technique="effect analysis of unsafe code with interval and linear obligations over MIR", explanation=UNS, assumptions=["rustc's reporting of unsafe blocks, functions and impls", "user-supplied matrix types may return any slice, of any length, from as_slice/as_mut_slice"], floor=1),
    "P18": dict(analyses=[("readonly", Ty.check_readonly, True)], whole=[("witnesses", lambda tier: Ty.check_readonly_w(more(["full", "core"] if tier != "thorough" else ["full", "core", "libm", "no_assert", "fixed"])))], configs=["full", "libm", "core"], technique="type-checked witness programs, query over the typed program", explanation=RDO, assumptions=["user-supplied matrix types do not implement interior mutability"], floor=7),
    "P19": dict(analyses=[], whole=[("witnesses", lambda tier: Ty.check_dims(more(["full", "core"] if tier != "thorough" else ["full", "core", "libm", "no_assert", "fixed"])))], technique="compile-fail witness programs with accepted twins", explanation=DIM, assumptions=["one representative of each mismatch: dimensions 2, 3, 5, 7 stand for all (const generics are compared by the compiler for identity)"], floor=1),
    "P23": dict(analyses=[("heap", No.check_noalloc, True)], configs=["full", "libm", "core", "fixed", "nalgebra", "micromath", "release", "nostd"], technique="call-graph reachability over the typed program", explanation=HEA, assumptions=["num-traits, libm, micromath and fixed operations do not allocate", "user functions and user-supplied element and matrix types are outside the claim"], floor=400),
    "P24": dict(analyses=[], whole=[("combinations", Fe.check_combos), ("additive", Fe.check_additive)], technique="exhaustive type-checking of feature combinations, interface comparison", explanation=FEA, assumptions=["host target; the toolchain installed here"], floor=1),
    "P26": dict(extra=dict(skip=()), analyses=[("element type", Be.check_backend, True)], configs=["full", "libm", "fixed", "micromath", "both", "all", "core"], technique="abstract interpretation of MIR, closed forms over backend operations", explanation=BAK, assumptions=["std, libm and fixed implement reciprocal and square root exactly up to rounding; micromath approximates"], floor={"*": 5, "full": 9, "all": 9, "fixed": 9}),
    "P28": dict(analyses=[("state", Ty.check_shared, True)], whole=[("witnesses", lambda tier: Ty.check_shared_w(more(["full", "core"] if tier != "thorough" else ["full", "core", "libm", "no_assert", "fixed"])))], technique="query over the typed program, type-checked witness programs", explanation=SHA, assumptions=["user-supplied storage shares nothing itself"], floor=1),
    "P29": dict(analyses=[("access", Ac.check_access, True)], technique="abstract interpretation of MIR, effects and results of accessors", explanation=ACC, assumptions=A_ST[:1], floor=70),
    "P30": dict(analyses=[("constants", Ge.check_consts, True)], whole=[("programs", lambda tier: Ge.check_generic(more(["full", "core", "fixed"] if tier != "thorough" else ["full", "core", "fixed", "libm", "no_assert", "std", "nostd", "micromath", "nalgebra"])))], technique="type-checked generic witness programs, interpretation of compile-time assertions", explanation=GEN, assumptions=["the bounds written in the generated programs are the crate's documented ones"], floor=1),
    "P31": dict(analyses=[("frames", Sk.check_stack, True)], configs=["full", "libm", "core", "fixed", "nalgebra", "micromath", "release", "no_assert"], technique="types of locals and call-graph cycles over the typed program", explanation=STK, assumptions=["core's functions use constant stack", "user functions and user-supplied element and matrix types are outside the claim"], floor=350),
    "P32": dict(analyses=[("kernels", Co.check_kernels, True), ("steps", Co.check_steps, True), ("accessors", Co.check_accessors, True), ("element operations", Co.check_elements, True)], technique="order of growth of the closed-form trip counts of nested loops, from the symbolic summaries of the typed bodies", explanation=COST, assumptions=["core's slice and iterator operations are linear in their lengths", "user functions and user-supplied element and matrix types are outside the claim"], floor=300),
}
