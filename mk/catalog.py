"""Texts of the properties; `python3 -m mk.catalog` rewrites properties.jsonl and MANIFEST.json."""
import json
import os

SRC = "crates/minikalman/src/"


def P(id, title, statement, over, text, why, files, mech, note, level="other", tech=None, na=None, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level, tech=tech, na=na, state=state, observe=observe)


STEP_WHY = "The tests run a few fixed scenarios with 1-3 states and hand-picked (mostly diagonal, symmetric or sparse) matrices, where a swapped operand, a missing transpose or a stale buffer often gives the same numbers; the claim is for all matrices, dimensions and entry points."
KER_WHY = "Unit tests multiply a handful of 2x2 to 3x3 constants; the claim is for every shape and every content, including non-square, non-symmetric and oversized buffers."
STEP_NOTE = "Sound for exact arithmetic up to the engine and its summaries of core functions; every entry point's MIR (inherent, trait) in each analysed feature configuration is interpreted symbolically over all dimensions and contents. Rounding is outside. Code shapes the engine cannot follow are reported UNDECIDED (none on this tree)."
KER_NOTE = "Element-level closed forms for all dimensions and contents under exact arithmetic, for the default body and every override, in each analysed feature configuration. Code shapes the engine cannot summarise are reported UNDECIDED (none on this tree)."
STO_NOTE = "Every function of the crate's own storage and builder types, found in the type-checked program, is interpreted symbolically for all dimensions and lengths in each analysed feature configuration. Code shapes the engine cannot follow are reported UNDECIDED (none on this tree)."
INP = ["inputs", "configurations"]

CATALOG = [
    P("P01", "Linear prediction computes x := A x and P := A P A' + Q",
      "For every filter and all contents, after a linear prediction the state vector equals A x of the old state and the estimate covariance equals A P A' + Q of the old covariance, through the inherent method and the generic prediction trait alike.",
      INP, "all state counts of at least one, all contents of A, x, P, Q and of scratch buffers, every feature configuration, exact arithmetic", STEP_WHY,
      [SRC + "kalman/regular.rs", SRC + "matrix/traits.rs"],
      [dict(name="prediction step", where="RegularKalman::predict"), dict(name="state and covariance update", where="predict_x, predict_P"), dict(name="generic entry", where="KalmanFilterPredict for RegularKalman")],
      STEP_NOTE, state=[dict(name="x, P", meaning="state estimate and its covariance")]),
    P("P02", "Tuned linear prediction inflates the propagated covariance by 1/lambda^2",
      "For every filter, all contents and every nonzero tuning factor lambda, tuned prediction sets the state to A x and the covariance to A P A' / lambda^2 + Q; with lambda = 1 this is exactly the untuned prediction.",
      INP, "all state counts of at least one, all contents, all nonzero lambda, exact arithmetic", STEP_WHY + " Tuned prediction is exercised with one lambda only.",
      [SRC + "kalman/regular.rs"], [dict(name="tuned prediction", where="RegularKalman::predict_tuned, predict_P_tuned")], STEP_NOTE),
    P("P03", "Nonlinear prediction uses the user function on the old state and the Jacobian",
      "In an extended filter, (tuned) nonlinear prediction calls the user's transition function exactly once with the unmodified old state, makes what the function wrote the new state, and sets the covariance to F P F' + Q (with tuning: F P F' / lambda^2 + Q) for the stored Jacobian F.",
      ["inputs", "programs", "configurations"], "all state counts of at least one, all contents, every user function (uninterpreted), all nonzero lambda, exact arithmetic", STEP_WHY,
      [SRC + "kalman/extended.rs"], [dict(name="nonlinear prediction", where="ExtendedKalman::predict_nonlinear, predict_tuned_nonlinear"), dict(name="generic entry", where="KalmanFilterNonlinearPredict for ExtendedKalman")], STEP_NOTE),
    P("P04", "Applying a control input computes x := x + B u and P := P + B Q B'",
      "For every filter and control input and all contents, applying the control adds B u to the state and B Q B' to the estimate covariance, for the control's own method and for the filter's inherent and generic entry points, which apply it exactly once to that filter's state and covariance.",
      INP, "all state and control counts of at least one, all contents, exact arithmetic", STEP_WHY,
      [SRC + "controls.rs", SRC + "kalman/regular.rs"], [dict(name="control application", where="Control::apply_control"), dict(name="filter entry", where="RegularKalman::control")], STEP_NOTE),
    P("P05", "Linear correction performs the Kalman measurement update",
      "For every filter and linear observation whose innovation covariance S = H P H' + R is positive definite, correction sets K = P H' S^-1, the state to x + K (z - H x) and the covariance to P - K H P, with z - H x, H P and S all formed from the old state and covariance, through every entry point.",
      INP, "all state and observation counts of at least one, all contents with S positive definite, exact arithmetic", STEP_WHY,
      [SRC + "observations/regular.rs", SRC + "kalman/regular.rs", SRC + "matrix/traits.rs"], [dict(name="measurement update", where="RegularObservation::correct"), dict(name="filter entry", where="RegularKalman::correct"), dict(name="innovation inversion", where="cholesky_decompose_lower, invert_l_cholesky")], STEP_NOTE),
    P("P06", "Nonlinear correction updates with the user's predicted observation",
      "For every extended filter and observation with positive definite S = H P H' + R, correction calls the user's observation function exactly once with the unmodified old state, sets the innovation to z minus what it produced, and then updates state and covariance with K = P H' S^-1 exactly as a linear correction with Jacobian H would, through every entry point.",
      ["inputs", "programs", "configurations"], "all state and observation counts of at least one, all contents with S positive definite, every user function (uninterpreted), exact arithmetic", STEP_WHY,
      [SRC + "observations/extended.rs", SRC + "kalman/extended.rs"], [dict(name="measurement update", where="ExtendedObservation::correct_nonlinear"), dict(name="filter entry", where="ExtendedKalman::correct_nonlinear")], STEP_NOTE),
    P("P07", "Filter steps leave model matrices and measurements unchanged",
      "No prediction, control or correction step modifies the matrices that describe the model or the inputs (A or F, Q, B, u, control Q, H, R, z); only the state, the covariance, the innovation, innovation covariance and gain outputs and scratch buffers may change. Likewise a matrix operation changes nothing but its designated outputs.",
      ["inputs", "histories", "configurations"], "all contents and dimensions of at least one; every step of every filter, so every history of steps", "Tests look at x and P after a step and re-set the model before each scenario; an overwritten H or Q shows only in later steps of a long history.",
      [SRC + "kalman/regular.rs", SRC + "kalman/extended.rs", SRC + "controls.rs", SRC + "observations/regular.rs", SRC + "observations/extended.rs", SRC + "matrix/traits.rs"],
      [dict(name="steps", where="predict*, control, apply_control, correct*"), dict(name="kernels", where="Matrix, MatrixMut, SquareMatrix methods")], STEP_NOTE),
    P("P08", "Results do not depend on what scratch and output buffers held before",
      "The outcome of every prediction, control and correction step is a function of the state, the covariance and the model and input matrices only: whatever the temporary buffers and the pure output buffers (innovation, innovation covariance, gain) held before makes no difference.",
      ["inputs", "histories", "configurations"], "all initial contents of scratch and output buffers, all dimensions of at least one, every step; hence every history of steps and shared scratch memory", "Tests start with zeroed scratch and rarely reuse an observation with different sizes or inputs; stale scratch shows only for particular histories.",
      [SRC + "kalman/regular.rs", SRC + "kalman/extended.rs", SRC + "controls.rs", SRC + "observations/regular.rs", SRC + "observations/extended.rs", SRC + "matrix/traits.rs"],
      [dict(name="steps", where="predict*, control, apply_control, correct*"), dict(name="overwriting kernels", where="mult*, sub, copy*")], STEP_NOTE),
    P("P09", "Generic trait entry points do exactly what the inherent methods do",
      "Predicting, controlling and correcting through the generic filter traits calls the same computation once, with the same arguments, the same state and covariance and no additional effect, as calling the filter's own method.",
      INP, "all filters, controls, observations and contents", "The generic traits are exercised by type-checking helpers, not by comparing results.",
      [SRC + "kalman/regular.rs", SRC + "kalman/extended.rs", SRC + "controls.rs", SRC + "observations/regular.rs", SRC + "observations/extended.rs", SRC + "kalman/filter_trait.rs"],
      [dict(name="trait impls", where="KalmanFilterPredict, KalmanFilterNonlinearPredict, KalmanFilterUpdate, KalmanFilterNonlinearUpdate, KalmanFilterApplyControl, KalmanFilter*CorrectFilter, KalmanFilterControlApplyToFilter")], STEP_NOTE),
    P("P10", "Matrix products equal their textbook definitions for all shapes",
      "For all shapes and contents, every matrix product operation (plain, buffered, vector, accumulating vector, transposed-right, accumulating transposed-right, scaled transposed-right) stores in each output element exactly the defining sum (plus the old element for accumulating forms, times the factor for the scaled form).",
      INP, "all shapes with dimensions of at least one, all contents, buffers at least as large as needed, exact arithmetic", KER_WHY,
      [SRC + "matrix/traits.rs"], [dict(name="products", where="Matrix::mult, mult_buffered, mult_rowvector, multadd_rowvector, mult_transb, multadd_transb, multscale_transb")], KER_NOTE),
    P("P11", "Elementwise matrix operations and copies act on every element, as named",
      "For all shapes and contents, addition, subtraction (out of place and in place on either operand, with the operand order their documentation gives), whole-matrix copies, and row and column extraction write exactly the defined value to every element of the result.",
      INP, "all shapes with dimensions of at least one, all contents, all valid row and column indices, exact arithmetic", KER_WHY,
      [SRC + "matrix/traits.rs"], [dict(name="elementwise", where="Matrix::sub, add_inplace_b, sub_inplace_b, copy, copy_to, copy_from, get_row_copy, get_column_copy; MatrixMut::add_inplace_a, sub_inplace_a")], KER_NOTE),
    P("P12", "Element access and fills touch exactly the addressed elements",
      "For all shapes and valid indices, reading element (row, column) returns that element of the row-major matrix, writing it (symmetrically: it and its mirror) changes exactly that element (those two), and fill operations (constant, zero, identity, scalar, diagonal/off-diagonal, diagonal only) give every element the defined value.",
      INP, "all shapes with dimensions of at least one, all valid indices and values, all contents", KER_WHY,
      [SRC + "matrix/traits.rs", SRC + "matrix/row_major.rs", SRC + "matrix/data"], [dict(name="accessors", where="Matrix::get, MatrixMut::set, set_symmetric, RowMajorSequentialData::get_at, RowMajorSequentialDataMut::set_at, Scalar, RowVector, ColumnVector and Mut variants"), dict(name="fills", where="MatrixMut::set_all, clear, set_zero; SquareMatrixMut::make_*")], KER_NOTE),
    P("P13", "Cholesky decomposition yields the lower factor and detects non-positive pivots",
      "For every symmetric matrix, in-place decomposition either leaves the lower-triangular factor L with L L' equal to the input, its strictly upper triangle zeroed, and returns true, or returns false exactly when some pivot of that recurrence is not positive.",
      INP, "all sizes of at least one, all contents, exact arithmetic with exact square roots", "Tests decompose three or four fixed small matrices, all positive definite but one.",
      [SRC + "matrix/traits.rs"], [dict(name="decomposition", where="MatrixMut::cholesky_decompose_lower")], KER_NOTE),
    P("P14", "Inversion from a Cholesky factor yields the full symmetric inverse",
      "For every lower-triangular factor L with positive diagonal, the inversion writes the inverse of L L' into every element of its output, both triangles, without using the upper triangle of L or the previous contents of the output, and leaves L unchanged.",
      INP, "all sizes of at least one, all factors with positive diagonal, all previous output contents, exact arithmetic", "Tests invert a few fixed factors of size at most 3.",
      [SRC + "matrix/traits.rs"], [dict(name="inversion", where="SquareMatrix::invert_l_cholesky")], KER_NOTE),
    P("P15", "Shape queries agree with a matrix's declared dimensions",
      "For every matrix container and buffer type and all dimensions, the reported number of rows, columns, states, controls and measurements, length and emptiness agree with the dimensions in the type and with the storage: length is rows times columns, a buffer is valid exactly if its storage holds at least that many elements, empty exactly if that product is zero.",
      INP, "all dimensions (zero included), all storage lengths, every container and buffer type, every feature configuration", "Tests query a few instances, mostly square ones, where rows and columns cannot be told apart.",
      [SRC + "matrix/traits.rs", SRC + "matrix/data", SRC + "buffers/types", SRC + "kalman", SRC + "controls.rs"],
      [dict(name="shape of matrices", where="Matrix::rows, cols, len, is_empty, buffer_len, is_valid"), dict(name="counts", where="states(), controls(), measurements() of filters, controls and observations")], STO_NOTE),
    P("P16", "All views, conversions and accessors of a container denote the same storage",
      "For every matrix container and buffer type, every accessor, borrow, dereference, index, conversion, constructor and unwrapping operation yields exactly the elements of the storage it was given or wraps, in the same order, without copying away, dropping or altering any element, and mutable and shared views of one object alias each other.",
      INP, "all dimensions and storage lengths, all contents, every container and buffer type, every feature configuration", "There are some three hundred trivial forwarding functions; tests use a fraction of them, mostly on constant-filled buffers where a wrong element goes unnoticed.",
      [SRC + "matrix/data", SRC + "matrix/traits.rs", SRC + "buffers/types"],
      [dict(name="containers", where="MatrixData*: as_slice, as_mut_slice, as_ref, as_mut, index, into, into_inner, new*"), dict(name="buffers", where="25 buffer types: as_matrix, as_matrix_mut, into_inner, From, Index, ...")], STO_NOTE),
    P("P17", "Containers reject storage too small for their dimensions",
      "Creating an owning matrix container or a buffer from an array, slice or box whose length does not fit the declared dimensions panics, and creating one from storage that fits never does: owning containers require exactly rows times columns elements, buffers over slices at least that many (debug builds); with the no_assert feature the checks are absent.",
      INP, "all dimensions and storage lengths, every constructor and conversion, with and without debug assertions and no_assert", "Tests try one undersized and one fitting size of a few types.",
      [SRC + "matrix/data", SRC + "buffers/types"], [dict(name="size checks", where="MatrixDataArray::new, MatrixDataBoxed::new, From<&[T]>, From<&mut [T]> of buffers")], STO_NOTE + " Where debug assertions or assertions are compiled out only acceptance of fitting storage is required."),
    P("P20", "Builders produce buffers of the right size, zeroed, each with its own storage",
      "Every buffer builder allocates exactly the number of elements its role needs, filled with the documented initial value, and every filter, control and observation builder returns an object whose buffers have the declared dimensions and pairwise distinct storage; constructors keep every buffer handed to them in its own role, unchanged.",
      INP, "all dimensions, all element types, every builder and constructor, every feature configuration", "Tests build each object at one or two dimensions, often with equal counts, where swapped dimensions go unnoticed.",
      [SRC + "buffers/builder.rs", SRC + "kalman_builder", SRC + "kalman", SRC + "controls.rs", SRC + "observations"],
      [dict(name="buffer builders", where="BufferBuilder::*, *BufferBuilder::new"), dict(name="object builders", where="KalmanFilterBuilder::build, KalmanFilterControlBuilder::build, KalmanFilterObservationBuilder::build")], STO_NOTE),
    P("P21", "Buffer macros declare the right size, shape and contents in every form",
      "Every size_buffer_* macro evaluates to the element count of its role for all dimensions, in expressions and constants; every impl_buffer_* macro, in each binding form (plain, mut, let, let mut, static, static mut; in functions and at module level for statics), declares a buffer of that role's type and shape whose elements all equal the given value.",
      ["inputs", "programs"], "size macros: all dimensions; declarations: all roles and binding forms at dimension triples of distinct primes and extremes, both element types", "Macros are expanded at a few call sites with few binding forms; a wrong dimension in an unused arm compiles unnoticed.",
      [SRC + "lib.rs", SRC + "static_macros.rs"], [dict(name="size macros", where="size_buffer_*!"), dict(name="declaration macros", where="impl_buffer_*!")],
      "Decided on the type-checked expansion in generated witness crates. size_buffer_* is decided for symbolic dimensions; impl_buffer_* at four dimension triples whose products determine their factors, so a swapped or wrong dimension is visible, but other uses of the dimensions are sampled."),
    P("P22", "The nalgebra view of a container is exactly its row-major matrix",
      "Seen through the nalgebra integration, a matrix container reports its declared number of rows and columns, element (r, c) is the element at r*COLS + c of its storage (through pointers, strides, linear indices and the slice, array and coordinate views of contiguous storage alike), contiguity is claimed only for storage that is contiguous, and nothing outside the container's storage is ever exposed.",
      ["inputs"], "all dimensions and contents of every container with nalgebra support", "Tests view one small square matrix, where swapped strides or shapes read the same elements or stay inside the array.",
      [SRC + "matrix/nalgebra_support.rs"], [dict(name="raw storage", where="impl RawStorage, RawStorageMut, IsContiguous for MatrixData*")], STO_NOTE),
    P("P25", "No matrix operation or filter step panics or reads out of bounds on valid input",
      "With buffers of at least the declared size and indices inside the matrix, no matrix operation, prediction, control or correction step panics, indexes outside a buffer, underflows an index computation or fails to return, for any dimensions and contents.",
      INP, "all dimensions of at least 1, all contents, oversized buffers included, debug and release, with and without no_assert", "Tests run a few dimensions; an off-by-one that only shows for wide, tall or 1x1 shapes is not met, and without debug assertions wrong ranges go unnoticed.",
      [SRC + "matrix/traits.rs", SRC + "matrix/row_major.rs", SRC + "kalman", SRC + "controls.rs", SRC + "observations"],
      [dict(name="kernels", where="Matrix, MatrixMut, SquareMatrix, RowMajorSequentialData methods"), dict(name="steps", where="predict*, control, correct*")],
      "Sound for the obligations enumerated (bounds checks, slice ranges, lengths, assertions, index subtraction, missing return) in each analysed configuration; arithmetic panics of element types (fixed-point overflow, division by zero) belong to N03. An obligation that is neither proved nor refutable at small dimensions is reported UNDECIDED (none on this tree)."),
    P("P27", "Safe code cannot cause undefined behaviour through the crate",
      "Without the feature `unsafe` the crate contains no unsafe code at all; with it, no use of the crate's safe interface, including user-implemented matrix and buffer types and containers of any declared size, leads to an unchecked access outside the accessed storage.",
      ["inputs", "programs", "configurations"], "all dimensions, all safe callers and implementors of the crate's traits, every feature configuration", "Undefined behaviour need not show in a test run; no test uses hostile or undersized storage in release builds.",
      [SRC + "lib.rs", SRC + "matrix", SRC + "kalman"], [dict(name="unsafe code", where="every unsafe block, fn and impl of the crate"), dict(name="policy", where="#![forbid(unsafe_code)] without the feature unsafe")],
      "Enumerates all unsafe code from the compiler's own check; unchecked accesses are proved in bounds for arbitrary storage. The unsafety inside dependencies and inside core is trusted. An access that is neither proved nor refutable is reported UNDECIDED (none on this tree)."),
    P("P18", "Read-only buffers and containers give no mutable access",
      "Buffers and containers declared read-only (the non-Mut variants of the control, process noise, observation and state transition matrix buffers, MatrixDataRef, MatrixDataRowMajor) offer safe code no way to write to their elements: no mutable trait, method, public field, index or conversion, and filters, controls and observations built on them offer no mutable accessor for that matrix.",
      ["programs", "configurations"], "all programs using the crate's public interface, every read-only type", "A test can only call what exists; that something must not compile is not tested.",
      [SRC + "buffers/types", SRC + "matrix/data", SRC + "kalman", SRC + "controls.rs"], [dict(name="read-only types", where="ControlMatrixBuffer, ControlProcessNoiseCovarianceMatrixBuffer, DirectProcessNoiseCovarianceMatrixBuffer, ObservationMatrixBuffer, StateTransitionMatrixBuffer, MatrixDataRef, MatrixDataRowMajor")],
      "The impl lists, public methods and fields of every read-only type are searched in the typed program; generated programs asking for mutable access are rejected by the compiler next to accepted twins. Indirect leaks through interior mutability of user storage are outside."),
    P("P19", "Mismatched dimensions, element types and roles do not compile",
      "Combining matrices, buffers, filters, controls or observations whose dimensions, element types or roles do not fit (wrong operand shape of a matrix operation, wrong result shape, wrong storage shape of a buffer, exchanged or wrongly sized builder arguments, a control or observation of another state count, a square-only operation on another shape, a read-only output) is rejected at compile time, while every fitting combination compiles.",
      ["programs", "configurations"], "all programs, represented by one variation of every dimension, role, element type and mutability of every operation, builder argument and step", "Tests contain well-typed programs only; a bound loosened or a dimension dropped from a signature leaves all of them compiling.",
      [SRC + "matrix/traits.rs", SRC + "kalman", SRC + "controls.rs", SRC + "observations", SRC + "buffers/types"], [dict(name="operand shapes", where="Matrix, MatrixMut, SquareMatrix method signatures"), dict(name="roles", where="*KalmanBuilder::new, ControlBuilder::new, *ObservationBuilder::new bounds"), dict(name="steps", where="RegularKalman::{correct, control}, ExtendedKalman::correct_nonlinear, Control::apply_control, *Observation::correct*")],
      "About 300 pairs of programs that differ in one place; the verdicts are the compiler's. Const-generic dimensions are compared by identity, so one representative mismatch of each kind stands for all."),
    P("P23", "Filter steps, matrix operations and accessors never allocate",
      "In every configuration no filter step, matrix operation, accessor, component constructor or borrowing conversion allocates heap memory or uses operating system services of the standard library; without the std feature the standard library is not linked, and without alloc (and optional dependencies that need it) no allocator either.",
      ["inputs", "configurations"], "all inputs, dimensions and paths, every feature configuration", "Tests run on hosts with a heap, where a hidden allocation is invisible.",
      [SRC + "matrix", SRC + "kalman", SRC + "controls.rs", SRC + "observations", SRC + "lib.rs"], [dict(name="steps and kernels", where="kalman, controls, observations, matrix modules"), dict(name="linkage", where="#![no_std], extern crate alloc")],
      "Call-graph reachability over the typed program; trait calls are resolved to every local implementation. User functions and user types are outside. The named numeric dependencies are trusted not to allocate."),
    P("P24", "Every combination of features builds, and features only add",
      "The library compiles with every combination of its features (std, alloc, libm, micromath, fixed, unsafe, nalgebra, no_assert), and what is public in a configuration stays public with the same signature when further features are enabled.",
      ["configurations"], "all 256 combinations of features on the host target", "The project's tests and its CI build half a dozen combinations.",
      [SRC + "lib.rs", SRC + "matrix/data_type.rs", SRC + "matrix/nalgebra_support.rs", SRC + "buffers", SRC + "kalman_builder"], [dict(name="conditional compilation", where="every #[cfg(feature = ...)]")],
      "Exhaustive over the features in the manifest: each combination is type-checked by the compiler (not linked or code-generated). Additivity is compared along four (quick) or nine (thorough) chains of configurations."),
    P("P26", "Element types use exact reciprocals and square roots of their own precision",
      "For every element type and feature configuration the reciprocal is 1/x and the square root the principal root, computed by the exact operation of the selected backend in the type's own precision; micromath's approximations are used only when neither std nor libm is available.",
      INP, "all element values, every combination of math backends", "Tests run with std only and compare loosely; backends chosen by other features are compiled but not compared.",
      [SRC + "matrix/data_type.rs"], [dict(name="backends", where="MatrixDataType for f32, f64, I16F16, I32F32; default MatrixDataType::recip")],
      "The closed form of each implementation over the backend's operations must equal the exact operation; a different form is a violation if it differs at sample values (exact decimal evaluation of the closed form) or uses an approximation where it must not."),
    P("P28", "Filters share no hidden state; they are as thread-safe as their storage",
      "Filters, controls and observations interact only through what the caller passes: the crate has no mutable statics, thread-locals, interior mutability or reference counting, and filters, controls, observations and containers are Send and Sync whenever their storage is.",
      ["programs", "schedules", "histories"], "all programs, thread interleavings and histories using several filters", "Tests use one filter on one thread.",
      [SRC + "lib.rs", SRC + "kalman", SRC + "controls.rs", SRC + "observations", SRC + "matrix/data"], [dict(name="state", where="fields of RegularKalman, ExtendedKalman, Control, RegularObservation, ExtendedObservation, MatrixData*, *Buffer")],
      "All statics, fields and calls of the typed program are searched; the auto-trait claims are the compiler's verdict on generated programs."),
    P("P29", "Accessors and visitors expose the stored components, without effect",
      "Every accessor of a filter, control or observation (inherent or through the generic traits) returns a reference to the stored component of its role, on every path and without changing anything; component constructors store what they are given unchanged; inspect and apply call the user's function exactly once with the matrix itself and return its result.",
      INP, "all objects and contents, every accessor, every feature configuration", "Accessors are called in a few tests on fresh objects; an effect or a condition shows only for particular contents.",
      [SRC + "kalman", SRC + "controls.rs", SRC + "observations", SRC + "matrix/traits.rs"], [dict(name="accessors", where="state_vector(_mut), estimate_covariance(_mut), control_matrix, observation_matrix, ..."), dict(name="visitors", where="Matrix::inspect, MatrixMut::apply")], STO_NOTE),
    P("P30", "Everything is available for every element type, storage, role type and dimension",
      "Every container, buffer, builder, matrix operation, accessor, filter step and generic trait of the crate can be used with every element type that implements the crate's element trait, every storage that implements its matrix traits, every type that implements a role's trait (the user's own types included) and every dimension: programs generic over all of them, with only those traits as bounds, compile; no operation hides a further bound, a fixed list of types or a limit on dimensions.",
      ["programs", "configurations"], "all programs, all element types, storages, role types and dimensions", "Tests use f32 and f64, arrays and slices, and a few small dimensions; a hidden bound or limit they happen to satisfy leaves all of them compiling.",
      [SRC + "matrix", SRC + "buffers", SRC + "kalman", SRC + "controls.rs", SRC + "observations", SRC + "kalman_builder"],
      [dict(name="bounds", where="where clauses and impl headers of Matrix, MatrixMut, SquareMatrix*, MatrixData*, *Buffer, RegularKalman, ExtendedKalman, Control, *Observation, filter_trait"), dict(name="own types", where="required items of the crate's public traits")],
      "About 290 generic programs per configuration, accepted or rejected by the compiler; compile-time assertions (invisible to the type checker of a generic program) are interpreted and searched for a dimension they refuse."),
    P("P31", "Filter steps, matrix operations and accessors run in constant stack space",
      "No filter step, matrix operation or accessor of the library recurses or keeps a matrix, a row or column, or any other value whose size depends on dimensions or storage on the stack: all working space is in the buffers the caller provides, so stack use is the same for every dimension.",
      INP, "all inputs, dimensions and paths, every feature configuration", "Tests use matrices of a few elements on hosts with megabytes of stack; a stack-allocated copy or a recursion is invisible there.",
      [SRC + "matrix", SRC + "kalman", SRC + "controls.rs", SRC + "observations"], [dict(name="steps and kernels", where="kalman, controls, observations, matrix modules")],
      "Every frame reachable in the typed program's call graph is examined (trait calls resolved to every local implementation), before optimisation. User functions, user types and the frames of core's functions are outside; values moved by the caller into constructors and conversions are the caller's."),
    P("P32", "The work of every operation is bounded by the dimensions, at the textbook order",
      "For all contents, every loop of a matrix operation, filter step or accessor runs a number of rounds bounded by the dimensions alone, and the work grows at most with the cube of the dimensions for matrix products, factorisation, inversion and filter steps, their square for matrix-vector products, elementwise operations, whole-matrix copies and fills, linearly for row and column copies, and not at all for element access, shape queries, views and component accessors.",
      INP, "all inputs, dimensions and paths, every feature configuration", "Tests check results on matrices of a few elements; work that depends on contents or grows too fast is invisible there.",
      [SRC + "matrix", SRC + "kalman", SRC + "controls.rs", SRC + "observations"], [dict(name="steps and kernels", where="kalman, controls, observations, matrix modules")],
      "Counts rounds of loops and library operations on whole slices; user functions, user types and the element type's arithmetic count as one unit. The time of a unit on a target is N05."),
]

NA = [
    P("N01", "Floating-point results stay close to the exact filter equations",
      "In single and double precision each step's result differs from the exact-arithmetic result by a rounding error bounded in terms of the condition of the inputs.",
      ["inputs"], "all finite inputs", "Tests compare a few trajectories with loose tolerances.", [SRC + "matrix/traits.rs"], [dict(name="kernels", where="Matrix, SquareMatrix methods")], "",
      na="The error bound depends on run-time magnitudes and condition numbers of the inputs; no static argument in reach bounds them for all inputs (a solver- or execution-based bound is another family)."),
    P("N02", "Covariance stays symmetric and positive semidefinite over long histories",
      "Starting from a symmetric positive semidefinite covariance, every history of steps in floating point keeps the covariance symmetric and positive semidefinite.",
      ["inputs", "histories"], "all histories of steps and all inputs, in rounded arithmetic", "No test runs long adversarial histories.", [SRC + "kalman/regular.rs"], [dict(name="steps", where="predict, correct")], "",
      na="In exact arithmetic it follows from P01-P06; in rounded arithmetic the claim is false for the plain covariance update the project implements for some inputs, and whether it holds for given inputs is a run-time quantity no static analysis in reach decides."),
    P("N03", "Fixed-point filters do not overflow",
      "With fixed-point element types no intermediate value of a step overflows the representable range.",
      ["inputs", "histories"], "all inputs within the type's range", "One fixed-point example with benign values.", [SRC + "matrix/data_type.rs"], [dict(name="fixed-point element types", where="MatrixDataType for I16F16, I32F32")], "",
      na="False for all inputs and true only under input bounds the project does not state; value ranges of user data are run-time quantities with no static bound."),
    P("N04", "Filters converge to the true state of the modelled system",
      "For an observable system with correctly specified noise, the estimate converges in mean square to the true state.",
      ["histories"], "all observable systems and noise realisations", "Tests show it on two example systems.", [SRC + "kalman/regular.rs"], [dict(name="steps", where="predict, correct")], "",
      na="A stochastic limit statement about run-time trajectories; static analysis of the source decides the equations (P01-P06), not their limit behaviour on data."),
    P("N05", "Steps finish within a bounded time on embedded targets",
      "Every step completes within a time bound that depends only on the dimensions.",
      ["inputs"], "all contents, per target", "Not tested.", [SRC + "matrix/traits.rs"], [dict(name="kernels", where="Matrix, SquareMatrix methods")], "",
      na="Wall-clock time is a property of the compiled target and run, not of the source; loop bounds and orders of growth are P32, but no time claim follows."),
]


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    from mk import props
    lines = []
    for p in CATALOG + NA:
        a = dict(files=p["files"], mechanism=p["mech"])
        if p["state"]:
            a["state"] = p["state"]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        lines.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)))
        assert len(p["title"]) <= 80, p["title"]
    open(os.path.join(here, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
    m = dict(version=1, setup_cmd="python3 -m mk.setup",
             checks=[dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                          technique=p["tech"] or props.PROPS[p["id"]]["technique"], level=p["level"], level_note=p["note"]) for p in CATALOG if p["id"] in props.PROPS],
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in NA])
    miss = [p["id"] for p in CATALOG if p["id"] not in props.PROPS] + [q for q in props.PROPS if q not in [p["id"] for p in CATALOG]]
    assert not miss, miss
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(here, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
