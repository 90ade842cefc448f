#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

add("C01", "The geometric product is the Clifford product of the given metric",
 "For any algebra built from a symmetric metric (diagonal, oblique, null, degenerate, numeric, symbolic or functional) and any multivectors A, B, the product A*B (and scalar*A, A*scalar, A/scalar, A**k for k>=0, the commutator >> and Ga.com, the anticommutator <<) equals the Clifford product determined by that metric. It is associative and bilinear, and every vector v satisfies v*v = g(v,v).",
 ["inputs", "configurations"], "every dimension, every symmetric metric, all multivectors, every chain of products",
 "Tests multiply a handful of blades in three or four fixed metrics; the coefficient of each of the 4^n blade pairs in each metric class (oblique 4-D, degenerate, functional) is not compared with an independent definition.",
 ["galgebra/ga.py", "galgebra/mv.py"],
 [("blade product tables (orthogonal merge sort; oblique base reduction)", "ga.py _GeometricProductFunction, _BaseGeometricProductFunction, reduce_basis"),
  ("operator dispatch", "mv.py Mv.__mul__, __rmul__, __pow__, __lshift__, __rshift__; ga.py Ga.com")],
 [("table_dict", "memoised products of basis blades", "ga.py BladeProductFunction"), ("g", "metric tensor", "metric.py Metric")],
 ["Mv.obj of the result", "Ga.mul(A, B)"])

add("C02", "The outer product is the exterior product, independent of the metric",
 "A^B equals the exterior (alternating, associative, bilinear) product of A and B in every algebra, whatever its metric; scalars act by multiplication from either side. For blades it is the grade r+s part of their geometric product.",
 ["inputs", "configurations"], "all pairs and chains of multivectors in every metric and dimension, including repeated and dependent factors",
 "Tests check a few wedge products of basis vectors; sign of every permutation of index sets and the oblique-basis case is not enumerated.",
 ["galgebra/ga.py", "galgebra/mv.py"],
 [("wedge of basis blades", "ga.py _WedgeProductFunction, Ga.blade_reduce"), ("operator", "mv.py Mv.__xor__, __rxor__")],
 [("table_dict", "memoised wedge table", "ga.py")], ["Mv.obj of A^B"])

add("C03", "Inner products and contractions select the right grade of the product",
 "For grade-r A and grade-s B: A|B is the grade |r-s| part of A*B (zero if either is a scalar), A<B the grade s-r part (zero if r>s), A>B the grade r-s part (zero if s>r), and the scalar product the grade 0 part, extended bilinearly to mixed grades and to plain scalar operands (for which < and > agree with the same rule). sp(A,B) and sp(A,B,'rev') are the scalar parts of A*B and rev(A)*B, and Ga.dot follows dot_mode.",
 ["inputs", "configurations"], "all pairs of multivectors of mixed grades, in orthogonal, oblique and degenerate metrics",
 "The tests check a few identities for vectors and bivectors in Euclidean 3-space; each grade pair in each metric class is a separate code path.",
 ["galgebra/ga.py", "galgebra/mv.py"],
 [("grade selection", "ga.py _SingleGradeProductFunction and its four subclasses"), ("operators", "mv.py Mv.__or__, __ror__, __lt__, __gt__, sp; ga.py Ga.dot, Ga.Mul")],
 [("dot_mode", "what Ga.dot aliases", "ga.py")], ["Mv.obj of the results", "Ga.dot(A.obj, B.obj)"])

add("C04", "Grade extraction, reversion and the involutions are exact",
 "For any multivector A: A.grade(k) (and even, odd, scalar, get_grade, grade decomposition, Ga.grades/split/remove_scalar_part) return exactly the parts of A of those grades and the parts sum back to A. rev, g_invol and ccon multiply the grade-k part by (-1)^(k(k-1)/2), (-1)^k and their product; each is an involution, and rev(A*B)=rev(B)*rev(A), g_invol(A*B)=g_invol(A)*g_invol(B).",
 ["inputs", "configurations"], "all multivectors of every mixture of grades, in every algebra, in either representation",
 "Tests apply each involution to one or two multivectors in 3-D; the grade sign pattern has period four and needs all grades.",
 ["galgebra/ga.py", "galgebra/mv.py"],
 [("grade_decomposition, reverse, get_grade, even_odd, split_multivector", "ga.py"), ("rev, g_invol, ccon, even, odd, grade, scalar and module-level wrappers", "mv.py")],
 [("grades, i_grade", "cached characterisation of a multivector", "mv.py Mv")], ["Mv.obj of the results"])

add("C05", "Blade and base representations are interchangeable",
 "In any algebra, base_rep() and blade_rep() convert a multivector without changing its value and are inverse to each other; neither modifies its operand. Every operation that accepts a multivector gives the same result (as a multivector) whichever representation each operand is in.",
 ["inputs", "configurations", "histories"], "every multivector, every mix of representations of operands, sequences of conversions and operations",
 "One test converts one bivector in one symbolic metric; results of operations on mixed representations are never compared.",
 ["galgebra/ga.py", "galgebra/mv.py"],
 [("blade_expansion_dict / base_expansion_dict", "ga.py"), ("is_blade_rep bookkeeping", "mv.py base_rep, blade_rep, characterise_Mv, _arithmetic_op, __mul__")],
 [("is_blade_rep", "representation of obj", "mv.py Mv")], ["Mv.obj after blade_rep()"])

add("C06", "Construction and coefficient access are faithful",
 "A multivector built from coefficients, names, grades or categories has exactly the requested components, and coefficients read back (blade_coefs, get_coefs, components, list, indexing, proj on blades) in canonical blade order reproduce it. set_coef changes only the addressed coefficient, and subs, simplify, expand, trigsimp, func, collect act coefficient-wise, so the value of the multivector is preserved or transformed accordingly and later queries on it are consistent with its new value.",
 ["inputs", "histories"], "all multivectors, all blades and grades, sequences of edits and queries",
 "Tests read the coefficients of a few sample multivectors once; edit-then-query sequences and all blade positions are not covered.",
 ["galgebra/mv.py", "galgebra/ga.py", "galgebra/metric.py"],
 [("constructors _make_*", "mv.py"), ("linear_expand", "metric.py"), ("blade_coefs, get_coefs, components, proj, set_coef, subs, simplify, func", "mv.py")],
 [("obj", "sum of coefficient * blade symbol", "mv.py Mv"), ("blade_flg, versor_flg, grades", "cached classification", "mv.py Mv")], ["return values"])

add("C07", "Duality follows the selected mode and undual inverts dual",
 "In a non-degenerate algebra with normalised pseudoscalar I (I**2 = +1 or -1), A.dual() equals +-I*A, +-A*I, +-I^-1*A or +-A*I^-1 as the current global dual mode says, at the time of the call and for every algebra; dual maps grade k to grade n-k. A.dual().undual() = A.undual().dual() = A in all eight modes; illegal modes are rejected and leave the mode unchanged. In three dimensions cross(a, b) = -I*(a^b) for vectors a, b in every mode.",
 ["inputs", "configurations", "histories"], "all eight modes, all multivectors, any signature and dimension, any history of mode changes",
 "Tests switch modes once in Euclidean 3-D; the pseudoscalar's square and commutation sign depend on dimension and signature.",
 ["galgebra/ga.py", "galgebra/mv.py"],
 [("dual mode dispatch", "mv.py Mv.dual, Mv.undual; ga.py Ga.dual_mode"), ("pseudoscalar normalisation", "ga.py Ga.__init__, e_sq, I, E")],
 [("dual_mode_value", "process-wide mode", "ga.py Ga")], ["A.dual()", "A.undual()"])

add("C08", "Inverses and division invert the geometric product",
 "Whenever A.inv(), shirokov_inverse(), hitzer_inverse(), A**-1 or a division returns a finite value, that value X is the two-sided inverse: A*X = X*A = 1 (and B/A = B*X, s/A = s*X); for the multivectors each method covers (scalars, non-null vectors, blades and versors for inv; all invertible multivectors for the other two, n<=5 for hitzer) it does return one. A non-invertible multivector never yields a finite inverse.",
 ["inputs", "configurations"], "all multivectors of algebras of dimension 1..5, any signature, oblique bases included",
 "Tests invert generic vectors and multivectors for three Euclidean dimensions only; the closed forms differ per dimension and signature and singular inputs are not tried.",
 ["galgebra/mv.py"],
 [("inv, shirokov_inverse, hitzer_inverse, __truediv__, __rtruediv__, __pow__", "mv.py")], (), ["returned Mv", "raised exception type"])

add("C09", "Quadratic form, norms and magnitudes agree with their definitions",
 "qform(A) is the scalar part of rev(A)*A; norm2 = |qform|, norm = sqrt(norm2), mag2 = the sum over grades of |qform(grade part)|, mag = sqrt(mag2), all nonnegative and all as plain scalars. Sign hints only choose a branch where the sign of the form cannot otherwise be decided.",
 ["inputs", "configurations"], "all multivectors with numeric and symbolic coefficients, every signature, every hint",
 "Tests evaluate a few sample vectors in two signatures; the sign branches depend on metric, coefficients and hint in combination.",
 ["galgebra/mv.py", "galgebra/metric.py"],
 [("qform, norm2, norm, mag2, mag", "mv.py"), ("abs_with_hint, square_root_of_expr", "metric.py")], (), ["returned expressions"])

add("C10", "Blade, versor and grade predicates classify correctly",
 "For multivectors with concrete coefficients: is_blade holds exactly for nonzero outer products of vectors (dimension <= 4, and grades 0,1,2,n-1,n in any dimension, every metric), is_versor exactly for products of non-null vectors (metric not totally null and with at most two degenerate directions), and is_scalar, is_vector, is_zero, is_base and pure_grade describe the grades actually present. Answers do not depend on the order in which the predicates, or other queries, are called.",
 ["inputs", "configurations", "histories"], "all multivectors of small algebras (exhaustively for small coefficients), every signature incl. degenerate, all query orders",
 "Tests classify a dozen hand-picked multivectors.",
 ["galgebra/mv.py"],
 [("is_blade, is_versor, is_scalar, is_vector, is_zero, is_base, pure_grade, characterise_Mv", "mv.py")],
 [("blade_flg, versor_flg, char_Mv", "memoised answers", "mv.py Mv")], ["returned booleans"])

add("C11", "Exponential, rotation, reflection and projection are geometrically exact",
 "For B whose square is a scalar, exp(tB) is the function with value 1 at t=0 and derivative B*exp(tB) (so exp(B)*exp(-B)=1), whatever the sign of the square and the hint. rotate_multivector gives exp(-B/2)*A*exp(B/2), an outermorphism preserving products; reflect_in_blade is the reflection in the subspace of a non-null blade: the outermorphic involution that fixes the vectors of the blade and negates those orthogonal to it, (-1)^(r(s+1)) B<A>_r B^-1 for a grade-s blade B; project_in_blade is (A<B)*B^-1; null blades and non-blades are rejected.",
 ["inputs", "configurations"], "all bivectors/vectors/multivectors with scalar square, all blades, any signature",
 "Tests exponentiate one bivector and reflect once; sign-of-square branches and grade-dependent signs are not enumerated.",
 ["galgebra/mv.py"],
 [("exp, rotate_multivector, reflect_in_blade, project_in_blade and wrappers exp, rot, refl, proj", "mv.py")], (), ["returned Mv"])

add("C12", "Reciprocal bases, inverse metric and pseudoscalar are exact",
 "In every non-degenerate algebra the reciprocal basis vectors (mvr, r_basis, and ReciprocalFrame of any independent vectors) satisfy e^i . e_j = delta_ij (times the returned normalisation where not normalised), g_inv is the matrix inverse of g, e_sq is E()*E(), reciprocal blades pair to delta with blades, and I() is proportional to E with I()**2 = +1 or -1: the sign of e_sq, or the one declared with Isq when e_sq is not a number.",
 ["inputs", "configurations"], "every symmetric non-degenerate metric of every dimension, constant or coordinate-dependent, normalised or not",
 "Tests check two or three metrics (symbolic 2-D/3-D); dimension parity and oblique normalisation are case-split in the code.",
 ["galgebra/ga.py", "galgebra/metric.py"],
 [("r_basis, r_basis_dict, r_basis_mv, mvr, g_inv, e_sq, ReciprocalFrame, _reciprocal_blade_dict", "ga.py")],
 [("g, g_inv, r_basis, e_sq, i, i_inv", "derived tensors", "ga.py Ga")], ["returned vectors and matrices"])

add("C13", "Derivatives of the basis are those of the metric connection",
 "For a coordinate-dependent metric, Christoffel_symbols(1|2) are the Levi-Civita symbols of g, the basis-vector derivatives equal the corresponding combinations (including normalised bases, where they keep the frame orthonormal), and the coordinate derivative of any basis blade is given by the product rule over its factors. Consequently the derivative of a multivector field along a coordinate obeys the Leibniz rule for *, ^ and the inner products, and is linear. When the coordinates are functions of a parameter (Ga.parametric), Mv.diff with respect to the parameter is the total derivative along that curve.",
 ["inputs", "configurations"], "all coordinate-dependent metrics (orthogonal or oblique, normalised or not), all blades and fields",
 "Tests compare printed spherical-coordinate formulae; no oblique curvilinear metric's connection is compared with a definition.",
 ["galgebra/metric.py", "galgebra/ga.py"],
 [("derivatives_of_g, dg, Christoffel_symbols, de, normalize_metric", "metric.py"), ("blade_derivation, pDiff, _update_de_from_rbasis", "ga.py")],
 [("de", "derivatives of basis vectors", "metric.py"), ("_dbases", "memoised blade derivatives", "ga.py"), ("dslot", "current differentiation slot", "ga.py")], ["Ga.pDiff", "Mv.diff", "Christoffel_symbols"])

add("C14", "grad and rgrad act as the vector derivative under every product",
 "In any algebra with coordinates, grad*F, grad^F, grad|F, grad<F, grad>F equal the sum over coordinates of e^i (product) D_i F with D_i the covariant coordinate derivative, and F*rgrad, F^rgrad, F|rgrad, F<rgrad, F>rgrad the mirrored sum, in curvilinear, oblique and normalised bases alike. In flat space grad^(grad^F)=0 in any coordinates, and the result for one field is the same whatever coordinates it is expressed in.",
 ["inputs", "configurations"], "all multivector fields, all coordinate systems and metrics, all ten operator forms",
 "Tests compare printed results for spherical coordinates and a few fields; most product/side/metric combinations are never evaluated.",
 ["galgebra/mv.py", "galgebra/ga.py"],
 [("Dop application", "mv.py Dop.Mul"), ("construction of grad/rgrad, make_grad", "ga.py _build_grads, mvr, make_grad")],
 [("grad, rgrad", "left and right vector derivative", "ga.py")], ["grad*F etc."])

add("C15", "Differential operators form an algebra acting by composition",
 "For scalar operators Pdop/Sdop and multivector operators Dop (left or right acting) on algebras with constant metric: applying a sum, difference, negation or scalar/multivector multiple of operators equals the combination of their applications, and applying a product of operators formed with * or ^ equals applying them in succession (with |, <, > the coefficients of the product are the coefficients multiplied by that product). Simplification, component splitting and equality respect the action: equal operators act equally, and components sum to the operator.",
 ["inputs", "programs"], "all operator expressions over coordinates and auxiliary symbols, orders up to three, applied to arbitrary fields",
 "Tests check associativity of two or three fixed operators; they never compare the action of composed operators of mixed kind on generic fields.",
 ["galgebra/dop.py", "galgebra/mv.py"],
 [("Pdop, Sdop: __call__, __mul__, Add, _merge_terms, _consolidate_terms, _eval_derivative_n_times", "dop.py"), ("Dop: Add, Mul, components, __eq__, TSimplify", "mv.py")],
 [("terms", "list of (coefficient, Pdop)", "dop.py"), ("cmpflg", "left/right acting", "mv.py Dop")], ["operator applied to a field"])

add("C16", "Linear transformations are outermorphisms with consistent algebra",
 "A linear transformation built from any accepted specification (matrix, list, dict, function, rotor/spinor, symbolic) maps vectors as specified and extends to multivectors as an outermorphism fixing scalars: L(A^B)=L(A)^L(B). Matrix round trip, sum, difference, composition, scalar multiples, determinant (L(E)=det(L)*E), trace, adjoint ((L(a)|b) = (a|L.adj()(b)) in any metric), inverse and singularity test agree with that action.",
 ["inputs", "configurations", "programs"], "all transformations in all constructor forms, orthogonal and oblique metrics, all multivector arguments, compositions of operations",
 "Tests check a few transformations in Euclidean 3-D/4-D and one oblique basis; agreement of the constructors and the adjoint in oblique or indefinite metrics is not enumerated.",
 ["galgebra/lt.py"],
 [("Lt.__init__, __call__, mv_dict, __add__, __sub__, __mul__, det, tr, adj, inv, matrix, is_singular", "lt.py"), ("Matrix_to_dictionary, Dictionary_to_Matrix, Symbolic_Matrix", "lt.py")],
 [("lt_dict, spinor", "representation of the transformation", "lt.py Lt")], ["L(A)", "L.matrix()", "L.det()"])

add("C17", "Multilinear functions compose and contract as tensors",
 "An Mlt built from a tensor, a function or multivectors is multilinear and evaluates to the defining expression; sums, differences, scalar multiples, tensor products, components, directional derivative dd and contraction of two slots agree with the tensor operations under the algebra's metric, for any ranks and slots. Component extraction and expansion reproduce the tensor.",
 ["inputs", "configurations", "histories"], "all ranks up to 3, all slot pairs, orthogonal and oblique metrics",
 "Tests construct a few rank-1/2 functions and mostly compare printed output.",
 ["galgebra/lt.py"],
 [("Mlt.__init__, __call__, __add__, __sub__, __mul__, contract, pdiff, dd, cderiv, comps, expand", "lt.py")],
 [("_mlt_a, _mlt_acoefs, _mlt_pdiffs, dslot", "slot bookkeeping shared through the algebra", "ga.py / lt.py")], ["T(a1,..,ar)", "T.contract(i,j)(...)"])

add("C18", "GAeval respects the declared operator precedence",
 "For any expression over names, numbers, parentheses, calls and the operators + - * ^ | < > and any operator order set with def_prec, GAeval returns the value of the expression parsed with products binding tighter than +/-, earlier operators in the order binding tighter, operators in the same group associating left to right, and explicit parentheses preserved. Parsing never changes operands, drops or duplicates text.",
 ["inputs", "programs", "configurations"], "all expressions and all valid operator orders, arbitrary nesting and whitespace",
 "Existing tests and examples evaluate a few expressions with the default order.",
 ["galgebra/printer.py", "galgebra/_utils/parser.py"],
 [("parse_line, _Parser.products, _Parser.associate, validate_op_order", "_utils/parser.py"), ("GAeval, def_prec", "printer.py")],
 [("op_ord, global dict", "current precedence and name space", "printer.py")], ["GAeval(s)", "parse_line(s, order)"])

add("C19", "Operations are pure and results are independent of history",
 "No operation (product, query, printing, differentiation, transformation, contraction) changes the value of its operands, and repeating any computation later in the same process, after any other operations on the same or other algebras (including algebras with the same basis names but other metrics), gives the same result. The only history that may influence results is the documented global dual mode, dot mode, print format and simplification settings.",
 ["histories", "programs"], "all interleavings of operations over several live algebras sharing names, with lazy tables and memoised properties in every fill state",
 "Each test starts from a fresh algebra and checks one result; the lazily filled caches, shared slots and in-place characterisation are only wrong in particular orders.",
 ["galgebra/ga.py", "galgebra/mv.py", "galgebra/lt.py", "galgebra/metric.py"],
 [("lazy tables and caches", "ga.py lazy_dict, _agrads, _dbases, _cached_property"), ("copying of operands", "mv.py base_rep, blade_rep, copy.copy"), ("slot/coordinate state", "lt.py Mlt, Lt.tr; ga.py dslot, connect_flg")],
 [("table_dict, _dbases, _agrads, connect", "memo tables", "ga.py"), ("dslot, connect_flg", "mutable algebra state", "ga.py/metric.py")], ["repeated results"])

add("C20", "Different algebras never mix silently; equality is value equality",
 "Combining multivectors, operators, or transformations of two different algebras by any binary operation raises an error instead of producing a result, even when the algebras have identical basis names and metric. Two multivectors of the same algebra compare equal exactly when their difference is zero (up to coefficient simplification), a multivector equals a plain scalar exactly when it is that scalar, compare(A, B) gives the non-zero c with A = c*B if there is one and 0 otherwise, and equal multivectors with the same canonical form hash alike.",
 ["inputs", "histories", "programs"], "all binary operations, all pairs of live algebras, all operand kinds and orders",
 "Tests check mixing for two operator classes only.",
 ["galgebra/mv.py", "galgebra/ga.py", "galgebra/dop.py", "galgebra/lt.py"],
 [("Ga identity checks", "mv.py _arithmetic_op, Mul, Dop.Mul/Add; lt.py Lt.__call__/__add__"), ("__eq__/__hash__", "mv.py Mv, ga.py Ga")],
 [("name", "identity of an algebra", "metric.py")], ["raised exception", "== results"])

add("C21", "Printed text and LaTeX denote the value that was printed",
 "The text (and LaTeX) printed for a multivector, operator or transformation, in any output format (one line, per grade, per base) and in any algebra, reads back as exactly the same object: every nonzero term appears once, with its coefficient, sign and blade (correctly parenthesised), in canonical blade order, and no zero term is shown unless the value is 0. Printing with different formats or in different modes does not change the value or later output.",
 ["inputs", "configurations", "histories"], "all multivectors with numeric or symbolic coefficients of any sign and shape, all formats",
 "Tests compare stored strings of particular examples.",
 ["galgebra/mv.py", "galgebra/printer.py", "galgebra/atoms.py", "galgebra/dop.py"],
 [("Mv._sympystr, Mv._latex", "mv.py"), ("Dop/Sdop/Pdop printers", "mv.py, dop.py"), ("GaPrinter, GaLatexPrinter, Fmt", "printer.py"), ("symbol printers", "atoms.py")],
 [("galgebra_mv_fmt, fmt settings", "print format", "printer.py")], ["str(A)", "latex(A)", "A.Fmt(k)"])

add("C22", "Submanifolds carry the pulled-back metric",
 "A submanifold defined by a coordinate map into a manifold has metric equal to the Jacobian pull-back of the ambient metric (evaluated on the map), for orthogonal and oblique, constant and coordinate-dependent ambient metrics, with or without normalisation, and for submanifolds of submanifolds; its products and derivatives are those of that metric. A vector-function manifold (X=...) has the metric of its partial derivatives.",
 ["inputs", "configurations"], "all maps and ambient metrics, any codimension",
 "Tests construct spheres and curves in Euclidean 3-space and compare printed metric only.",
 ["galgebra/ga.py", "galgebra/metric.py"],
 [("Sm.__init__", "ga.py"), ("X= branch and dot_orthogonal", "metric.py Metric.__init__")], [("g_raw", "unnormalised ambient metric", "metric.py")], ["sm.g", "products in sm"])

add("C23", "Algebra factories build the algebra they name",
 "Ga(...) builds exactly the metric it is given: a metric string ('#' for symbolic entries, shorthand rows, numbers), list, matrix or default symbols yields the corresponding symmetric tensor with entries in the right places; galgebra.interop Cl(p,q,r) (both conventions), Ga.preset and Ga.build give the documented signature, basis names, order and dual mode, and bases_dict/mv_blades/indexes name every blade exactly once in canonical order.",
 ["configurations", "inputs"], "all metric strings and forms, all (p,q,r), all basis-name specifications",
 "Tests build a few signatures; every entry position of the metric parser and every (p,q,r) class is not enumerated.",
 ["galgebra/metric.py", "galgebra/ga.py", "galgebra/interop/_cl.py", "galgebra/interop/kingdon.py"],
 [("metric_symbols_list, _build_metric_element, symbols_list", "metric.py"), ("Cl", "interop/_cl.py, interop/kingdon.py"), ("blades, bases, indexes, bases_dict, preset, build", "ga.py")],
 [("dual_mode_value", "set by Cl", "ga.py")], ["ga.g", "ga.basis", "ga.bases_dict()"])

add("C24", "Print-mode switching and LaTeX capture are well-behaved state machines",
 "Entering and leaving print modes (Format, Print redirection/restore, tex/xpdf output, Eprint) always restores the output stream and the notation of printed objects that goes with it (settings such as Fmode and Dmode persist by design), captures every printed line exactly once and in order, and produces a document in which each captured line is classified by the documented markers (equations, %-alignment, plain text, verbatim, #%-formatted code) and appears once in the same order. Print format settings (Fmt) affect only the object they are applied to.",
 ["histories", "inputs"], "all sequences of mode switches and printed lines",
 "Existing tests run one or two fixed documents through the pipeline and compare the stored output.",
 ["galgebra/printer.py", "galgebra/gprinter.py"],
 [("tex, Format, GaLatexPrinter.redirect/restore, _texify", "printer.py"), ("gFormat, gprint, gxpdf", "gprinter.py")],
 [("stdout redirection, ipy, latex_flg, latex_str", "print mode", "printer.py GaLatexPrinter")], ["document text", "sys.stdout identity"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
