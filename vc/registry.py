"""Which contract profiles and which bounded oracle decide each property."""

ALL = ["vh_core", "vh_diag", "vh_wick"]
CHECKS = {
    "C01": dict(profiles=["c01"], oracle="c01", extra=["vh_core"], level="proof",
                note="All constructors and operators of rational are proved against the exact-fraction contracts for unbounded integers; the 1024-bit width of the stored integers is treated as mathematical. Parsing and float conversion are only checked on bounded inputs."),
    "C15": dict(profiles=["c15"], oracle="c15", extra=["vh_core"], level="proof",
                note="factorial (n<=20), binomial (n<=58) and permutation_sign are proved including absence of overflow; integer_partitions is checked exhaustively up to a stated bound only."),
}
CHECKS.update({
    "C02": dict(profiles=["c02:expr", "c02:op"], oracle="c02", extra=ALL, level="proof",
                note="add_to_map and every Algebra operator (both instantiations), with the free operators, proved against coefficient-function contracts; coefficients are exact reals (C01), std::map is a finite map whose keys are identified by == (C14). operator*(term, term) enters as an uninterpreted product."),
    "C14": dict(profiles=["c14"], oracle="c14", extra=ALL, level="proof",
                note="every comparison operator proved against its order predicate; irreflexivity, transitivity, totality and agreement with == proved as lemmas. std::vector/std::pair/std::array comparison is lexicographic by the standard (trusted)."),
    "C06": dict(profiles=["c06:series", "c06:prod"], oracle="c06", extra=ALL, level="proof",
                note="products of operator products and of symbolic terms are concatenation (proved), OperatorExpression *,+,-,*= , commutator(A,B) and bch_series proved against the coefficient functions, the series being the sum of rmul(nested commutator, 1/k!). The multi-argument commutator exposed to Python (a lambda in the binding file) and operator linearity on concrete operators are checked on bounded inputs only."),
    "C13": dict(profiles=["c13"], oracle="c13", extra=ALL, level="proof",
                note="the registry invariant (labels, index names, elementary spaces) is established by the constructor and reset() and preserved by add_space, which either appends exactly the requested space or throws leaving the object unchanged; lookups proved. Unknown type strings (string_to_space_type/field_type) and the Python wrapper are checked on bounded inputs."),
    "C17": dict(profiles=["c17", "c17:expr", "c17:opexpr"], oracle="c17", extra=ALL, level="proof",
                note="adjoint of operators, tensors, products, terms, graph matrices, operators and both kinds of expressions proved; involution and order reversal proved as lemmas."),
    "C07": dict(profiles=["c07:comm", "c07:prod"], oracle="c07", extra=ALL, level="proof",
                note="do_operators_commute, operator_noncommuting_less, num_ops and OperatorProduct::canonicalize proved: the result is reached by exchanges of neighbours that commute, every operator is kept, the factor is (-1)^(sum of the products of legs exchanged) and no allowed exchange is left. That the sign of an exchange of commuting normal-ordered operators is the parity of the product of their legs is the fermionic exchange rule (trusted); the value of products of concrete operators is compared on bounded inputs only."),
    "C08": dict(profiles=["c08:pair_"], oracle="c08", extra=ALL, level="proof",
                note="the pair contractions of occupied and unoccupied spaces (every ordered pair of distinct operators, each once, legs within the operators) and the driver over spaces are proved; the contractions of a general space (permutation-generated) enter by an assumed contract and are only checked on bounded inputs."),
    "C09": dict(profiles=["c09:enum"], oracle="c09", extra=ALL, level="proof",
                note="make_move/unmake_move, construct_candidates, generate_contractions_backtrack and generate_composite_contractions proved: exactly the multisets of elementary contractions that fit the operators with remaining legs in the window, each once, for every list of elementary contractions. Linearity of contract over expressions and concrete results are checked on bounded inputs."),
    "C04": dict(profiles=["c04:sort"], oracle="c04", extra=ALL, level="proof",
                note="canonicalize_indices, canonicalize_sqops and Tensor::canonicalize proved: the result is a rearrangement of the input in the order of C14, the factor is the parity of the inversions of the rearrangement (of the fermionic operators only), unique for distinct elements; std::sort is trusted to permute and sort, permutation_sign enters by its contract proved in C15. Lists are limited to 32767 elements."),
    "C16": dict(profiles=["c16:eqs"], oracle="c16", extra=ALL, level="proof",
                note="to_manybody_equation proved: the map holds for every open-index pattern (its text computed from the signature) exactly the equations of the terms with that pattern, in order, each once, with the operators' indices on the left, the tensors on the right and the coefficient as factor; signature and symmetry_factor proved (int products treated as mathematical). std::string is opaque text: that different patterns have different texts is only checked on bounded inputs."),
    "C12": dict(profiles=["c12:proc"], oracle="c12", extra=ALL, level="proof",
                note="process_contractions, process_single_contraction, process_contractions_threads and both contract() overloads proved: single- and multi-threaded execution return the same sum over the enumerated contractions, a function of product, factor, rank window, canonicalization switch and largest cumulant only; every write to the shared timers happens under the mutex; captures outlive the tasks. Assumed: std::async/future semantics; the evaluation of one contraction writes no solver member (checked syntactically over its call graph) and is a function of its arguments."),
    "C11": dict(profiles=["c11:comm", "c11:graph"], oracle="c11", extra=ALL, level="proof",
                note="do_contractions_commute, is_ops_permutation_valid, graph_less and canonicalize_contraction_graph proved: the graph that replaces a contraction is the given one with its operators rearranged by exchanges of neighbours that no pair contraction joins (at the sign of the exchanged legs) and its elementary contractions reordered; with C12, the weights of equal graphs are added. That such an exchange leaves the value of the contraction unchanged is the mathematical bridge; whole results with and without canonicalization are compared on bounded inputs."),
    "C10": dict(profiles=["c10:weight", "c10:legs"], oracle="c10", extra=ALL, level="proof",
                note="Operator::factor, combinatorial_factor (binomials of the legs left over factorials of the multiplicities), contraction_tensors_sqops (every leg at its place, distinct indices, tensors carrying them), spaces_in_elementary_contraction and elements_vec_to_pos proved; evaluate_contraction (sign, cumulants, index replacement) is checked on bounded inputs against dense Fock-space matrices."),
    "C05": dict(profiles=["c05:reidx", "c05:canon", "c05:expr", "c05:exre"], oracle="c05", extra=ALL, level="proof",
                note="reindex of operators, tensors, terms and expressions, SymbolicTerm::canonicalize (with its label-choosing lambda and simplify) and Expression::canonicalize proved: tensors are only reordered, the indices relabelled one-to-one inside their spaces (no two indices of the term get the same label), every sort enters with its sign, coefficients of terms that become equal are added. The sorts enter by the contracts proved in C04. That reordering tensors, renaming summed indices and sorting antisymmetric indices at their sign keeps the value is the mathematical bridge (compared on bounded inputs by evaluation)."),
    "C03": dict(profiles=["c03:vac", "c03:expr"], oracle="c03", extra=ALL, level="proof",
                note="recursive_vacuum_normal_order and SymbolicTerm::vacuum_normal_order proved for every operator string: it terminates (fewer operators, or fewer pairs out of order), the terms added are in normal order with the given tensors and deltas of different indices, and their weighted sum equals the given term in every linear representation satisfying the exchange, contraction and Pauli rules written as axioms (restricted contractions: in every representation where different labels denote different orbitals). Expression::vacuum_normal_ordered and both is_vacuum_normal_ordered proved. Strings up to 2^31 - 1 operators over registered spaces; Wick's rules themselves enter as axioms and are checked against Fock-space matrices by the oracle."),
})
for i in ("02 03 04 05 06 07 08 09 10 11 12 13 14 16 17").split():
    if "C" + i not in CHECKS:
        CHECKS["C" + i] = dict(profiles=[], oracle="c" + i, extra=ALL, level="exploration", note="bounded oracle only, contracts in progress")
NOT_APPLICABLE = {
    "C18": "text formats go through std::regex and stream formatting; no contract language within reach gives std::regex a semantics, so nothing about printing/parsing can be stated deductively without modelling the regex engine",
    "C19": "the property is about the meaning of generated Python/C++ source text when executed by numpy/ambit; it has no contract on the C++ functions short of a formal semantics of the emitted language",
}
