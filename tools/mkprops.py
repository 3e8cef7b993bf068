"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
T = "neutrinomass/tensormethod/"
C = "neutrinomass/completions/"
D = "neutrinomass/database/"
U = "neutrinomass/utils/"
A = "neutrinomass/analysis/"


def p(id, title, statement, over, quant, why, files, mech, observe=None):
    if isinstance(over, str):
        over = [over]
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": observe or []},
    })


p("C01", "Conjugating a field is a charge-reversing involution",
  "Conjugating a field, with or without indices, negates every charge, swaps its left- and right-handed Lorentz labels and its raised and lowered colour labels, flips the conjugated flag, and keeps isospin, statistics, tensor symmetry, generations, derivative count and LaTeX. Conjugating twice gives back a field equal to the original. For a field with indices, each index is conjugated in place and the name gains or loses exactly the dagger.",
  "inputs", "every Dynkin string, every rational hypercharge, baryon number and extra charge, both conjugation states, statistics and generation numbers",
  "Tests conjugate a handful of SM fields; the claim is over all charges (rational, unbounded) and all Dynkin digits.",
  [T + "core.py"], [("Field.conj / IndexedField.conj", T + "core.py"), ("Index.conj", T + "core.py")], ["Field.conj", "IndexedField.conj"])

p("C02", "Index labels: type, position, negation and conjugation are consistent",
  "An index built from a label has the type named by its first letter (after an optional minus sign, ignoring case) and is lowered exactly when the label starts with a minus sign. Negating an index flips its position only; conjugating maps undotted to dotted and back, flips the position of colour indices, and leaves isospin and generation indices alone. Both operations undo themselves, never touch the rest of the label, and conjugating a string of indices conjugates each one in order.",
  "inputs", "every label of a type letter in either case followed by up to four characters, with and without a minus sign, and every string of up to three such labels",
  "Tests use labels like u0 and -c1 only; label tails are arbitrary strings.",
  [T + "core.py"], [("Index.__new__, __neg__, conj, classify_index, conj_index_string", T + "core.py")], ["Index", "Index.conj", "Index.conj_index_string"])

p("C03", "Field equality is attribute equality and agrees with hashing",
  "Two fields compare equal exactly when label, representation, charges, conjugation flag, statistics, symmetry, generations and derivative data agree, whatever order their charges were given in; a field never equals a field with different indices. Equal fields, equal indexed fields and equal exotic fields hash alike, so sets and dictionaries of fields behave as if keyed by these attributes.",
  "inputs", "every pair of fields over symbolic charges, labels, flags, statistics, generation and derivative numbers and every order of the charge dictionary",
  "A hash/equality contract is a statement over all pairs; tests compare one or two pairs and never reorder charges.",
  [T + "core.py", C + "core.py"], [("Field.__eq__/__hash__", T + "core.py"), ("IndexedField.__eq__/__hash__", T + "core.py"), ("FieldType.__hash__", C + "core.py")], ["==", "hash"])

p("C04", "Indices attached to a field match its representation exactly",
  "Calling a field on an index string succeeds exactly when the string has the number, order, types and up/down positions of gauge and Lorentz indices its representation calls for (generation indices aside), and is rejected otherwise. The indexed field has the field's representation, charges, conjugation flag and statistics, in the given index order. Automatically generated indices always match the representation and are never shared between two calls.",
  "inputs", "every representation with at most three indices and every index string with up to three indices of symbolic type and position",
  "Tests call a few SM fields on correct strings; the acceptance condition ranges over all strings and representations.",
  [T + "core.py"], [("Field.__call__, assert_consistent_indices, get_dynkin", T + "core.py"), ("Index.fresh_indices, Field.fresh_indices", T + "core.py")], ["Field.__call__", "get_dynkin", "Field.fresh_indices"])

p("C05", "Products of fields add charges and conserve dimension",
  "Multiplying fields yields irreducible representations whose charges are the key-wise sums of the factors' charges and whose dimensions, counted with multiplicity, add up to the product of the factors' dimensions. A product contains a gauge-and-Lorentz singlet exactly when the hypercharges cancel and the non-abelian representations can be combined to one. The recorded history of each product names exactly the fields multiplied, in order.",
  "inputs", "all rational charges, and all pairs (and triples of fundamental) representations within the stated Dynkin bounds",
  "Tests multiply a few SM fields; charges are unbounded rationals and representations a large product space.",
  [T + "core.py"], [("Field.__mul__, decompose_product, walked", T + "core.py")], ["decompose_product", "Field.is_singlet", "Field.walked"])

p("C06", "A derivative changes Lorentz labels by one each and nothing else",
  "Acting with a derivative is accepted exactly when the requested undotted and dotted labels each differ by one from the field's; the result has the requested Lorentz labels, the same gauge representation, charges, statistics, generations and conjugation flag, and one more derivative. Stripping derivatives from the indexed result gives back the original field with its gauge indices.",
  "inputs", "all fields with Dynkin digits within bounds, all rational charges, and all requested Lorentz labels",
  "Tests differentiate L and H only.",
  [T + "core.py"], [("D", T + "core.py"), ("strip_derivs, strip_derivs_with_indices", T + "core.py")], ["D", "IndexedField.strip_derivs"])

p("C07", "SU(2) contractions are invariant, index-exact and complete",
  "Contracting isospin or spinor indices to singlets returns every pairing of the indices exactly once, each using every index exactly once, and the resulting expressions are SU(2) invariant and span all invariants of the operator. Contracting two objects to a target number of indices leaves exactly that many free indices per type, with all contractions running between the two objects, and rejects targets that cannot be reached.",
  "inputs", "all tensors (arbitrary complex components) carrying the stated numbers of indices; all targets",
  "Invariance and completeness quantify over all tensor components; tests compare a few printed structures.",
  [T + "contract.py"], [("epsilon_combos, su2_singlets_type, lorentz_singlets, contract_su2_helper, contract_su2", T + "contract.py")], ["lorentz_singlets", "contract_su2"])

p("C08", "Colour contractions are colour singlets and complete",
  "Every expression returned when contracting an operator's colour indices has no free colour index, keeps the operator's own factors, and is invariant under SU(3) for all values of its fields; together the results span all colour singlets of the operator. An operator whose indices cannot form a singlet by the supported contractions is rejected.",
  "inputs", "all tensors with up to three raised and three lowered colour indices, arbitrary components",
  "Tests contract one or two quark operators and only count the results.",
  [T + "contract.py", T + "core.py"], [("colour_singlets", T + "contract.py"), ("eps, delta", T + "core.py")], ["colour_singlets"])

p("C09", "Generated invariants contain each field once and are neutral singlets",
  "The invariants generated for a list of fields each contain every listed field exactly once, keep the fields' charges and have no free index of a type that was not ignored; there are some exactly when the hypercharges cancel and the representations combine to a singlet. Cleaning removes only operators that vanish or repeat one that is kept, removing relabellings drops only operators that are a kept one with repeated fields interchanged, and repeated calls give the same result.",
  ["inputs", "histories"], "all charges of two to four fields with the stated representations; any sequence of calls",
  "Neutrality must hold for all charge assignments; tests use SM charges only.",
  [T + "contract.py"], [("unsimplified_invariants, invariants, construct_operators, clean_operators", T + "contract.py")], ["unsimplified_invariants", "invariants"])

p("C10", "Index relabellings map one contraction structure onto the other",
  "Every relabelling returned for two contraction structures of the same type turns the first structure into the second when its substitutions are applied simultaneously, and some relabelling is returned for every way of pairing up their tensors. Two operators with identical structure need no relabelling.",
  "inputs", "all structures of one to three two-index tensors over symbolic index names",
  "Tests show one example; correctness ranges over all index names and overlaps.",
  [T + "contract.py"], [("extract_relabellings, compare_singlets", T + "contract.py")], ["extract_relabellings"])

p("C11", "Stored and copied operators equal the original",
  "Converting an operator to its storable form and back gives an operator with equal fields (label, indices, charges, flags) in the same order and the same invariant tensors, for every operator the package can build from fields, epsilons and deltas. The stored form holds only text, numbers and containers of them, and reloads to the same form. A deep copy of an operator likewise equals the original.",
  "inputs", "operators with symbolic charges and all supported invariant tensors (SU(2) epsilons, SU(3) epsilons and deltas)",
  "Tests never round-trip; the shipped operator files contain no delta.",
  [T + "core.py", C + "operators.py"], [("Operator.pickle_form / from_pickle_form", T + "core.py"), ("__deepcopy__ of Index, IndexedField, Operator", T + "core.py")], ["Operator.from_pickle_form"])

p("C12", "Reported U(1) symmetries are exactly the conserved charges",
  "For a Lagrangian, the reported U(1) symmetries form a basis of all charge assignments to SM and exotic fields conserved by every interaction term involving an exotic and by the SM Yukawa couplings: each reported symmetry is conserved, every conserved assignment is a combination of them, and none is redundant. Real and Majorana exotics carry no charge and Dirac partners carry opposite ones. A term's charge row counts each field with multiplicity, conjugates negatively.",
  "inputs", "all real charge vectors; Lagrangians from symbolic term contents",
  "Completeness of a null space quantifies over all charge vectors; the test checks one count.",
  [T + "lagrangian.py"], [("Lagrangian.u1_symmetries, term_to_row, contains, clean_fields", T + "lagrangian.py")], ["Lagrangian.u1_symmetries", "Lagrangian.num_u1_symmetries"])

p("C13", "Hilbert-series terms expand into every derivative placement",
  "Parsing a Hilbert-series term yields field lists with exactly the fields and powers in the term, with the derivatives distributed over them in every way and no other. Each derivative acting on a field yields exactly the Lorentz labels reachable by the allowed unit steps, and the result carries the requested number of derivatives.",
  "inputs", "all field powers and derivative orders within bounds; all Lorentz labels within bounds",
  "Tests parse a few fixed series.",
  [T + "parse_hs.py"], [("deriv_possibilities, distribute_derivatives, parse_hs, proc_term", T + "parse_hs.py")], ["parse", "deriv_possibilities"])

p("C14", "Duplicate removal keeps exactly one representative per class",
  "Removing equivalent items keeps, in the original order, the first item of every class and nothing else: no two kept items are equivalent and every removed item is equivalent to an earlier kept one. The in-place version changes the given list, the copying version leaves it untouched and returns the kept items.",
  "inputs", "all lists up to the stated length and all equivalence relations (and, for the pairwise claims, all relations) on them",
  "Quantifies over all relations on the list; tests use none directly.",
  [U + "functions.py"], [("remove_equivalent, remove_equivalent_nopop, dropped_vals", U + "functions.py")], ["remove_equivalent", "remove_equivalent_nopop"])

p("C15", "Textual quantum numbers conjugate like the fields they describe",
  "Conjugating the textual form of a field's quantum numbers twice gives the text back, and conjugating the text of an exotic field gives the text of the conjugated field, for every hypercharge and baryon number; SM fields gain or lose the conjugation suffix. Conjugating a term conjugates every field in it and returns it sorted, so it does not depend on the order of the fields.",
  "inputs", "all rational hypercharges and baryon numbers, all colour and isospin digits, all SM labels",
  "Tests do not cover the textual form; charges are unbounded rationals with sign and zero cases.",
  [U + "functions.py"], [("stringify_qns, negate_u1, conjugate_field, conjugate_term", U + "functions.py")], ["conjugate_field", "conjugate_term", "stringify_qns"])

p("C16", "Pattern matching is sound and complete",
  "Matching a pattern with variables against data succeeds exactly when some assignment of the variables turns the pattern into the data, and the returned assignment does so; repeated variables must match equal data. A match without variables returns the empty assignment and a failed match returns False.",
  "inputs", "all patterns and data of the stated nested shapes over symbolic leaves, with variables repeated in any way",
  "There are no tests for the matcher; soundness and completeness range over all patterns and data.",
  [U + "match.py"], [("pattern_match, is_match, pmatch", U + "match.py")], ["pmatch", "is_match"])

p("C17", "Collection and text helpers do what they say for every input",
  "Flattening keeps every leaf in order; chunking splits a list into consecutive pieces of the given size that concatenate back to it; multiset comparison is true exactly when both collections hold the same items equally often; folding from the right and iterating to a fixed point agree with their definitions; the factors of a number are exactly its divisors. Simultaneous text replacement replaces every occurrence of a key by its value without rewriting replaced text.",
  "inputs", "all inputs within the stated sizes over symbolic elements and characters",
  "Several helpers are never executed by the tests.",
  [C + "utils.py", U + "functions.py", T + "utils.py"], [("flatten, chunks, factors, multiple_replace, multiset_equality, foldr, fixedpoint", C + "utils.py"), ("strip_parens, is_linear_in_deriv", T + "utils.py")], ["completions.utils"])

p("C18", "Every interaction of a completion is a neutral, Lorentz-invariant term",
  "Every Lagrangian term of every completion of an operator is neutral under hypercharge (and under baryon number where no real exotic would have to carry any) and has no free gauge or Lorentz index, for every assignment of charges to the operator's fields under which the operator itself is neutral. No completion contains a vector or higher-spin exotic, every term is renormalisable, and none vanishes identically; a coupling is given up as vanishing only if it does.",
  "inputs", "all charge assignments to the external fields of the stated operators (rational, unbounded), all topologies and partitions of those operators",
  "Tests run completions at SM charges and count models; gauge invariance must hold for all charges and vertices.",
  [C + "completions.py"], [("contract, exotic_field_and_term, check_charges, check_singlet", C + "completions.py"), ("construct_completion", C + "completions.py")], ["operator_completions"])

p("C19", "An exotic carries exactly the quantum numbers flowing through its line",
  "In every completion, cutting the line of an exotic splits the operator's fields in two sets, and the exotic's charges equal, up to an overall sign, the sum of the charges of one side; it is a fermion exactly when each side holds an odd number of fermions. The exotics are in one-to-one correspondence with the internal lines, up to repeated fields, and all external legs carry the operator's fields. The same fields contracted into the same representation at two vertices produce the same exotic, and exotics of one name are one field.",
  "inputs", "all charge assignments to the external fields of the stated operators, all topologies and partitions",
  "Tests compare a few published models at SM charges only.",
  [C + "completions.py"], [("exotic_field_and_term, replace_and_mutate, get_connecting_edge, partition_completion", C + "completions.py")], ["Completion.exotics", "Completion.graph", "Completion.partition"])

p("C20", "The summary of an exotic does not depend on its conjugation",
  "The quantum-number summary of an exotic states its Lorentz type, colour and isospin labels and charges, with hypercharge never negative; a field and its conjugate with non-zero hypercharge have the same summary, and fields with different representations or charges (up to conjugation) have different summaries. The printed form shows the right SU(3) and SU(2) dimensions, marks antifundamental-like colour, and prints both charges.",
  "inputs", "all rational charges and all Dynkin digits within bounds",
  "Tests print a few examples; the claim is about all charges, including zero and negative, and all representations.",
  [C + "core.py"], [("Completion.exotic_info, exotic_fields, format_quantum_numbers, Model.exotic_numbers", C + "core.py")], ["Completion.exotic_info", "Model"])

p("C21", "Vertices are allowed exactly when their Lorentz structure is",
  "A vertex of fields without derivatives is allowed exactly when it yields a scalar or a spin-half field: two scalars, a scalar and a fermion, two fermions of the same chirality, three or four scalars, or two like fermions and a scalar; two opposite-chirality fermions and three fermions are rejected. The spinor contractions returned pair up distinct free spinor indices of those fields, leaving at most one.",
  "inputs", "all combinations of Lorentz types (and derivative counts, where stated) for vertices of two to four fields",
  "Tests exercise only vertices that occur in a few operators.",
  [C + "completions.py"], [("get_lorentz_epsilons, all_scalars, all_fermions, drop_scalar", C + "completions.py")], ["get_lorentz_epsilons"])

p("C22", "Distributing fields over a topology uses each field once, everywhere",
  "Distributing an operator's fields over a topology places every field exactly once, scalars only on scalar lines and fermions only on fermion lines, leaves the node numbers and shape untouched, and yields every such placement exactly once. Grouping internal lines by their vertices finds the one line that leaves the two given vertices.",
  "inputs", "all partition templates of the stated shapes with symbolic scalar/fermion labels and all field lists with symbolic statistics",
  "Tests show one documented template; the claim is over all templates and fields.",
  [C + "completions.py"], [("replace, replace_fields, distribute_fields, quick_remove_equivalent_partitions, node_dictionary, get_connecting_edge", C + "completions.py")], ["distribute_fields", "partitions"])

p("C23", "Exotics get the right field class, partner and mass term",
  "An exotic field is treated as real (Majorana or real scalar) exactly when its hypercharge is zero, its colour representation is self-conjugate and its isospin is integer, and as complex otherwise; it keeps label, indices, charges, LaTeX name and conjugation flag, and so do its conjugate (with the signs turned) and its copies. The partner of a Dirac fermion has opposite charges and conjugate colour and is undone by taking the partner again; lowering its SU(2) indices renames each one and adds one epsilon for it. Every exotic's mass term is a neutral singlet of the field and its partner.",
  "inputs", "all rational charges and all colour, isospin and spinor labels within bounds",
  "Tests build two or three exotics at fixed charges.",
  [C + "core.py"], [("cons_completion_field, assert_real_rep, dirac_partner, majorana_partner, swap_colour_indices, mass_term, lower_su2", C + "core.py"), ("Field.is_real_sm_irrep", T + "core.py")], ["cons_completion_field", "mass_term"])

p("C24", "Cleaning completions keeps one per Lagrangian and topology",
  "Cleaning a list of completions keeps exactly one completion for every distinct pair of topology and interaction content, where contents are compared as multisets of terms and each term is identified with its conjugate; nothing that differs is lost and nothing is invented. The result does not depend on the order of fields in a term or of terms in a completion, and is sorted by topology.",
  "inputs", "all lists of completions up to the stated size whose terms hold fields with symbolic quantum numbers",
  "Tests check a few final counts; distinctness must hold for all quantum-number coincidences.",
  [C + "completions.py", U + "functions.py"], [("clean_completions, cons_term_prime_dict, completion_characteristic_number", C + "completions.py")], ["clean_completions"])

p("C25", "Grouping completions by field content loses nothing",
  "Collecting completions by field content assigns every given completion to exactly one group, keyed by the sorted set of its exotics' quantum numbers, and two completions share a group exactly when these sets are equal, whatever order the completions come in. The models built from the groups hold the same completions.",
  ["inputs", "histories"], "all sequences of up to the stated number of completions with symbolic exotic quantum numbers",
  "The order in which completions are generated decides adjacency; tests only count groups for particular orders.",
  [C + "completions.py"], [("collect_completions, collect_models", C + "completions.py")], ["collect_completions", "collect_models"])

p("C26", "Filtering removes exactly the models that extend a known one",
  "Filtering completions against a sieve removes a model exactly when the field content of some sieve model is contained in it, and keeps every other model with its completions unchanged. Every distinct field is given its own prime and a model's number is the product over its fields.",
  "inputs", "all sets of models and sieves up to the stated size over symbolic field quantum numbers",
  "Tests filter two published operators; the equivalence ranges over all contents and overlaps.",
  [C + "completions.py", C + "utils.py"], [("filter_completions, prime_registry, model_registry", C + "completions.py"), ("factors", C + "utils.py")], ["filter_completions"])

p("C27", "Operator bookkeeping: dimension, topology type and derivative placement",
  "An effective operator's mass dimension is the sum of one per scalar, three halves per fermion and one per derivative, and its topology type counts scalars and fermions. Moving the derivatives of an operator around yields every placement with at most one derivative on a field once, up to vanishing ones, keeping fields, charges and gauge contractions.",
  "inputs", "all field lists within bounds with symbolic Lorentz type, derivative count and charges",
  "Tests check a few catalogued operators.",
  [C + "core.py", C + "completions.py", T + "core.py"], [("EffectiveOperator.mass_dimension, topology_type", C + "core.py"), ("Field.mass_dim", T + "core.py"), ("derivative_combinations, operator_strip_derivs, construct_operator", C + "completions.py")], ["EffectiveOperator.mass_dimension", "derivative_combinations"])

p("C28", "Model numbers divide exactly when contents are included",
  "In a model database, a field and its conjugate share one prime and different fields have different primes; likewise for interaction terms. One model's number divides another's exactly when its field content (democratic) or its list of interaction terms with multiplicity (stringent) is contained in the other's, each up to conjugation.",
  "inputs", "all databases up to the stated size whose models hold symbolic quantum numbers and terms",
  "The database module is never executed by the working tests.",
  [D + "database.py"], [("ModelDatabase.__init__, democratic_model_number, stringent_model_number, model_number", D + "database.py")], ["ModelDatabase.model_number"])

p("C29", "The neutrino-mass filter removes exactly the subleading models",
  "Filtering a database by neutrino mass removes a model exactly when some model still present of an operator with a strictly higher new-physics scale has its content contained in the removed model's content; models of equal or higher scale are never removed. Operators, their order and the surviving models' order are kept.",
  ["inputs", "histories"], "all databases up to the stated size, all scales, all contents",
  "Never executed by tests; the rule ranges over all scale orders and content overlaps.",
  [D + "database.py"], [("filter_model_by_mass, filter_models_by_mass, filter_by_mass", D + "database.py")], ["ModelDatabase.filter_by_mass"])

p("C30", "The dimension filter removes exactly the higher-dimensional extensions",
  "Filtering a database by operator dimension removes a model exactly when some model still present of an operator of strictly lower mass dimension has its content contained in the removed model's content. The rejection table adds, for each pair of operators, the fraction of the models then present that each rejecting model removes; entries for operators that cannot reject stay zero.",
  ["inputs", "histories"], "all databases up to the stated size, all operator dimensions, all contents",
  "Never executed by tests.",
  [D + "database.py"], [("filter_model_by_dimension, filter_models_by_dimension, filter_by_dimension", D + "database.py")], ["ModelDatabase.filter_by_dimension"])

p("C31", "The one-loop Weinberg filter drops exactly the dominated models",
  "Given the numbers of models that generate the dimension-five operator at one loop, the filter removes a model exactly when one of these numbers divides its own and its operator's scale lies below the one-loop dimension-five scale; all other models and all other operators are untouched.",
  "inputs", "all scales, all contents and all lists of numbers up to the stated size",
  "Never executed by tests.",
  [D + "database.py"], [("filter_one_loop_weinberg", D + "database.py")], ["ModelDatabase.filter_one_loop_weinberg"])

p("C32", "Removing equivalent models keeps one model per content",
  "Removing equivalent models from a database keeps, for every operator separately, the first model of each field content (democratic) or interaction content (stringent), up to conjugation, and drops nothing else. Models of different operators never affect each other and running it again changes nothing.",
  "inputs", "all databases up to the stated size with symbolic contents, both philosophies",
  "Never executed by tests.",
  [D + "database.py", U + "functions.py"], [("remove_equivalent_models, democratic_/stringent_remove_equivalent_models", D + "database.py")], ["ModelDatabase.remove_equivalent_models"])

p("C33", "Queries and the seesaw filter select exactly the matching models",
  "Querying a database returns, per operator and in order, exactly the models satisfying the predicate and leaves the database unchanged; filtering by a query makes that selection permanent. The seesaw filter rejects exactly the models containing a type-I, II or III seesaw field, and pattern queries on a model's fields or interactions answer by matching some field, or some single interaction against all patterns.",
  "inputs", "all databases up to the stated size, all predicates, all quantum numbers and interactions",
  "Never executed by tests.",
  [D + "database.py"], [("query, filter_by_query, no_seesaws", D + "database.py"), ("LazyCompletion.contains_field, contains_interaction", D + "database.py")], ["ModelDatabase.query", "LazyCompletion.contains_interaction"])

p("C34", "Ordering and processing a database keep every operator and model",
  "Ordering sorts the operators by decreasing new-physics scale, or increasing dimension, and changes neither their models nor their number; it can be applied to any database, from files or given data, before filtering. Processing equals optional seesaw removal, then duplicate removal, ordering and filtering, and expanding stored models to full ones keeps every operator with one full model per stored one, once.",
  ["inputs", "histories"], "all databases up to the stated size, all scales and dimensions, every order of the public steps",
  "Never executed by tests.",
  [D + "database.py"], [("order, order_by_mass, order_by_dimension, process, force, filter", D + "database.py")], ["ModelDatabase.order", "ModelDatabase.force", "ModelDatabase.process"])

p("C35", "Related models share at least two exotics, and exclude the model itself",
  "Looking up the models related to one model returns exactly the other models whose whole field content is a combination of two or more of its fields, each listed once, for every model in the table including single-field ones. Building the table numbers every field and every term apart and lists each field of a model once; the number of a field's name leads back to that name or its conjugate.",
  "inputs", "all tables up to the stated size with symbolic model contents, every row",
  "The table class is never executed by tests.",
  [D + "database.py", D + "utils.py"], [("ModelDataFrame.related_models, new", D + "database.py"), ("subsets", D + "utils.py")], ["ModelDataFrame.related_models"])

p("C36", "Exported completions reload to the same completion",
  "Text exported for a tensor, operator or completion evaluates back to an equal object: same fields with labels, indices, charges, flags and LaTeX, same invariant tensors, terms, exotics, graph and partition, including which half of a Dirac fermion a field is. The lazy form's header lists the operator name, one normalised quantum-number string per exotic, the terms and the topology.",
  "inputs", "all exotic charges, flags and labels within bounds, all completions of the stated operators",
  "Export tests do not run here and use SM charges and plain labels only.",
  [D + "export.py", D + "database.py"], [("export_tensor, export_operator, export_completion", D + "export.py"), ("LazyCompletion.force", D + "database.py")], ["export_completion", "LazyCompletion.force"])

p("C37", "Operator components are expanded completely and with the right signs",
  "Expanding an operator into its isospin components for the closure estimate yields exactly one product of components for each assignment of isospin components on which no epsilon tensor vanishes, with every index name matched as a whole, so every product carries electric charge equal to the operator's hypercharge. Derivatives are stripped without changing the field content.",
  "inputs", "all values of the fields' isospin components, for operators with up to four epsilons",
  "Tests check two operators' component lists.",
  [D + "closures.py"], [("parse_operator", D + "closures.py")], ["parse_operator"])

p("C38", "Closure rewriting conserves charge and counts loops and vevs consistently",
  "Each step of the closure rewriting replaces fields by fields of the same total electric charge, baryon and lepton number and statistics, preserves the parity of SU(2) doublets and vevs together and of each Yukawa coupling with its singlet, and counts loops as Euler's formula requires; a pair of conjugate fields closes into exactly one loop factor. The estimate collects exactly the constants of the rewritten diagram.",
  ["inputs", "histories"], "all multisets of fields (unbounded counts) and all rewriting sequences, by one inductive step",
  "Tests close the catalogued operators; the rules must be sound on every intermediate state.",
  [D + "closures.py"], [("RULES, apply_rules, fixed_point, clean", D + "closures.py")], ["neutrino_mass_estimate"])

p("C39", "The new-physics scale estimate is the scale that reproduces the mass",
  "The numerical scale returned for a neutrino-mass expression is positive and, inserted back, reproduces the assumed neutrino mass; no other positive scale does, up to a relative tolerance of 1e-6. The numerical mass at one TeV is the expression's value there, and larger expressions never give smaller scales.",
  "inputs", "all expressions with loop, Yukawa, gauge and vev-loop powers within bounds, and all positive scales",
  "Tests compare published numbers only; the root must be unique over all positive reals.",
  [D + "closures.py"], [("numerical_np_scale_estimate, numerical_mv", D + "closures.py")], ["numerical_np_scale_estimate"])

p("C40", "Loop counts and leading estimates are read off correctly",
  "The loop data of an estimate are its power of plain loop factors and the possible extra loops from vev-or-loop factors, for every power up to seven; the leading estimate is one of the operator's estimates and none of the others exceeds it. Listing subsets yields every subset exactly once, in order of size.",
  "inputs", "all powers of loop factors within bounds, all lists of estimates, all sets up to the stated size",
  "Tests cover a handful of operators.",
  [D + "utils.py", D + "closures.py"], [("loop_data, get_leading_mv, table_data, subsets, estimate_np_scale", D + "utils.py")], ["loop_data", "get_leading_mv", "subsets"])

p("C41", "Mixing matrices are unitary for all angles and phases",
  "The mixing matrix built from three angles and phases is unitary for every value of the angles and phases, in both its numeric and symbolic form, and both forms agree; with zero angles and phases it is the identity. Its columns and Hermitian conjugate, in both forms, are those of the matrix; the measured PMNS and CKM matrices use the measured angles and phases, in radians; and the |U_e3| entry equals the sine of the 1-3 angle.",
  "inputs", "all angles and phases (cosine/sine pairs on the unit circle, over the reals)",
  "Unitarity is an identity over a six-dimensional torus; no test touches it.",
  [A + "utils.py"], [("UnitaryMatrix", A + "utils.py")], ["UnitaryMatrix"])

p("C42", "Fitted Yukawa couplings reproduce the neutrino mass matrix",
  "For every non-zero free parameter and mass scale, the couplings of the two-coupling neutrino-mass model satisfy m0 (x_i Z_j + x_j Z_i) equal to the light neutrino mass matrix built from the measured mass splittings and mixing matrix, for every pair of flavours; rescaling the free parameter leaves it unchanged.",
  "inputs", "all complex non-zero parameters and positive mass scales",
  "No test imports the module; the identity holds for a continuum of parameters.",
  [A + "flavour_anomalies.py", A + "utils.py"], [("x, Z", A + "flavour_anomalies.py")], ["x", "Z"])

p("C43", "Equivalence of completions is relabelling of exotics",
  "Two completions are reported equivalent when one is obtained from the other by renaming exotic fields, reordering terms or relabelling contracted indices, and never when their exotics' quantum numbers, their terms or the number of terms differ; several exotics with equal quantum numbers may be exchanged. Conjugating an exotic is not a renaming. The relation is reflexive and symmetric, and comparing leaves both unchanged.",
  "inputs", "all exotic charge assignments (equal ones included) and all injective renamings of exotics for the stated completions",
  "Tests compare completions at SM charges and default labels.",
  [C + "completions.py", C + "utils.py"], [("compare_terms, check_remapping_on_terms, are_equivalent_completions", C + "completions.py"), ("multiple_replace", C + "utils.py")], ["are_equivalent_completions"])

p("C44", "Enumerated models agree with the published counts",
  "The numbers of models, filtered models and completions per operator reproduce the published tables of the exploding-operators study.",
  "inputs", "every catalogued operator",
  "Takes days of computing and the published database, which is missing from this copy.",
  [C + "completions.py", D + "database.py"], [("operator_completions", C + "completions.py")])

p("C45", "Operator lists are complete with respect to the Hilbert series",
  "The catalogue of lepton-number-violating operators contains, for every term of the dimension 5 to 11 Hilbert series, a complete and independent set of operators.",
  "inputs", "all Hilbert-series terms",
  "Completeness needs independence modulo integration by parts and equations of motion.",
  [T + "hs.py", T + "parse_hs.py", C + "operators.py"], [("H7_LNV, H9_LNV, H11_LNV", T + "hs.py")])

p("C46", "Topology data contain every tree topology exactly once",
  "For each number of external scalars and fermions the shipped topology data list every tree-level topology of renormalisable vertices exactly once.",
  "configurations", "all external-leg numbers",
  "The data are Mathematica output files, not code.",
  [C + "topologies.py"], [("get_topology_data", C + "topologies.py")])

p("C47", "The full Lagrangian contains exactly the renormalisable interactions",
  "Generating the full Lagrangian of a set of exotics yields every cubic and quartic interaction of mass dimension at most four that involves an exotic (or a Dirac fermion's partner), the SM fields and their conjugates: each is neutral, has no free gauge or Lorentz index and does not vanish identically; a combination of fields is present exactly when it has such an invariant. Interactions without flavour are not repeated, there is one mass term per exotic field, and the number of U(1) symmetries is that of these interactions. Terms with n factors generated from any list of fields contain exactly the neutral combinations that have an invariant.",
  "inputs", "all rational hypercharges of the exotics and of the fields",
  "One test looks at one leptoquark; which interactions exist changes with the hypercharge, over all rationals.",
  [T + "lagrangian.py", T + "contract.py", T + "core.py"], [("generate_uv_terms, npoint_terms, Lagrangian.generate_full, clean_fields, contains", T + "lagrangian.py"), ("Operator.safe_simplify", T + "core.py")], ["Lagrangian.generate_full", "npoint_terms"])

p("C48", "The LaTeX of an operator shows its fields and its contraction structure",
  "The LaTeX of an operator prints each field once by its symbol (tilde for a conjugated multiplet of isospin, dagger for a conjugated singlet, D and brackets for derivatives), gives every index of a shown type its own letter of that type's alphabet, and prints one epsilon or delta with exactly the letters of the indices it contracts, also for symbols contracted with each other. Index types that are to be ignored are left out altogether. The text does not depend on earlier calls; SM fields come in the order leptons, quarks, Higgs.",
  "inputs", "all contraction structures of the stated lists of fields, all charges of the exotics",
  "No test looks at LaTeX; the number of contraction structures grows factorially.",
  [T + "core.py", T + "utils.py"], [("Operator.latex, IndexedField.latex_and_pop, Field.get_latex", T + "core.py"), ("to_tex", T + "utils.py")], ["Operator.latex"])

p("C49", "The JSON export of a completion records everything",
  "The JSON record of a completion can be written as JSON and holds, for every tensor of the operator, the terms and the exotics, what kind it is, its label, conjugation, indices by type, and for exotics the charges, labels of the representation, statistics, symmetry, LaTeX and the half of a Dirac fermion; for differentiated SM fields the bare label and the Lorentz labels; further the operator's name, the shape and leaves of the partition, and the graph's nodes and edges with the fields on them.",
  "inputs", "all charges, representations within bounds, all stated completions at symbolic charges",
  "No test imports the module.",
  [D + "json_serialiser.py"], [("export_tensor, export_operator, export_partition, export_graph, export_completion", D + "json_serialiser.py")], ["export_completion"])

p("C50", "The one-loop Weinberg tables close at every vertex and miss no structure",
  "Every row of the tables of one-loop models for the Weinberg operator closes at every vertex of its diagram for every hypercharge parameter: hypercharge is conserved, colour is constant round the loop and isospin representations couple with the lepton and Higgs doublets attached. Up to the stated size of isospin representations, no assignment that closes is missing.",
  "inputs", "all hypercharge parameters (rational), all isospin dimensions and colours of the tables' fields within bounds",
  "No test looks at the tables; they stand for infinitely many models.",
  [D + "heavyloops.py"], [("tbl_2_1, tbl_2_2, tbl_2_3, tbl_3_1", D + "heavyloops.py")], ["heavyloops tables"])

p("C51", "Vertices with derivatives become the interactions without them",
  "A diagram of a derivative operator completes exactly when, with the derivatives taken off, scalars or two fermions of one chirality meet at each vertex and no coupling vanishes; each vertex then has its own fields without derivatives, with their charges, gauge indices and contractions, and the exotic, and is a neutral renormalisable singlet. Like pairs of fields produce one exotic, on each of their lines, and couple unless their coupling is antisymmetric. The completions of a derivative operator are those of every placement of its derivatives. Of several field strings the one with the most structures is kept, of those with one derivative at most on a field and no higher spin.",
  "inputs", "all charges of the fields at the vertices, all Lorentz types and derivative placements within bounds",
  "Tests check that a few derivative terms are processed at all, at SM charges.",
  [C + "completions.py", C + "core.py", T + "deriv_operators.py"], [("process_derivative_term, contract, exotic_field_and_term, construct_completion, deriv_operator_completions, completions", C + "completions.py"), ("MajoranaFermion, VectorLikeDiracFermion", C + "core.py"), ("remove_unwanted_deriv_structures, keep_longest_invariants, label_operators", T + "deriv_operators.py")], ["partition_completion", "completions", "deriv_operators"])

p("C52", "Operator generation lists exactly the neutral combinations with a singlet",
  "Generating operators or field strings from a list of fields yields, for every combination of the fields (and their conjugates and a derivative, where these are included) up to the given number or mass dimension, exactly those which are neutral, have a singlet and pass the given selection; operators come with each of their singlets, field strings once. The dimension of a product is the sum of its fields', its charges are the sums of theirs, and the given list is left alone, as are the fields themselves: standard model fields carry their lepton number only in what is returned, and go on with exotics that carry none.",
  "inputs", "all hypercharges and lepton numbers of the fields",
  "No test generates operators; which combinations are neutral changes with the charges, over all rationals.",
  [T + "smeft.py", T + "lagrangian.py"], [("generate_operators, prod_mass_dim", T + "smeft.py"), ("npoint_fieldstrings, generate_fieldstrings, prod_mass_dim", T + "lagrangian.py")], ["generate_operators", "npoint_fieldstrings", "generate_fieldstrings"])

with open(OUT, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
