"""The property list: the single source of properties.jsonl (see tools/gen.py)."""

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": list(over), "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": list(files),
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


TM = "neutrinomass/tensormethod/"
CO = "neutrinomass/completions/"
DB = "neutrinomass/database/"
UT = "neutrinomass/utils/"

prop(
    "C01",
    "Conjugation is an involution that reverses every quantum number",
    "Conjugating a field, a field carrying indices, an exotic field or an index gives the "
    "antiparticle: every additive charge changes sign, undotted and dotted spinor content are "
    "exchanged, raised and lowered colour are exchanged, isospin and generation are left alone, and "
    "statistics, derivative count and number of generations are unchanged. Conjugating twice gives back an object equal to the "
    "original, and fields that compare equal hash equal.",
    ["inputs"],
    "every field over Lorentz x SU(3) x SU(2) with any charges (base, derivative, and the four exotic "
    "field classes) and every index string valid for it",
    "core_test checks one or two hand-picked fields; conjugation of general irreps, of fields with "
    "derivatives and of the exotic classes is only exercised in passing.",
    [TM + "core.py", CO + "core.py"],
    [
        ("Index.conj, Field.conj, IndexedField.conj", TM + "core.py"),
        ("VectorLikeDiracFermion.conj, MajoranaFermion.conj_indices", CO + "core.py"),
    ],
    ["Field.conj", "IndexedField.conj", "Index.conj", "Field.__eq__/__hash__"],
)

prop(
    "C02",
    "Products of fields decompose into exactly the right irreducible parts",
    "Decomposing a product of two or more fields yields every irreducible representation of "
    "Lorentz x SU(3) x SU(2) in the tensor product with its true multiplicity and nothing else, so the total "
    "dimension is conserved and the order of the factors does not matter. Each part carries the sum of the "
    "charges, and its recorded product tree contains exactly the multiplied fields in order.",
    ["inputs"],
    "all products of two to five fields with arbitrary small irreps and rational charges",
    "The tests look at one or two products of fixed fields; the statement is about every product.",
    [TM + "core.py"],
    [("Field.__mul__, decompose_product, Field.walked", TM + "core.py")],
    ["decompose_product", "Field.__mul__", "Field.walked"],
)

prop(
    "C03",
    "Constructed operators are genuine singlets of the requested fields",
    "Every operator produced by contracting a list of fields contains exactly those fields, each as often as "
    "asked for, has no free Lorentz, colour or isospin index of a kind it was asked to contract, and its value is unchanged when all its fields are "
    "transformed by the same Lorentz, colour and isospin group element. If no singlet of zero total hypercharge "
    "exists, nothing is returned.",
    ["inputs"],
    "every multiset of two to five SM, exotic or derivative fields, with any subset of index kinds left "
    "uncontracted",
    "contract_test compares a handful of index strings (several tests there are empty); none evaluates an operator.",
    [TM + "contract.py", TM + "core.py"],
    [
        ("construct_operators, contract_su2, colour_singlets, lorentz_singlets", TM + "contract.py"),
        ("eps, delta, Operator.__mul__", TM + "core.py"),
    ],
    ["invariants", "unsimplified_invariants", "colour_singlets", "lorentz_singlets"],
)

prop(
    "C04",
    "Contraction enumerates every independent singlet structure",
    "The structures returned for a list of fields span the whole space of invariants of those fields: no "
    "independent way of contracting the isospin, spinor or colour indices is lost. Contracting one kind of SU(2) "
    "index of an operator returns each perfect pairing of its indices exactly once, and contracting n raised with n lowered colour indices returns all n! pairings.",
    ["inputs"],
    "every multiset of fields with a singlet, and every operator with free indices",
    "The tests check the number of structures for two or three operators; completeness is a rank statement for every product.",
    [TM + "contract.py"],
    [
        ("epsilon_combos, su2_singlets_type, colour_singlets", TM + "contract.py"),
        ("contract_su2_helper, construct_operators, invariants", TM + "contract.py"),
    ],
    ["unsimplified_invariants", "invariants", "su2_singlets_type", "lorentz_singlets", "colour_singlets"],
)

prop(
    "C05",
    "Simplification never changes what an operator is",
    "Simplifying an operator returns zero only if the operator vanishes identically once the statistics of its fields are taken "
    "into account, and otherwise an expression equal to it up to a nonzero number. Removing vanishing and duplicate "
    "operators from a list drops no nonzero operator that is not a multiple of a kept one, and two operators "
    "are called equivalent only if they are proportional.",
    ["inputs"],
    "every operator over fermionic and bosonic fields with repeated fields, one or three generations, and any pairing of its indices",
    "The tests check a few vanishing and non-vanishing examples; soundness is a statement about every operator.",
    [TM + "core.py", TM + "contract.py"],
    [
        ("Operator.simplify, safe_simplify, is_equivalent_to, fill_free_indices", TM + "core.py"),
        ("clean_operators", TM + "contract.py"),
    ],
    ["Operator.simplify", "Operator.safe_simplify", "clean_operators", "Operator.is_equivalent_to"],
)

prop(
    "C06",
    "Operators survive storage unchanged",
    "Turning an operator into its storable form, pickling and unpickling that form, and rebuilding the operator "
    "gives an operator with the same fields, charges, derivative and generation data, indices and invariant tensors, in a form that "
    "compares and simplifies identically. The shipped operator catalogue therefore loads as singlets of the "
    "stated content, with zero hypercharge and two units of lepton number.",
    ["inputs"],
    "every operator built from SM, derivative and exotic fields contracted with SU(2) and SU(3) epsilons, and all catalogue entries",
    "The tests never round-trip an operator; the catalogue is loaded but not validated.",
    [TM + "core.py", CO + "operators.py"],
    [
        ("Operator.pickle_form, Operator.from_pickle_form", TM + "core.py"),
        ("EFF_OPERATORS, DERIV_EFF_OPERATORS", CO + "operators.py"),
    ],
    ["Operator.pickle_form", "Operator.from_pickle_form", "EFF_OPERATORS", "DERIV_EFF_OPERATORS"],
)

prop(
    "C07",
    "Indices always match the representation of the field that carries them",
    "A field accepts a string of indices exactly when their kinds, heights and numbers match its representation, and the field "
    "with indices reports that same representation. Fresh indices are never "
    "reused, substituting indices changes exactly the named ones on the copy and leaves the rest and the original alone, raising or lowering twice is the identity, "
    "and relabelling an operator's free indices preserves its content and contractions.",
    ["inputs", "histories"],
    "every field, every index string (valid or not), every substitution and every sequence of requests for fresh indices",
    "The tests use a few well-formed index strings; rejection, freshness and substitution are not tested.",
    [TM + "core.py"],
    [
        ("Field.__call__, assert_consistent_indices, get_dynkin", TM + "core.py"),
        ("Index.fresh, Index.fresh_indices, substituted_indices, fill_free_indices", TM + "core.py"),
    ],
    ["Field.__call__", "Field.fresh_indices", "IndexedField.substituted_indices", "Operator.fill_free_indices"],
)

prop(
    "C08",
    "Hilbert-series terms are translated into exactly their field content",
    "Parsing a Hilbert series yields, for each of its terms, field lists whose fields (with derivatives removed) are that "
    "term's fields with the right multiplicities and whose total number of derivatives is that term's power of D. Every "
    "way of distributing the derivatives over the fields appears, with each derivative raising both spinor labels of its field, exchanging one for the other "
    "on a fermion or lowering both on a boson, and nothing else does.",
    ["inputs"],
    "every polynomial in the SM fields, their conjugates, the field strengths and D, as a sum or a single term",
    "hs_test is an empty test; parsing is only run on three fixed series with no oracle.",
    [TM + "parse_hs.py", TM + "hs.py", TM + "deriv_operators.py"],
    [
        ("distribute_derivatives, parse_hs, proc_term, deriv_possibilities", TM + "parse_hs.py"),
        ("remove_unwanted_deriv_structures", TM + "deriv_operators.py"),
    ],
    ["parse", "distribute_derivatives", "deriv_possibilities"],
)

prop(
    "C09",
    "Derivatives add one vector index and can be removed without trace",
    "Acting with a derivative is allowed exactly when the requested spinor content differs by one undotted and one "
    "dotted index; the result keeps charges, colour, isospin, conjugation, statistics and generations and counts one more "
    "derivative. Removing all derivatives gives back the original field, and moving an operator's derivatives over its fields produces "
    "each placement once, preserving the field content and gauge contractions.",
    ["inputs"],
    "every SM or exotic field, every chain of derivatives, and every operator with at most one derivative per field",
    "core_test looks at two derivatives of L; chains, conjugated fields and redistribution are unchecked.",
    [TM + "core.py", CO + "completions.py"],
    [
        ("D, strip_derivs, strip_derivs_with_indices", TM + "core.py"),
        ("operator_strip_derivs, construct_operator, derivative_combinations", CO + "completions.py"),
    ],
    ["D", "strip_derivs", "derivative_combinations"],
)

prop(
    "C10",
    "Every exotic field gets the right class, partner and mass term",
    "An exotic is treated as real (real scalar or Majorana fermion) exactly when its gauge representation is real, and as complex "
    "(complex scalar or vector-like Dirac fermion) otherwise, keeping its label, indices, charges and conjugation. Its mass partner carries the conjugate gauge representation and opposite hypercharge (and opposite baryon charge, if complex), taking the "
    "partner twice gives back the field, and its mass term is a nonzero gauge and Lorentz singlet with no hypercharge that contains exactly the field and its partner.",
    ["inputs"],
    "every scalar or fermion irrep of colour and isospin with any hypercharge and baryon charge, and any valid indices",
    "core_test covers four fixed fields; the claim ranges over all representations.",
    [CO + "core.py"],
    [
        ("cons_completion_field, lower_su2, mass_term, dirac_partner, majorana_partner, swap_colour_indices", CO + "core.py"),
    ],
    ["cons_completion_field", "mass_term", "dirac_partner", "majorana_partner", "swap_colour_indices"],
)

prop(
    "C11",
    "Every topology used is a valid tree diagram for the operator's fields",
    "For each number of scalars and fermions, the topologies offered consist of a partition and a graph that describe the same connected tree: its external legs are exactly "
    "the fields of the operator (right number of scalars and fermions, one leaf per external vertex), all internal vertices have three or four lines, and "
    "fields grouped together in the partition meet at a common vertex; every tree of cubic and quartic vertices with unbroken fermion lines is offered exactly once. Placing an operator's fields on a topology yields every distinct "
    "placement exactly once, each using every field once on a leg of its own kind, and labels each external line with the field on it.",
    ["inputs", "configurations"],
    "every shipped topology class and every assignment of distinguishable or repeated fields to it",
    "topology reading is tested on one file; the pairing of partitions with graphs and the placements are not.",
    [CO + "topologies.py", CO + "completions.py"],
    [
        ("get_topology_data, eval_partition, eval_graph", CO + "topologies.py"),
        ("replace, replace_fields, distribute_fields, set_external_fields, partitions", CO + "completions.py"),
    ],
    ["get_topology_data", "distribute_fields", "set_external_fields", "partitions"],
)

prop(
    "C12",
    "Every completion is a valid renormalisable Lagrangian",
    "Every interaction term of every completion found is a Lorentz and gauge singlet with zero hypercharge, has three or four fields, contains "
    "no derivative, has mass dimension at most four, and does not vanish identically. The exotic fields that appear in the "
    "terms, up to conjugation or mass partner, are exactly the exotics the completion lists, with consistent quantum numbers in every term. "
    "A way of attaching the fields of an operator without derivatives to a topology is given up only if one of the vertices it needs "
    "is not renormalisable or vanishes identically.",
    ["inputs"],
    "every partition of every catalogue operator, and of operators built from generated field content, with and without derivatives",
    "The tests check counts and field content for a few dimension-seven operators; each term of each completion is not inspected.",
    [CO + "completions.py", CO + "core.py"],
    [
        ("contract, exotic_field_and_term, get_lorentz_epsilons, separate_gauge_epsilons, process_derivative_term", CO + "completions.py"),
        ("replace_and_mutate, construct_completion, partition_completion", CO + "completions.py"),
    ],
    ["operator_completions", "deriv_operator_completions", "partition_completion"],
)

prop(
    "C13",
    "A completion's diagram reproduces the operator it came from",
    "Integrating the exotics out of a completion along its diagram, i.e. joining each exotic in one term to its partner in another, uses every "
    "exotic line exactly once, leaves exactly the fields of the effective operator as external lines and forms a connected tree with "
    "one term per internal vertex. Each internal line of the diagram is labelled by an exotic of the model and each exotic's quantum numbers equal the "
    "sum of those of the external fields on one side of its line.",
    ["inputs"],
    "every completion of every catalogue operator, and of operators built from generated field content",
    "Tests compare models against hand-written lists for a few operators; the term-to-diagram correspondence is not tested.",
    [CO + "completions.py"],
    [
        ("reduced_row, replace_and_mutate, get_connecting_edge, construct_completion, partition_completion", CO + "completions.py"),
    ],
    ["partition_completion", "Completion.graph", "Completion.exotics", "Completion.terms"],
)

prop(
    "C14",
    "The models found do not depend on how the operator is written",
    "The set of models (exotic quantum numbers, interactions and topologies) found for an operator is the same when "
    "its fields or invariant tensors are written in another order, its indices are renamed, or every field "
    "is replaced by its conjugate (which conjugates every model). Removing isomorphic partitions first loses no model.",
    ["inputs"],
    "every catalogue or generated operator and every reordering, renaming and conjugation of it",
    "The tests run each operator once, in its stored form.",
    [CO + "completions.py"],
    [
        ("partitions, distribute_fields, indexed_fields_with_counters, remove_isomorphic", CO + "completions.py"),
        ("contract, exotic_field_and_term", CO + "completions.py"),
    ],
    ["operator_completions", "clean_completions", "Completion.exotic_info"],
)

prop(
    "C15",
    "The U(1) symmetries reported for a Lagrangian are exactly its symmetries",
    "The symmetry vectors reported for a Lagrangian of SM and exotic fields are independent, leave every exotic interaction, every exotic mass term and the SM Yukawa "
    "couplings neutral, and their number equals the dimension of the space of all such charge assignments. The "
    "result does not depend on the order or repetition of terms, or on replacing a term by its conjugate, and no reported symmetry of a completion "
    "of a lepton-number-violating operator protects that operator.",
    ["inputs"],
    "every set of exotics and interaction terms, including those of every completion found",
    "lagrangian_test counts symmetries of two models.",
    [TM + "lagrangian.py"],
    [("Lagrangian.u1_symmetries, term_to_row, clean_fields, contains", TM + "lagrangian.py")],
    ["Lagrangian.u1_symmetries", "Lagrangian.num_u1_symmetries"],
)

prop(
    "C16",
    "The full Lagrangian of a model contains every allowed renormalisable term",
    "The full Lagrangian generated for a set of exotic fields contains, for every combination of three or four SM and exotic fields (or their conjugates or Dirac partners) of mass dimension at most four that includes an exotic and allows "
    "a gauge and Lorentz singlet that does not vanish identically, a full set of independent interactions with that content. Every interaction it contains is such a singlet, and no interaction appears twice. The other terms are the mass terms of the exotics.",
    ["inputs"],
    "every set of exotic scalars and fermions with arbitrary quantum numbers",
    "lagrangian_test generates one full Lagrangian and only counts its symmetries.",
    [TM + "lagrangian.py", TM + "contract.py"],
    [("generate_uv_terms, npoint_terms, Lagrangian.generate_full, contains", TM + "lagrangian.py")],
    ["Lagrangian.generate_full", "generate_uv_terms"],
)

prop(
    "C17",
    "Filtering keeps exactly the models with no simpler model inside them",
    "Filtering a collection of models against a sieve keeps a model exactly when no model of the sieve has a field content that is a "
    "subset of its own; nothing else is added, dropped or altered, and the outcome does not depend on the order of either collection. Collecting completions by field "
    "content loses none: each completion is listed exactly once, under its own field content.",
    ["inputs"],
    "every pair of collections of models over any set of exotic fields, and every sequence of completions to collect",
    "The tests filter two fixed operators against one another.",
    [CO + "completions.py", CO + "utils.py"],
    [("prime_registry, model_registry, filter_completions, collect_completions", CO + "completions.py"), ("factors", CO + "utils.py")],
    ["filter_completions", "collect_completions", "collect_models"],
)

prop(
    "C18",
    "Duplicate removal keeps exactly one representative of every class",
    "Removing duplicate completions leaves exactly one completion for every distinct pair of topology and multiset of interactions, where "
    "an interaction and its conjugate count as the same and two different interactions never do; each survivor is one of the inputs. The general "
    "duplicate-removal helpers keep, for any equivalence relation, exactly the first member of every class in the original order.",
    ["inputs"],
    "every list of completions or values with any pattern of repeats, including none and all",
    "Tests compare counts for a few operators; the helpers are tested on one list.",
    [CO + "completions.py", UT + "functions.py"],
    [
        ("clean_completions, cons_term_prime_dict, completion_characteristic_number", CO + "completions.py"),
        ("remove_equivalent, remove_equivalent_nopop, dropped_vals", UT + "functions.py"),
    ],
    ["clean_completions", "remove_equivalent", "remove_equivalent_nopop"],
)

prop(
    "C19",
    "Completions are equivalent exactly up to renaming of exotic fields",
    "Comparing two completions reports equivalence when one is obtained from the other by consistently renaming exotic fields, indices "
    "or generation labels or reordering terms, and the renaming it returns maps one onto the other. It reports no "
    "equivalence when their exotic quantum numbers, numbers of terms or interactions differ, and is symmetric.",
    ["inputs"],
    "every pair of completions whose exotics have distinct quantum numbers",
    "The tests compare completions of one operator with themselves.",
    [CO + "completions.py", CO + "utils.py"],
    [("compare_terms, check_remapping_on_terms, sort_strings, are_equivalent_completions", CO + "completions.py"), ("multiple_replace", CO + "utils.py")],
    ["are_equivalent_completions", "compare_terms"],
)

prop(
    "C20",
    "Text labels of interactions conjugate and number consistently",
    "Conjugating the text form of a field or interaction negates its charges, reverses its colour label and toggles the conjugation "
    "of SM fields; doing it twice gives back the (sorted) original, and it agrees with conjugating the actual field. "
    "Model numbers built from these labels are equal exactly when two models have the same fields (or the same interactions) up to conjugation.",
    ["inputs"],
    "every SM or exotic field, every interaction and every set of models",
    "There are no tests of these functions.",
    [UT + "functions.py", DB + "database.py", CO + "completions.py"],
    [
        ("stringify_qns, negate_u1, conjugate_field, conjugate_term", UT + "functions.py"),
        ("ModelDatabase.democratic_model_number, stringent_model_number", DB + "database.py"),
    ],
    ["conjugate_field", "conjugate_term", "stringify_qns", "ModelDatabase.model_number"],
)

prop(
    "C21",
    "Expanding an operator into components gives exactly its nonzero terms",
    "Expanding the isospin structure of an operator gives exactly one product of component fields for each way of choosing components on "
    "which all its SU(2) invariant tensors are nonzero, each containing every field of the operator once with the right component and conjugation "
    "and conserving electric charge. The result does not depend on the names of the indices or the order in which fields and tensors are written.",
    ["inputs"],
    "every operator of SM matter fields with up to four isospin contractions, including all catalogue operators",
    "closures_test expands three or four operators.",
    [DB + "closures.py"],
    [("parse_operator", DB + "closures.py")],
    ["parse_operator"],
)

prop(
    "C22",
    "Neutrino-mass estimates are well formed and independent of presentation",
    "The mass estimates of an operator are the square of the electroweak scale over the new-physics scale times couplings and loop factors, one for each component product that closes off "
    "completely with two neutrinos; every further pair of vevs counts as one vev-or-loop factor. Each closure step conserves electric charge, baryon and lepton number, trades right-handed fields for Yukawa couplings "
    "and costs at least a loop for every leg joined beyond the first. The estimates do not depend on field order or index names, the leading estimate is the largest, and the tabulated loop numbers and scale are its own.",
    ["inputs"],
    "every operator of SM matter fields with lepton number two and every product of components, in any order",
    "closures_test checks the final estimates of a fixed list of operators.",
    [DB + "closures.py", DB + "utils.py"],
    [("RULES, apply_rules, fixed_point, clean, neutrino_mass_estimate", DB + "closures.py"), ("get_leading_mv, table_data, loop_data", DB + "utils.py")],
    ["neutrino_mass_estimate", "get_leading_mv", "fixed_point"],
)

prop(
    "C23",
    "The estimated new-physics scale solves the neutrino-mass equation",
    "The scale returned for a mass estimate is positive and real and is the scale at which the estimate, evaluated with the stated numerical inputs, equals the atmospheric "
    "neutrino mass, and the mass returned for a scale of 1 TeV is that estimate evaluated there. More couplings or loops never raise the scale of an estimate.",
    ["inputs"],
    "every estimate: any product of couplings, loop and vev-or-loop factors times v^2 over the new-physics scale",
    "The tests evaluate a handful of fixed estimates.",
    [DB + "closures.py", DB + "utils.py"],
    [("numerical_np_scale_estimate, numerical_mv", DB + "closures.py"), ("estimate_np_scale", DB + "utils.py")],
    ["numerical_np_scale_estimate", "numerical_mv", "estimate_np_scale"],
)

prop(
    "C24",
    "Exported completions load back as the same model",
    "Exporting a completion as text and loading it back, at once or lazily, gives a completion with the same operator, exotic fields and quantum numbers, interaction terms, "
    "partition, diagram and topology, and exporting that again gives an equivalent text. The summary stored with a lazy completion agrees with the completion it stands for.",
    ["inputs"],
    "every completion of every catalogue operator, with and without derivatives, and every operator of SM matter, derivative and exotic fields that begins with a field",
    "export_test round-trips one completion (and cannot run here); quantum numbers and heads are not compared.",
    [DB + "export.py", DB + "database.py"],
    [
        ("export_tensor, export_operator, export_graph, export_partition, export_completion", DB + "export.py"),
        ("LazyCompletion.force, read_completions", DB + "database.py"),
    ],
    ["export_completion", "LazyCompletion.force", "read_completions"],
)

prop(
    "C25",
    "JSON export is valid JSON that names every field, index and term",
    "The JSON export of any completion is plain data that serialises to JSON and back unchanged and lists every term, exotic, partition leaf and diagram line of the completion, each tensor with its own label, "
    "conjugation and indices, and exotics also with their charges and representation.",
    ["inputs"],
    "every completion of every catalogue operator, and every operator of SM matter, derivative and exotic fields that begins with a field",
    "There are no tests of the JSON export.",
    [DB + "json_serialiser.py"],
    [("export_tensor, export_operator, export_graph, export_partition, export_completion", DB + "json_serialiser.py")],
    ["json_serialiser.export_completion"],
)

prop(
    "C26",
    "The model database filters out exactly the subleading models",
    "Processing a database removes duplicate models within each operator, orders operators by decreasing neutrino-mass scale (or increasing dimension) and removes a model "
    "exactly when a model surviving so far for an operator of strictly larger scale (or strictly lower dimension) has fields (or, if so configured, interactions) that are a subset of its own up to conjugation. "
    "Given a list of one-loop models, it also removes, from every operator below the one-loop Weinberg scale, exactly the models that contain one of them. "
    "Each step keeps the order of the surviving models, alters none of them, and repeating it changes nothing.",
    ["inputs", "histories", "configurations"],
    "every database over any operators, philosophy and criterion, and every sequence of queries, duplicate removals, orderings and filters",
    "database_test cannot run here and only loads one directory.",
    [DB + "database.py"],
    [
        ("ModelDatabase.filter_model_by_mass, filter_model_by_dimension, remove_equivalent_models, order, filter, process", DB + "database.py"),
    ],
    ["ModelDatabase.process", "ModelDatabase.filter", "ModelDatabase.order", "ModelDatabase.query"],
    [("ModelDatabase.data", "operator name to list of models", DB + "database.py")],
)

prop(
    "C27",
    "Model queries return exactly the models that satisfy them",
    "Asking a stored model whether it contains a field or interaction, querying or filtering a database by a predicate, removing seesaw models, looking up "
    "models related to a given one (the other models made of at least two of its fields) and upgrading a database to full completions each select exactly the models with that property and keep every operator's entry. Reading completions from "
    "a file, or loading a directory of such files, returns every line once, under its own operator.",
    ["inputs", "histories"],
    "every set of stored models, patterns and predicates",
    "There are no runnable tests of the database queries.",
    [DB + "database.py", DB + "utils.py"],
    [
        ("LazyCompletion.contains_field, contains_interaction, ModelDatabase.query, no_seesaws, force, ModelDataFrame.related_models, read_completions", DB + "database.py"),
        ("subsets", DB + "utils.py"),
    ],
    ["LazyCompletion.contains_field", "ModelDatabase.query", "ModelDatabase.force", "ModelDataFrame.related_models", "read_completions"],
)

prop(
    "C28",
    "Pattern matching binds variables consistently",
    "Matching a pattern against data succeeds exactly when some assignment of its variables turns the pattern into the data, and "
    "then returns that assignment; otherwise it reports failure and raises nothing. A variable that occurs more than once must match equal data, and bindings given beforehand are respected.",
    ["inputs"],
    "every nested pattern of constants and variables and every nested data value without variables (lists match lists, tuples match tuples)",
    "There are no tests of pattern matching (the source says so).",
    [UT + "match.py"],
    [("pattern_match, pmatch, is_match", UT + "match.py")],
    ["pmatch", "pattern_match", "is_match"],
)

prop(
    "C29",
    "LaTeX output pairs indices exactly as the operator contracts them",
    "The LaTeX form of an operator shows each of its fields once with a distinct label for every displayed index, and its invariant tensors carry "
    "exactly the labels of the indices they contract, so that the contraction structure can be read back from the text. Index kinds that are to be ignored do not appear, and "
    "rendering twice gives the same text.",
    ["inputs"],
    "every operator of SM, derivative and exotic fields contracted through epsilons and deltas, within the alphabets of labels, and any set of ignored index kinds",
    "The tests look at one or two rendered strings.",
    [TM + "core.py", TM + "utils.py"],
    [("Operator.latex, IndexedField.latex_and_pop, Field.get_latex", TM + "core.py"), ("to_tex, strip_parens", TM + "utils.py")],
    ["Operator.latex", "Field.get_latex"],
)

prop(
    "C30",
    "Results do not depend on what was computed before",
    "Every public computation (products, invariants, completions, symmetries, estimates, exports) gives the same result however "
    "many other computations ran before it in the same process, whether they succeeded or were rejected, and leaves the shared Standard Model fields, the "
    "operator catalogue and its own arguments as they were.",
    ["histories"],
    "every sequence of public calls, including calls that are rejected",
    "Tests run each function once in a fixed order.",
    [TM + "contract.py", TM + "lagrangian.py", TM + "smeft.py", CO + "completions.py", TM + "core.py"],
    [
        ("construct_operators (default argument), npoint_fieldstrings, smeft field charges", TM),
        ("replace_and_mutate, set_external_fields (mutation of shared graphs and lists)", CO + "completions.py"),
    ],
    ["invariants", "operator_completions", "npoint_fieldstrings", "Lagrangian.u1_symmetries"],
)

prop(
    "C31",
    "Generated lists of operators are complete up to the requested dimension",
    "Listing the field strings or effective operators built from given fields up to a mass dimension returns every combination of those fields that admits a Lorentz and gauge singlet "
    "of at most that dimension, and nothing that does not (field strings once per combination, operators once per singlet in the product); baryon and lepton charges are reported correctly, and an operator's mass dimension (derivatives "
    "count one each) and its number in the table of operators follow from its field content alone, whatever the order of the fields.",
    ["inputs", "configurations"],
    "every choice of fields, number of fields, maximum dimension and selection function",
    "smeft and fieldstring generation have no tests with an oracle.",
    [TM + "smeft.py", TM + "lagrangian.py", TM + "core.py"],
    [("generate_operators, prod_mass_dim", TM + "smeft.py"), ("npoint_fieldstrings, generate_fieldstrings, prod_mass_dim", TM + "lagrangian.py"), ("Operator.BL_classification, mass_dim", TM + "core.py")],
    ["generate_operators", "npoint_fieldstrings", "generate_fieldstrings", "Operator.BL_classification"],
)

prop(
    "C32",
    "Tabulated heavy-loop models have self-consistent quantum numbers",
    "Every model generated for a one-loop heavy-field topology of the Weinberg operator, from a hypercharge parameter and representation choices, conserves hypercharge, colour, isospin and spin at each "
    "vertex, and every such model with first hypercharge between -3 and 3 in steps of 1/6, colour 1, 3, 3bar, 6, 6bar or 8 and isospin dimensions within a window of three starting at 1 to 5 is generated.",
    ["inputs", "configurations"],
    "every topology, hypercharge parameter and colour or isospin assignment that can be requested",
    "The module has no tests.",
    [DB + "heavyloops.py"],
    [("generate_models and the topology tables", DB + "heavyloops.py")],
    ["heavyloops.generate_models"],
)

prop(
    "C33",
    "Mixing matrices are unitary for every choice of parameters",
    "The mixing matrix built from any three angles and phases, numerically or symbolically, is unitary and equals the standard parametrisation, with its dagger and columns; the measured quark and lepton matrices have the measured "
    "moduli and CP violation; and the Yukawa couplings solved from masses and mixing reproduce the neutrino mass matrix for every value of their free parameter and scale.",
    ["inputs"],
    "all real mixing angles and phases, all non-zero complex parameters and mass scales",
    "The module has no tests.",
    ["neutrinomass/analysis/utils.py", "neutrinomass/analysis/flavour_anomalies.py"],
    [("UnitaryMatrix", "neutrinomass/analysis/utils.py"), ("x, Z", "neutrinomass/analysis/flavour_anomalies.py")],
    ["UnitaryMatrix", "PMNS", "CKM", "flavour_anomalies.x", "flavour_anomalies.Z"],
)

prop(
    "C34",
    "Copies are faithful, and equality agrees with hashes",
    "Copying or deep-copying an index, a field (plain, with indices, with derivatives or exotic), an operator, an effective operator or a completion gives an object of the same class that equals the original, "
    "hashes equal and has all of its data (charges, statistics, generations, conjugation, derivatives, bar, terms, partition, diagram, topology, invariant tensors), and conjugates, multiplies and simplifies identically; "
    "changing a deep copy leaves the original alone. Effective operators are equal exactly when their names and operators (up to the names of contracted indices) are; a completion equals its copies and the completion "
    "loaded back from its export, and no completion of another operator, with other exotics or another partition.",
    ["inputs", "histories"],
    "every index, field, operator, effective operator and completion",
    "No test copies anything or compares completions.",
    [TM + "core.py", "neutrinomass/completions/core.py"],
    [("Index, Field, IndexedField, Operator", TM + "core.py"), ("EffectiveOperator.__eq__/__hash__, FieldType, Completion.__eq__/__hash__/__deepcopy__", "neutrinomass/completions/core.py")],
    ["Completion.__eq__", "Completion.__hash__", "Completion.__deepcopy__", "EffectiveOperator.__hash__", "FieldType"],
)

prop(
    "C35",
    "The printed table of operators describes the operators of the catalogue",
    "The table of ΔL = 2 operators has exactly one row for each operator of the catalogue, under its label. The LaTeX of a row has the operator's fields (with conjugation and derivatives), "
    "and contracts their isospin indices as the operator does, up to renaming of indices and exchange of identical fields; a row that refers to other operators has the product of their fields and contractions. "
    "The numbers of models before and after filtering in a row are those stored for that operator (blank if there are none), its numbers of loops and scale of new physics are those estimated for that operator, "
    "and its label has as many primes as the operator's.",
    ["inputs"],
    "every row of the table and every set of stored models",
    "No test prints the table; its rows depend on stored models that are not in the repository.",
    [DB + "operators.py", DB + "utils.py"],
    [("print_paper_table, format_primes", DB + "operators.py"), ("table_data", DB + "utils.py")],
    ["print_paper_table", "format_primes", "table_data"],
)

prop(
    "C36",
    "The stored tables of models reflect the raw models they are built from",
    "Building the tables from the files of raw models stores, in the unfiltered table, every model of every file once, with its numbers, operator, dimension, scale and leading estimate, topology, numbers of fields, scalars, fermions, loops and derivatives "
    "and the completion itself; in the filtered table, with the same columns, one model of each operator for each set of exotic fields, without those that contain the fields of a model of an operator with a larger contribution to the neutrino mass, "
    "and without those that contain a one-loop model of the Weinberg operator with a larger contribution than theirs. "
    "A model contains a one-loop model exactly when its fields, conjugates counted as the same particle and hypercharges compared exactly, include all fields of a listed one with the same baryon number running around the loop. The filtered rows are ordered by scale. "
    "The stored numbers of fields and terms identify them up to conjugation, and the tables read as data frames give back each row's fields and completion.",
    ["inputs", "histories"],
    "every set of raw models of several operators",
    "No test builds the tables; a build takes hours on the real models.",
    [DB + "pickler", DB + "database.py", DB + "utils.py", DB + "heavyloops.py"],
    [("filter by one-loop models, fill scales, build rows", DB + "pickler"), ("ModelDatabase, ModelDataFrame", DB + "database.py")],
    ["ModelDatabase.filter", "order_by_mass", "fill_scale_dict", "filter_one_loop_weinberg", "ModelDataFrame"],
)

prop(
    "C37",
    "The summary of a model shows its fields, interactions and diagram",
    "The summary of a completion lists its exotic fields, each with its Lorentz kind, dimensions of colour and isospin, hypercharge and baryon number (the sign of the hypercharge chosen positive), each interaction once (printed in a terminal, displayed in a notebook), and draws one diagram "
    "whose lines carry the particles of the completion's graph. A model of several completions with the same fields shows each field's quantum numbers once. A representation is written with its dimension, barred "
    "when it is conjugate. The forms in which a field offers its quantum numbers (Dynkin labels as text and as numbers, Lorentz, colour, isospin and gauge parts, kind, singlet and reality flags) agree with its indices and charges.",
    ["inputs"],
    "every completion, model and field",
    "No test reads a summary or the derived quantum numbers of exotic fields.",
    ["neutrinomass/completions/core.py", TM + "core.py"],
    [("Completion.info, draw_diagram, exotic_info, exotic_fields, Model, format_quantum_numbers", "neutrinomass/completions/core.py"), ("Field", TM + "core.py")],
    ["Completion.info", "Completion.draw_diagram", "Model", "format_quantum_numbers", "Field.qn_string"],
)

prop(
    "C38",
    "The catalogue of operators is the one its generators construct",
    "The stored catalogues of operators are what the scripts that construct them write: for each number, the independent invariants of its field content, label by label with the same contractions, and for each numbered content with "
    "derivatives, those of the chosen placement of the derivatives. An operator is classified under the number of its field content, and under none if it has derivatives or no numbered content; the list of unnumbered operators of a Hilbert series has exactly the invariants of its terms that have no number. "
    "At dimensions 7, 9 and 11 the catalogue has exactly the field contents, with numbers of derivatives, of the ΔL = 2 Hilbert series without field strengths, up to the one operator left out on purpose.",
    ["inputs"],
    "every number of the catalogue and every term of the Hilbert series",
    "No test runs the generators; the catalogue is loaded from files.",
    [TM + "deriv_operators.py", TM + "lnvlatex", TM + "lnvderivlatex", TM + "lnv.py", TM + "operatorxcheck.py", TM + "hs.py", "neutrinomass/completions/operators.py"],
    [("longest_deriv_invariants, label_operators", TM + "deriv_operators.py"), ("list_invariants", TM + "operatorxcheck.py"), ("Operator.BL_classification", TM + "core.py"), ("EFF_OPERATORS, DERIV_EFF_OPERATORS", "neutrinomass/completions/operators.py")],
    ["longest_deriv_invariants", "label_operators", "list_invariants", "Operator.BL_classification", "BL_LIST"],
)

prop(
    "C39",
    "Exported Feynman diagrams draw every line of the graph in its particle's style",
    "The tikz export of a graph whose lines carry fields draws every line exactly once, between its two vertices, with the LaTeX name of its field, and a leg points from the leg to its vertex. Scalars and fermions of the Standard Model are drawn as charged scalars and fermions, with the prefix `anti` when conjugate; "
    "exotic complex scalars as charged scalars, real ones as scalars, exotic fermions as Majorana lines whose sense follows conjugation. A line that is neither is refused. The document written contains the whole diagram and is handed to LaTeX.",
    ["inputs"],
    "every graph and assignment of scalars and fermions to its lines",
    "No test imports the module.",
    ["neutrinomass/completions/tikzfeynman.py"],
    [("tikz_type, proc_body, skeleton, tikz_export", "neutrinomass/completions/tikzfeynman.py")],
    ["tikz_export", "proc_body"],
)

prop(
    "C40",
    "An operator reports exactly its factors and free indices",
    "A product of fields and invariant tensors, multiplied in any order and grouping, has exactly those fields (those of one class in their order, with all their data) and those tensors, sorted by kind without loss or repetition; its free indices are "
    "exactly those not contracted, listed by type and counted in its representation; the fields it repeats are reported with all their indices; and the effective operator made of it has the same fields and counts its bosons and fermions.",
    ["inputs"],
    "every product of fields and invariant tensors",
    "Tests look at two products.",
    [TM + "core.py", CO + "core.py"],
    [("Operator.__mul__, normalise_operator_input, indexed_fields, epsilons, structures, by_structures, indices_by_type, dynkin, duplicate_fields", TM + "core.py"), ("EffectiveOperator.fields, topology_type", CO + "core.py")],
    ["Operator.fields", "Operator.epsilons", "Operator.free_indices", "Operator.dynkin", "Operator.duplicate_fields"],
)
