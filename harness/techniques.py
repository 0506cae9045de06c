"""Technique and assurance note per property (used by tools/gen.py)."""

_TAIL = " Exploration, not proof: sampled cases up to the stated sizes; trusts the oracle in harness/ref.py and the generators in harness/gen.py."

T = {
    "C01": ("generated fields of every class, involution and reference-conjugation oracle", "Every generated field, indexed field, exotic and index." + _TAIL),
    "C02": ("generated products compared with a character-based reference decomposition", "Products of 2-5 fields with Dynkin digits up to 3." + _TAIL),
    "C03": ("generated field lists; every result transformed by a random group element and evaluated numerically, contents compared with the request", "Lists of 2-5 fields, up to 250 structures." + _TAIL),
    "C04": ("generated field lists; rank of the returned structures compared with the character count of invariants; pairings compared with a brute-force enumeration", "Lists of 2-6 fields, up to 250 structures." + _TAIL),
    "C05": ("generated contractions of repeated fields; Grassmann polynomial of operator and of its simplified form must be proportional", "Up to 4 fields and 9 indices." + _TAIL),
    "C06": ("generated operators and the whole catalogue, pickle round trip compared field by field", "Generated operators of up to 4 fields; all 243 shipped operators." + _TAIL),
    "C07": ("generated valid and edited index strings, request histories and substitutions against reference bookkeeping", "Strings with up to three edits; histories of up to 25 requests." + _TAIL),
    "C08": ("generated Hilbert-series terms against an independent expansion of the derivative distributions", "Up to eight fields and four derivatives; all shipped series." + _TAIL),
    "C09": ("generated derivative chains and placements against a reference that enumerates every placement", "Chains of up to four derivatives; operators of 2-4 fields; all shipped derivative operators." + _TAIL),
    "C10": ("generated exotic representations: class, partner and lowering against reference rules; mass terms evaluated numerically and as Grassmann polynomials", "Colour up to (2,2), isospin up to 4; mass terms with up to 5 gauge indices." + _TAIL),
    "C11": ("every shipped class compared with an independent enumeration of trees; generated placements against brute-force enumeration", "Shipped classes exhaustively; placements of up to 6 fields; partitions of the catalogue operators with few placements." + _TAIL),
    "C12": ("generated placements of catalogue, derivative and generated operators on random topologies; every term transformed by a random group element, checked as a Grassmann polynomial and against reference SM quantum numbers; colour structures made of two epsilons sampled apart", "Operators of up to nine fields; all completions of the operators with few placements." + _TAIL),
    "C13": ("generated placements; diagram, terms and partition of each completion matched vertex by vertex and line by line, and exotics integrated out numerically against the explicit operator", "Operators of up to nine fields; numeric integration for operators without derivatives." + _TAIL),
    "C14": ("metamorphic: generated placements and whole small operators compared with the same operator reordered, renamed or conjugated; exchanged placements passed through isomorphism removal", "Placements of operators of up to nine fields; all models of operators with at most 48 placements." + _TAIL),
    "C15": ("generated Lagrangians and completions: reported symmetries against an exact rational nullspace of independently assembled rows, and metamorphic rewriting of the Lagrangian", "Up to four exotics and five generated interactions; completions of operators of up to nine fields." + _TAIL),
    "C16": ("generated exotics: full Lagrangian against an exhaustive list of contents whose invariants are counted with characters of (anti)symmetric powers; structures evaluated numerically", "One or two exotics of up to octets and triplets; models whose contents need colour contractions the code rejects are outside the domain." + _TAIL),
    "C17": ("generated collections of models against a set-inclusion reference; generated and found completions collected in random orders", "Up to nine models over forty fields on each side; sequences of up to 30 completions." + _TAIL),
    "C18": ("generated and found completions with repeats, reorderings and conjugations against reference classes; generated equivalence relations for the helpers", "Up to eight completions of three interactions; sequences of found completions of small operators." + _TAIL),
    "C19": ("generated completions renamed consistently (must be equivalent, with that renaming), pairs of found completions, single changes and independent contractions (must differ); symmetry", "Sampled placements of every catalogue operator and generated operators; pairs of found completions of small operators; interactions of up to four fields." + _TAIL),
    "C20": ("generated labels, fields, interactions and model sets against reference labels and reference equivalence classes", "Colour up to (2,2); up to eight models of four fields." + _TAIL),
    "C21": ("generated and catalogue operators expanded by an independent component expansion with numeric epsilon tensors", "Up to four isospin contractions, up to eight fields." + _TAIL),
    "C22": ("generated operators and component products: estimates against a reference count of powers, every rewriting step checked for conserved charges, metamorphic reordering and renaming", "Sampled products of up to eight fields; all 243 catalogue operators." + _TAIL),
    "C23": ("generated estimates against a reference solution by bisection in exact powers, and monotonicity between pairs", "Estimates with up to one vev-or-loop factor (a few with two or three, which take seconds each)." + _TAIL),
    "C24": ("generated and found completions exported and loaded back, compared part by part; files of mixed models read back", "Sampled placements of every catalogue operator and generated operators of up to five fields." + _TAIL),
    "C25": ("generated and found completions and operators exported as JSON, through JSON text and back, compared with an independent description of every tensor, leaf and line", "Sampled placements of every catalogue operator and generated operators of up to five fields." + _TAIL),
    "C26": ("stateful: generated databases driven through random sequences of queries, duplicate removals, orderings and filters, followed step by step by a set-based reference; metamorphic re-presentation", "Up to eight operators and a few dozen models over a small pool of fields; operators with near-degenerate scales are not mixed." + _TAIL),
    "C27": ("generated models, patterns, tables and files against reference selections", "Up to eight models per operator; files of generated completions." + _TAIL),
    "C28": ("generated nested patterns and data against a reference matcher; filled-in patterns must match with the values filled in", "Nesting up to three levels, data without variables." + _TAIL),
    "C29": ("generated and catalogue operators and interactions rendered, the text parsed back and compared with the contractions", "Operators of up to nine fields; sampled catalogue operators." + _TAIL),
    "C30": ("stateful, differential: random sequences of public calls (also rejected ones) in one process against the same call in a fresh process", "Sequences of up to a dozen calls from some fifteen kinds." + _TAIL),
    "C31": ("generated fields, dimensions and selection functions against a reference enumeration with character-based singlet counts; generated contents against the table", "Up to four fields and six-point strings; dimension up to 7." + _TAIL),
    "C32": ("every generated model checked vertex by vertex; generated loops looked up in the list (differential against a reference construction)", "All listed models; sampled loops and hypercharge parameters." + _TAIL),
    "C33": ("generated angles and phases against the textbook parametrisation, unitarity and CP measure; generated parameters against the neutrino mass matrix", "Angles and phases in -7..7, scales over several decades, tolerance 1e-9. Exploration, not proof: sampled real parameters, floating point."),
    "C34": ("generated objects of every kind copied in four ways and compared in all their data and in what is computed from them; deep copies spoilt in place; generated equal and unequal pairs", "Fields with up to two derivatives, operators of up to five fields, completions of sampled placements." + _TAIL),
    "C35": ("each row of the printed table parsed and compared with the operator's fields and contractions under every renaming; generated stand-ins for the stored models, numbers of loops and scales followed to the printed rows; generated labels with primes", "The stored models are not in the repository: generated ones stand for them." + _TAIL),
    "C36": ("sets of raw models generated from completions of sampled placements, the tables built from them in a scratch folder and compared with a reference build; generated and planted one-loop models", "Up to a few operators and a few dozen models per build." + _TAIL),
    "C37": ("summaries of generated completions and models read back and compared with the fields, terms and graph; generated quantum numbers and fields", "The position of lines in the diagram is not examined." + _TAIL),
    "C39": ("generated fields of every class on the lines of the shipped graphs, the exported text read back line by line; commands recorded by a stand-in", "LaTeX is not run; the lines of a completion's own graph carry names rather than fields and are not exported." + _TAIL),
    "C40": ("generated products of fields and invariant tensors, put together in random orders and groupings, against counts over the factors; every catalogue operator", "Up to five fields with at most nine indices; catalogue exhaustively." + _TAIL),
    "C38": ("every number of the catalogue constructed again by the package's scripts in a scratch folder and compared with the stored operator under every exchange of equal fields; the series' terms, read independently of the parser, against the catalogue and the list of unnumbered operators", "The quick run leaves out the slowest numbers and terms." + _TAIL),
}
