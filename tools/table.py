"""What each property's check analyses, by which rule, and how many obligations it must at least have."""

AI = "abstract interpretation of MIR with a value-numbering domain over the field"
TRUSTED = [
    "rustc nightly (type checking, trait resolution, constant evaluation and MIR construction); the analysed MIR is the one of the program built",
    "the driver's transfer functions for MIR statements and its model of core/alloc intrinsics (driver/src/interp.rs, models.rs)",
    "the contract of decaf377::Fq: +, -, *, /, negation, power and inverse are the operations of the field of 8444461749428370424248824938781546531375899335154063827935233455917409239041 elements",
    "the contract of ark-r1cs-std FpVar operations: each enforces that its result is the field operation's value, and allocates nothing undetermined",
    "the independently written reference semantics (driver/src/spec.rs)",
]
A_FIELD = "decaf377::Fq arithmetic implements the scalar field exactly (dependency, not analysed)"
A_GADGET = "ark-r1cs-std FpVar arithmetic is sound and complete (dependency, not analysed)"
A_GRID = "shapes outside the enumerated grid behave like those inside it (the code is uniform in its const generics)"

BOTH = ["min", "max"]
ALL = ["min", "max", "alloc", "std", "arkworks", "parallel", "u32", "min-release", "max-release", "all"]
MOST = ["min", "max", "std", "u32", "min-release", "all"]
CIRCUITS = ["max", "max-release", "all"]
P = {}


def p(i, rule, note, configs=MOST, technique=AI, level="proof", assumptions=(A_FIELD,), kind="semantic"):
    P[i] = dict(rule=rule, note=note, configs=configs, technique=technique, level=level, assumptions=list(assumptions), kind=kind)


PROPS = P
p("P01", "the value number of each hash_k result equals that of textbook Poseidon over independently re-derived constants",
  "Exact for every input: the result is a canonical polynomial form over symbolic inputs and is compared with the reference by identity; all seven rates, u32 and u64 back ends.",
  configs=ALL)
p("P02", "the value numbers of all state words and of the hash word are identical for the optimized and the plain permutation on a symbolic state",
  "Exact for every state, all seven shipped parameter sets, all words.",
  configs=ALL)
p("P03", "the value number of each circuit hash equals that of the native hash, for symbolic inputs in every listed constant/variable mode",
  "Exact for every assignment. Quick: every mode for k <= 2, otherwise all-unknown mode plus modes with at most one or at least k variables; thorough: all modes.",
  CIRCUITS, assumptions=(A_FIELD, A_GADGET))
p("P04", "no allocation of prover-chosen values, no read of assigned values, no branch or index on circuit data, no non-identity constraint; result free of undetermined atoms",
  "Effects collected on every call reached from the circuit entry points, for the shipped rates and the parameter grid.",
  CIRCUITS, technique="effect analysis over the abstractly interpreted call graph", assumptions=(A_GADGET,))
p("P05", "the result of a hash on an instance with arbitrary earlier contents equals the result on a fresh instance; interference domain: havoc of all instance state reachable through earlier calls (fixpoint)",
  "Covers unbounded histories: the instance state is generalised to a fixpoint that every method call maps into itself, then each method's result must not mention it.",
  configs=ALL)
p("P06", "no branch condition, switch operand, loop bound or memory index is tainted by hashed data",
  "Holds for every pair of inputs, for the library code; the field arithmetic of the dependency is outside.",
  configs=ALL,
  technique="information-flow (taint) analysis over the abstractly interpreted MIR")
p("P07", "no panic, assertion, overflow, bounds failure, unwrap failure or error return is reachable",
  "Every assertion and call to the panic machinery reached from the hash entry points must be refuted by the abstract values; with overflow and bounds checks compiled in.",
  configs=ALL,
  technique="panic-reachability analysis over the abstractly interpreted MIR", assumptions=(A_FIELD, A_GADGET))
p("P08", "value number of the plain entry point = textbook Poseidon over the given symbolic tables, for a grid of widths, rounds and S-boxes",
  "Exact for all inputs and all tables on small shapes; larger shapes with generic (fixed pseudo-random) tables. The grid of shapes is finite.", assumptions=(A_FIELD, A_GRID))
p("P09", "value number of the optimized entry point = the paper's optimized schedule over the given symbolic tables, for a grid of widths, rounds and S-boxes",
  "As P08, for the optimized entry point, with at least one partial round.", assumptions=(A_FIELD, A_GRID))
p("P10", "value number of the circuit permutation = textbook Poseidon over the given symbolic tables, in several constant/variable modes",
  "As P08, for the circuit.", CIRCUITS, assumptions=(A_FIELD, A_GADGET, A_GRID))
TB = "compile-time constant tables checked against exact field identities"
p("P11", "const-evaluated tables: every limb array canonical (< p), declared shapes, M, counts", "Every entry of every shipped table.", technique=TB)
p("P12", "const-evaluated tables: optimized constants and sparse matrices equal the exact re-arrangement of the plain ones", "Exact identities in the field, all rates.", technique=TB)
p("P13", "const-evaluated auxiliary matrices equal the parts and inverses of the MDS matrix they are named after", "Exact identities, all rates.", technique=TB)
p("P14", "every square submatrix of every shipped MDS matrix has a non-zero determinant", "All minors enumerated (rate 7: 12869 minors), exact arithmetic.", technique=TB)
p("P15", "gcd(alpha, p-1) = 1 and the round numbers meet the published security inequalities", "Exact arithmetic on the shipped descriptors.", technique=TB)
p("P16", "shipped MDS matrix and round constants equal an independent re-derivation (Cauchy matrix, Merlin transcript)", "Every entry, all rates.", technique=TB)
p("P17", "value number of each matrix operation = its mathematical definition, entries symbolic, shapes enumerated", "Exact for all entries on each shape of the grid.", assumptions=(A_FIELD, A_GRID))
p("P18", "value number of determinant, minors and cofactor signs = Leibniz/Laplace definitions, sizes 1 to 8", "Exact for all entries; sizes above 4 use the contract of the smaller determinant proven in the same run.")
p("P19", "inverse() returns an error exactly when the determinant is zero, otherwise the adjugate over the determinant, sizes 1 to 8", "Exact for all entries, by gated value numbers; self-check assertion included.")
p("P20", "all matrix types address element (i,j) at i*cols+j for get, set, rows and construction; writes change nothing else", "Every (i,j) of every shape of the grid, entries symbolic.", assumptions=(A_GRID,))
p("P21", "v(), w(), hat() and inverse() of MdsMatrix return the named parts", "Symbolic entries, widths 2 to 8.")
p("P22", "each constructor or product on inconsistent sizes has no returning path; consistent sizes always return", "Grid of sizes and counts; a refused call is one all of whose paths panic.", technique="reachability analysis over the abstractly interpreted MIR", assumptions=(A_GRID,))
p("P23", "value number of == is the conjunction of all entry equalities, != its negation; clone returns every field unchanged", "Exact for all entries on each shape.", assumptions=(A_FIELD, A_GRID))
p("P24", "value-number fingerprints of every hash and permutation are equal across feature configurations and profiles; no std in the link set with default features off",
  "Each configuration's MIR is analysed separately; results are compared by evaluation of their exact forms at fixed random points (error below 2^-200 per comparison).",
  ALL, technique="cross-configuration value-number comparison and link-set query", kind="structural")
p("P25", "no body of the three libraries contains unsafe code, touches a mutable/thread-local/interior-mutable static, calls outside the allowed pure crates, or turns an address into a number",
  "Every MIR body (functions, methods, closures, constants) of the three crates in every feature configuration and both profiles; dependencies are trusted to be pure where allowed.",
  configs=ALL, technique="effect analysis of resolved calls and types", assumptions=("functions of core, alloc, decaf377, ark-ff, ark-relations and ark-r1cs-std reached from the libraries are pure apart from the constraint system passed in",), kind="structural")
p("P26", "each misuse program is rejected by the type or borrow checker with the expected error at the marked place, and its correct twin compiles; no public field and no reachable function (trait methods included) of the instance hands out write access to it",
  "A finite family of witness programs per rate; shows the API types forbid the listed misuses, not every conceivable one. The write-access query covers every function signature of the permutation crate.",
  technique="compile-fail witnesses with compiling twins, and a write-access query over signatures", level="other", assumptions=(), kind="structural")
p("P27", "value numbers of descriptor accessors, conversions and encodings equal the stored fields", "Symbolic descriptors; float conversions compared symbolically.")
p("P28", "every public type of the native libraries is Send, Sync and free of interior mutability, no static is mutable, and thread-sharing programs type-check",
  "Decided by the compiler's trait solver on the generic types, so for all widths.",
  configs=ALL, technique="auto-trait and interior-mutability query with compile witnesses", assumptions=(), kind="structural")

p("P32", "every constraint imposed explicitly is an identity between the value numbers of its two sides; no panic, no error result and no inverse of a possibly zero value is reachable during synthesis",
  "All assignments and all constant/variable modes of the seven circuit hashes, and of the generic circuit permutation over the grid of P10.",
  CIRCUITS, technique="constraint-identity and panic-reachability analysis over the abstractly interpreted MIR", assumptions=(A_FIELD, A_GADGET))
p("P34", "constraints and assigned variables counted over the interpreted MIR, per rate and mode combination = 5 per S-box of a non-constant word",
  "Every product, explicit constraint and allocation on the interpreted path is counted; all 508 mode combinations of the seven rates.",
  CIRCUITS, technique="resource counting over the abstractly interpreted MIR", assumptions=(A_GADGET,))
p("P38", "value numbers of both factors of every product added to the constraint system, in order = those of the published S-box sequence, per rate and mode combination; nothing but products is added",
  "All assignments; all 508 mode combinations of the seven rates; generic instances of widths 2 to 8, exponents 3, 5 and 17, generic tables.",
  CIRCUITS, technique="constraint-by-constraint equivalence (value numbering) over the abstractly interpreted MIR", assumptions=(A_FIELD, A_GADGET, A_GRID))
p("P39", "field multiplications on every path of hash_k, classified by operands: powers and products at most those of 8t+31 S-boxes, multiplications by constants fewer than 39*t*t",
  "All inputs, seven rates, release profile with and without circuits.",
  ["min-release", "max-release"], technique="operation counting over the abstractly interpreted MIR", assumptions=(A_FIELD,))
p("P35", "every get, set or row extraction at a position outside the matrix has no returning path",
  "Grid of positions up to two past each edge, plus positions that fall back inside when the address wraps around or the column reaches a later row; all five matrix types, entries symbolic, six configurations.",
  MOST, technique="reachability analysis over the abstractly interpreted MIR", assumptions=(A_GRID,))
p("P36", "value number of the state after permuting a circuit instance twice = the native permutation applied twice; width and parameters afterwards unchanged",
  "Symbolic tables and inputs over the grid of P10, constant and variable modes.", CIRCUITS, assumptions=(A_FIELD, A_GADGET, A_GRID))
p("P37", "no body, impl or item of the three libraries uses unsafe code, inline assembly, a foreign function or a mutable static",
  "Every MIR body and every item of the three crates, with and without circuits, in every feature configuration and both profiles.",
  ALL, technique="unsafe-code query over the type-checked crates", assumptions=("the compiler, core, alloc and the dependencies are sound",), kind="structural")
p("P33", "with default features off, the link set of each library holds neither std nor alloc and no resolved call, type or static of any body is one of alloc or std",
  "Every MIR body of the three libraries, debug and release profile, default and 32-bit back end.",
  ["min", "min-release", "u32"], technique="link-set query and effect analysis of resolved calls and types", assumptions=(), kind="structural")

p("P40", "normal form of every word the script's plain and optimized permutation returns on a symbolic state = textbook Poseidon over the shipped rate-2 tables = value number of the library's permutations; the script's field, tables and printed security claims",
  "Exact for every state: the script is parsed and interpreted over value numbers, not run; a statement outside the modelled subset of Sage is reported as undecided.",
  ["min", "max-release"], technique="abstract interpretation of the Sage script (syntax tree) and of MIR, value numbering over the field",
  assumptions=(A_FIELD, "Sage's matrices, vectors and field elements compute what linear algebra over the field says"), kind="script")

# counted on the unchanged tree, quick tier
FLOORS = {}
import json as _j, os as _o

_f = _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "floors.json")
if _o.path.exists(_f):
    FLOORS = _j.load(open(_f))
FLOORS.setdefault("P24", {"prints": 280})
# far below the counts of the tree as it is (24, 13, 97): an edit may merge or split functions
FLOORS.setdefault("P25", {"poseidon377": 7, "poseidon_permutation": 3, "poseidon_parameters": 40})
FLOORS.setdefault("P26", {"witnesses": 300})
