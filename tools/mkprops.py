import json
PERM="poseidon-permutation/src/permutation.rs"; R1="poseidon-permutation/src/r1cs.rs"
H="poseidon377/src/hash.rs"; HR="poseidon377/src/r1cs.rs"; L="poseidon377/src/lib.rs"
PP=["poseidon377/src/params/rate_%d.rs"%i for i in range(1,8)]
MX="poseidon-parameters/src/matrix.rs"; MO="poseidon-parameters/src/matrix_ops.rs"; MD="poseidon-parameters/src/mds_matrix.rs"; AM="poseidon-parameters/src/arc_matrix.rs"
AL="poseidon-parameters/src/alpha.rs"; RN="poseidon-parameters/src/round_numbers.rs"; V1="poseidon-parameters/src/v1.rs"; V2="poseidon-parameters/src/v2.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":None}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
p("P01","Every hash equals the published Poseidon function on every input",
 "For each rate from 1 to 7, hashing any domain separator and any message elements returns word 1 of the Poseidon permutation (4 full, 31 partial, 4 full rounds; add constants, raise to the 17th power, multiply by the MDS matrix) applied to the state [domain separator, elements in order], using that rate's published round constants and matrix. The result depends on every input element in its own position and on nothing else.",
 ["inputs"],"all domain separators and all message elements of the scalar field, for each of the seven rates",
 "Tests compare a few vectors; a special case for one input value, a swapped element at one rate or a wrong constant that only shows at one width needs the one input that hits it.",
 [H,PERM,L],[("hash_1 .. hash_7",H),("Instance::n_to_1_fixed_hash and permute",PERM),("RATE_k_PARAMS selection",L)],"return value of hash_1 .. hash_7")
p("P02","Optimized and plain permutations agree on every state",
 "For every shipped parameter set and every input state, the optimized permutation and the plain (unoptimized) permutation produce the same output in every state word, and both return the same hash word.",
 ["inputs"],"all field-element states of width 2 to 8, all seven shipped parameter sets",
 "The consistency test runs random states at a couple of widths and looks at one word; the identity has to hold for all states, all words and all seven parameter sets.",
 [PERM]+PP,[("permute / sparse_mat_mul / mix_layer_mi",PERM),("unoptimized_permute",PERM),("optimized tables",PP[0])],"hash word and output_words() after either entry point")
p("P03","In-circuit hash equals the native hash for every input",
 "For each rate from 1 to 7, the value the constraint-system hash assigns to its output is, for every assignment of domain separator and message elements, the value the native hash returns on the same inputs. This holds whether inputs are circuit constants, variables or any mix of them.",
 ["inputs"],"all field values of the domain separator and elements, all constant/variable modes, each of the seven rates",
 "The proof test uses one random witness with all inputs allocated as variables, and cannot enumerate values or allocation modes.",
 [HR,R1],[("r1cs::hash_1 .. hash_7",HR),("InstanceVar::n_to_1_fixed_hash and permute",R1)],"value of the FqVar returned by r1cs::hash_k")
p("P04","The circuit fully constrains its output and never depends on witness values",
 "The hash circuit's output is tied to its inputs by constraints alone: no prover-chosen value enters between input and output without being fully determined by constraints. Synthesis reads no assigned value and takes no decision on one, so the circuit is the same for every assignment, in setup mode and in proving mode.",
 ["inputs","histories"],"all assignments, all input modes, setup and proving",
 "An under-constrained or witness-dependent circuit still yields valid proofs for honest witnesses, which is all a test generates.",
 [HR,R1],[("InstanceVar::permute, partial_sub_words, full_sub_words, mix_layer_mds",R1)],"constraints emitted while r1cs::hash_k runs")
p("P05","Reusing a permutation instance leaks nothing from earlier hashes",
 "Hashing with a permutation instance that has been used before, any number of times and through either the optimized or the plain entry point, gives exactly the result a fresh instance gives. The words exposed after a hash are exactly the permuted state of that latest hash.",
 ["histories","inputs"],"all sequences of calls on one instance, all inputs",
 "The library's own tests create a new instance for each hash; residue from an earlier call only shows on particular call sequences.",
 [PERM],[("Instance::new, n_to_1_fixed_hash, unoptimized_n_to_1_fixed_hash, output_words",PERM)],"result of the latest hash on a reused Instance",[{"name":"state_words","meaning":"the permutation state","where":PERM}])
p("P06","Hashing takes no branch and no memory index from the hashed data",
 "While hashing, natively or in the circuit, which instructions run and which memory is indexed depends only on the rate and the parameters, never on the value of the domain separator or of a message element.",
 ["inputs"],"all pairs of inputs of the same rate",
 "Absence of a data-dependent branch is a statement about all pairs of executions; no sampled run shows it.",
 [H,PERM,R1],[("permute and its layers",PERM),("full_sub_words / partial_sub_words",PERM)],"control flow of hash_1 .. hash_7 and of the circuit hash")
p("P07","Hashing is total: no input or input mode makes it panic or fail",
 "For each rate, the native hash returns a value for every input, and the circuit hash returns a circuit value (never a panic and never an error) for every combination of constant and variable inputs.",
 ["inputs"],"all inputs and all constant/variable modes for each rate, with overflow and bounds checks on",
 "A panic reached only for a zero element, or for all-constant circuit inputs, needs exactly that input.",
 [H,HR,PERM,R1],[("indexing and arithmetic in permute",PERM),("expect/unwrap sites in the gadget",R1)],"hash_1 .. hash_7 and r1cs::hash_1 .. hash_7")
p("P08","The plain permutation follows whatever parameters it is given",
 "For any parameter set (width, even number of full rounds, number of partial rounds, S-box exponent or inverse S-box, round constants, MDS matrix), the plain hash entry point computes textbook Poseidon with exactly those parameters on every input. With the inverse S-box, zero maps to zero and nothing panics.",
 ["inputs","configurations"],"symbolic round constants, matrix and inputs; widths 2 to 5 and a grid of round numbers and S-boxes",
 "Tests only use the shipped tables, all with the same exponent and round numbers.",
 [PERM,V1],[("unoptimized_permute",PERM),("partial_sub_words / full_sub_words",PERM)],"unoptimized_n_to_1_fixed_hash and output_words")
p("P09","The optimized permutation follows whatever tables it is given",
 "For any parameter set, the optimized hash entry point computes the optimized Poseidon schedule defined by the paper's appendix (optimized round constants, one dense pre-matrix, one sparse matrix per partial round taken in reverse order) with exactly the supplied tables, for at least one partial round, on every input. Tables may hold more rounds than the parameter set declares; only the declared ones are used. With the inverse S-box, zero maps to zero and nothing panics.",
 ["inputs","configurations"],"symbolic tables and inputs; widths 2 to 5 and a grid of round numbers and S-boxes",
 "Tests only use the shipped tables, all with the same exponent and round numbers.",
 [PERM,V1],[("permute",PERM),("sparse_mat_mul, mix_layer_mi",PERM)],"n_to_1_fixed_hash and output_words")
p("P10","The circuit permutation follows whatever parameters it is given",
 "For any parameter set with a power S-box, the generic circuit permutation computes textbook Poseidon with exactly those parameters for every input value and every constant/variable mode, and equals the plain native permutation with the same parameters.",
 ["inputs","configurations"],"symbolic tables and inputs; widths 2 to 5 and a grid of round numbers and exponents",
 "The circuit is only tested with the shipped parameter sets.",
 [R1],[("InstanceVar::n_to_1_fixed_hash, permute",R1)],"FqVar returned by InstanceVar::n_to_1_fixed_hash")
p("P11","Shipped parameter tables are canonical and correctly shaped",
 "Every field constant in every shipped parameter set is a canonical (fully reduced) field element, every table has the dimensions its width and round numbers require, and all seven sets declare 128-bit security, 8 full rounds, 31 partial rounds and exponent 17.",
 ["configurations"],"every constant of the seven shipped parameter sets",
 "A constant that is not reduced can still give right answers through lazy arithmetic while breaking equality, and most table entries are never looked at by a test.",
 PP+[L],[("rate_k() constant functions",PP[0]),("RATE_k_PARAMS",L)],"the public parameter constants")
p("P12","Optimized tables are an exact re-arrangement of the plain tables",
 "For every shipped rate, the optimized round constants, the dense pre-matrix and every per-round sparse matrix are exactly those obtained from that rate's plain round constants and MDS matrix by the factorisation in the Poseidon paper, including entries the fast path never reads.",
 ["configurations"],"all seven shipped parameter sets, every entry",
 "A test exercises whichever entries its path reads; unused or compensating entries are invisible to it.",
 PP,[("optimized_arc, M_i, v_collection, w_hat_collection",PP[0])],"the public parameter constants")
p("P13","Auxiliary matrices shipped with each rate agree with the MDS matrix",
 "For every shipped rate, the published submatrix, row and column vectors, the two factor matrices, the corner element and both inverse matrices are exactly the ones determined by that rate's MDS matrix: inverses multiply to the identity, and the factor matrices multiply back to the MDS matrix.",
 ["configurations"],"all seven shipped parameter sets, every entry",
 "No test reads these tables.",
 PP,[("M_hat, v, w, M_prime, M_doubleprime, M_inverse, M_hat_inverse, M_00",PP[0])],"the public parameter constants")
p("P14","Every shipped mixing matrix is MDS",
 "For every shipped rate, every square submatrix of the mixing matrix, of every order, is invertible, so that the matrix has the maximal branch number, and the matrix admits no subspace trail that keeps the S-box inactive.",
 ["configurations"],"all square submatrices of all seven matrices",
 "It is a statement about thousands of minors of each matrix, not about hash outputs.",
 PP,[("mds",PP[0])],"the public parameter constants")
p("P15","S-box and round numbers of shipped parameters are sound",
 "For every shipped rate the S-box is a permutation of the field (its exponent is coprime to the group order) and the declared round numbers meet the Poseidon paper's bounds for 128-bit security against statistical, interpolation and Groebner-basis attacks, with the paper's security margin.",
 ["configurations"],"all seven shipped parameter sets",
 "A test cannot observe security margins or bijectivity of a map on a 253-bit field.",
 PP,[("alpha, rounds, M",PP[0])],"the public parameter constants")
p("P16","Shipped constants are reproducible from the public derivation",
 "For every shipped rate the round constants are exactly the outputs of the documented transcript-based derivation and the mixing matrix is exactly the documented Cauchy matrix, so that nobody could have chosen them freely.",
 ["configurations"],"every round constant and matrix entry of the seven shipped sets",
 "Tests hash with the constants; they say nothing about where the constants came from.",
 PP+["poseidon-paramgen/src/round_constants.rs","poseidon-paramgen/src/transcript.rs","poseidon-paramgen/src/mds.rs"],[("arc, mds",PP[0]),("derivation","poseidon-paramgen/src/transcript.rs")],"the public parameter constants")
p("P17","Matrix arithmetic is exact for all shapes and entries",
 "Transposition, matrix product (rectangular and square), scalar multiplication, element-wise product, row extraction and the identity matrix return, for every shape the library supports and all entries, exactly the mathematically defined matrix.",
 ["inputs","configurations"],"symbolic entries; all shapes up to 4 by 4 and all square sizes up to 8 by 8 (products up to width 8)",
 "Tests check a few 2x2 and 2x3 examples with small numbers.",
 [MX,MO],[("transpose, mat_mul, square_mat_mul, Mul<Fq>, hadamard_product, row_vector, identity",MX),("dot_product",MO)],"returned matrices")
p("P18","Determinants, minors and cofactor signs are exact up to size 8",
 "For every square matrix of size 1 to 8 over the field, the determinant equals the mathematical determinant; for sizes 2 to 8 entry (i,j) of the minors matrix is the determinant of the matrix without row i and column j, and the cofactor sign matrix alternates +1 and -1 starting with +1.",
 ["inputs","configurations"],"symbolic entries, sizes 1 to 8",
 "Tests use a few small singular or small-integer matrices; a wrong sign or wrong block at size 5 or more is unseen.",
 [MX],[("determinant, minors, cofactors, minor_matrix",MX)],"returned value or matrix")
p("P19","Matrix inversion succeeds exactly on invertible matrices and is correct",
 "For every square matrix of size 1 to 8, inversion returns the true two-sided inverse when the determinant is non-zero and reports the no-inverse error when it is zero; it never panics on either.",
 ["inputs","configurations"],"symbolic entries with zero and non-zero determinant, sizes 1 to 8, with and without debug assertions",
 "Tests invert one 2x2 and one 3x3 matrix and reject one singular matrix.",
 [MX,MD],[("inverse",MX)],"Result returned by inverse")
p("P20","All matrix types address their elements in the same row-major order",
 "For every matrix type (plain, square, MDS, round-constant, optimized round-constant) reading, writing, listing, iterating rows and reporting dimensions all agree on one row-major layout: a written element is read back at the same row and column, no other element changes, and the wrapper types behave exactly like the matrix they wrap, including their transposes and element-wise products.",
 ["inputs","configurations"],"all index pairs and symbolic entries for a grid of shapes of all five types",
 "Tests hardly touch the wrapper types and non-square shapes.",
 [MX,MO,MD,AM],[("MatrixOperations implementations",MX),("delegations",AM),("delegations",MD)],"results of get_element, set_element, elements, iter_rows, n_rows, n_cols, transpose, hadamard_product, inner_elements")
p("P21","MDS decomposition helpers return the right parts of the matrix",
 "For any MDS matrix of width 2 to 8 the row helper returns the first row without its corner, the column helper the first column without its corner, the hat helper the matrix without first row and column, the transpose its transpose, and the inverse its inverse.",
 ["inputs","configurations"],"symbolic entries, widths 2 to 8",
 "No test calls these helpers at most widths.",
 [MD],[("v, w, hat, transpose, inverse, from_elements",MD)],"returned matrices")
p("P22","Constructing a matrix with inconsistent dimensions is always refused",
 "Building any matrix type from a number of elements that does not match its declared shape, or with type-level sizes that contradict each other (also when rows times columns overflows), in debug and release builds alike, is refused at run time (or at compile time in constant context), and multiplying incompatible shapes is refused; no such call ever yields a matrix. Consistent shapes are always accepted.",
 ["inputs","configurations"],"a grid of consistent and inconsistent shapes and element counts for all constructors, symbolic entries",
 "Each refusal is a separate shape; tests cover almost none of them.",
 [MX,MD,AM,MO],[("Matrix::new, new_from_known, MdsMatrix::new, dot_product",MX)],"constructors and products")
p("P23","Equality and cloning of parameters and matrices are exact",
 "Two matrices (of any of the matrix types), S-box descriptors or round-number records compare equal exactly when all their entries are equal, and cloning any of them or a whole parameter set yields a value equal to the original in every entry.",
 ["inputs"],"all pairs of values (symbolic entries)",
 "A comparison or clone that skips one entry passes every test whose matrices differ elsewhere.",
 [MX,AM,MD,V1,V2,AL,RN],[("Clone / PartialEq implementations",MX)],"==, clone()")
p("P24","Every feature configuration computes the same hash and builds without std",
 "Whatever combination of the crate's features is selected (no-std, alloc, std, arithmetic back end of 32 or 64 bits, parallelism, circuits) and whether or not debug assertions are on, each hash and each permutation computes the same function; with default features off the three libraries do not depend on the standard library.",
 ["configurations","inputs"],"the feature combinations of the three published crates, debug assertions on and off, all inputs",
 "The test suite runs under one feature set and one profile.",
 ["poseidon377/Cargo.toml","poseidon-permutation/Cargo.toml","poseidon-parameters/Cargo.toml",L,PERM],[("feature gates",L),("no_std attribute","poseidon-parameters/src/lib.rs")],"hash_k in each configuration")
p("P25","Hashing is a pure function",
 "Hashing reads only its arguments and compile-time constants and writes only its own result: it uses no global mutable state, no clock, randomness, environment, file or network access, no process control and no unsafe code, in the libraries themselves.",
 ["histories","schedules"],"all call paths reachable from the public functions of the three libraries",
 "A hidden dependency on ambient state shows only when that state changes.",
 [H,PERM,R1,MX,MO,MD,AM],[("crate sources","poseidon377/src/lib.rs")],"call graph of the three library crates")
p("P26","Misuse is rejected by the compiler",
 "Programs that hash the wrong number of elements for a rate, feed a permutation a state of the wrong width, pair an instance with parameters of another width, change the parameters while an instance uses them, let an instance outlive its parameters, or touch an instance's private state directly do not compile, while the corresponding correct programs do.",
 ["programs"],"client programs that contain one of the listed misuses",
 "A test that compiles cannot show that another program does not.",
 [PERM,H,L],[("const-generic widths and lifetimes of Instance",PERM),("hash_k signatures",H)],"type checking of client code")
p("P27","Round-number and S-box descriptors report exactly what they hold",
 "For every value, the round-number record returns its full, partial and total counts unchanged and its mutable accessors write to the count they name; the S-box descriptor encodes an exponent as its little-endian bytes and as the same number in floating point, and the inverse S-box as -1 in both encodings.",
 ["inputs"],"all counts (as far as their sum fits) and all 32-bit exponents",
 "Tests never call these functions.",
 [AL,RN],[("Alpha::to_bytes_le, From<Alpha> for f64",AL),("RoundNumbers accessors",RN)],"returned values")
p("P28","Parameters and instances can be shared and moved across threads",
 "Parameter sets, matrices and native permutation instances contain no interior mutability and may be sent to and shared between threads, so any number of threads may hash at once over the same parameters without synchronisation and without affecting each other.",
 ["schedules"],"all interleavings of hashing threads",
 "Interleavings cannot be enumerated by a test run.",
 [PERM,V1,V2,MX],[("Instance, PoseidonParameters",PERM)],"auto traits and field types of the public types")
p("P32","An honest prover can always complete the hash circuit",
 "For each rate, whatever the inputs are and however they are allocated (constants, variables or a mix), generating the hash circuit succeeds, in setup mode as in proving mode, and the constraints it adds are satisfied by the values it assigns: no input is excluded by a constraint, none makes synthesis fail. The same holds for the generic circuit permutation with any parameter set.",
 ["inputs","configurations"],"all field values and all constant/variable modes of the inputs, seven rates; widths 2 to 5 and a grid of round numbers and exponents for the generic circuit",
 "Tests prove a handful of honest assignments; an extra constraint that excludes zero, or equal neighbours, rejects only the inputs nobody tried.",
 [HR,R1],[("r1cs::hash_1 .. hash_7",HR),("InstanceVar::permute and its layers",R1)],"satisfiability of the constraint system after r1cs::hash_k on honest inputs")
p("P33","With default features off the libraries need no heap and no operating system",
 "Built with default features off, the hash, permutation and parameter libraries depend on neither the standard library nor a heap allocator, so that hashing works on targets that have neither.",
 ["configurations"],"every function of the three libraries in the builds with default features off, for both arithmetic back ends",
 "Every test runs with the standard library and a global allocator present, so a dependency on either goes unnoticed.",
 [L,"poseidon-permutation/src/lib.rs","poseidon-parameters/src/lib.rs"],[("crate attributes and imports",L),("crate attributes and imports","poseidon-permutation/src/lib.rs"),("crate attributes and imports","poseidon-parameters/src/lib.rs")],"crates named and functions called by the compiled libraries")
p("P34","The circuit costs five constraints per S-box and nothing else",
 "For each rate and every combination of constant and variable inputs, generating the hash circuit adds exactly five constraints and five assigned variables for each S-box whose input is not a constant, and none for anything else: adding constants, mixing words, and hashing constants only are free. The size of a circuit that uses the hash is therefore known from the rate and the input modes alone.",
 ["inputs","configurations"],"all assignments and all constant/variable modes of the seven circuit hashes",
 "The tests fix one mode (constant domain separator, witness elements) through stored proving keys; the other modes may grow or lose constraints unnoticed.",
 [HR,"poseidon-permutation/src/r1cs.rs"],[("hash_1 to hash_7",HR),("InstanceVar::permute and its layers","poseidon-permutation/src/r1cs.rs")],"constraint and variable counts of the constraint system passed in")
p("P35","Access to an element outside a matrix is always refused",
 "For every matrix type and shape, reading or writing a position whose row or column number lies outside the matrix, or extracting a row that does not exist, is refused at run time: it never returns an entry and never changes another entry, however large the numbers are and whether or not overflow checks are compiled in.",
 ["inputs"],"all positions outside the matrix, on a grid of shapes of all five matrix types, symbolic entries",
 "Tests only touch positions inside; a column number past the edge lands on another row's entry and nothing fails.",
 [MX,AM,MD],[("MatrixOperations::get_element, set_element; row_vector",MX)],"get_element, set_element and row_vector with a position outside the matrix")
p("P36","A circuit instance can be permuted again and keeps its parameters",
 "Permuting a generic circuit instance replaces its state by the permutation of that state under the instance's parameters and changes nothing else: however often an instance has been permuted, the next permutation is again the native permutation with the same, untouched parameters, and the state keeps its width.",
 ["histories","inputs"],"any number of permutations of one instance, all states and modes; widths 2 to 5 and a grid of round numbers and exponents",
 "The tests permute every circuit instance once.",
 [R1],[("InstanceVar, permute",R1)],"state_words and parameters of an InstanceVar after permute()")
p("P37","The libraries' own code cannot break memory safety",
 "The hash, permutation and parameter libraries contain no unsafe code of their own: no unsafe block, function or implementation, no foreign function, no inline assembly, no exported unmangled symbol and no mutable static. No call of any of their functions, with any arguments, can therefore read or write outside its objects unless the compiler or a dependency is itself unsound.",
 ["inputs","programs"],"every function, implementation and item of the three libraries",
 "An out-of-bounds access in unsafe code usually returns something plausible and no test notices.",
 [MX,PERM,H],[("crate sources","poseidon-parameters/src/lib.rs"),("crate sources","poseidon-permutation/src/lib.rs"),("crate sources","poseidon377/src/lib.rs")],"unsafe operations in the compiled libraries")
p("P38","The circuit's constraints are exactly the published sequence",
 "For each rate and every combination of constant and variable inputs, the hash circuit adds the same constraints in the same order: the S-boxes round by round and word by word, each as repeated squaring followed by one product with the word itself, with the same linear combination of inputs, assigned values and constants on each side of each product. A generic circuit instance over any parameter set with non-zero tables likewise adds, for each S-box of a non-constant word, only the square-and-multiply products of its exponent, in that order. The constraint matrices depend on nothing but the rate and the input modes, never on the assigned values, so proving and verifying keys made with one build keep working with every other.",
 ["inputs","configurations"],"all assignments and constant/variable modes of the seven circuit hashes; generic instances of widths 2 to 8 with exponents 3, 5 and 17",
 "The stored keys the tests use fix one mode (constant domain separator, witness elements); in the other modes constraints may be reordered or rephrased, with the right value and the right size, unnoticed.",
 [HR,R1],[("hash_1 to hash_7",HR),("InstanceVar::permute and its layers",R1)],"constraint matrices of the constraint system passed in")
p("P39","A hash takes the work of the optimized schedule, for every input",
 "For each rate, hashing evaluates no more S-boxes than one per word in each of the eight full rounds and one in each of the 31 partial rounds, and multiplies by fewer constants than the plain permutation does: the optimized permutation is what every hash runs, once, whatever the inputs.",
 ["inputs","configurations"],"all inputs of the seven hashes, optimized builds",
 "Both permutations return the same words, so no comparison of values notices that the slow one, or a second run, is used.",
 [H,PERM],[("hash_1 to hash_7",H),("Instance::permute",PERM)],"field operations performed by hash_k")
p("P40","The reference script computes the library's rate-2 permutation",
 "The Sage script in the repository is the reference the library is checked against: over the same field, its plain and its optimized permutation each map every three-word state to exactly the words that the library's plain and optimized permutations produce with the shipped rate-2 parameters, of which hash_2 returns the second; its round constants and mixing matrix are the shipped ones, and the security conditions it evaluates for the instances hold.",
 ["inputs"],"all three-word states",
 "The tests compare the two on one state whose outputs were copied from one run of the script; nothing runs the script again.",
 ["poseidonperm_x17.sage",PERM,H],[("perm and perm_original","poseidonperm_x17.sage"),("Instance::permute, unoptimized_permute",PERM),("hash_2",H)],"words returned by perm and perm_original, and by the two permutations of the rate-2 instance")
p("P29","Hash outputs are collision and preimage resistant",
 "Nobody can find, with less than about 2^128 work, two different inputs of the same rate and domain separator that hash to the same element, or an input for a given output.",
 ["inputs"],"all adversaries and inputs",
 "Computational hardness is not observable.",
 [H,L],[("whole construction",H)],"hash_k")
p("P30","The parameter generator produces secure, reproducible parameters",
 "For every field, security level and width it accepts, the parameter generator produces the same parameters on every run, with a permutation S-box, sufficient rounds, an MDS matrix and optimized tables equivalent to the plain ones.",
 ["inputs","configurations"],"all generator inputs",
 "The generator is tested for a few widths only.",
 ["poseidon-paramgen/src/lib.rs"],[("generate","poseidon-paramgen/src/lib.rs")],"output of the generator")
p("P31","Hashing runs in time independent of the hashed data",
 "The machine-level running time of a hash does not depend on the values of its inputs.",
 ["inputs"],"all pairs of inputs",
 "Timing differences of single field operations are below test resolution.",
 [PERM],[("field arithmetic of the decaf377 dependency",PERM)],"running time")
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
