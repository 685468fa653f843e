"""Single source of the property list: check.py reads it, gen.py derives properties.jsonl and MANIFEST.json."""

P = {}


def prop(id, **kw):
    P[id] = kw


prop("C01",
     crates=["field"],
     title="Binary tower field arithmetic is the mathematical tower field",
     statement="Every canonical binary tower field (1 to 128 bits) computes exactly the field defined by the recursive tower construction: sums, products, squares, inverses, powers, multiplication by tower generators and mixed subfield products equal the defining formulas for all operand values, and only zero lacks an inverse. Embedding a subfield, restricting to it, and splitting into or assembling from subfield coordinates preserve the value and reject exactly the elements or lengths that do not fit.",
     over=["inputs", "configurations"], qtext="all operand values of all eight field sizes; every pair of a field and a subfield used",
     why="The tests compare a few random elements and a few fixed vectors per field; wrong table entries, masks or edge operands (of 2^256 pairs) slip through.",
     files=["crates/field/src/binary_field.rs", "crates/field/src/binary_field_arithmetic.rs", "crates/field/src/extension.rs", "crates/field/src/tower.rs", "crates/field/src/arch/portable", "crates/field/src/arch/x86_64"],
     mech=[("scalar arithmetic of the tower", "crates/field/src/binary_field_arithmetic.rs"), ("field definitions and subfield structure", "crates/field/src/binary_field.rs"), ("mul via packed implementations (GFNI/PCLMUL/portable)", "crates/field/src/arch")],
     explanation="Scalar mul/square/invert/mul_alpha/mul_primitive/pow and the ExtensionField operations are executed on fully symbolic operands; the results are compared bit for bit with an independent recursive tower reference (harness/fref).",
     bounds="All operands of all field sizes for add, sub, mul, square, mul_alpha, mul_primitive, embeddings, coordinates (22 field/subfield pairs). Inversion: all operands up to 16 bits; for 32/64/128 bits, 8 symbolic bits at 4 byte positions over a zero background and 4 symbolic bits over a fixed background. pow: exponents 0..5, 2^8, 2^56 in the 4/8-bit fields.",
     outside="Inverses of arbitrary 32/64/128-bit elements outside the windows; other exponents; CPU targets other than x86-64-v3+aes+pclmulqdq.",
     api=["BinaryField{1,2,4,8,16,32,64,128}b operators", "Field::invert", "InvertOrZero", "Square", "MulAlpha", "TowerField", "ExtensionField"])

prop("C02",
     crates=["field"],
     title="AES-tower and POLYVAL fields are fields isomorphic to the canonical tower",
     statement="The AES-based tower and the POLYVAL field implement their published definitions for all operands, including inverses. The conversions between the canonical tower, the AES tower and the POLYVAL field are mutually inverse ring isomorphisms that commute with tower generators and subfield structure, and a field is classified as AES-tower or canonical exactly when it is one.",
     over=["inputs"], qtext="all operand values of the AES tower fields (8..128 bits) and of the 128-bit POLYVAL field",
     why="Tests sample random pairs; a wrong row of an isomorphism matrix or reduction constant only shows on operands with particular bits set.",
     files=["crates/field/src/aes_field.rs", "crates/field/src/polyval.rs", "crates/field/src/arch"],
     mech=[("AES tower and isomorphism tables", "crates/field/src/aes_field.rs"), ("POLYVAL multiplication, inversion and change of basis", "crates/field/src/polyval.rs")],
     explanation="Isomorphism, multiplication and inversion code of the AES tower and POLYVAL fields executed on symbolic operands; products compared with bitwise reference multiplication (x^8+x^4+x^3+x+1, POLYVAL polynomial, Montgomery factor) or transported through the isomorphism.",
     bounds="All operands for add, mul, square, conversions, generator multiplication. POLYVAL<->tower multiplicativity: all right operands, left operand over all 128 basis elements (both sides are shown bilinear). AES 8-bit inversion: all operands; wider AES and POLYVAL inversion: 8 symbolic bits over zero background, 4 symbolic bits over a fixed background.",
     outside="Inverses of arbitrary wide elements outside the windows; other CPU targets.",
     api=["AESTowerField*", "BinaryField128bPolyval", "From conversions", "is_aes_tower", "is_canonical_tower"])

prop("C03",
     crates=["packed"],
     title="Packed field arithmetic equals scalar arithmetic in every lane",
     statement="For every packed field type (bit-packed, AES, POLYVAL and byte-sliced, all widths), addition, subtraction, multiplication, squaring, inversion, generator multiplication and operations with a broadcast scalar give in each lane exactly what the scalar field gives on that lane's operands, with no interaction between lanes.",
     over=["inputs", "configurations"], qtext="all contents of both operands, every packed type and lane",
     why="Tests use random operands on some types; SIMD kernels have type- and lane-specific masks, shuffles and tables that random data exercise only partially.",
     files=["crates/field/src/packed.rs", "crates/field/src/arch", "crates/field/src/arithmetic_traits.rs"],
     mech=[("packed arithmetic strategies", "crates/field/src/arch/portable"), ("x86 kernels", "crates/field/src/arch/x86_64"), ("byte-sliced kernels", "crates/field/src/arch/portable/byte_sliced")],
     explanation="The packed operators of each concrete type are executed on fully symbolic packed operands and compared lane by lane with the scalar operators (which C01/C02 tie to references).",
     bounds="All operand values. 67 bit-packed types up to 512 bits, 16-byte-column byte-sliced AES types and the 1-bit byte-sliced types in the quick tier; some 16-column and the 32-column byte-sliced types thorough only. Inversion: all operands for lanes up to 16 bits, 4 symbolic bits in each of 3 lanes over a fixed background for wider lanes.",
     outside="64-column (512-bit storage) byte-sliced types; AVX-512/GFNI/NEON kernels, which are not compiled for this target.",
     api=["PackedField operators", "PackedField::square", "PackedField::invert_or_zero", "MulAlpha"])

prop("C04",
     crates=["packed"],
     title="Packed values and slices behave as plain sequences of scalars",
     statement="Reading and writing a lane, broadcasting, building from scalars, iterating, interleaving, unzipping, spreading a block, transposing squares, and packing or indexing slices of packed values act on the sequence of scalars exactly as specified, for every packed type, width, block size and index. Out-of-range indices through checked accessors are reported as errors and leave the value unchanged, with no out-of-bounds memory access.",
     over=["inputs", "configurations"], qtext="all contents, all lane indices (sampled near powers of two beyond 256 lanes), all block sizes, all packed types",
     why="Tests cover some types with random data; the unsafe lane and shuffle code is specialised per type, width and block size.",
     files=["crates/field/src/packed.rs", "crates/field/src/transpose.rs", "crates/field/src/arch", "crates/field/src/underlier"],
     mech=[("packed trait defaults and slice helpers", "crates/field/src/packed.rs"), ("interleave/unzip/spread kernels", "crates/field/src/arch"), ("square transpose", "crates/field/src/transpose.rs")],
     explanation="Every structural operation is executed on symbolic packed values for every type and every concrete index/block size, and compared with its definition on the scalar sequence; the engine also checks each memory access.",
     bounds="All contents; all block sizes; all lanes up to 256 lanes (around powers of two beyond); slices of two packed elements; transposes up to 8x8 blocks, 1 or 2 packed elements per row.",
     outside="Slices longer than two packed elements; 64-column byte-sliced types.",
     api=["PackedField::{get,set,get_checked,set_checked,broadcast,from_fn,from_scalars,iter,interleave,unzip,spread,...}", "packed.rs slice helpers", "square_transpose"])

prop("C05",
     crates=["packed"],
     title="Linear maps, subfield views and scalar-view helpers of packed data are exact",
     statement="Applying any GF(2)-linear map to packed data equals the matrix product on each lane's bits; viewing packed extension elements as packed subfield elements keeps the coordinates in order and is reversible in memory; multiplying by subfield elements, inner products of differently packed slices, subset-sum tables, byte iteration and fixed-width integer sub-value helpers equal their scalar definitions. Mismatched lengths are reported as errors.",
     over=["inputs", "configurations"], qtext="all matrices and all packed contents for the listed type pairs; all positions",
     why="Tests use random matrices and values on few type pairs; each pair compiles to a different specialised kernel or unsafe cast.",
     files=["crates/field/src/linear_transformation.rs", "crates/field/src/packed_extension.rs", "crates/field/src/packed_extension_ops.rs", "crates/field/src/util.rs", "crates/field/src/byte_iteration.rs", "crates/field/src/underlier"],
     mech=[("packed linear transformations", "crates/field/src/linear_transformation.rs"), ("subfield casts", "crates/field/src/packed_extension.rs"), ("extension-by-base products", "crates/field/src/packed_extension_ops.rs"), ("inner products", "crates/field/src/util.rs"), ("byte iteration", "crates/field/src/byte_iteration.rs")],
     explanation="make_packed_transformation with symbolic matrices, casts, ext_base_mul(_par), mul_by_subfield_scalar, inner_product_par/unchecked, iterate_bytes, create_partial_sums_lookup_tables, PackedSlice views and SmallU/underlier sub-value helpers executed on symbolic data against scalar definitions.",
     bounds="Listed type pairs (see harness/packed/src/ext.rs); fully symbolic matrices and contents; slices of 1-4 packed elements (64 for 1-bit), plus sparse symbolic entries in slices of about 1100 elements for the chunked inner product.",
     outside="Type pairs not listed; longer slices.",
     api=["PackedTransformationFactory", "PackedExtension", "ext_base_mul", "inner_product_par", "iterate_bytes", "SmallU", "UnderlierWithBitOps"])

prop("C06",
     crates=["ntt"],
     title="The additive NTT is novel-basis polynomial evaluation and invertible",
     statement="For every supported configuration (field, packing, threads, precomputed or on-the-fly twiddles, even and odd interleaving, batch and coset parameters, skipped rounds), the forward additive NTT maps coefficients in the novel polynomial basis to their evaluations over the chosen coset, the inverse transform undoes it, and single- and multi-threaded variants agree. Inputs of unsupported shape or coset are reported as errors, not transformed wrongly.",
     over=["inputs", "configurations"], qtext="all data values; the listed shapes, fields, packings, thread splits and cosets",
     why="Tests compare a few shapes on random data with another implementation in the same crate; packing, coset and skip-round corner cases have separate code.",
     files=["crates/ntt/src/single_threaded.rs", "crates/ntt/src/multithreaded.rs", "crates/ntt/src/odd_interpolate.rs", "crates/ntt/src/twiddle.rs", "crates/ntt/src/additive_ntt.rs", "crates/ntt/src/dynamic_dispatch.rs"],
     mech=[("butterfly rounds", "crates/ntt/src/single_threaded.rs"), ("multithreaded split", "crates/ntt/src/multithreaded.rs"), ("twiddles", "crates/ntt/src/twiddle.rs"), ("odd interpolation", "crates/ntt/src/odd_interpolate.rs")],
     explanation="The transforms are executed on fully symbolic data; the forward result is compared with direct evaluation of the subspace-vanishing polynomial products defining the novel basis, and the inverse with the identity.",
     bounds="Data sizes up to 2^6 scalars (some up to 2^7), domains up to dimension 7, all skip-round/coset combinations listed in harness/ntt/src/ntt.rs, thread logs 0-4, 8 to 128-bit fields, packings of 2 to 32 scalars, byte-sliced AES.",
     outside="Larger sizes; the order in which threads run (the work split is checked sequentially).",
     api=["AdditiveNTT", "SingleThreadedNTT", "MultithreadedNTT", "DynamicDispatchNTT", "OddInterpolate", "TwiddleAccess"])

prop("C07",
     crates=["math"],
     title="Multilinear evaluation, partial evaluation and folds match the definition",
     statement="Evaluating a multilinear at a point, fixing its low, high or middle variables, every fold kernel, the tensor expansion of a query, linear interpolation folds, zero-padding, packing adapters, subcube extraction and piecewise multilinears give exactly the values of the multilinear extension of the table of hypercube values, for every table, point, packing width and variable count including tables smaller than one packed element. Arguments of the wrong size are reported as errors.",
     over=["inputs", "configurations"], qtext="all tables and points within the listed sizes, small and wide packings, all fold positions",
     why="Tests use random tables on a few packings; the folds have specialised kernels for 1-bit, packed and partially filled data.",
     files=["crates/math/src/fold.rs", "crates/math/src/multilinear_extension.rs", "crates/math/src/multilinear_query.rs", "crates/math/src/mle_adapters.rs", "crates/math/src/tensor_prod_eq_ind.rs", "crates/math/src/piecewise_multilinear.rs"],
     mech=[("fold kernels", "crates/math/src/fold.rs"), ("multilinear extension", "crates/math/src/multilinear_extension.rs"), ("adapters between base and extension packings", "crates/math/src/mle_adapters.rs"), ("piecewise evaluation", "crates/math/src/piecewise_multilinear.rs")],
     explanation="All table entries symbolic; points symbolic in GF(4)/GF(16)/GF(256) and fixed in wide fields; results compared with folding one variable at a time by the defining formula.",
     bounds="Tables of up to 2^8 (1-bit) or 2^5 (wider) values; all split positions; queries of up to 4 variables; fields 1..128 bits, packings 1..32 lanes.",
     outside="Larger tables; symbolic points in fields wider than 16 bits (the folds are linear in the table and use the point only through products decided in smaller fields).",
     api=["MultilinearExtension", "MultilinearPoly", "MLEEmbeddingAdapter", "MLEDirectAdapter", "MultilinearQuery", "tensor_prod_eq_ind", "fold_left/right/middle", "fold_left_lerp", "PiecewiseMultilinear"])

prop("C08",
     crates=["math"],
     title="Univariate interpolation, extrapolation, matrices and subspaces are exact",
     statement="For every set of distinct points, with or without the point at infinity, extrapolation and interpolation recover exactly the unique polynomial through the given values at every argument, Lagrange coefficients are the Lagrange basis, and duplicate points, wrong counts or oversized domains are errors. Matrix inversion returns the true inverse or reports singularity exactly when there is none, and binary subspaces enumerate precisely the combinations of their basis in order.",
     over=["inputs", "configurations"], qtext="all coefficient values, points and matrices within the listed sizes and fields",
     why="Tests use random polynomials on a couple of domain sizes; special points, infinity, pivoting and subspace sizes beyond 64 dimensions are not covered.",
     files=["crates/math/src/univariate.rs", "crates/math/src/matrix.rs", "crates/math/src/binary_subspace.rs"],
     mech=[("barycentric extrapolation and Vandermonde interpolation", "crates/math/src/univariate.rs"), ("Gauss-Jordan inversion", "crates/math/src/matrix.rs"), ("subspace indexing", "crates/math/src/binary_subspace.rs")],
     explanation="Coefficients (and in small fields also points and arguments) symbolic; results compared with direct polynomial evaluation, A*A^-1 = I and the Leibniz determinant.",
     bounds="Domains of 1..12 points (factories up to 300); symbolic points in GF(4) (3 points) and GF(16) (2 points); fully symbolic matrices 2x2 over GF(16), 3x3 over GF(2), partly symbolic 3x3 and 4x4 over GF(4)/GF(16); subspaces with symbolic basis up to dimension 4, all indices of default subspaces.",
     outside="Larger matrices and domains.",
     api=["EvaluationDomain", "InterpolationDomain", "EvaluationDomainFactory", "extrapolate_line*", "evaluate_univariate", "Matrix", "BinarySubspace"])

prop("C09",
     crates=["math"],
     title="Arithmetic expressions keep their polynomial through every transformation",
     statement="Building, combining, converting between expression and circuit form, optimising (constant folding, sharing, dead-step removal), substituting constants, renaming variables and changing fields never change the value of an arithmetic expression at any point. Degree, variable count and usage, tower level, leading term, structural equality and linear normal form report exactly what the expression's structure implies, and non-linear or too-narrow expressions are rejected exactly then.",
     over=["inputs", "configurations"], qtext="all variable values over GF(16); every circuit of the listed shapes with every choice of operands, constants and exponents",
     why="Tests check a dozen handwritten expressions; rewriting rules interact with operand order, sharing, zero/one constants and exponents 0 and 1.",
     files=["crates/math/src/arith_expr.rs"],
     mech=[("circuit evaluation and analyses", "crates/math/src/arith_expr.rs"), ("optimiser", "crates/math/src/arith_expr.rs")],
     explanation="Circuit shape, operand indices, constants and exponents are symbolic choices (one path each); variable values stay symbolic over GF(16); every transformed circuit is compared with evaluating the original by definition.",
     bounds="All circuits of up to 3 steps and families of 4-, 5- and 7-step circuits over 3 variables, constants {0,1,2,13}, exponents {0,1,2,3,6}; nested powers up to 2^64.",
     outside="Longer circuits; hash collisions in the sharing table.",
     api=["ArithExpr", "ArithCircuit", "LinearNormalForm"])

prop("C13",
     crates=["ntt"],
     title="FRI folding of codewords equals the protocol's definition",
     statement="Folding an interleaved codeword chunk with tensor and FRI challenges equals, for every codeword and challenge, combining the interleaved symbols with the tensor expansion and then applying the pairwise inverse-NTT-and-interpolate step once per challenge at the right coset.",
     over=["inputs", "configurations"], qtext="all codeword values and (small fields) all challenges, listed chunk shapes and packings",
     why="Tests compare fold results on random data for one or two shapes.",
     files=["crates/ntt/src/fri.rs"],
     mech=[("fold_pair/fold_chunk/fold_interleaved", "crates/ntt/src/fri.rs")],
     explanation="fold_interleaved executed on symbolic codewords and compared with a scalar definition (interleave combination, then per-challenge butterfly inverse and line extrapolation).",
     bounds="Domains of dimension 4-6, up to 3 FRI challenges, up to 4 interleave challenges, symbolic challenges in 8/16-bit and fixed ones in wide fields.",
     outside="Shapes in which the interleave is narrower than a packed element (excluded by the function's contract).",
     api=["binius_ntt::fri::fold_interleaved"])

prop("C10",
     crates=["core"],
     title="Serialized protocol objects read back unchanged",
     statement="Serializing any supported value (integers, collections, field and packed field elements, arithmetic circuits, transparent polynomials, oracle sets, whole constraint systems) and deserializing it in the same mode yields an equal value, consumes exactly the bytes written, and produces the same bytes again; type-erased polynomials come back as the same function. A truncated buffer, an unknown tag or type name, or invalid text is reported as an error, and a value that does not fit its encoding is refused when writing.",
     over=["inputs", "configurations"], qtext="all contents of the serialized values, both serialization modes, every truncation point, arbitrary bytes for the primitive types",
     why="Tests round-trip a few fixed values; truncation, canonical-form conversion, narrow-integer casts and type-erased dispatch depend on the value.",
     files=["crates/utils/src/serialization.rs", "crates/field/src/serialization.rs", "crates/core/src/transparent", "crates/core/src/oracle", "crates/core/src/constraint_system", "crates/math/src/arith_expr.rs", "crates/macros"],
     mech=[("primitive and collection encodings", "crates/utils/src/serialization.rs"), ("erased polynomial (de)serialization", "crates/core/src/transparent/serialization.rs"), ("constraint system encoding", "crates/core/src/constraint_system/mod.rs"), ("derive macro", "crates/macros")],
     explanation="serialize followed by deserialize executed on symbolic contents; results compared field by field (and, for erased polynomials, at the hypercube points); the buffer is truncated at every length and extended with arbitrary bytes.",
     bounds="Collections up to 3 elements; strings up to 5 bytes; circuits up to 4 steps; erased multilinears up to 2^3 evaluations in each tower level; one constraint system exercising every oracle, constraint, flush and exponent variant with symbolic constants.",
     outside="Erased multilinears of 64/128-bit values larger than one element; malformed but well-framed circuits (operand indices are not validated by the format); hash-map iteration orders.",
     api=["SerializeBytes", "DeserializeBytes", "ConstraintSystem", "MultilinearOracleSet", "Box<dyn MultivariatePoly>"])

prop("C11",
     crates=["core"],
     title="Compiled circuits evaluate to the polynomial they were built from",
     statement="A compiled arithmetic circuit evaluates, at single points and in batches, on scalars and on packed values, to exactly the value of the expression it was built from, for every expression shape and every variable value. Its degree, variable count and tower level are those of the expression, and a variable count smaller than the expression needs is rejected. The library's composition polynomials agree with their expressions, and batches over a subrange of columns read that subrange.",
     over=["inputs", "configurations"], qtext="all variable values; every circuit of the listed shapes with every operand choice",
     why="The compiler's slot reuse and fused operations only go wrong for particular sharing patterns; tests cover a dozen handwritten expressions.",
     files=["crates/fast_compute/src/arith_circuit.rs", "crates/math/src/composition_poly.rs", "crates/math/src/rows_batch.rs", "crates/core/src/composition/index.rs", "crates/core/src/composition/product_composition.rs", "crates/core/src/polynomial/multivariate.rs"],
     mech=[("circuit compilation and interpretation", "crates/fast_compute/src/arith_circuit.rs"), ("composition polynomial interface", "crates/math/src/composition_poly.rs")],
     explanation="Circuit shape and operands are symbolic choices (one path each), variable values symbolic; evaluate and batch_evaluate of the compiled circuit are compared with evaluating the expression by definition.",
     bounds="All circuits of up to 3 operations over 2-3 variables and constants with any operand reuse, fused multiply-add families of 4 operations, powers 0..7; batches of up to 3 packed rows; fields of 1 to 128 bits (7 shapes in wide fields).",
     outside="Longer circuits; other batch lengths.",
     api=["ArithCircuitPoly", "CompositionPoly::evaluate/batch_evaluate", "binius_fast_compute::arith_circuit"])

prop("C17",
     crates=["core"],
     title="Transparent polynomials equal their own multilinear tables",
     statement="Every transparent polynomial (equality indicator, step up/down, select row, powers, shift indicators, tower basis, constants, disjoint products, multilinear extensions) evaluates at any point to the multilinear extension of its defining table, the explicit table it produces lists exactly those values in every packing, and its variable count, degree and tower level are right. Parameters outside the defined range and points of the wrong length are errors.",
     over=["inputs", "configurations"], qtext="all evaluation points (small fields) and all table contents; every parameter choice of the listed sizes",
     why="The verifier uses the short evaluation formula while the prover commits the table; a disagreement at one parameter or off the hypercube makes proofs fail or unsound, and tests sample random points for a few parameters.",
     files=["crates/core/src/transparent", "crates/math/src/tensor_prod_eq_ind.rs"],
     mech=[("evaluation formulas", "crates/core/src/transparent"), ("shift indicator", "crates/core/src/transparent/shift_ind.rs")],
     explanation="Parameters enumerated by the engine, points symbolic in 4/8-bit fields (fixed in 128-bit), table contents symbolic; evaluate() and multilinear_extension() compared with the multilinear extension of the definition.",
     bounds="Up to 4 variables symbolically, 7-14 variables for table contents; all step, select, shift and block parameters at those sizes.",
     outside="Points in wide fields other than the fixed ones; larger tables.",
     api=["binius_core::transparent::*", "MultivariatePoly::evaluate", "multilinear_extension"])

prop("C12",
     crates=["proto"],
     title="Merkle commitments open only to the committed values",
     statement="A Merkle commitment is the tree of hashes defined by the data: an honest opening at any index, layer depth and batch size is accepted and has the announced size, and the layers and branches handed out are the tree's own (each leaf, also when hashed in parallel, is the digest of the serialized batch). Assuming the hash and compression functions have no collisions, no proof, layer or value vector other than the committed one is accepted for any index, and out-of-range indices, wrong lengths and truncated proofs are errors.",
     over=["inputs", "fault_sequences"], qtext="all committed data, all (adversarial) proofs, layers and values, every index and layer depth of the listed tree sizes",
     why="Binding must hold against every proof an adversary can send; tests try a correct opening and a few random corruptions.",
     files=["crates/core/src/merkle_tree", "crates/hash/src/serialization.rs", "crates/hash/src/multi_digest.rs"],
     mech=[("tree construction and branches", "crates/core/src/merkle_tree/binary_merkle_tree.rs"), ("verification", "crates/core/src/merkle_tree/scheme.rs"), ("prover", "crates/core/src/merkle_tree/prover.rs"), ("parallel and buffered hashing", "crates/hash/src/multi_digest.rs"), ("hashing of serialized values", "crates/hash/src/serialization.rs")],
     explanation="Commit, open and verify are executed with the hash and compression functions replaced by injective uninterpreted functions; committed data, claimed values, layer digests and branch bytes are symbolic.",
     bounds="Trees of depth 0-3, batches of 1-11 elements of 8, 32 and 128-bit fields; binding for depths 0-3 with all layer depths up to 2.",
     outside="Deeper trees; the concrete hash functions (assumed collision-free); leaf/node domain separation, which the scheme leaves to the differing functions.",
     api=["BinaryMerkleTreeProver", "BinaryMerkleTreeScheme", "MerkleTreeProver", "MerkleTreeScheme"])

prop("C14",
     crates=["proto"],
     title="Transcripts bind challenges to the whole observed history",
     statement="For every sequence of messages, observed statements, decommitments and samples, prover and verifier transcripts derive the same challenges, which are exactly the hash chain over everything observed so far; changing any observed byte changes later challenges (for a collision-free hash), while decommitments change none. The verifier reads back exactly the values written, in canonical form, and truncated or over-long proofs are reported as errors, never panics.",
     over=["inputs", "histories", "configurations"], qtext="all message contents; every sequence of up to 4 (thorough: 5) operations from 12 kinds, and selected longer ones",
     why="Soundness of Fiat-Shamir rests on no history being left out; tests follow one or two fixed interactions.",
     files=["crates/core/src/transcript/mod.rs", "crates/core/src/fiat_shamir"],
     mech=[("transcript readers and writers", "crates/core/src/transcript/mod.rs"), ("hash-chain challenger", "crates/core/src/fiat_shamir/hasher_challenger.rs")],
     explanation="The sequence of operations is a symbolic choice, message bytes are symbolic, the hash is an injective uninterpreted function; challenges are compared with an independent model of the hash chain, and two histories differing in one message must give different challenges.",
     bounds="Sequences of 3 operations from 12 kinds, 4 from 7 kinds (thorough: 5 from 9 kinds), three longer ones crossing block and digest boundaries; hash with 8-byte blocks and 16-byte output.",
     outside="Longer interactions; the concrete hash function.",
     api=["ProverTranscript", "VerifierTranscript", "HasherChallenger", "CanSample", "CanSampleBits"])

prop("C15",
     crates=["proto"],
     title="Sumcheck and zerocheck verifiers accept exactly the protocol's proofs",
     statement="For every claim and every proof (honest or not), the batched, front-loaded, eq-indicator sumcheck and zerocheck verifiers accept if and only if every round, claim and final-evaluation relation of the protocol holds, and return the protocol's challenges and evaluations. Truncated proofs, misordered or ill-shaped claims and out-of-order calls are errors, and the verifier reads exactly the proof's bytes and leaves the transcript in step with the prover's.",
     over=["inputs", "histories", "fault_sequences"], qtext="all claimed sums, all proof bytes; in GF(4) also all challenge functions (uninterpreted hash)",
     why="A verifier that forgets one term of one check still accepts every honest proof, which is all that tests show it.",
     files=["crates/core/src/protocols/sumcheck"],
     mech=[("batched verification", "crates/core/src/protocols/sumcheck/verify_sumcheck.rs"), ("front-loaded batches", "crates/core/src/protocols/sumcheck/front_loaded.rs"), ("eq-ind reduction", "crates/core/src/protocols/sumcheck/eq_ind.rs"), ("zerocheck", "crates/core/src/protocols/sumcheck/verify_zerocheck.rs")],
     explanation="The verifiers run on symbolic claims and symbolic proof bytes; accept/reject, outputs and transcript state are compared with a verifier written from the protocol's equations.",
     bounds="Batches of 1-3 claims of 0-2 variables (eq-ind: 3), compositions of degree 1-3, 0-2 skipped rounds; GF(4) with uninterpreted challenges, GF(16) with fixed challenges.",
     outside="Larger fields and dimensions; compositions of degree 0 (constants).",
     api=["sumcheck::batch_verify", "sumcheck::front_loaded::BatchVerifier", "sumcheck::eq_ind", "sumcheck::batch_verify_zerocheck", "RoundProof", "RoundCoeffs"])

prop("C16",
     crates=["prove"],
     title="Honest sumcheck and zerocheck proofs are accepted and reduce correctly",
     statement="For every witness, the regular, eq-indicator (with or without constant suffixes) and zerocheck provers produce a proof of a true statement that the verifier accepts, for every evaluation order, switchover round, batch and number of skipped rounds. Prover and verifier return the same challenges and evaluations, and these evaluations are those of the witness multilinears' extensions at the challenge point.",
     over=["inputs", "configurations"], qtext="all witness values of the listed shapes",
     why="Provers specialise on switchover, packing, suffix and skip; tests sample random witnesses for few combinations.",
     files=["crates/core/src/protocols/sumcheck/prove", "crates/hal/src/sumcheck_round_calculation.rs", "crates/hal/src/sumcheck_folding.rs"],
     mech=[("regular prover", "crates/core/src/protocols/sumcheck/prove/regular_sumcheck.rs"), ("eq-ind prover", "crates/core/src/protocols/sumcheck/prove/eq_ind.rs"), ("zerocheck and univariate skip", "crates/core/src/protocols/sumcheck/prove/zerocheck.rs"), ("round evaluation", "crates/hal/src/sumcheck_round_calculation.rs")],
     explanation="Prover and verifier run one after the other on symbolic witness columns with fixed challenges; acceptance, equality of outputs and the reduced evaluations (multilinear extension by definition) are asserted.",
     bounds="Columns of 0-5 variables over GF(2)/GF(16), claims in GF(16), GF(256) and the 128-bit field; batches of up to 3 claims, degree up to 3, switchover 0-3, 0-2 skipped rounds, suffixes 0-7; one fixed challenge sequence.",
     outside="Other challenges, larger columns, the compute-layer (v3) provers.",
     api=["RegularSumcheckProver", "EqIndSumcheckProverBuilder", "ZerocheckProverImpl", "prove::batch_prove", "prove::front_loaded::BatchProver", "prove::batch_prove_zerocheck"])

prop("C18",
     crates=["m3"],
     title="Witness validation accepts exactly the satisfying witnesses",
     statement="For every constraint system and witness of matching shape, validate_witness succeeds if and only if every constraint holds on every row, every derived oracle (shift, packing, projection, padding, repetition, linear combination, composite, transparent) has the values its definition gives, every non-zero oracle is non-zero everywhere, and every channel balances. Exponentiation results are left to the prover, which fills them in.",
     over=["inputs", "programs"], qtext="all values of all columns of small systems, all shift amounts, block positions and projected coordinates, all flush selectors and boundary values",
     why="validate_witness is what application tests rely on to reject a wrong witness; a relation it fails to compare on some row makes every such test vacuous.",
     files=["crates/core/src/constraint_system/validate.rs", "crates/core/src/constraint_system/channel.rs", "crates/core/src/oracle/multilinear.rs", "crates/core/src/polynomial/test_utils.rs"],
     mech=[("per-oracle consistency checks", "crates/core/src/constraint_system/validate.rs"), ("channel balance", "crates/core/src/constraint_system/channel.rs")],
     explanation="A small system with one oracle of each kind is built through the real MultilinearOracleSet, every column is symbolic (also the derived one), the real validate_witness runs, and its verdict must equal the definition of the relation written independently over the symbolic values; the solver decides the equivalence.",
     bounds="Columns of up to 16 rows at tower levels 0, 2, 3 and 5; blocks of 2 and 4; every amount/index in range; channels with two tables of up to two rows, selectors and multiplicities.",
     outside="Larger columns; sampled comparison of tables beyond these sizes; exponentiation results.",
     api=["constraint_system::validate::validate_witness", "MultilinearOracleSet", "MultilinearExtensionIndex"],
     timeout=200)
prop("C19",
     crates=["m3"],
     title="M3 builder: compiled system and filled witness mean what was declared",
     statement="Whatever a table declares - committed, constant, shifted, selected, packed, padded, computed, fixed and structured columns, zero and non-zero constraints, flushes, channel boundaries, lookups, exponentiations, table sizes - the compiled constraint system accepts exactly the column contents the declaration describes, for every column stacking and table size. The witness a fill function writes through the builder's accessors is the witness the constraint system sees, row by row, in sequence and in parallel, and eval_expr returns the declared expression on it.",
     over=["inputs", "programs"], qtext="all column contents, all table sizes up to 128 rows, all flush multiplicities and selectors",
     why="The builder assigns indices, partitions, oracle ids and strides behind the user's back; a mix-up between two columns or rows changes what the proof proves while honest examples can still pass.",
     files=["crates/m3/src/builder/table.rs", "crates/m3/src/builder/constraint_system.rs", "crates/m3/src/builder/witness.rs", "crates/m3/src/builder/expr.rs", "crates/m3/src/builder/structured.rs", "crates/m3/src/builder/multi_table_witness.rs"],
     mech=[("table builder", "crates/m3/src/builder/table.rs"), ("compilation to oracles", "crates/m3/src/builder/constraint_system.rs"), ("witness index and segments", "crates/m3/src/builder/witness.rs")],
     explanation="Tables are declared and compiled by the real builder with symbolic column contents; the verdict of the (separately checked) witness validation and of an independent evaluator of the compiled system must equal the declaration's meaning. Witness filling runs on symbolic rows through every accessor and the resulting index is read back.",
     bounds="Two tables of up to 16 rows (sizes: every size below 128 for the layout), up to 8 values stacked per cell, tower levels 0, 3, 5, 7.",
     outside="Larger tables; hash collisions inside the sharing of identical constant columns; the hash-function gadgets.",
     api=["ConstraintSystem", "TableBuilder", "TableWitnessSegment", "WitnessIndex", "builder::Expr", "StructuredDynSize"],
     timeout=200)
prop("C20",
     crates=["m3"],
     title="Integer gadgets constrain their outputs to the documented function",
     statement="For every addition, subtraction, increment, shift, rotation, multiplication and division gadget: every assignment of its columns that satisfies the compiled constraints has exactly the documented outputs for its inputs, and the witness its populate function fills in satisfies the constraints and holds these outputs, in every row and for all inputs of the gadget's contract.",
     over=["inputs", "programs"], qtext="all inputs and all assignments of all committed columns of a row; witness generation for two rows",
     why="Tests only check honest witnesses; a missing or weakened constraint is invisible to them and makes the gadget forgeable.",
     files=["crates/m3/src/gadgets/add.rs", "crates/m3/src/gadgets/sub.rs", "crates/m3/src/gadgets/mul.rs", "crates/m3/src/gadgets/div.rs", "crates/m3/src/gadgets/barrel_shifter.rs"],
     mech=[("adders and incrementer", "crates/m3/src/gadgets/add.rs"), ("subtractors", "crates/m3/src/gadgets/sub.rs"), ("multipliers by exponentiation", "crates/m3/src/gadgets/mul.rs"), ("dividers", "crates/m3/src/gadgets/div.rs"), ("barrel shifter", "crates/m3/src/gadgets/barrel_shifter.rs")],
     explanation="The gadget is built and compiled by the real builder; the compiled oracles and constraints are given their meaning by an independent evaluator over symbolic columns (exponentiation results by their discrete logarithm to the generator), and the solver shows outputs = function of inputs; then the real witness generation runs on symbolic inputs and must satisfy the same constraints.",
     bounds="One row for soundness (gadgets are row-local), two rows for witness generation; widths 32, 64 (stacked 64 and 128), all flags; all 2^64..2^128 input pairs for soundness; witness generation of dividers, MulSS32 and 64-bit wide adders with carry-in: operands with 3 symbolic bits or sums of two bit patterns.",
     outside="Tables of more rows.",
     api=["gadgets::add", "gadgets::sub", "gadgets::mul", "gadgets::div", "gadgets::barrel_shifter", "TableBuilder", "ConstraintSystem::compile"],
     timeout=400)
prop("C21",
     crates=["comp"],
     title="Every compute layer computes the operations of the compute-layer contract",
     statement="On the CPU layer and the fast CPU layer, every operation of ComputeLayer (copies, tensor expansion, inner products, multilinear folds, composite evaluation, FRI folding, map and accumulate kernels, extrapolation) writes exactly the values of its mathematical definition and touches nothing else, for every size and packing it accepts, and rejects what its contract excludes. Allocations are disjoint, in bounds and aligned, slices split and convert back without losing elements, and errors of closures and kernels are reported.",
     over=["inputs", "configurations"], qtext="all values of all buffers at the listed sizes, all tower levels, all composition expressions of the listed shapes, three packings",
     why="Provers run on whichever layer is selected; a fast path that is right on big slices and wrong on short or partially packed ones yields proofs that only sometimes fail.",
     files=["crates/compute/src/cpu/layer.rs", "crates/compute/src/memory.rs", "crates/compute/src/alloc.rs", "crates/compute/src/ops.rs", "crates/compute/src/layer.rs", "crates/fast_compute/src/layer.rs", "crates/fast_compute/src/memory.rs", "crates/ntt/src/fri.rs"],
     mech=[("reference layer", "crates/compute/src/cpu/layer.rs"), ("packed layer", "crates/fast_compute/src/layer.rs"), ("packed memory", "crates/fast_compute/src/memory.rs"), ("allocators", "crates/compute/src/alloc.rs"), ("FRI folding", "crates/ntt/src/fri.rs")],
     explanation="Each operation runs on buffers with symbolic contents next to cells with symbolic guards; results are compared bit-wise, cell by cell, with a definition written independently, and guards must be untouched.",
     bounds="Buffers of up to 32 elements of the 128-bit field with a few symbolic bits per element or GF(16)-valued elements; kernels with up to 3 memory mappings and 2 chunk sizes; expressions of depth up to 3.",
     outside="pairwise_product_reduce of the fast layer (unimplemented upstream); zero-size allocation from an exhausted allocator; to_owned_mut with a sub-element offset (its behaviour is pinned by an upstream test); GPU layers.",
     api=["ComputeLayer", "ComputeLayerExecutor", "CpuLayer", "FastCpuLayer", "ComputeAllocator", "BumpAllocator", "ComputeMemory", "ComputeData"])
prop("C22",
     crates=["pcs"],
     title="Evalcheck reduces claims on virtual polynomials to equivalent claims",
     statement="For every oracle DAG (repeating, projected, shifted, packed, linear combination, zero-padded, composite, transparent, structured), when the evalcheck verifier accepts any proof and the committed claims and sumcheck constraint sets it outputs hold, the input claims hold; no proof makes it panic. An honest prover's proof is accepted, and prover and verifier output the same committed claims and constraint sets, all of them true of the witness; with the sumchecks in between (greedy evalcheck), only true claims on committed columns remain.",
     over=["inputs", "fault_sequences", "configurations"], qtext="all column contents, all evaluation points and claimed values over GF(4) (some GF(16)), and all proof messages, for 25 oracle DAGs; all witness values for the prover",
     why="A wrong reduction for one oracle kind lets a prover replace a virtual column by anything; tests only run honest proofs on random points.",
     files=["crates/core/src/protocols/evalcheck/verify.rs", "crates/core/src/protocols/evalcheck/prove.rs", "crates/core/src/protocols/evalcheck/subclaims.rs", "crates/core/src/protocols/evalcheck/evalcheck.rs", "crates/core/src/protocols/greedy_evalcheck/prove.rs", "crates/core/src/protocols/greedy_evalcheck/verify.rs", "crates/core/src/oracle/multilinear.rs", "crates/core/src/oracle/constraint.rs", "crates/core/src/transparent/shift_ind.rs", "crates/core/src/transparent/tower_basis.rs", "crates/core/src/transparent/select_row.rs"],
     mech=[("verifier", "crates/core/src/protocols/evalcheck/verify.rs"), ("prover", "crates/core/src/protocols/evalcheck/prove.rs"), ("subclaims and constraint sets", "crates/core/src/protocols/evalcheck/subclaims.rs")],
     explanation="The real verifier runs on a fully symbolic claim and proof; the produced claims and constraint sets are evaluated over the symbolic columns by an independent evaluator and assumed, and the solver shows the input claim. The real prover runs on symbolic witnesses and its transcript goes to the real verifier. Greedy proofs with one claim or proof byte changed by any amount must not end in only true claims.",
     bounds="Oracles of up to 4 variables; two claims in two rounds; soundness in GF(4) with every point, value and message symbolic, packed and composite also in GF(16); prover in GF(16) at fixed points with three packings.",
     outside="Symbolic points for the prover (its memoization hashes them); fields above GF(16); larger DAGs.",
     api=["EvalcheckVerifier", "EvalcheckProver", "greedy_evalcheck::prove/verify", "MultilinearOracleSet", "ConstraintSetBuilder"], timeout=200)
prop("C23",
     crates=["pcs"],
     title="FRI accepts honest foldings and only consistent ones",
     statement="The FRI prover's proof for any message is accepted and gives the value of the message's multilinear extension at the folding challenges, for every accepted parameter choice. The verifier accepts a query if and only if the opened cosets fold to the value in the next codeword, and the final codeword if and only if it is the committed one and folds to a repetition of the returned value; altered, truncated or missing proofs are errors.",
     over=["inputs", "fault_sequences", "configurations"], qtext="all committed words and all query indices over GF(16) (or all errors in two positions per codeword), one changed bit at 120 places of honest proofs, several bits of every second message value in the 128-bit field",
     why="A fold check at the wrong position or twiddle still accepts every honest proof; only quantifying over the words a cheating prover may commit shows the check binds.",
     files=["crates/core/src/protocols/fri/verify.rs", "crates/core/src/protocols/fri/prove.rs", "crates/core/src/protocols/fri/common.rs", "crates/core/src/reed_solomon/reed_solomon.rs", "crates/ntt/src/fri.rs"],
     mech=[("verifier", "crates/core/src/protocols/fri/verify.rs"), ("folder", "crates/core/src/protocols/fri/prove.rs"), ("fold arithmetic", "crates/ntt/src/fri.rs")],
     explanation="Words are committed honestly (with collision-free uninterpreted hashes) and opened by the real prover; the verifier's verdict must equal fold consistency computed by definition with the NTT's subspace evaluations. Honest runs use the real folder on the CPU layer and compare the final value with the multilinear extension by definition.",
     bounds="Codes of dimension 0-3, rate 1/2, 1/4 and 1/8, batches of 1-4, arities 1-3 in up to two commitments after the first; fixed folding challenges except for GF(16) codes of up to 8 symbols; 1-3 test queries.",
     outside="The number of test queries for a security level (floating point); parameters with a first arity smaller than the batch size, which FRIParams::new lets through.",
     api=["FRIVerifier", "FRIFolder", "FRIParams", "fri::commit_interleaved", "ReedSolomonCode"], timeout=200)

prop("C24",
     crates=["prove", "comp"],
     title="Grand products and exponentiations are proved correctly or rejected",
     statement="The GKR provers for grand products and for exponentiations are accepted by their verifiers on every honest witness, in both evaluation orders and in batches of mixed sizes, and both sides end in the same claims, which are true of the witness. A changed product, base, exponent claim or proof scalar never leads to acceptance with only true final claims, and a wrong product is not provable. The product circuit layers of a compute layer are the products of the halves of the layer above.",
     over=["inputs", "fault_sequences", "configurations"], qtext="one to all witness values (or a subspace of the 128-bit field), every exponent bit pattern of the chosen positions, every nonzero change at every position of claim and proof",
     why="A layer that reads a neighbouring half, a power of the wrong bit or a dropped check passes for most witnesses and most proofs; acceptance has to be quantified over the witness and over the altered proof.",
     files=["crates/core/src/protocols/gkr_gpa/verify.rs", "crates/core/src/protocols/gkr_gpa/prove.rs", "crates/core/src/protocols/gkr_gpa/gkr_gpa.rs", "crates/core/src/protocols/gkr_gpa/oracles.rs", "crates/core/src/protocols/gkr_exp/batch_verify.rs", "crates/core/src/protocols/gkr_exp/batch_prove.rs", "crates/core/src/protocols/gkr_exp/verifiers.rs", "crates/core/src/protocols/gkr_exp/provers.rs", "crates/core/src/protocols/gkr_exp/witness.rs", "crates/core/src/protocols/gkr_exp/oracles.rs", "crates/core/src/protocols/gkr_exp/compositions.rs", "crates/core/src/protocols/prodcheck/prove.rs"],
     mech=[("grand product argument", "crates/core/src/protocols/gkr_gpa/verify.rs"), ("exponentiation", "crates/core/src/protocols/gkr_exp/batch_verify.rs"), ("product circuit", "crates/core/src/protocols/prodcheck/prove.rs")],
     explanation="Real prover and verifier run on symbolic witnesses; products, powers and multilinear extensions are computed by definition. Forgeries add an arbitrary nonzero amount to one scalar of claim or proof: the verifier must reject or end in a false claim.",
     bounds="Tables of up to 32 values and 1-65 exponent bits, batches of up to 4; GF(16) in full and the 128-bit field over subspaces; fixed challenges whose nibbles are primitive in GF(16); one altered scalar.",
     outside="Several altered scalars at once and chance acceptance by unlucky challenges (soundness error); larger tables.",
     api=["gkr_gpa::batch_prove/batch_verify", "gkr_exp::batch_prove/batch_verify", "BaseExpWitness", "GrandProductWitness", "ProductCircuitLayers"], timeout=200)
