#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the long texts stay editable)."""
import json, os
R="Reference_Implementation/lib/"; O="Optimized_Implementation/common/lib/"
RI="Reference_Implementation/include/"; OI="Optimized_Implementation/common/include/"
def both(*fs): return [d+f for f in fs for d in (R,O)]
def bothi(*fs): return [d+f for f in fs for d in (RI,OI)]
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("P01","Every signature that signing produces is accepted and returns the message",
 "For every key pair, every message of every length (including the empty one) and every outcome of the challenge, opening a freshly signed message under the matching public key succeeds and returns exactly the signed message and its length. This holds whatever number of tree seeds the challenge makes the signer publish, from the smallest to the largest possible number, in every implementation and parameter set.",
 ["inputs","configurations","histories"],
 "all keys, messages, message lengths and signing randomness; all challenge vectors; 7 parameter sets x 3 implementations (reference, AVX2, NEON)",
 "Tests sign a handful of random messages; the extreme challenges (fewest/most published seeds, clustered or alternating positions) have negligible probability under random signing, yet are legal.",
 both("LESS.c","sign.c","seedtree.c")+bothi("parameters.h"),
 [("sign / open wrappers, trailing count byte and length computation",R+"sign.c crypto_sign, crypto_sign_open"),
  ("commit/challenge/response loop",R+"LESS.c LESS_sign, LESS_verify")],
 ["crypto_sign","crypto_sign_open"])

prop("P02","Opening accepts exactly what the LESS verification algorithm accepts",
 "For every public key, message and signature, opening succeeds if and only if the specified verification algorithm accepts: responses decode to valid monomial actions, and the hash of the recomputed commitments, the message and the salt equals the transmitted digest. In particular altering any bit of the message, salt, digest, published seeds or of the decoded meaning of a response, exchanging, truncating or extending parts, or opening under another key, is rejected.",
 ["inputs","fault_sequences"],
 "every signed message and every alteration of it: all single-bit changes, byte substitutions, field swaps, truncations and extensions, wrong keys, and forged signatures with any challenge",
 "The repository has no negative test at all: a verifier that accepts everything passes the whole suite.",
 both("LESS.c","sign.c","monomial.c","codes.c"),
 [("recomputation and comparison of the challenge digest",R+"LESS.c LESS_verify"),
  ("validation of monomial actions",R+"monomial.c is_monom_action_valid"),
  ("length/count handling",R+"sign.c crypto_sign_open")],
 ["crypto_sign_open"])

prop("P03","Opening arbitrary bytes is memory-safe, terminates, and reports success or failure",
 "For every byte string of every length given as a signed message, opening terminates, returns either success or failure, never reads outside the given bytes or the public key, and never writes more than the given number of bytes to the message buffer. Byte strings that are too short to hold a signature, or whose trailing seed count does not fit the challenge or the length, are rejected.",
 ["inputs"],
 "all byte strings as signed message: all lengths from 0 up, all trailing count bytes, all challenge digests, all contents of responses, with a valid public key",
 "Tests only feed the opener with signatures it produced itself in full-size buffers, so out-of-range reads and underflowing lengths cannot show.",
 both("sign.c","LESS.c","seedtree.c","monomial.c"),
 [("length and published-seed count checks",R+"sign.c crypto_sign_open"),
  ("seed consumption while rebuilding the tree",R+"seedtree.c rebuild_seed_tree_leaves")],
 ["crypto_sign_open"])

prop("P04","Malformed public keys are rejected without undefined behaviour",
 "For every byte string of public-key length, opening any signed message under it terminates without reading outside the key or the signed message and with a result that depends only on the inputs. A key whose matrices do not have exactly one pivot flag per row, or that contains a value that is not a field element, verifies no signature.",
 ["inputs"],
 "all byte strings as public key: all single-bit changes, pivot-flag patterns of every weight, all out-of-field values at every position",
 "Tests only use keys that key generation produced.",
 both("codes.c","LESS.c"),
 [("decoding of the compressed matrix",R+"codes.c expand_to_rref"),
  ("row reduction of decoded matrices",O+"codes.c generator_RREF")],
 ["crypto_sign_open"])

prop("P05","Key generation produces exactly the specified key pair",
 "For every stream of system randomness, key generation writes exactly the secret key (private seed, public code seed) and public key (public code seed, one compressed reduced matrix per secret monomial) that the LESS specification prescribes, byte for byte. Each public matrix is the reduced row echelon form of the public code transformed by the inverse of the corresponding secret monomial, so that the pair always matches.",
 ["inputs","configurations"],
 "all random streams, including streams that make rejection sampling, zero pivots and row swaps happen at any place; 7 parameter sets x 3 implementations",
 "Tests never compare a key with an independent computation; consistent mistakes in key generation and signing cancel out in round trips, and no known-answer file is shipped.",
 both("LESS.c","codes.c","monomial.c","rng.c"),
 [("key generation",R+"LESS.c LESS_keygen"),("public code expansion",R+"codes.c generator_SF_seed_expand"),
  ("compression of the reduced matrix",R+"codes.c compress_rref")],
 ["crypto_sign_keypair"])

prop("P06","Signing produces exactly the specified signature",
 "For every secret key, message and stream of system randomness, signing returns success and writes the message followed by exactly the signature bytes the LESS specification prescribes (salt, responses, digest, published tree seeds, seed count), with the reported length equal to their total. Nothing else than these values enters the output.",
 ["inputs","configurations"],
 "all secret keys, messages (all lengths) and random streams; all challenge outcomes; 7 parameter sets x 3 implementations",
 "Tests check only that the repository's own verifier accepts; any deviation from the specified format or derivation that signer and verifier share goes unnoticed.",
 both("LESS.c","sign.c","codes.c","monomial.c","seedtree.c","utils.c"),
 [("signing",R+"LESS.c LESS_sign"),("signature layout",RI+"LESS.h sign_t"),("length macro",RI+"parameters.h LESS_CRYPTO_BYTES")],
 ["crypto_sign"])

prop("P07","Reference, AVX2 and NEON implementations are interchangeable",
 "With the same parameter set and the same randomness, the reference, AVX2 and NEON implementations produce identical keys and identical signatures, and each of them gives the same verdict and the same recovered message as the others on every signed message, valid or altered. Keys and signatures made by one can be used with any other.",
 ["inputs","configurations"],
 "all seeds and messages, all altered signatures; all ordered pairs of implementations; 7 parameter sets",
 "Every test binary links one implementation and talks only to itself; the NEON implementation is not built at all.",
 both("LESS.c","codes.c","monomial.c","seedtree.c","utils.c","sign.c")+bothi("parameters.h","fq_arith.h")+["Optimized_Implementation/avx2/include/macro.h","Optimized_Implementation/neon/include/macro.h"],
 [("vectorised kernels",O+"codes.c generator_monomial_mul, generator_RREF"),("scalar kernels",R+"codes.c")],
 ["crypto_sign_keypair","crypto_sign","crypto_sign_open"])

prop("P08","The published seeds reveal exactly the opened rounds and rebuild them",
 "For every challenge, the seeds placed in a signature let the verifier recompute exactly the round seeds the signer used for every opened round, in order, using exactly as many seeds as were published. No published seed is the seed of a hidden round or of one of its ancestors in the tree, so no hidden round seed can be derived, and no proper subset of the published seeds would suffice.",
 ["inputs","configurations"],
 "all subsets of hidden rounds (any number, any positions), all root seeds and salts, all tree sizes including numbers of rounds that are not a power of two",
 "Random challenges exercise a vanishing fraction of the subsets; tests never look at which nodes are published, so over-publication (a key leak) would pass all of them.",
 both("seedtree.c","LESS.c")+bothi("seedtree.h"),
 [("which nodes to publish",R+"seedtree.c compute_seeds_to_publish, seed_tree_path"),
  ("rebuilding",R+"seedtree.c rebuild_seed_tree_leaves"),("tree generation",R+"seedtree.c generate_seed_tree_from_root")],
 ["seed tree functions","signature bytes"])

prop("P09","Signatures never exceed the advertised maximum size, and every size is accepted",
 "For every possible challenge the number of published seeds is at most the advertised maximum, and a signed message is never longer than the message plus the advertised signature size. Every length up to and including that maximum which signing can produce is handled by opening.",
 ["inputs","configurations"],
 "all challenge vectors of the prescribed weight for each of the 7 parameter sets",
 "The extreme challenges have probability far below anything a random test can hit; an undersized buffer only overflows there.",
 both("seedtree.c","LESS.c","sign.c")+bothi("parameters.h","LESS.h","api.h")+["Utilities/Parameter_Generation_Scripts/seed_tree_param_computer.py"],
 [("maximum path size constants",RI+"parameters.h SEED_TREE_MAX_PUBLISHED_BYTES, MAX_PUBLISHED_SEEDS"),
  ("signature storage",RI+"LESS.h sign_t"),("count check",R+"sign.c crypto_sign_open")],
 ["crypto_sign","crypto_sign_open","CRYPTO_BYTES"])

prop("P10","The challenge always has the prescribed weight and is derived as specified",
 "Every digest expands, in finitely many draws of its random stream, to a challenge vector with exactly the prescribed number of nonzero entries, each a valid key index, placed by the specified rejection sampling. Every position and every nonzero key index is reachable and equally likely, and signer and verifier derive the same vector.",
 ["inputs","configurations"],
 "all digests, seen as all streams of 16-bit draws: every draw value in every reachable placement state; 7 parameter sets",
 "Boundary draws (last position, non-power-of-two key count, already occupied position) are rare, and a biased or truncated expansion is still consistent between signer and verifier.",
 both("utils.c")+bothi("utils.h","parameters.h"),
 [("rejection sampling of value and position",R+"utils.c expand_digest_to_fixed_weight")],
 ["expand_digest_to_fixed_weight","signature bytes"])

prop("P11","Field arithmetic is exact on the whole field",
 "Reduction, multiplication, inversion and the vectorised multiply-and-reduce and add-and-reduce steps return the exact canonical result modulo 127 for every operand pair that the scheme can feed them, in every vector lane. In particular every nonzero element has its true inverse and no result is left as the unreduced value 127.",
 ["inputs","configurations"],
 "all operand values and pairs (127 x 127, all 16-bit inputs to scalar reduction), all column/lane positions, all implementations",
 "The suite inverts a few random elements; single wrong products or lanes are invisible in most random runs.",
 bothi("fq_arith.h")+["Optimized_Implementation/avx2/include/macro.h","Optimized_Implementation/neon/include/macro.h"]+both("codes.c"),
 [("scalar arithmetic",RI+"fq_arith.h fq_red, fq_inv; "+OI+"fq_arith.h br_mul, br_red"),
  ("vector arithmetic","Optimized_Implementation/*/include/macro.h barrett_mul_u16, W_RED127_")],
 ["fq_red","fq_inv","generator_monomial_mul","generator_RREF"])

prop("P12","Row reduction returns the unique reduced row echelon form",
 "For every matrix over the field, row reduction reports success exactly when the matrix has full row rank, and then leaves the unique reduced row echelon form of its row space together with a flag for exactly the pivot columns. This holds whatever row exchanges or pivot positions are needed and does not depend on any padding.",
 ["inputs","configurations"],
 "all matrices: exhaustively all small ones over representative field values and all pivot-column patterns, and every pivot/row-exchange position at full size",
 "Random matrices almost always have their pivots in the first columns with few exchanges; the suite checks only self-consistency on those.",
 both("codes.c"),
 [("elimination",R+"codes.c generator_RREF; "+O+"codes.c generator_RREF")],
 ["generator_RREF"])

prop("P13","Prover and verifier always compute the same canonical commitment",
 "For every code, every ephemeral monomial and every secret monomial, the commitment computed while signing equals the one the verifier computes from the opened seed, and equals the one it computes from the public key and the composed response. The commitment matrix consists of the non-pivot columns, each scaled so that its first nonzero entry is one, sorted in increasing lexicographic order with duplicates kept, and does not depend on the order or scaling of the non-pivot columns.",
 ["inputs","configurations"],
 "all codes, monomials and secret/response compositions; all column multisets including repeated, zero and sparse columns; leading entries at every row",
 "Random codes practically never have equal, zero or long-prefix-equal columns, nor leading entries beyond the first few rows, so ordering and scaling corner cases stay untested.",
 both("codes.c","monomial.c","LESS.c"),
 [("canonical columns and sorting",R+"codes.c lex_minimize, lex_sort_cols, prepare_digest_input"),
  ("response application",R+"codes.c apply_action_to_G"),("composition",R+"monomial.c monomial_compose_action")],
 ["lex_minimize","lex_sort_cols","prepare_digest_input","apply_action_to_G"])

prop("P14","Compressed matrices and responses decode to what was encoded",
 "For every reduced matrix with every pivot pattern and every response, encoding writes every bit of exactly the specified packed length in the specified order, independently of the previous contents of the output buffer, and decoding returns the original object. Different objects have different encodings and neither direction touches bytes outside the packed length.",
 ["inputs","configurations"],
 "every field value at every matrix position, all pivot patterns, every column index and coefficient at every response position; all parameter sets and implementations",
 "Round-trip tests use a few random objects; an encoder that mangles a particular value/position pair or relies on a zeroed buffer can pass them.",
 both("codes.c","monomial.c")+bothi("parameters.h"),
 [("matrix codec",R+"codes.c compress_rref, expand_to_rref"),("response codec",R+"monomial.c compress_monom_action, expand_to_monom_action")],
 ["compress_rref","expand_to_rref","compress_monom_action","expand_to_monom_action"])

prop("P15","Sampled monomials and codes are valid, unbiased and domain-separated",
 "Every random stream expands, as specified, to a monomial whose permutation is a bijection and whose coefficients are nonzero field elements, or to a systematic generator matrix with entries in the field. Every permutation and every value is reachable with equal probability over uniform streams (up to the rounding of a 32-bit draw), and the stream depends on the whole seed and, for ephemeral monomials, on the whole salt and the round number.",
 ["inputs","configurations"],
 "all random streams (every accept/reject pattern of the samplers, every draw value, every shuffle choice), all seeds, salts and round numbers",
 "A bias, an unreachable permutation or an ignored part of seed, salt or round number is invisible to round-trip tests, which only need signer and verifier to agree.",
 both("monomial.c","codes.c","rng.c")+bothi("fq_arith.h","rng.h"),
 [("samplers",RI+"fq_arith.h DEF_RAND, DEF_RAND_STATE"),("shuffle and expansion",R+"monomial.c monomial_mat_seed_expand_salt_rnd, monomial_mat_seed_expand_prikey"),
  ("code expansion",R+"codes.c generator_SF_seed_expand")],
 ["monomial expansion functions","generator_SF_seed_expand"])

prop("P16","Monomial operations obey the algebra of monomial matrices",
 "For all monomial matrices, multiplication, inversion, identity, application to a generator matrix, and composition of a response with a secret monomial agree with the corresponding operations on full matrices. Hence products are associative, inverses cancel on both sides, applying a product equals applying its factors in turn, and a composed response acts like its parts.",
 ["inputs","configurations"],
 "all monomials of small dimension (all permutations with representative coefficients), all pairs; structured monomials at full size",
 "The suite multiplies a few random monomials; convention errors that only show for non-involutive permutations or unequal coefficients, or in rarely used positions, need systematic pairs.",
 both("monomial.c","codes.c"),
 [("operations",R+"monomial.c monomial_mat_mul, monomial_mat_inv, monomial_compose_action"),("application",R+"codes.c generator_monomial_mul")],
 ["monomial functions","generator_monomial_mul"])

prop("P17","A response is accepted for use only if it is a well-formed monomial action",
 "A decoded response is considered valid if and only if every coefficient is a nonzero field element and all column indices are below the code length and pairwise distinct. A signature containing a response that is not valid is rejected whatever its position and whatever the digest.",
 ["inputs","configurations"],
 "every coefficient value and column index at every position, every pair of duplicate positions, alone and inside a signature",
 "The suite never decodes an invalid response.",
 both("monomial.c","LESS.c"),
 [("validity test",R+"monomial.c is_monom_action_valid"),("use in verification",R+"LESS.c LESS_verify")],
 ["is_monom_action_valid","crypto_sign_open"])

prop("P18","The bundled SHA-3 and SHAKE compute FIPS 202 for every input and call pattern",
 "For every input, the hash and extendable-output functions return exactly the FIPS 202 value, however the input is divided among absorb calls and the output among squeeze calls, and however instances are interleaved or copied. One-shot, block-wise and incremental interfaces agree.",
 ["inputs","histories"],
 "all input lengths up to several rate blocks around every block boundary, all two- and three-way divisions of input and output around the boundaries, all call orders up to a depth",
 "The suite contains no test vector for the hash layer: a consistently wrong hash passes all round trips, and block-boundary mistakes need particular lengths.",
 both("fips202.c","keccakf1600.c"),
 [("sponge",R+"fips202.c"),("permutation",R+"keccakf1600.c")],
 ["sha3_*","shake*"])

prop("P19","Results depend only on the arguments and the random stream, never on history",
 "Every call of key generation, signing and opening gives the same results and consumes the same randomness as if it were the first call in a fresh process with the same arguments and random stream, whatever sequence of successful or failed calls came before. Results do not depend on uninitialised memory, on earlier contents of output buffers or on where the arguments are placed, and the inputs are left unchanged.",
 ["histories","inputs"],
 "all sequences of calls up to a depth over two key pairs, several messages and altered signatures; several initial contents of memory, buffers and alignments",
 "Tests run one fixed sequence per process; hidden state carried between calls or read from stale memory needs particular sequences.",
 both("LESS.c","sign.c","codes.c","monomial.c","seedtree.c","utils.c","rng.c"),
 [("all state is local except the system random stream",R+"rng.c platform_csprng_state"),("seed area cleared",R+"LESS.c LESS_sign")],
 ["crypto_sign_keypair","crypto_sign","crypto_sign_open"])

prop("P20","Concurrent openings do not influence each other",
 "Any number of threads may open signed messages at the same time, with the same or different keys, and each gets exactly the verdict and message it would get alone, under every interleaving. Opening does not consume system randomness.",
 ["schedules"],
 "all interleavings of two (three in the thorough tier) concurrent openings at every access to shared memory",
 "The suite is single-threaded.",
 both("LESS.c","sign.c","codes.c","monomial.c","seedtree.c","utils.c","fips202.c","keccakf1600.c"),
 [("opening keeps all its state on the stack",R+"LESS.c LESS_verify")],
 ["crypto_sign_open"])

prop("P21","The known-answer generator's random source is the NIST AES-256 CTR DRBG",
 "For every seed, personalization and sequence of requests of the lengths the generator permits (up to 2^16 bytes each), the random source used to create known-answer tests returns exactly the NIST AES-256 CTR-DRBG output and advances its state as specified, including counter carries. Its seed expander returns the same bytes however a request is divided, and refuses requests beyond its declared maximum without changing its state.",
 ["inputs","histories"],
 "all request lengths around block boundaries, all sequences of requests up to a depth, counters at every carry position",
 "The suite never compares this output with anything.",
 ["Reference_Implementation/lib/nist/KAT_NIST_rng.c","Optimized_Implementation/common/lib/nist/KAT_NIST_rng.c","Utilities/KAT_Generation/lib/KAT_NIST_rng.c"],
 [("DRBG",R+"nist/KAT_NIST_rng.c KAT_NIST_randombytes"),("seed expander",R+"nist/KAT_NIST_rng.c KAT_NIST_seedexpander")],
 ["KAT_NIST_randombytes","KAT_NIST_seedexpander"])

prop("P22","Known-answer files faithfully record reproducible signatures",
 "Every record of a generated response file contains the count, seed, message and lengths of the request, and the key pair and signed message that the library produces when its random stream is initialised with the recorded seed, so that anyone can reproduce and verify it. Hexadecimal fields of every length read back as exactly the bytes that were written, wherever the marker occurs.",
 ["inputs","configurations"],
 "all records of the generated files; all field contents and lengths of the reader/writer alphabet, including markers overlapping preceding text and empty fields",
 "The generator's output is not compared with anything in the suite.",
 ["Reference_Implementation/lib/nist/PQCgenKAT_sign.c","Optimized_Implementation/common/lib/nist/PQCgenKAT_sign.c","Utilities/KAT_Generation/lib/PQCgenKAT_sign.c"],
 [("file writer/reader",R+"nist/PQCgenKAT_sign.c fprintBstr, ReadHex, FindMarker"),("generator",R+"nist/PQCgenKAT_sign.c main")],
 ["PQCsignKAT_*.req","PQCsignKAT_*.rsp"])

prop("P23","The parameter script never underestimates the seed-tree cost",
 "For every number of rounds and number of hidden rounds, the size printed by the parameter script is at least the size of the largest set of seeds that any challenge can force a signer to publish when the round seeds are the leaves of the least-height binary tree with that many leaves, and it equals the constant compiled into each parameter set. When at most half of the rounds are hidden it equals the documented formula.",
 ["inputs","configurations"],
 "all numbers of rounds and hidden rounds up to a bound, all security levels; exact worst case computed over all challenges",
 "No test runs the script.",
 ["Utilities/Parameter_Generation_Scripts/seed_tree_param_computer.py"]+bothi("parameters.h"),
 [("worst-case formula","Utilities/Parameter_Generation_Scripts/seed_tree_param_computer.py worst_case_seed_tree_cost")],
 ["script output"])

prop("P24","Every key and signature uses fresh, disjoint randomness of the prescribed amount",
 "Each key generation and each signing call draws exactly its prescribed number of bytes from the system random stream, in the prescribed order, and uses every drawn byte, so that consecutive operations never share or reuse randomness. Ephemeral secrets and salt are taken from the stream at every signing call, whatever the message or key, and changing any single drawn byte changes the output.",
 ["histories","inputs"],
 "all sequences of operations up to a depth, all positions of the stream, all challenge outcomes",
 "Reuse or partial use of randomness leaks the key but leaves every signature valid, so round-trip tests pass.",
 both("LESS.c","rng.c")+bothi("rng.h"),
 [("draws",R+"LESS.c LESS_keygen, LESS_sign"),("system stream",RI+"rng.h randombytes")],
 ["crypto_sign_keypair","crypto_sign","system random stream"])

prop("P25","Honest operations stay inside their buffers in every build",
 "For valid inputs, key generation, signing and opening write only inside the documented output sizes, read only inside their inputs, and execute no undefined behaviour, in debug and release builds, for every challenge including those that publish the most seeds. Buffers of exactly the advertised sizes at any alignment are always sufficient.",
 ["inputs","configurations"],
 "all challenge outcomes (fewest to most published seeds), message lengths around boundaries, all alignments modulo 32, all parameter sets and implementations",
 "Sanitizer runs of the suite see only typical challenges and generously sized, aligned buffers.",
 both("LESS.c","sign.c","codes.c","monomial.c","seedtree.c","utils.c","fips202.c")+bothi("parameters.h","LESS.h","api.h"),
 [("sizes",RI+"api.h CRYPTO_*BYTES"),("packed sizes",RI+"parameters.h")],
 ["crypto_sign_keypair","crypto_sign","crypto_sign_open"])

prop("P26","Benchmark statistics equal the exact mean and deviation",
 "For every sequence of samples the running statistics used by the benchmarks return the exact mean and sample standard deviation of the sequence up to rounding, independently of order, and the t statistic of two sequences equals its definition.",
 ["inputs","histories"],
 "all sequences of samples up to a length over representative values",
 "No test checks the numbers the benchmarks print.",
 ["Utilities/Benchmarking/include/timing_and_stat.h","Utilities/MemoryBenchmarking/include/timing_and_stat.h"],
 [("Welford update","Utilities/Benchmarking/include/timing_and_stat.h welford_update, welch_t_statistic")],
 ["welford_mean","welford_stddev","welch_t_statistic"])

prop("P27","The memory report parser reads back every well-formed profile",
 "For every well-formed heap-profile file the parser returns exactly the header fields, snapshots, heap trees and peak index it contains, and every malformed file (a line missing, misplaced or misnamed, a value that is not a number of digits or of an unknown kind, trailing text, an early end) raises the documented parse error instead of returning wrong data. The memory report gives for every profile the largest stack size among its snapshots.",
 ["inputs"],
 "all profile documents up to a small number of snapshots and tree nodes over a representative alphabet (function names as C programs have them), and all single-line omissions and truncations of them",
 "No test runs the parser.",
 ["Utilities/MemoryBenchmarking/bench.py"],
 [("parser","Utilities/MemoryBenchmarking/bench.py parse"),("report","Utilities/MemoryBenchmarking/bench.py parse_massif")],
 ["parse","printed report"])

prop("P28","Secret-dependent timing does not leak",
 "The time and memory-access pattern of key generation and signing are independent of the secret key and of ephemeral secrets.",
 ["inputs"],
 "all pairs of secrets",
 "Tests observe values, not timing.",
 both("codes.c","monomial.c"),
 [("constant-time comparison and selection",R+"LESS.c timing_safe_memcmp; "+R+"codes.c lex_minimize")],
 ["execution time"])

prop("P29","Signatures are existentially unforgeable",
 "Without the secret key no efficient adversary can produce a message and signature that open successfully, under the hardness of linear code equivalence.",
 ["programs"],
 "all efficient adversaries",
 "A computational assumption cannot be tested.",
 both("LESS.c")+bothi("parameters.h"),
 [("parameter choice",RI+"parameters.h")],
 ["crypto_sign_open"])

prop("P30","Diagnostic dumps show exactly the object",
 "Each function that prints a matrix, a compact matrix, or a monomial (as lists or expanded to a full matrix) writes, after the given name taken literally, exactly the entries of the object in order, row by row, as well-formed nested lists on the error stream, writes nothing to the standard output, and leaves the object and the name untouched.",
 ["inputs","configurations"],
 "all objects (all tiny ones over chosen values; every entry position and value at full size), all names, 7 parameter sets x 3 implementations",
 "The tests call them only when another test has already failed.",
 both("codes.c","monomial.c"),
 [("matrix dumps",R+"codes.c generator_pretty_print_name, generator_rref_pretty_print_name"),("monomial dumps",R+"monomial.c monomial_mat_pretty_print_name, monomial_mat_print_exp_name")],
 ["text written to the error stream"])

prop("P31","The bundled AVX2 assembly sponge computes Keccak-p",
 "For every state, the bundled assembly permutations (24, 12 and n rounds) compute the last rounds of Keccak-p[1600] of FIPS 202; for every offset and length within the state the byte functions (add, overwrite, clear, extract, extract and add) have exactly their effect on that range of the state; absorbing whole blocks at once, for every block size and any amount of data, equals absorbing them one by one and reports the bytes consumed. None of them touches memory outside the state, the given input, and the given output.",
 ["inputs","histories"],
 "all single-bit states and their complements, all byte ranges, all block sizes, all short operation sequences",
 "The assembly is linked into the library but no test calls it.",
 ["Optimized_Implementation/avx2/lib/KeccakP-1600-AVX2.s"],
 [("permutation","Optimized_Implementation/avx2/lib/KeccakP-1600-AVX2.s __KeccakF1600"),("block absorption","Optimized_Implementation/avx2/lib/KeccakP-1600-AVX2.s KeccakF1600_FastLoop_Absorb")],
 ["KeccakP1600_ExtractBytes"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
