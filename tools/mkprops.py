#!/usr/bin/env python3
"""Writes properties.jsonl.  One P(...) per property."""
import json, os
OUT = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    OUT.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": None}})

DPF = "dpf/distributed_point_function.cc"; DPFH = "dpf/distributed_point_function.h"
VTH = "dpf/internal/value_type_helpers.h"; VTC = "dpf/internal/value_type_helpers.cc"
VAL = "dpf/internal/proto_validator.cc"; PRG = "dpf/internal/evaluate_prg_hwy.cc"
HASHH = "dpf/aes_128_fixed_key_hash.cc"; HWY = "dpf/internal/aes_128_fixed_key_hash_hwy.h"
DCFH = "dcf/distributed_comparison_function.h"; DCF = "dcf/distributed_comparison_function.cc"
MIC = "dcf/fss_gates/multiple_interval_containment.cc"

P("C01", "A point function's two shares recombine to beta at alpha and zero elsewhere",
  "For any supported output type, any domain size of up to 128 bits, any special point alpha and any value beta, the sum (in the output type's group) of the two keys' evaluations is beta at alpha and the group's zero at every other point of the domain. This holds for single points, large batches of points and full-domain expansion alike, whichever instance with the same parameters evaluates a key and whether or not the key went over the wire.",
  ["inputs", "configurations"], "every output type shape, log domain size 0..128, security parameter, alpha, beta, evaluation point, key-generation randomness and SIMD variant",
  "The tests sample a few types, small domains and fixed points; an error confined to one level, one bit position, one element packing or one SIMD remainder length is only visible for particular (type, domain, alpha, x) combinations.",
  [DPF, DPFH, PRG, VTH, VTC],
  [("key generation, seed and value corrections", DPF + " GenerateNext, GenerateKeysIncremental"), ("expansion and path evaluation", DPF + " ExpandSeeds, EvaluateSeeds"), ("value conversion and correction", DPFH + " EvaluateUntil, EvaluateAt")],
  [("alpha, beta", "the special point and its value", DPFH + " GenerateKeys")], ["GenerateKeys", "EvaluateAt", "EvaluateUntil"])

P("C02", "Incremental evaluation follows the hierarchy for every evaluation history",
  "For an incremental function with any increasing domain hierarchy and one value per level, evaluating level by level on any subset of prefixes returns, for each requested prefix in the order requested and each extension in ascending order, shares that recombine to that level's value exactly at the prefix of the special point and to zero elsewhere. A saved evaluation state can be stored, copied and resumed and yields the same results as an uninterrupted evaluation, and a request that does not fit the state (level not advancing, unknown or missing prefixes) is refused without changing what later valid requests return.",
  ["histories", "inputs", "configurations"], "every sequence of evaluation requests (levels skipped or not, prefix subsets and orders, duplicate and invalid requests, state saved and restored) over every hierarchy and value types",
  "Tests run a handful of hand-written hierarchies; the state carried between calls (cached partial evaluations, packing of several values in a block, prefix sorting) is only exercised by particular histories.",
  [DPF, DPFH],
  [("partial evaluations cached in the state", DPF + " ComputePartialEvaluations, ExpandAndUpdateContext"), ("request validation", DPFH + " EvaluateUntil"), ("mapping of prefixes to tree nodes and blocks", DPF + " DomainToTreeIndex, DomainToBlockIndex")],
  [("evaluation context", "key, parameters, level reached, cached seeds and control bits", "dpf/distributed_point_function.proto EvaluationContext")], ["EvaluateUntil", "EvaluateNext", "EvaluationContext"])

P("C03", "All evaluation strategies agree on every key's share",
  "For one key, full expansion, resumed expansion, point evaluation from the key, point evaluation from a saved state and the batched many-keys evaluation return the same share for the same hierarchy level and point. The batched evaluation visits the levels in order, passes one value per key in the order of the keys, stops when told to, and treats an empty set of keys or points as an empty result.",
  ["inputs", "configurations", "histories"], "every key, level, set of points (sizes across internal batch limits, duplicates, any order), number of keys and SIMD variant",
  "Each strategy has its own code path and tests check each against constants; agreement on all levels, batch sizes and types needs a differential search.",
  [DPF, DPFH, PRG],
  [("point evaluation", DPFH + " EvaluateAt"), ("batched evaluation of many keys", DPFH + " EvaluateAndApply"), ("expansion", DPFH + " EvaluateUntil")],
  (), ["EvaluateAt", "EvaluateUntil", "EvaluateAndApply"])

P("C04", "Keys and shares match the published construction, bit for bit",
  "A key generated from given root seeds, and the share any well-formed key evaluates to, are exactly those of the incremental-DPF construction with the library's documented fixed-key hash, seed and control-bit layout, and value encoding, so that keys made by one build evaluate correctly in another. This holds for arbitrary well-formed keys, not only for honestly generated pairs, and survives serialisation.",
  ["inputs", "configurations"], "every parameter list, key (honest or arbitrary), hierarchy level and point; every serialisation round trip",
  "Tests check that the two keys agree with each other; a change made consistently to both parties (a different hash key, bit order or block layout) keeps those tests green while breaking stored keys and interoperability.",
  [DPF, DPFH, HASHH, VTH],
  [("key generation", DPF + " GenerateKeysIncremental, GenerateNext"), ("fixed keys", DPF + " kPrgKeyLeft, kPrgKeyRight, kPrgKeyValue"), ("value decoding", VTH + " ConvertBytesToArrayOf")],
  (), ["DpfKey bytes", "EvaluateAt"])

P("C05", "A single key reveals nothing about alpha and beta; each is fresh",
  "A party's key has a shape (levels, types, field presence, serialised structure) that depends on the parameters alone, its root seed is fresh randomness independent of the other party's, and single bits of its correction words, control bits and shares are balanced and uncorrelated with the special point and value. Two generations of the same function share no key material.",
  ["inputs", "configurations"], "every pair of functions with the same parameters, every key-generation randomness, either party",
  "Tests never look at the distribution of one key; a leak (zeroed seed, reused randomness, alpha-dependent control bit) keeps the recombination tests green.",
  [DPF, "dpf/distributed_point_function.proto"],
  [("root seeds from the system generator", DPF + " GenerateKeysIncremental"), ("masking of seeds by corrections", DPF + " GenerateNext"), ("value correction", DPF + " ComputeValueCorrection")],
  (), ["DpfKey", "EvaluateAt of one party"])

P("C06", "Invalid parameters, keys and requests are refused, never crash",
  "Creating, generating keys for, or evaluating a function with invalid parameters, values, keys, states, levels or points returns the documented error status, and any message, however malformed, is either refused or processed without crashing, hanging or touching memory out of bounds. Valid ones are accepted.",
  ["inputs", "histories", "fault_sequences"], "every parameter list, value, key, evaluation state and request, including arbitrarily mutated ones",
  "Tests check one example per error; a missing bound matters only for a particular field value, often combined with a later call.",
  [VAL, DPF, DPFH, VTC],
  [("parameter and type validation", VAL + " ValidateParameters, ValidateValueType, ValidateValue"), ("key validation", VAL + " ValidateDpfKey"), ("state validation", VAL + " ValidateEvaluationContext")],
  (), ["Create", "CreateIncremental", "GenerateKeys", "CreateEvaluationContext", "EvaluateUntil", "EvaluateAt"])

P("C07", "Values and types survive conversion to and from messages exactly",
  "Converting any supported value to its message form and back is the identity, the message has the documented form and its type message describes it, and converting a message of another shape, or with a component out of the type's range, is refused rather than truncated or reduced. Type equality is structural.",
  ["inputs", "configurations"], "every supported type shape and value, every value message",
  "Tests use a few literals; silent truncation appears only for components beyond the small type's range.",
  [VTH, VTC],
  [("conversion", VTH + " ToValue, FromValue, ValueTypeHelper"), ("integer ranges", VTC + " ValueIntegerToUint128, Uint128To"), ("type equality", VTC + " ValueTypesAreEqual")],
  (), ["ToValue", "FromValue", "ToValueType"])

P("C08", "Output types form groups and are sampled uniformly",
  "Addition, subtraction and negation of every output type (integers, integers modulo N, xor-wrapped integers, tuples of these) agree with exact arithmetic in the documented group, so the group laws hold for all elements including the extremes of the range. Turning pseudorandom bytes into values of a type follows the documented procedure and is deterministic, and the accounting of how many bytes and what statistical security a type needs is exact enough that a type is accepted only when its security can be met.",
  ["inputs", "configurations"], "every type shape and element (including range extremes), every input byte string, every modulus, count and security parameter",
  "Tests add small literals; carries and reductions near 2^k and N, and sampling with several elements per block, are only reached by particular values.",
  ["dpf/tuple.h", "dpf/xor_wrapper.h", "dpf/int_mod_n.h", "dpf/int_mod_n.cc", VTH],
  [("group operations", "dpf/tuple.h, dpf/xor_wrapper.h, dpf/int_mod_n.h operators"), ("sampling", "dpf/int_mod_n.h SampleFromBytes, UnsafeSampleFromBytes"), ("security accounting", "dpf/int_mod_n.cc GetSecurityLevel, GetNumBytesRequired")],
  (), ["operators", "SampleFromBytes", "GetNumBytesRequired"])

P("C09", "Every SIMD variant expands seeds exactly as the portable code",
  "Seed expansion along paths gives the same seeds and control bits on every SIMD variant, for any number of seeds (including those that do not fill a vector), any depth and path, one or many sets of corrections, and equals a step-by-step reference. It never reads or writes outside the buffers it is given.",
  ["inputs", "configurations"], "every number of seeds and levels, path, control bits and corrections; every SIMD variant the machine offers",
  "Tests compare a few sizes on one variant; faults in remainder handling or in the per-seed corrections depend on the count modulo the vector width.",
  [PRG, HWY],
  [("vectorised path evaluation", PRG + " EvaluateSeedsHwy"), ("portable path evaluation", PRG + " EvaluateSeedsNoHwy")],
  (), ["EvaluateSeeds"])

P("C10", "The fixed-key hash is the documented permutation-based function",
  "For every key and every input span the fixed-key hash equals AES of the orthomorphism of each block xored with it, in order, independent of how inputs are batched, of overlapping in- and output spans and of concurrent use; mismatched span sizes are refused and leave the output untouched.",
  ["inputs", "configurations", "schedules"], "every key, number of blocks, block value, in/out overlap, and concurrent evaluation",
  "Tests pin a few blocks of one key; batching over 64 blocks, in-place use with an offset and thread interleavings are not sampled.",
  [HASHH, "dpf/aes_128_fixed_key_hash.h", HWY],
  [("batched evaluation", HASHH + " Evaluate"), ("vectorised hash", HWY + " HashOneWithKeyMask, HashFourWithKeyMask")],
  (), ["Aes128FixedKeyHash::Evaluate"])

P("C11", "A comparison function's two shares recombine to beta exactly below alpha",
  "For any supported output type and any domain of 1 to 128 bits, the sum of the two keys' evaluations is beta at every x smaller than alpha and zero at every other x, including x = alpha, the domain's ends and neighbours of alpha at every bit.",
  ["inputs", "configurations"], "every output type, log domain size, alpha, beta, x and key-generation randomness",
  "Tests cover small integer domains; a missing level or a type whose zero is handled differently only shows for particular (type, alpha, x).",
  [DCF, DCFH],
  [("per-level values", DCF + " GenerateKeys, SetToZero"), ("accumulation over levels", DCFH + " BatchEvaluate")],
  (), ["GenerateKeys", "Evaluate"])

P("C12", "Batched comparison evaluation equals one-by-one, and bad input is refused",
  "Evaluating a batch of comparison keys gives, at each index, exactly what evaluating that key at that point alone gives, for any batch size, key order, repeated keys, spans of keys or of pointers, and any previous contents of the output. Batches of mismatched sizes, points outside the domain, and malformed keys or parameters are refused with an invalid-argument status and never crash.",
  ["inputs", "configurations"], "every batch of keys and points, including empty and mismatched ones; every malformed key",
  "Tests use one batch; index mix-ups need distinct keys and points across internal batching limits.",
  [DCFH, DCF, DPFH],
  [("batching", DCFH + " BatchEvaluate"), ("many-keys evaluation", DPFH + " EvaluateAndApply")],
  (), ["BatchEvaluate", "Create"])

P("C13", "The interval gate's shares recombine to interval membership plus mask",
  "For any group size, list of intervals and masks, the two evaluations at a masked input recombine modulo the group size to the output mask plus one for each interval that contains the unmasked input and to the output mask otherwise, for batches as for single inputs. Intervals, masks, inputs and keys that are malformed or out of the group are refused.",
  ["inputs", "configurations"], "every group size, interval list (touching, nested, single-point, whole-group, either integer encoding), masks and inputs including all wrap-arounds",
  "Tests use a few intervals in one encoding; the correction term has wrap-around cases for bounds at the ends of the group that random tests hit rarely.",
  [MIC, "dcf/fss_gates/multiple_interval_containment.h"],
  [("correction term", MIC + " Gen"), ("evaluation", MIC + " BatchEval"), ("parameter validation", MIC + " Create")],
  (), ["Gen", "Eval", "BatchEval"])

P("C14", "Hash families are deterministic, seeded, in range and as documented",
  "A hash function built from a family and seed maps every byte string (empty, with NUL bytes, long) to a value below the bound, always the same for equal seed and input, equal to the documented function of seed and input, and copies and moved objects behave alike. Families derived by prefixing seeds, from a configuration, or as lists of functions use the documented distinct seeds, spread inputs evenly, and refuse invalid configurations.",
  ["inputs", "configurations"], "every seed, input byte string, bound, family configuration and number of functions",
  "Tests pin a few values; truncation at NUL bytes, seed/input boundary confusion and bounds near the integer limit are not sampled.",
  ["pir/hashing/sha256_hash_family.cc", "pir/hashing/farm_hash_family.cc", "pir/hashing/hash_family.cc", "pir/hashing/hash_family_config.cc"],
  [("SHA-256 hash", "pir/hashing/sha256_hash_family.cc"), ("Farm hash", "pir/hashing/farm_hash_family.cc"), ("seeding", "pir/hashing/hash_family.cc WrapWithSeed, CreateHashFunctions")],
  (), ["HashFunction::operator()"])

P("C15", "A cuckoo table keeps every inserted element where lookups will find it",
  "After any sequence of insertions, every successfully inserted element is stored exactly once, in a bucket that one of its hash functions gives or in the stash, and nothing else is stored; an element whose buckets are all free goes into one of them, an insertion changes no more buckets than the relocation limit, and the stash never exceeds its limit. A failing insertion loses at most one element and leaves the rest findable, and the same sequence always gives the same table.",
  ["histories", "inputs", "configurations"], "every insertion sequence (duplicates, collisions, overfull), number of buckets and hash functions, relocation and stash limits",
  "Tests insert a handful of strings; eviction chains, self-collisions and full tables need adversarial hash functions.",
  ["pir/hashing/cuckoo_hash_table.cc", "pir/hashing/cuckoo_hash_table.h"],
  [("insertion with eviction", "pir/hashing/cuckoo_hash_table.cc Insert, InsertRecursive")],
  [("table, stash", "buckets with at most one element; overflow list", "pir/hashing/cuckoo_hash_table.h")], ["GetTable", "GetStash"])

P("C16", "Simple and multiple-choice tables place every element as specified",
  "In a simple table each insertion adds one copy of the element to the bucket of every hash function; in a multiple-choice table it adds one copy to the least loaded of its buckets (the first of these). A bucket never exceeds its limit, an insertion that would is refused and changes nothing, and invalid configurations are refused.",
  ["histories", "inputs", "configurations"], "every insertion sequence, hash functions (colliding ones included), number of buckets and bucket limit",
  "Tests insert a few strings with mock hash functions; ties, an element whose hash functions collide and full buckets need generated histories.",
  ["pir/hashing/simple_hash_table.cc", "pir/hashing/multiple_choice_hash_table.cc"],
  [("insertion", "pir/hashing/simple_hash_table.cc Insert; pir/hashing/multiple_choice_hash_table.cc Insert")],
  [("table", "buckets of elements", "pir/hashing/simple_hash_table.h, multiple_choice_hash_table.h")], ["GetTable"])

P("C17", "The seeded generator's stream depends only on seed and nonce",
  "The seeded generator outputs exactly the AES-128 counter-mode keystream of its seed and nonce, however the caller splits requests, and two generators with equal seed and nonce agree forever while different ones are unrelated. Seeds and nonces of the wrong size are refused, and generated seeds are fresh random bytes of the right size.",
  ["inputs", "histories"], "every seed, nonce, sequence of request sizes (zero, unaligned, large) and counter value including carries",
  "Tests check a few sizes; carry between counter bytes and chunking across block borders need particular nonces and request sequences.",
  ["pir/prng/aes_128_ctr_seeded_prng.cc", "pir/prng/aes_128_ctr_seeded_prng.h"],
  [("keystream", "pir/prng/aes_128_ctr_seeded_prng.cc GetRandomBytes"), ("seed generation", "pir/prng/aes_128_ctr_seeded_prng.cc GenerateSeed")],
  [("counter, block offset", "position in the keystream", "pir/prng/aes_128_ctr_seeded_prng.h")], ["GetRandomBytes"])

P("C18", "The basic generator passes on the system's randomness in full",
  "Every value drawn from the basic generator consists of as many fresh bytes of system randomness as it is wide, all of its bits vary, values are never repeated from one call, instance or width to another, and a failure of the system's generator is reported as an error rather than as a value.",
  ["inputs", "histories", "fault_sequences"], "every sequence of draws of every width from any number of generators, with the system generator failing at any point",
  "Tests draw a few values; narrowing, caching and ignored failures are invisible to them.",
  ["dcf/fss_gates/prng/basic_rng.h"],
  [("drawing", "dcf/fss_gates/prng/basic_rng.h Rand")],
  (), ["Rand8", "Rand64", "Rand128"])

P("C19", "Inner products equal the xor of the selected values on every variant",
  "For any list of values (of any, also different, lengths) and any selection bit vectors, the inner product is the xor of the values whose bit is set, each padded with zero bytes to the longest, on every SIMD variant; surplus selection bits have no effect. Too few selection bits, or values that are all empty, are refused as documented.",
  ["inputs", "configurations"], "every number and size of values, number of queries, selection vector and SIMD variant",
  "Tests use equal sizes and a few counts; tails of values and of selection blocks depend on sizes modulo 16 and 128.",
  ["pir/internal/inner_product_hwy.cc"],
  [("vectorised and portable inner product", "pir/internal/inner_product_hwy.cc InnerProductHwy, InnerProductNoHwy")],
  (), ["InnerProduct"])

P("C20", "A dense database holds exactly what was inserted, for any builder history",
  "A dense database answers every selection with the xor of the selected values in insertion order, reports the right number of elements and selection bits, and its answer is as long as its longest value. Builders can be cloned, cleared and reused in any order without affecting each other or databases already built, and building twice without clearing is refused.",
  ["histories", "inputs"], "every sequence of insert, clone, clear, build over several builders; every value size; every selection",
  "Tests build once; aliasing between clones, leftovers after clear and buffer sizing depend on the history and on value sizes modulo 16.",
  ["pir/dense_dpf_pir_database.cc", "pir/dense_dpf_pir_database.h"],
  [("builder", "pir/dense_dpf_pir_database.cc Builder::Insert, Clone, Clear, Build"), ("storage", "pir/dense_dpf_pir_database.cc Append")],
  [("values, size in bytes, built flag", "what the builder holds", "pir/dense_dpf_pir_database.h Builder")], ["InnerProductWith", "size", "num_selection_bits", "content"])

P("C21", "Keyword databases hold every record where its hash says, for any history",
  "A keyword database built from any records (by cuckoo or simple hashing) answers a selection of one bucket with exactly the records that belong there, contains every inserted record and nothing else, and reports the right sizes. Builders can be cloned, cleared and reused in any order with the same outcome as a fresh builder, and empty keys, unset or invalid parameters and a second build are refused.",
  ["histories", "inputs", "configurations"], "every sequence of builder operations, record set (duplicate, empty, binary keys and values), hash seed and number of buckets",
  "Tests build one database with fixed keys; leftovers between builds, moved-from records and bucket order only show in particular histories.",
  ["pir/cuckoo_hashed_dpf_pir_database.cc", "pir/simple_hashed_dpf_pir_database.cc"],
  [("cuckoo build", "pir/cuckoo_hashed_dpf_pir_database.cc Builder::Build"), ("simple build", "pir/simple_hashed_dpf_pir_database.cc Builder::Build")],
  (), ["InnerProductWith", "size", "num_selection_bits"])

P("C22", "Retrieval by index returns exactly the requested values",
  "For any database and any batch of valid indices, a client talking to two plain servers, or to a leader that forwards to a helper, obtains exactly the values at those indices in order, each padded with zero bytes to the longest value. Indices out of range and empty batches are refused.",
  ["inputs", "configurations"], "every database size (around powers of two and multiples of 128), value sizes, batch of indices (repeats, ends of the range), server roles and randomness",
  "Tests use one database size and query; off-by-one in domain sizing or block/bit addressing shows only at particular sizes and indices.",
  ["pir/dense_dpf_pir_client.cc", "pir/dense_dpf_pir_server.cc", "pir/dense_dpf_pir_database.cc"],
  [("request", "pir/dense_dpf_pir_client.cc CreatePlainRequests"), ("answer", "pir/dense_dpf_pir_server.cc HandlePlainRequest"), ("unmasking", "pir/dense_dpf_pir_client.cc HandleResponse")],
  (), ["CreateRequest", "HandleRequest", "HandleResponse"])

P("C23", "Cuckoo keyword retrieval finds stored keys and only those",
  "For any set of records and any batch of query strings, the client obtains for each query, in order, the value stored under exactly that key (padded with zero bytes), and no value if the key is not stored, whether the query is absent, a prefix or extension of a stored key, contains NUL bytes, or hashes to empty or shared buckets. Generated hash seeds are fresh randomness, and client and servers that disagree on the seed are told so.",
  ["inputs", "configurations"], "every record set, query batch (present, absent, near-miss, empty, binary), hash seed and table size",
  "Tests look up stored keys and one absent key; false positives need an absent query that shares bytes with the key in its bucket.",
  ["pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/cuckoo_hashed_dpf_pir_database.cc"],
  [("query hashing", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc CreatePlainRequests"), ("matching of responses", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc HandleResponse"), ("public parameters", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc GenerateParams, GetPublicParams")],
  (), ["CreateRequest", "HandleRequest", "HandleResponse"])

P("C24", "Simple-hashing keyword retrieval finds stored keys and only those",
  "For any set of records and any batch of query strings, the client obtains for each query, in order, exactly the value stored under that key, and no value if the key is not stored, however many records share its bucket and whatever bytes keys and values contain. Generated hash seeds are fresh randomness, and client and servers that disagree on the seed are told so.",
  ["inputs", "configurations"], "every record set, number of buckets (including one), query batch and hash seed",
  "Tests look up stored keys; serialised buckets of different lengths, shared buckets and near-miss keys need generated data.",
  ["pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashed_dpf_pir_database.cc"],
  [("query hashing and response parsing", "pir/simple_hashing_sparse_dpf_pir_client.cc"), ("bucket serialisation", "pir/simple_hashed_dpf_pir_database.cc Builder::Build")],
  (), ["CreateRequest", "HandleRequest", "HandleResponse"])

P("C25", "Leader and helper compose: masked, complete, and errors are passed on",
  "The leader forwards only the encrypted part of the request, computes its own answer while waiting, and returns the xor of both answers; the helper's answer is masked by the keystream of the client's one-time seed, fresh for every request, so the combined answer is the true one under that mask only. If any step fails (sender, decryption, either server, mismatched or missing answers, callback not run) the request fails with that error and no answer is returned.",
  ["fault_sequences", "histories", "inputs"], "every request in every server role, with every step failing or returning a malformed answer",
  "Tests inject a few failures one at a time with mocks; that no failure combination yields a wrong answer needs fault injection over all steps.",
  ["pir/dpf_pir_server.cc", "pir/dpf_pir_client.h", "pir/dense_dpf_pir_client.cc"],
  [("leader", "pir/dpf_pir_server.cc HandleLeaderRequest"), ("helper and masking", "pir/dpf_pir_server.cc HandleHelperRequest")],
  (), ["HandleRequest", "CreateRequest"])

P("C26", "Malformed retrieval messages and configurations are refused, never crash",
  "Servers given any request message, clients given any response, client state or public parameters, and factories given any configuration either return an error status or process it, without crashing, hanging or touching memory out of bounds, and afterwards still answer valid requests correctly. Requests of the wrong kind for a server's role, and inconsistent configurations, are refused with an invalid-argument status.",
  ["inputs", "fault_sequences", "histories"], "every request, response, client state, public-parameter and configuration message, arbitrarily mutated, in any order with valid ones",
  "Tests check one example per error; crashes need a particular combination of missing or surplus fields.",
  ["pir/dense_dpf_pir_server.cc", "pir/dense_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/dpf_pir_server.cc"],
  [("request checks", "HandlePlainRequest of each server"), ("response checks", "HandleResponse of each client"), ("configuration checks", "Create* of each client and server")],
  (), ["HandleRequest", "HandleResponse", "Create"])

P("C27", "Concurrent use of shared objects gives the sequential results",
  "Threads that concurrently evaluate keys, hash, answer retrieval requests or build requests through one shared object each obtain exactly what a single thread would, without data races; so do threads generating keys from explicit values of types registered before, and threads that each use objects of their own.",
  ["schedules", "inputs"], "every interleaving of concurrent calls on a shared function object, hash, server, client or database that do not modify it, and of calls on unrelated objects",
  "Tests are single-threaded.",
  [DPFH, HASHH, "pir/dense_dpf_pir_server.cc", "pir/dpf_pir_server.cc"],
  [("immutable shared state", DPFH + " const evaluation methods"), ("per-thread cipher contexts", HASHH + " Evaluate")],
  (), ["EvaluateAt", "EvaluateUntil", "HandleRequest", "Aes128FixedKeyHash::Evaluate"])

P("C28", "A view of objects or of pointers shows the same objects in order",
  "A view built, explicitly or implicitly, from any span or container of objects or of pointers to objects, constant or not, has the container's length, and indexing it yields, in order, references to the very objects in the container, also through copies of the view and through constant views made from mutable ones. Writing through a mutable view changes exactly the indexed object.",
  ["inputs", "programs"], "every container length and kind, order and repetition of pointers, index, and chain of copies and conversions",
  "Tests index two-element vectors; sub-spans, repeated or permuted pointers, empty views and conversions of copies are not sampled.",
  ["dpf/internal/maybe_deref_span.h"],
  [("view", "dpf/internal/maybe_deref_span.h MaybeDerefSpan")],
  (), ["operator[]", "size"])

P("C29", "The support library for building retrieval tests does what it says",
  "For every database size and batch of valid indices, the request generator's plain requests, and the plain request and sealed helper request of its leader request, when answered by two servers and xored, give exactly the indexed values; the helper request carries the generator's own pad seed and opens under its context info; indices out of range and non-positive sizes are refused. The reference inner product equals the xor of the selected values, packed selections hold selection i at bit i, and the record generators give the promised number of records with the promised contents and sizes.",
  ["inputs"], "every database size, index batch, context info, selection and value list, block width and record-size request",
  "Users' own tests are built on these helpers; the repository's tests of them sample one size and a few indices.",
  ["pir/testing/request_generator.cc", "pir/testing/pir_selection_bits.h", "pir/testing/pir_selection_bits.cc", "pir/testing/mock_pir_database.cc"],
  [("requests", "pir/testing/request_generator.cc RequestGenerator"), ("selections", "pir/testing/pir_selection_bits.h PackSelectionBits"), ("records", "pir/testing/mock_pir_database.cc")],
  (), ["RequestGenerator", "InnerProductWithUnpacked", "PackSelectionBits"])

P("C30", "A retrieval request shows a server the number of queries and no more",
  "For every client, configuration and batch, each server's part of a request (the leader's plain request; the helper's request, which travels only inside the encryption) has a structure that depends only on the configuration and the number of queries; its keys and the one-time pad seed are fresh for every query and request, independent of each other and of the queries, so that repeated or related queries cannot be recognised and the leader cannot predict the helper's mask.",
  ["inputs", "configurations", "histories"], "every client kind and configuration, batch (repeated, related queries), route, and sequence of requests",
  "Tests check that answers are right; a reused seed, a cached key or a pad derived from public data keeps every answer right.",
  ["pir/dense_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/dpf_pir_client.h", "pir/prng/aes_128_ctr_seeded_prng.cc"],
  [("requests", "pir/dense_dpf_pir_client.cc CreatePlainRequests, CreateRequest"), ("pad seed", "pir/prng/aes_128_ctr_seeded_prng.cc GenerateSeed")],
  (), ["CreateRequest", "CreatePlainRequests"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in OUT:
        f.write(json.dumps(p) + "\n")
print(len(OUT), "properties")
