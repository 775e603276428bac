// C23: cuckoo keyword retrieval finds stored keys and only those.
// LIBS: pir
#include "keyword.h"
const char* const pbt::kRule =
    "A case draws 0..150 records (random, related, binary, NUL-ended and duplicate keys; empty and binary values), "
    "parameters generated by the server or drawn (2-4 functions, tables down to exactly full), and batches of up to 8 queries: stored, "
    "absent, prefixes and extensions of stored keys, keys differing in a bit or in NUL bytes, empty; asked over two plain "
    "servers or leader and helper; or parties whose hash seeds differ. Non-trivial: a batch with a stored and an absent key; "
    "for seeds, a party that disagrees.";
const std::vector<std::string> pbt::kAssumptions = {"the hybrid encryption of the helper's request is replaced by a reversible encoding"};
CASE(lookups, 2500, 90000) { keyword::LookupCase<pirx::CuckooKind>(s, true); }
CASE(seeds, 1500, 40000) { keyword::SeedCase<pirx::CuckooKind>(s); }
CASE(large, 40, 1200) { keyword::LargeCase<pirx::CuckooKind>(s, true); }
