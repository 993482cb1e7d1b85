#define VF_REAL_HASH 1
// the repository hash functions under another name, so that a harness can substitute an arbitrary hash
#define MurmurHash3 MurmurHash3_real
#define MurmurHash1 MurmurHash1_real
#define MurmurHash64A MurmurHash64A_real
#include "QueryEngine/MurmurHash.cpp"
