// the repository's HashJoinRuntimeCpu.cpp relies on headers included before it
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.h"
#include "StringDictionary/StringDictionary.h"
#include <atomic>
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntimeCpu.cpp"
