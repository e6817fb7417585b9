// Included before anything else when /repo is lowered to LLVM IR with clang.
// Pulls in the system headers while __clang__ is still defined, then hides the
// macro so that the library's own code takes the gcc branches that are shipped
// (raintt.hpp selects _BitInt(31) words under __clang__).
#pragma once
#include <immintrin.h>
#include <stdint.h>
#include <string.h>
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/array.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/unordered_map.hpp>
#include <cereal/types/vector.hpp>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <ios>
#include <iostream>
#include <istream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <ostream>
#include <random>
#include <span>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>
#include <wmmintrin.h>
#undef __clang__
