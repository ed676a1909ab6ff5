#include <immintrin.h>
#include <x86intrin.h>
#include <cpuid.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <memory>
#include <utility>
#include <type_traits>
#include <algorithm>
#include <array>
#include <vector>
#include <string>
#include <atomic>
#include <thread>
#include <mutex>
#include <map>
#include <limits>
#include <functional>
#include <iostream>
#include <sstream>
#include <cfloat>
#include <cassert>
#include <cinttypes>
#include <cstdarg>
#include <random>
#include <numeric>
#include <chrono>
#undef __clang__
#undef __clang_major__
#undef __clang_minor__
#undef __GNUC__
#undef __GNUC_MINOR__
#define __GNUC__ 13
#define __GNUC_MINOR__ 3
