// Shared by the replay harnesses: they run /repo's real code on directed and seeded random
// inputs and compare with an independent oracle.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <valarray>
#include <vector>
#include <filesystem>
#include <armadillo>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "absl/synchronization/mutex.h"
#include "absl/base/internal/raw_logging.h"
#define private public
#define protected public
static long g_cases = 0;
struct CaseCount { ~CaseCount() { printf("CASES %ld\n", g_cases); } };
static CaseCount g_cc;
static uint64_t g_s = [] { const char* s = getenv("VERIF_SEED"); return (uint64_t)(s ? atoll(s) : 1) * 0x9E3779B97F4A7C15ull + 12345; }();
static bool thorough() { const char* s = getenv("VERIF_TIER"); return s && std::string(s) == "thorough"; }
static int rounds(int q) { return thorough() ? q * 8 : q; }
static uint64_t rnd() { uint64_t z = (g_s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static long ri(long lo, long hi) { return lo + (long)(rnd() % (uint64_t)(hi - lo + 1)); }
static double rd(double lo, double hi) { return lo + (hi - lo) * ((rnd() >> 11) * (1.0 / 9007199254740992.0)); }
static bool coin() { return rnd() & 1; }
#define FAIL(...) do { printf("FAIL: "); printf(__VA_ARGS__); printf("\n"); printf("CASES %ld\n", g_cases); fflush(stdout); _exit(1); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
#include <unistd.h>
static bool close_to(double a, double b, double rel = 1e-9, double abs_ = 1e-12) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
