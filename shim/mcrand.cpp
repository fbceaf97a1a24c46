// LD_PRELOAD shim through which the explorer owns every random draw and clock read of aihwkit's
// C++ core (rand / srand / high_resolution_clock).  See lib/mcrng.py.
//
// modes:  0 = stream   : a deterministic counter-based generator (reproducible "free" randomness)
//         1 = script   : successive draws return script[i]; past the end returns `dflt`
//         2 = constant : every draw returns `dflt`
// In every mode the number of draws since the last reset is counted, and, when recording, logged.
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <random>

static int g_mode = 0;
static uint64_t g_state = 0x9E3779B97F4A7C15ull;
static int g_script[1 << 20];
static long g_len = 0, g_pos = 0, g_draws = 0;
static int g_dflt = 0;
static uint64_t g_clock = 1000003, g_clock_step = 7919;
static int g_srand_ignored = 1;
static long g_srand_calls = 0, g_clock_calls = 0;

static inline int draw() {
  g_draws++;
  if (g_mode == 1) {
    if (g_pos < g_len) return g_script[g_pos++];
    g_pos++;
    return g_dflt;
  }
  if (g_mode == 2) return g_dflt;
  g_state += 0x9E3779B97F4A7C15ull;
  uint64_t z = g_state;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return (int)((z ^ (z >> 31)) & 0x7fffffff);
}

extern "C" {
int rand(void) noexcept { return draw(); }
void srand(unsigned seed) noexcept {
  g_srand_calls++;
  if (!g_srand_ignored) g_state = seed;
}
void mc_stream(uint64_t seed) { g_mode = 0; g_state = seed; g_draws = 0; g_pos = 0; }
uint64_t mc_get_state() { return g_state; }
void mc_script(const int *vals, long n, int dflt) {
  if (n > (long)(sizeof(g_script) / sizeof(int))) abort();
  memcpy(g_script, vals, n * sizeof(int));
  g_len = n; g_pos = 0; g_draws = 0; g_dflt = dflt; g_mode = 1;
}
void mc_const(int v) { g_mode = 2; g_dflt = v; g_draws = 0; g_pos = 0; }
long mc_draws() { return g_draws; }
void mc_clock(uint64_t start, uint64_t step) { g_clock = start; g_clock_step = step; }
uint64_t mc_get_clock() { return g_clock; }
void mc_honour_srand(int yes) { g_srand_ignored = !yes; }
// the list an RNG object generates for a given seed (same library code as the core uses)
void mc_gauss_list(unsigned seed, float *out, int n) {
  std::default_random_engine generator{seed};
  std::normal_distribution<float> d{};
  for (int i = 0; i < n; ++i) out[i] = d(generator);
}
}

namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  g_clock_calls++;
  g_clock += g_clock_step;
  return system_clock::time_point(system_clock::duration((int64_t)g_clock));
}
}}}
