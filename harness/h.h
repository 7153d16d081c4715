// shared by the concrete harnesses: deterministic random cases, one line per case before it runs
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
struct Rng {
  uint64_t s;
  explicit Rng (uint64_t seed) : s (seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  uint64_t next () { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  int i (int lo, int hi) { return lo + (int) ((next () >> 11) % (uint64_t) (hi - lo + 1)); }
  double d () { return (double) (next () >> 11) / 9007199254740992.0; }
  double d (double lo, double hi) { return lo + d () * (hi - lo); }
  bool b () { return (next () >> 20) & 1; }
};
static std::string g_case;
#define CASE(...) do { char _b[2000]; snprintf (_b, sizeof _b, __VA_ARGS__); g_case = _b; } while (0)
#define FAILC(...) do { printf ("FAILING INPUT: %s\n  ", g_case.c_str ()); printf (__VA_ARGS__); printf ("\n"); fflush (stdout); _exit (3); } while (0)
#include <unistd.h>
#include <csignal>
static void h_sig (int) { const char *m = "FAILING INPUT (crash): "; (void) !write (1, m, strlen (m)); (void) !write (1, g_case.c_str (), g_case.size ()); (void) !write (1, "\n", 1); _exit (3); }
static void h_init () { setvbuf (stdout, 0, _IOFBF, 1 << 16); signal (SIGSEGV, h_sig); signal (SIGABRT, h_sig); signal (SIGFPE, h_sig); signal (SIGBUS, h_sig); }
static int h_ok (long n) { printf ("HARNESS-OK %ld cases\n", n); fflush (stdout); _exit (0); }
