// native replay search: runs the real strtk code against an executable reading of the contract
#ifndef VERIF_REPLAY_COMMON
#define VERIF_REPLAY_COMMON
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <string>
#include <vector>
#include <unistd.h>
#include <sanitizer/common_interface_defs.h>
static std::string cur_input;
static unsigned long long rng_state = 88172645463325252ULL;
static inline unsigned long long rnd() { rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17; return rng_state; }
static inline unsigned long long rnd(unsigned long long n) { return rnd() % n; }
static double deadline_at;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static bool time_left() { return now() < deadline_at; }
static std::string esc(const char* b, std::size_t n) {
  std::string r = "\""; char t[8];
  for (std::size_t i = 0; i < n && i < 400; ++i) { unsigned char c = (unsigned char) b[i]; if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char) c; else { snprintf(t, 8, "\\x%02x", c); r += t; } }
  return r + "\"";
}
static std::string esc(const std::string& s) { return esc(s.data(), s.size()); }
template <typename T> static std::string num(T v) { return std::to_string(v); }
static void death() { printf("FAIL (sanitizer) input: %s\n", cur_input.c_str()); fflush(stdout); }
static void on_sig(int s) { printf("FAIL (%s) input: %s\n", s == SIGALRM ? "does not terminate" : "signal", cur_input.c_str()); fflush(stdout); _exit(78); }
static void fail(const std::string& what) { printf("FAIL %s input: %s\n", what.c_str(), cur_input.c_str()); fflush(stdout); _exit(1); }
#define CHECK(c, what) do { if (!(c)) fail(what); } while (0)
#define CUR(s) do { cur_input = (s); alarm(10); } while (0)
// exact-size heap copy so that ASan sees every out-of-bounds access
struct hbuf {
  char* p; std::size_t n;
  explicit hbuf(const std::string& s) : p((char*) malloc(s.size())), n(s.size()) { memcpy(p, s.data(), n); }
  explicit hbuf(std::size_t k, char c = 0x5A) : p((char*) malloc(k)), n(k) { memset(p, c, k); }
  ~hbuf() { free(p); }
  char* b() { return p; } char* e() { return p + n; }
  unsigned char* ub() { return (unsigned char*) p; } unsigned char* ue() { return (unsigned char*) p + n; }
  std::string str() const { return std::string(p, n); }
private: hbuf(const hbuf&); hbuf& operator=(const hbuf&);
};
static std::string rnd_str(std::size_t maxlen, const std::string& alpha) {
  std::string s; std::size_t n = rnd(maxlen + 1);
  for (std::size_t i = 0; i < n; ++i) s += alpha.empty() ? (char) rnd(256) : alpha[rnd(alpha.size())];
  return s;
}
// every string of length <= maxlen over alpha, f returns nothing
template <typename F> static void all_strings(std::size_t maxlen, const std::string& alpha, F f) {
  std::vector<std::string> lv(1, std::string());
  for (std::size_t l = 0; ; ++l) {
    for (std::size_t i = 0; i < lv.size(); ++i) f(lv[i]);
    if (l == maxlen) break;
    std::vector<std::string> nx;
    for (std::size_t i = 0; i < lv.size(); ++i) for (std::size_t k = 0; k < alpha.size(); ++k) nx.push_back(lv[i] + alpha[k]);
    lv.swap(nx);
  }
}
static void init(int argc, char** argv) {
  unsigned long long seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; double secs = argc > 2 ? atof(argv[2]) : 20;
  for (unsigned i = 0; i < 20 + seed % 1000; ++i) { rng_state += seed * 0x9E3779B97F4A7C15ULL; rnd(); }
  deadline_at = now() + secs;
  __sanitizer_set_death_callback(death);
  signal(SIGALRM, on_sig); signal(SIGSEGV, SIG_DFL); signal(SIGABRT, on_sig);
}
static int done() { alarm(0); printf("no failing input found\n"); return 0; }
#endif
