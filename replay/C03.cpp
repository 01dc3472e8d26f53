#include "common.hpp"
#include <limits>
#include "strtk.hpp"
// oracle: exact decimal reading with saturation
template <typename T> static bool oracle(const std::string& s, T& out) {
  const bool sg = std::numeric_limits<T>::is_signed;
  std::size_t i = 0; bool neg = false;
  if (i < s.size() && (s[i] == '+' || (sg && s[i] == '-'))) { neg = s[i] == '-'; ++i; }
  if (i == s.size()) return false;
  __int128 v = 0; const __int128 cap = (__int128) 1 << 100;
  for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; if (v < cap) v = v * 10 + (s[i] - '0'); }
  if (neg) v = -v;
  if (v > (__int128) std::numeric_limits<T>::max() || v < (__int128) std::numeric_limits<T>::min()) return false;
  out = (T) v; return true;
}
template <typename T> static bool oracle1(const std::string& s, T& out) { if (s.size() != 1) return false; out = (T) s[0]; return true; }
template <> bool oracle1<bool>(const std::string& s, bool& out) { if (s.size() != 1) return false; out = s[0] != '0'; return true; }
template <typename T, bool (*O)(const std::string&, T&)> static void one(const std::string& s, const char* nm) {
  CUR(std::string(nm) + " from " + esc(s));
  T init = (T) 1, x = init, y; bool ok = O(s, x); if (!ok) x = init;
  hbuf h(s); const std::string str(s);
  { y = init; CHECK(strtk::string_to_type_converter((const char*) h.b(), (const char*) h.e(), y) == ok && y == x, "const char* range"); }
  { y = init; CHECK(strtk::string_to_type_converter((const unsigned char*) h.ub(), (const unsigned char*) h.ue(), y) == ok && y == x, "const unsigned char* range"); }
  { y = init; CHECK(strtk::string_to_type_converter(h.b(), h.e(), y) == ok && y == x, "char* range"); }
  { y = init; CHECK(strtk::string_to_type_converter(std::make_pair((const char*) h.b(), (const char*) h.e()), y) == ok && y == x, "pair"); }
  { y = init; CHECK(strtk::string_to_type_converter(str, y) == ok && y == x, "string"); }
  { bool t = true; y = init; try { y = strtk::string_to_type_converter<T>((const char*) h.b(), (const char*) h.e()); } catch (const std::invalid_argument&) { t = false; } CHECK(t == ok && y == x, "returning, range"); }
  { bool t = true; y = init; try { y = strtk::string_to_type_converter<T>(str); } catch (const std::invalid_argument&) { t = false; } CHECK(t == ok && y == x, "returning, string"); }
}
static void all(const std::string& s) {
  one<short, oracle<short> >(s, "short"); one<unsigned short, oracle<unsigned short> >(s, "unsigned short");
  one<int, oracle<int> >(s, "int"); one<unsigned int, oracle<unsigned int> >(s, "unsigned int");
  one<long, oracle<long> >(s, "long"); one<unsigned long, oracle<unsigned long> >(s, "unsigned long");
  one<long long, oracle<long long> >(s, "long long"); one<unsigned long long, oracle<unsigned long long> >(s, "unsigned long long");
  one<char, oracle1<char> >(s, "char"); one<signed char, oracle1<signed char> >(s, "signed char"); one<unsigned char, oracle1<unsigned char> >(s, "unsigned char"); one<bool, oracle1<bool> >(s, "bool");
}
static std::string dec(unsigned __int128 v) { std::string r; do { r.insert(r.begin(), (char) ('0' + (int) (v % 10))); v /= 10; } while (v); return r; }
int main(int c, char** a) {
  init(c, a);
  for (int i = 0; i < 256; ++i) { all(std::string(1, (char) i)); all(std::string("1") + (char) i); all(std::string(1, (char) i) + "1"); all(std::string("12") + (char) i + "34"); }
  all_strings(4, "019+-/:", [](const std::string& s) { all(s); });
  const int bits[] = {7, 8, 15, 16, 31, 32, 63, 64};
  const char* sg[] = {"", "+", "-"};
  for (int b = 0; b < 8; ++b) for (int d = -12; d <= 12; ++d) for (int s = 0; s < 3; ++s) for (int z = 0; z < 3; ++z) {
    std::string t = dec(((unsigned __int128) 1 << bits[b]) + d);
    all(std::string(sg[s]) + std::string(z * 11, '0') + t); all(std::string(sg[s]) + t + "0");
    for (std::size_t k = 0; k < t.size() && d % 6 == 0; ++k) { std::string u = t; u[k] = "/:aA -"[rnd(6)]; all(std::string(sg[s]) + u); u[k] = (char) ('0' + rnd(10)); all(std::string(sg[s]) + u); }
  }
  for (int n = 1; n < 45; ++n) for (int s = 0; s < 3; ++s) for (int k = 0; k < 10; ++k) all(std::string(sg[s]) + std::string(n, (char) ('0' + k)));
  while (time_left()) {
    std::string s = sg[rnd(3)]; if (!rnd(3)) s += std::string(rnd(25), '0');
    std::size_t n = rnd(23); for (std::size_t i = 0; i < n; ++i) s += (char) ('0' + rnd(10));
    if (!rnd(4) && !s.empty()) s[rnd(s.size())] = (char) rnd(256);
    all(s);
  }
  return done();
}
