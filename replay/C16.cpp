#include "common.hpp"
#include "strtk.hpp"
#include <iterator>
typedef const char* cp;
template <typename T> static void summaries(const std::vector<T>& v, const std::string& who) {
  CUR(who + " of " + num(v.size()) + " elements"); const T* b = v.empty() ? (const T*) 0 : &v[0]; const T* e = b + v.size(); std::size_t d = 0;
  for (std::size_t i = 1; i < v.size(); ++i) d += v[i] == v[i - 1];
  CHECK(strtk::count_consecutive_duplicates(b, e) == d, "duplicates");
  if (v.empty()) return;
  T lo = v[0], hi = v[0], a = T(), z = T(); for (std::size_t i = 1; i < v.size(); ++i) { if (v[i] < lo) lo = v[i]; if (v[i] > hi) hi = v[i]; }
  strtk::min_max_of_range(b, e, a, z); CHECK(a == lo && z == hi, "extremes");
}
static void chars(const std::string& s) {
  CUR("text " + esc(s)); hbuf h(s); std::size_t w = std::string::npos;
  for (std::size_t i = 0; i < s.size() && w == std::string::npos; ++i) if (std::count(s.begin(), s.end(), s[i]) == 1) w = i;
  cp p = strtk::first_non_repeated_char((cp) h.b(), (cp) h.e()); CHECK((p == h.e() ? std::string::npos : p - h.b()) == w, "first_non_repeated_char");
  const unsigned char* q = strtk::first_non_repeated_char((const unsigned char*) h.ub(), (const unsigned char*) h.ue()); CHECK((q == h.ue() ? std::string::npos : q - h.ub()) == w, "first_non_repeated_char(unsigned)");
  CHECK(strtk::first_non_repeated_char(s) == w, "first_non_repeated_char(string)");
  std::string m = s, r = s; for (std::size_t i = 0; i < s.size(); ++i) { std::rotate(r.begin(), r.begin() + 1, r.end()); if (std::lexicographical_compare(r.data(), r.data() + r.size(), m.data(), m.data() + m.size())) m = r; }
  std::string t = s; strtk::lexicographically_canonicalize(t); CHECK(t == m, "canonical form " + esc(t) + ", least rotation " + esc(m));
  hbuf g(s); strtk::lexicographically_canonicalize(const_cast<char*>(g.b()), const_cast<char*>(g.e())); CHECK(g.str() == m, "canonical form of a range");
  summaries(std::vector<char>(s.begin(), s.end()), "char " + esc(s)); summaries(std::vector<unsigned char>(s.begin(), s.end()), "unsigned char " + esc(s)); summaries(std::vector<int>(s.begin(), s.end()), "int " + esc(s));
}
static void gen(std::size_t n, int v, const std::string& s, const std::string& pre) {
  CUR("n " + num(n) + " value " + num(v) + " text " + esc(s)); std::vector<int> a(n), b; std::vector<unsigned int> u(n); unsigned int* up = n ? &u[0] : (unsigned int*) 0;
  strtk::iota(n ? &a[0] : (int*) 0, (n ? &a[0] : (int*) 0) + n, v); strtk::iota(n, v, std::back_inserter(b)); strtk::iota(up, up + n, (unsigned int) v);
  for (std::size_t i = 0; i < n; ++i) CHECK(a[i] == v + (int) i && u[i] == (unsigned int) v + (unsigned int) i, "iota"); CHECK(a == b, "iota to an output");
  strtk::range::adapter<unsigned int> r(up, up + n); strtk::iota(r, 7u); for (std::size_t i = 0; i < n; ++i) CHECK(u[i] == 7u + (unsigned int) i, "iota of a range");
  std::string w, o = pre, q = s; for (std::size_t i = 0; i < n; ++i) w += s;
  strtk::replicate(n, s, o); strtk::replicate_inplace(n, q); CHECK(o == pre + w && strtk::replicate(n, s) == w && q == s + w, "replicate: " + esc(o));
  std::string x, y; std::size_t k = n + 1; for (std::size_t i = 0; i < s.size(); ++i) { x += s[i]; if ((i + 1) % k == 0) x += '|'; }
  std::size_t c = strtk::inserter(strtk::interval_inserter<char>(k, '|'), s.begin(), s.end(), std::back_inserter(y)); CHECK(x == y && c == x.size(), "inserter every " + num(k) + ": " + esc(y) + " " + num(c));
}
int main(int argc, char** argv) {
  init(argc, argv); all_strings(6, "ab", chars); all_strings(4, "abc\xe4", chars); for (int n = 0; n < 12; ++n) { gen(n, -3, "abc", "x"); gen(n, 5, "", ""); gen(n, 0, "abcdefgh", ""); }
  while (time_left()) { std::string s = rnd_str(40, rnd(2) ? "ab" : "abcdefgh\xe4\xff"); chars(s); gen(rnd(9), (int) rnd(1000) - 500, s, rnd_str(3, "xy")); }
  return done();
}
