#include "common.hpp"
#include "strtk.hpp"
#include <iterator>
#include <stdexcept>
typedef const char* cp;
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static char pr(char c) { return c > 32 && c < 127 ? c : '.'; }
template <void (*RC)(char*, char*), void (*RU)(unsigned char*, unsigned char*), void (*RS)(std::string&)> static void conv(const std::string& s, char (*f)(char), const char* who) {
  CUR(std::string(who) + " " + esc(s)); std::string w = s, t = s; for (std::size_t i = 0; i < s.size(); ++i) w[i] = f(s[i]);
  hbuf a(s), b(s); RC(const_cast<char*>(a.b()), const_cast<char*>(a.e())); RU(const_cast<unsigned char*>(b.ub()), const_cast<unsigned char*>(b.ue())); RS(t);
  CHECK(a.str() == w && b.str() == w && t == w, "got " + esc(a.str()) + ", expected " + esc(w));
}
static std::string subst(const std::string& s, const std::string& p, const std::string& r) {
  std::string o; if (p.empty()) return s;
  for (std::size_t i = 0; i < s.size();) { if (i + p.size() <= s.size() && std::equal(p.begin(), p.end(), s.begin() + i)) { o += r; i += p.size(); } else o += s[i++]; }
  return o;
}
static void pat(const std::string& s, const std::string& p, const std::string& r) {
  CUR("replace " + esc(p) + " by " + esc(r) + " in " + esc(s)); std::string w = subst(s, p, r), n = "old";
  strtk::replace_pattern(s, p, r, n); CHECK(n == w, "got " + esc(n) + ", expected " + esc(w));
  hbuf a(s), b(p), c(r), o(w.size()); std::size_t k = strtk::replace_pattern((cp) a.b(), (cp) a.e(), (cp) b.b(), (cp) b.e(), (cp) c.b(), (cp) c.e(), const_cast<char*>(o.b()));
  CHECK(k == w.size() && o.str() == w, "iterators: got " + num(k) + " " + esc(o.str()) + ", expected " + esc(w));
  std::string i; k = strtk::replace_pattern((cp) a.b(), (cp) a.e(), (cp) b.b(), (cp) b.e(), (cp) c.b(), (cp) c.e(), std::back_inserter(i)); CHECK(k == w.size() && i == w, "inserter: got " + esc(i) + ", expected " + esc(w));
  n = "old"; strtk::remove_pattern(s, p, n); CHECK(n == subst(s, p, ""), "remove_pattern: got " + esc(n));
}
static void table(const std::string& in, const std::string& out, const std::string& s) {
  CUR("table " + esc(in) + " to " + esc(out) + " on " + esc(s)); std::string w = s; bool thrown = false;
  for (std::size_t i = 0; i < s.size(); ++i) for (std::size_t k = 0; k < in.size() && in.size() == out.size(); ++k) if (in[k] == s[i]) w[i] = out[k];
  try { strtk::translation_table t(in, out); std::string x = s; strtk::translate_inplace(t, x); CHECK(x == w && strtk::translate(t, s) == w, "got " + esc(x) + ", expected " + esc(w)); for (std::size_t i = 0; i < s.size(); ++i) CHECK(t(s[i]) == w[i] && t((unsigned char) s[i]) == (unsigned char) w[i], "one character"); }
  catch (const std::exception&) { thrown = true; }
  CHECK(thrown == (in.size() != out.size()), "refusal");
}
static void rep(const std::string& s, char a, char b) {
  CUR("replace " + num(a) + " by " + num(b) + " in " + esc(s)); std::string w = s, t = s; for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == a) w[i] = b;
  hbuf x(s), y(s), z(s); strtk::replace(a, b, const_cast<char*>(x.b()), const_cast<char*>(x.e())); strtk::replace((unsigned char) a, (unsigned char) b, const_cast<unsigned char*>(y.ub()), const_cast<unsigned char*>(y.ue())); strtk::replace(a, b, strtk::range::adapter<char>(const_cast<char*>(z.b()), const_cast<char*>(z.e()))); strtk::replace(a, b, t);
  CHECK(x.str() == w && y.str() == w && z.str() == w && t == w, "got " + esc(t));
  std::vector<int> v(s.begin(), s.end()), u(w.begin(), w.end()); if (v.size()) strtk::replace((int) a, (int) b, &v[0], &v[0] + v.size()); CHECK(u == v, "integers");
}
int main(int argc, char** argv) {
  init(argc, argv); std::string all; for (int i = 0; i < 256; ++i) all += (char) i;
  for (int i = 0; i < 40; ++i) {
    std::string s = i ? rnd_str(40, all) : all;
    conv<strtk::convert_to_uppercase, strtk::convert_to_uppercase, strtk::convert_to_uppercase>(s, up, "uppercase"); conv<strtk::convert_to_lowercase, strtk::convert_to_lowercase, strtk::convert_to_lowercase>(s, lo, "lowercase");
    conv<strtk::convert_to_printable_chars, strtk::convert_to_printable_chars, strtk::convert_to_printable_chars>(s, pr, "printable");
    std::string l = s, u = s; for (std::size_t k = 0; k < s.size(); ++k) { l[k] = lo(s[k]); u[k] = up(s[k]); } CHECK(strtk::as_lowercase(s) == l && strtk::as_uppercase(s) == u, "as_lowercase/as_uppercase");
  }
  for (int i = 0; i < 256; ++i) { rep(all, (char) i, 'x'); table(std::string(1, (char) i), "y", all); }
  table("", "", all); table("ab", "x", "ab"); table("a", "xy", "ab"); table("aa", "xy", "aba"); table("ab", "ba", "abc"); table(all, std::string(all.rbegin(), all.rend()), all);
  all_strings(2, "ab", [](const std::string& p) { all_strings(3, "abc", [&](const std::string& r) { all_strings(5, "ab", [&](const std::string& s) { pat(s, p, r); }); }); });
  while (time_left()) {
    std::string s = rnd_str(60, "ab\xe4"), p = rnd_str(4, "ab\xe4"), r = rnd_str(8, "abx"); pat(s, p, r); rep(s, 'a', "ab\xe4x"[rnd(4)]);
    std::string i = rnd_str(6, all), o = rnd(5) ? std::string(i.size(), 'z') : rnd_str(6, all); for (std::size_t k = 0; k < o.size(); ++k) o[k] = (char) rnd(256); table(i, o, rnd_str(40, i + "ab"));
  }
  return done();
}
