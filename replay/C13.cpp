#include "common.hpp"
#include "strtk.hpp"
#include <map>
// the language of a pattern, position by position (memoised)
static char lw(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool denotes(const std::string& p, const std::string& t, char z, char o, bool ic = false, std::size_t i = 0, std::size_t k = 0, std::vector<std::vector<int> >* m = 0) {
  std::vector<std::vector<int> > own; if (!m) { own.assign(p.size() + 1, std::vector<int>(t.size() + 1, -1)); m = &own; }
  int& r = (*m)[i][k]; if (r >= 0) return r;
  bool x;
  if (i == p.size()) x = k == t.size();
  else if (p[i] == z) x = denotes(p, t, z, o, ic, i + 1, k, m) || (k < t.size() && denotes(p, t, z, o, ic, i, k + 1, m));
  else if (p[i] == o) x = denotes(p, t, z, o, ic, i + 1, k, m) || (k < t.size() && denotes(p, t, z, o, ic, i + 1, k + 1, m));
  else x = k < t.size() && (ic ? lw(p[i]) == lw(t[k]) : p[i] == t[k]) && denotes(p, t, z, o, ic, i + 1, k + 1, m);
  return r = x;
}
static void one(const std::string& p, const std::string& t, char z = '*', char o = '?') {
  CUR("pattern " + esc(p) + " text " + esc(t) + " wildcards " + esc(std::string(1, z) + o));
  bool w = denotes(p, t, z, o); hbuf a(p), b(t);
  CHECK(strtk::match((const char*) a.b(), (const char*) a.e(), (const char*) b.b(), (const char*) b.e(), z, o) == w, "match(char*) is not " + num(w));
  CHECK(strtk::match((const unsigned char*) a.ub(), (const unsigned char*) a.ue(), (const unsigned char*) b.ub(), (const unsigned char*) b.ue(), (unsigned char) z, (unsigned char) o) == w, "match(unsigned char*)");
  if (z == '*' && o == '?') CHECK(strtk::match(p, t) == w, "match(string)");
  CHECK(strtk::details::match_impl<strtk::details::cis_match>((const char*) a.b(), (const char*) a.e(), (const char*) b.b(), (const char*) b.e(), z, o) == denotes(p, t, z, o, true), "match ignoring case");
  std::vector<int> x(p.begin(), p.end()), y(t.begin(), t.end()); const int* xb = x.data(); const int* yb = y.data();
  CHECK(strtk::match(xb, xb + x.size(), yb, yb + y.size(), (int) z, (int) o) == w, "match(int*)");
}
int main(int argc, char** argv) {
  init(argc, argv);
  all_strings(4, "*?ab", [](const std::string& p) { all_strings(4, "ab", [&](const std::string& t) { one(p, t); }); });
  all_strings(3, "*?a", [](const std::string& p) { all_strings(3, "a*?", [&](const std::string& t) { one(p, t); one(p, t, '?', '?'); one(p, t, 'a', '*'); }); });
  while (time_left()) { std::string p = rnd_str(12, "*?ab\xff"), t = rnd_str(20, "ab\xff"); one(p, t); one(rnd_str(4, "*?aA[{@`"), rnd_str(5, "aA[{@`")); one(p, t, '?', '*'); }
  return done();
}
