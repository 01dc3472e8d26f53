#include "common.hpp"
#include "strtk.hpp"
#include "tok.hpp"
typedef std::vector<std::pair<const char*,const char*> > PV;
struct CountFn { PV* v; template <typename A, typename B> void operator()(const std::pair<A,B>& r) { v->push_back(std::make_pair(&*r.first, &*r.second)); } };
static void cmp(const char* nm, const Toks& want, const char* base, const PV& got, std::size_t rc) {
  Toks g; for (std::size_t i = 0; i < got.size(); ++i) g.push_back(std::make_pair((long) (got[i].first - base), (long) (got[i].second - base)));
  CHECK(g == want && rc == want.size(), std::string(nm) + " gave " + show(g) + " count " + num(rc) + " expected " + show(want));
}
static void one(const std::string& s, const std::string& ds) {
  InSet is; is.d = ds;
  hbuf h(s); const char* b = h.b(); const char* e = h.e();
  for (unsigned o = 0; o < 8; ++o) {
    CUR("text " + esc(s) + " delimiters " + esc(ds) + " options " + num(o));
    Toks w = ref_split(s, is, o);
    { PV v; std::size_t rc = strtk::split(is, b, e, std::back_inserter(v), o); cmp("split(pred,begin,end)", w, b, v, rc); }
    { PV v; std::size_t rc = strtk::split(is, std::make_pair(b, e), std::back_inserter(v), o); cmp("split(pred,range)", w, b, v, rc); }
    { PV v; std::size_t rc = strtk::split(is, s, std::back_inserter(v), o); cmp("split(pred,string)", w, s.data(), v, rc); }
    { PV v; std::size_t rc = strtk::split(ds, s, std::back_inserter(v), o); cmp("split(string,string)", w, s.data(), v, rc); }
    { PV v; std::size_t rc = strtk::split(ds, s, v, o); cmp("split(string,string,sequence)", w, s.data(), v, rc); }
    if (ds.find('\0') == std::string::npos) {
      { PV v; std::size_t rc = strtk::split(ds.c_str(), s, std::back_inserter(v), o); cmp("split(chars,string)", w, s.data(), v, rc); }
      { PV v; std::size_t rc = strtk::split(ds.c_str(), s, v, o); cmp("split(chars,string,sequence)", w, s.data(), v, rc); }
    }
    if (ds.size() == 1) { PV v; std::size_t rc = strtk::split(ds[0], s, std::back_inserter(v), o); cmp("split(char,string)", w, s.data(), v, rc); }
    if (!o) {
      { PV v; std::size_t rc = strtk::split(is, b, e, std::back_inserter(v)); cmp("split default", w, b, v, rc); }
      { PV v; CountFn f; f.v = &v; std::size_t rc = strtk::for_each_token(s, ds, f); cmp("for_each_token", w, s.data(), v, rc); }
      if (ds.find('\0') == std::string::npos) { PV v; CountFn f; f.v = &v; std::size_t rc = strtk::for_each_token(s, ds.c_str(), f); cmp("for_each_token chars", w, s.data(), v, rc); }
    }
  }
}
int main(int c, char** a) {
  init(c, a);
  const char* dss[] = { "|", "|;", "", "|;\xff", "\x80", "a|;,.:!" };
  for (int i = 0; i < 6; ++i) all_strings(6, std::string("a|;"), [&](const std::string& s) { one(s, dss[i]); });
  all_strings(3, std::string("a\xff\x80\0|", 5), [&](const std::string& s) { one(s, "\xff\x80"); one(s, "\xff"); one(s, std::string("\0|", 2)); one(s, std::string("\0", 1)); });
  for (int d = 0; d < 256; ++d) for (int x = 0; x < 256; ++x) { one(std::string("q") + (char) x + (char) x + "r", std::string(1, (char) d)); one(std::string("q") + (char) x + (char) x + "r", std::string(1, (char) d) + "z"); }
  while (time_left()) { std::string ds = rnd_str(rnd(12) ? 4 : 300, ""), al = ds + std::string("ab") + (char) rnd(256); one(rnd_str(rnd(8) ? 30 : 1000, al), ds); }
  return done();
}
