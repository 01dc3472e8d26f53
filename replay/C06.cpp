#include "common.hpp"
#include "strtk.hpp"
#include "tok.hpp"
typedef strtk::tokenizer<const char*,InSet> TK;
template <typename T> static void walk(const char* nm, T& t, const Toks& w, const char* base) {
  Toks g; std::size_t lim = w.size() + 5;
  for (typename T::iterator i = t.begin(); i != t.end() && g.size() < lim; ++i) { std::pair<const char*,const char*> r = *i; g.push_back(std::make_pair((long) (r.first - base), (long) (r.second - base))); }
  CHECK(g == w, std::string(nm) + " visited " + show(g) + " expected " + show(w));
}
static void one(const std::string& s, const std::string& ds) {
  InSet is; is.d = ds; hbuf h(s); const char* b = h.b(); const char* e = h.e();
  for (unsigned o = 0; o < 6; ++o) {
    CUR("text " + esc(s) + " delimiters " + esc(ds) + " options " + num(o));
    Toks w = ref_split(s, is, o);
    { TK t(b, e, is, o); walk("begin/end", t, w, b); }
    { TK t(s, is, o); walk("string", t, w, s.data()); }
    { std::string old("x|y"); TK t(old, is, o); t.assign(s); walk("assign(string)", t, w, s.data()); t.assign(b, e); walk("assign(range)", t, w, b); TK u(old, is, 0); u = t; walk("assignment", u, w, b); TK v(t); walk("copy", v, w, b); TK::iterator i = t.begin(); for (unsigned q = 0; q < 8; ++q) { TK z(b, e, is, q); TK::iterator j = z.begin(); for (unsigned k = 0; k < 3; ++k) ++j; j = t.begin(); Toks g; for (; j != t.end() && g.size() < w.size() + 5; ++j) { std::pair<const char*,const char*> r = *j; g.push_back(std::make_pair((long) (r.first - b), (long) (r.second - b))); } CHECK(g == w, "assigned iterator visited " + show(g)); } }
    { TK t(b, e, is, o); Toks g; TK::iterator i = t.begin(); while (i != t.end() && g.size() < w.size() + 5) { std::pair<const char*,const char*> r = *(i++); g.push_back(std::make_pair((long) (r.first - b), (long) (r.second - b))); } CHECK(g == w, "postfix visited " + show(g)); }
    for (int k = 0; k < 4; ++k) { TK t(b, e, is, o); TK::iterator i = t.begin(); i += k; if (k < (int) w.size()) { CHECK(i != t.end() && (*i).first - b == w[k].first && (*i).second - b == w[k].second, "operator+= " + num(k)); CHECK(i.as_string() == s.substr(w[k].first, w[k].second - w[k].first), "as_string"); } else if (k == (int) w.size()) CHECK(i == t.end(), "+= to the end"); }
    if (ds.size() == 1) { strtk::single_delimiter_predicate<char> p(ds[0]); strtk::tokenizer<const char*,strtk::single_delimiter_predicate<char> > t(b, e, p, o); walk("char", t, w, b); }
    { strtk::multiple_char_delimiter_predicate p(ds); strtk::tokenizer<const char*,strtk::multiple_char_delimiter_predicate> t(b, e, p, o); walk("char set", t, w, b); }
  }
}
int main(int c, char** a) {
  init(c, a);
  const char* dss[] = { "|", "|;", "", "a|;,.:!" };
  for (int i = 0; i < 4; ++i) all_strings(6, std::string("a|;"), [&](const std::string& s) { one(s, dss[i]); });
  all_strings(3, std::string("a\xff\x80\0|", 5), [&](const std::string& s) { one(s, "\xff\x80"); one(s, "\xff"); one(s, std::string("\0|", 2)); one(s, std::string("\0", 1)); });
  while (time_left()) { std::string ds = rnd_str(4, ""), al = ds + std::string("ab") + (char) rnd(256); one(rnd_str(rnd(8) ? 30 : 1000, al), ds); }
  return done();
}
