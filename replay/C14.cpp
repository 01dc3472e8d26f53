#include "common.hpp"
#include "strtk.hpp"
#include <new>
typedef const char* cp; typedef const unsigned char* up;
static char U(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool occ(const std::string& p, const std::string& t, std::size_t at, bool ic) { if (at + p.size() > t.size()) return false; for (std::size_t i = 0; i < p.size(); ++i) if (ic ? U(p[i]) != U(t[at + i]) : p[i] != t[at + i]) return false; return true; }
static std::size_t first(const std::string& p, const std::string& t, std::size_t at, bool ic) { for (; at < t.size(); ++at) if (occ(p, t, at, ic)) return at; return std::string::npos; }
typedef std::vector<std::pair<cp,cp> > V;
static void list(const V& v, const std::string& p, cp t0, const std::string& t, bool ic, std::size_t r, const char* who) {
  V w; std::size_t at = 0; if (p.size()) while ((at = first(p, t, at, ic)) != std::string::npos) { w.push_back(std::make_pair(t0 + at, t0 + at + p.size())); at += p.size(); }
  CHECK(v == w && r == w.size(), std::string(who) + " reported " + num(v.size()) + " matches, there are " + num(w.size()));
}
static void cond(const std::string& p, const std::string& t) {
  typedef strtk::string_condition SC; hbuf h(t); up b = h.ub(), e = h.ue();
  struct { SC::condition_type c; bool w; const char* n; } K[] = { { SC::equal, p == t, "equal" }, { SC::notequal, p != t, "notequal" }, { SC::begins_with, occ(p, t, 0, false), "begins_with" },
    { SC::ends_with, p.size() <= t.size() && occ(p, t, t.size() - p.size(), false), "ends_with" }, { SC::within, first(p, t, 0, false) != std::string::npos, "within" }, { SC::notwithin, first(p, t, 0, false) == std::string::npos, "notwithin" } };
  for (int i = 0; i < 6; ++i) {
    CUR("condition " + std::string(K[i].n) + " " + esc(p) + " on " + esc(t));
    SC c(K[i].c, p); CHECK(c(t) == K[i].w && c(b, e) == K[i].w, "answer");
    SC* q = new SC(K[i].c, p); SC d(*q), a(SC::equal, "x"); a = *q; delete q; CHECK(d(t) == K[i].w, "answer of a copy"); CHECK(a(b, e) == K[i].w, "answer of an assigned condition");
  }
}
static void one(const std::string& p, const std::string& t) {
  CUR("pattern " + esc(p) + " text " + esc(t)); hbuf x(p), y(t); cp pb = x.b(), pe = x.e(), tb = y.b(), te = y.e();
  bool eq = p.size() == t.size() && occ(p, t, 0, true); std::size_t off = t.size() - p.size(); bool fit = p.size() <= t.size();
  CHECK(strtk::imatch(pb, pe, tb, te) == eq && strtk::imatch(p, t) == eq && strtk::imatch(strtk::range::adapter<const char>(pb, pe), strtk::range::adapter<const char>(tb, te)) == eq, "imatch");
  for (int ic = 0; ic < 2; ++ic) {
    bool bw = occ(p, t, 0, ic), ew = fit && occ(p, t, off, ic);
    CHECK((ic ? strtk::ibegins_with(pb, pe, tb, te) : strtk::begins_with(pb, pe, tb, te)) == bw && (ic ? strtk::ibegins_with(p, t) : strtk::begins_with(p, t)) == bw, "begins_with");
    CHECK((ic ? strtk::iends_with(pb, pe, tb, te) : strtk::ends_with(pb, pe, tb, te)) == ew && (ic ? strtk::iends_with(p, t) : strtk::ends_with(p, t)) == ew, "ends_with");
    V v; std::size_t r = ic ? strtk::ifind_all(pb, pe, tb, te, std::back_inserter(v)) : strtk::find_all(pb, pe, tb, te, std::back_inserter(v)); list(v, p, tb, t, ic, r, ic ? "ifind_all" : "find_all");
    V s; r = ic ? strtk::ifind_all(p, t, s) : strtk::find_all(p, t, s); list(s, p, t.data(), t, ic, r, ic ? "ifind_all(string)" : "find_all(string)");
  }
  CHECK(strtk::ifind(p, t) == first(p, t, 0, true), "ifind"); CHECK(strtk::index_of(p, t) == (p.empty() ? std::string::npos : first(p, t, 0, false)), "index_of");
  cond(p, t);
}
int main(int argc, char** argv) {
  init(argc, argv);
  for (int i = 0; i < 256; ++i) for (int k = 0; k < 256; ++k) { CUR("characters " + num(i) + " and " + num(k)); CHECK(strtk::imatch_char((char) i, (char) k) == (U((char) i) == U((char) k)), "imatch_char"); }
  all_strings(3, "aAb", [](const std::string& p) { all_strings(4, "aAb", [&](const std::string& t) { one(p, t); }); });
  while (time_left()) { std::string t = rnd_str(40, "aAbB\xe4@`[{"), p = rnd(3) ? t.substr(rnd(t.size() + 1), rnd(6)) : rnd_str(5, "aAbB\xe4@`[{"); if (p.size() && !rnd(3)) p[rnd(p.size())] ^= 32; one(p, t); }
  return done();
}
