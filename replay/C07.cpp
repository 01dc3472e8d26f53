#include "common.hpp"
#include "strtk.hpp"
#include "tok.hpp"
typedef std::vector<std::pair<const char*,const char*> > PV;
static void cmp(const char* nm, const Toks& want, const char* base, const PV& got, std::size_t rc) {
  Toks g; for (std::size_t i = 0; i < got.size(); ++i) g.push_back(std::make_pair((long) (got[i].first - base), (long) (got[i].second - base)));
  CHECK(g == want && rc == want.size(), std::string(nm) + " gave " + show(g) + " count " + num(rc) + " expected " + show(want));
}
static void one(const std::string& s, const std::string& ds) {
  InSet is; is.d = ds; hbuf h(s); const char* b = h.b(); const char* e = h.e();
  for (unsigned o = 0; o < 8; ++o) for (std::size_t k = 0; k < 7; ++k) {
    std::size_t K = k < 6 ? k : 1000;
    CUR("split_n text " + esc(s) + " delimiters " + esc(ds) + " options " + num(o) + " limit " + num(K));
    Toks w = ref_split(s, is, o); if (w.size() > K) w.resize(K);
    { PV v; std::size_t rc = strtk::split_n(is, b, e, K, std::back_inserter(v), o); cmp("split_n(pred,begin,end)", w, b, v, rc); }
    { PV v; std::size_t rc = strtk::split_n(is, s, K, std::back_inserter(v), o); cmp("split_n(pred,string)", w, s.data(), v, rc); }
    { PV v; std::size_t rc = strtk::split_n(ds, s, K, std::back_inserter(v), o); cmp("split_n(string,string)", w, s.data(), v, rc); }
    { PV v; std::size_t rc = strtk::split_n(ds, b, e, K, std::back_inserter(v), o); cmp("split_n(string,begin,end)", w, b, v, rc); }
    if (ds.find('\0') == std::string::npos) { PV v; std::size_t rc = strtk::split_n(ds.c_str(), s, K, std::back_inserter(v), o); cmp("split_n(chars,string)", w, s.data(), v, rc); }
    if (ds.size() == 1) { PV v; std::size_t rc = strtk::split_n(ds[0], s, K, std::back_inserter(v), o); cmp("split_n(char,string)", w, s.data(), v, rc); }
  }
  CUR("split_pair text " + esc(s) + " delimiters " + esc(ds));
  std::size_t d = 0; while (d < s.size() && !is(s[d])) ++d;
  bool ok = d + 1 < s.size();
  typedef std::pair<const char*,const char*> P; static char z[4];
  { P x(z, z + 1), y(z + 1, z + 2); bool r = strtk::split_pair(b, e, is, x, y); CHECK(r == ok, "split_pair result"); if (ok) CHECK(x == P(b, b + d) && y == P(b + d + 1, e), "split_pair parts"); else CHECK(y == P(z + 1, z + 2) && (d < s.size() || x == P(z, z + 1)), "split_pair touched its outputs"); }
  { P x(z, z + 1), y(z + 1, z + 2); bool r = strtk::split_pair(is, s, x, y); CHECK(r == ok && (!ok || (x == P(s.data(), s.data() + d) && y == P(s.data() + d + 1, s.data() + s.size()))), "split_pair(string)"); }
  if (ds.size() == 1) { P x(z, z + 1), y(z + 1, z + 2); bool r = strtk::split_pair(ds[0], s, x, y); CHECK(r == ok && (!ok || (x == P(s.data(), s.data() + d) && y == P(s.data() + d + 1, s.data() + s.size()))), "split_pair(char)"); }
}
struct Seq { const int* l; std::size_t n; bool rot; mutable std::size_t i; int next() const { if (i >= n) { if (!rot) return 0; i = 0; } return l[i++]; } };
template <std::size_t N> static void offs(const std::string& s, const int* l, bool rot) {
  strtk::offset_predicate<N>* p = new strtk::offset_predicate<N>(l, rot);
  std::string t; for (std::size_t i = 0; i < N; ++i) t += num(l[i]) + " ";
  CUR("offset_splitter text " + esc(s) + " lengths " + t + (rot ? "rotating" : ""));
  hbuf h(s);
  Seq q = { l, N, rot, 0 };
  for (int round = 0; round < 3; ++round) {
    Toks w; long c = 0, n = (long) s.size();
    while (c < n) { int v = q.next(); if (v <= 0) break; long e = v < n - c ? c + v : n; w.push_back(std::make_pair(c, e)); c = e; }
    { PV v; std::size_t rc = strtk::offset_splitter((const char*) h.b(), (const char*) h.e(), *p, std::back_inserter(v)); cmp("offset_splitter", w, h.b(), v, rc); }
    if (round == 1) { p->reset(); q.i = 0; PV v; std::size_t rc = strtk::offset_splitter(s, *p, std::back_inserter(v)); Toks w2; long c = 0; while (c < n) { int v = q.next(); if (v <= 0) break; long e = v < n - c ? c + v : n; w2.push_back(std::make_pair(c, e)); c = e; } cmp("offset_splitter(string)", w2, s.data(), v, rc); }
  }
  delete p;
}
#define OF(N,...) { strtk::offset_predicate<N> p = strtk::offsets(__VA_ARGS__,rot); for (int i = 0; i < N; ++i) { CUR("offsets of " #N); CHECK(p.next() == l[i], "offsets(): wrong length " + num(i)); } CHECK(p.next() == (rot ? l[0] : 0), "offsets(): after the last"); }
static void offn(const int* l, bool rot) {
  OF(1,l[0]) OF(2,l[0],l[1]) OF(3,l[0],l[1],l[2]) OF(4,l[0],l[1],l[2],l[3]) OF(5,l[0],l[1],l[2],l[3],l[4]) OF(6,l[0],l[1],l[2],l[3],l[4],l[5]) OF(7,l[0],l[1],l[2],l[3],l[4],l[5],l[6]) OF(8,l[0],l[1],l[2],l[3],l[4],l[5],l[6],l[7])
  OF(9,l[0],l[1],l[2],l[3],l[4],l[5],l[6],l[7],l[8]) OF(10,l[0],l[1],l[2],l[3],l[4],l[5],l[6],l[7],l[8],l[9]) OF(11,l[0],l[1],l[2],l[3],l[4],l[5],l[6],l[7],l[8],l[9],l[10]) OF(12,l[0],l[1],l[2],l[3],l[4],l[5],l[6],l[7],l[8],l[9],l[10],l[11])
}
int main(int c, char** a) {
  init(c, a);
  const int L[12] = { 3, 1, 4, 15, 9, 2, 6, 5, 35, 8, 97, 932 }; offn(L, false); offn(L, true);
  for (int m = 0; m < 27; ++m) { int l[3] = { m % 3, m / 3 % 3, m / 9 }; for (int n = 0; n < 9; ++n) { std::string s((std::size_t) n, 'x'); offs<3>(s, l, false); offs<3>(s, l, true); offs<1>(s, l, false); offs<1>(s, l, true); offs<2>(s, l, true); l[1] = -l[1]; offs<3>(s, l, true); l[1] = 0x7fffffff; offs<3>(s, l, true); l[1] = m / 3 % 3; } }
  const char* dss[] = { "|", "|;", "" };
  for (int i = 0; i < 3; ++i) all_strings(5, std::string("a|;"), [&](const std::string& s) { one(s, dss[i]); });
  all_strings(3, std::string("a\xff\x80\0|", 5), [&](const std::string& s) { one(s, "\xff\x80"); one(s, "\xff"); one(s, std::string("\0|", 2)); });
  while (time_left()) { std::string ds = rnd_str(4, ""), al = ds + std::string("ab") + (char) rnd(256); one(rnd_str(rnd(8) ? 30 : 1000, al), ds); }
  return done();
}
