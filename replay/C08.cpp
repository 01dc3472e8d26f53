#include "common.hpp"
#include "strtk.hpp"
#include "tok.hpp"
typedef std::string S;
typedef std::vector<int> VI;
template <typename D> static S r_all(const S& s, D p) { S r; for (char c : s) if (!p(c)) r += c; return r; }
template <typename D> static S r_cons(const S& s, D p) { S r; for (std::size_t i = 0; i < s.size(); ++i) if (i == 0 || !(p(s[i]) && p(s[i - 1]))) r += s[i]; return r; }
static S r_eq(const S& s) { S r; for (std::size_t i = 0; i < s.size(); ++i) if (i == 0 || s[i] != s[i - 1]) r += s[i]; return r; }
template <typename D> static S r_trail(const S& s, D p) { std::size_t n = s.size(); while (n && p(s[n - 1])) --n; return s.substr(0, n); }
template <typename D> static S r_lead(const S& s, D p) { std::size_t n = 0; while (n < s.size() && p(s[n])) ++n; return s.substr(n); }
static S r_dup(const S& s) { S r; for (char c : s) if (r.find(c) == S::npos) r += c; return r; }
static S I2S(const VI& v) { S r; for (int x : v) r += (char) x; return r; }
static VI S2I(const S& s) { VI r; for (char c : s) r.push_back((unsigned char) c); return r; }
struct PI { S d; bool operator()(const int& x) const { return d.find((char) x) != S::npos; } };
#define STR(call, want, nm) { S t(s); call; CHECK(t == (want), nm " gave " + esc(t) + " expected " + esc(want)); }
#define RNG(call, want, nm) { hbuf t(s); std::size_t k = call; const S w_ = want; CHECK(k == s.size() - w_.size(), nm " count"); CHECK(S(t.b(), w_.size()) == w_, nm " gave " + esc(S(t.b(), w_.size())) + " expected " + esc(w_)); }
static void one(const S& s, const S& d) {
  CUR("text " + esc(s) + " matching characters " + esc(d));
  InSet p; p.d = d; PI pi; pi.d = d;
  const S a = r_all(s, p), c = r_cons(s, p), t_ = r_trail(s, p), l = r_lead(s, p), e = r_eq(s);
  RNG(strtk::remove_inplace(p, t.b(), t.e()), a, "remove_inplace(pred,range)");
  RNG(strtk::remove_inplace(p, strtk::range::adapter<char>(t.b(), t.e())), a, "remove_inplace(pred,adapter)");
  STR(strtk::remove_inplace(p, t), a, "remove_inplace(pred,string)");
  { VI v = S2I(s); std::size_t k = strtk::remove_inplace(pi, v); CHECK(I2S(v) == a && k == s.size() - a.size(), "remove_inplace(pred,vector)"); }
  RNG(strtk::remove_consecutives_inplace(p, t.b(), t.e()), c, "remove_consecutives_inplace(pred,range)");
  RNG(strtk::remove_consecutives_inplace(p, strtk::range::adapter<char>(t.b(), t.e())), c, "remove_consecutives_inplace(pred,adapter)");
  STR(strtk::remove_consecutives_inplace(p, t), c, "remove_consecutives_inplace(pred,string)");
  STR(strtk::remove_consecutives_inplace(d, t), c, "remove_consecutives_inplace(string,string)");
  RNG(strtk::remove_trailing(p, t.b(), t.e()), t_, "remove_trailing(pred,range)");
  RNG(strtk::remove_trailing(p, strtk::range::adapter<char>(t.b(), t.e())), t_, "remove_trailing(pred,adapter)");
  STR(strtk::remove_trailing(p, t), t_, "remove_trailing(pred,string)");
  STR(strtk::remove_trailing(d, t), t_, "remove_trailing(string,string)");
  RNG(strtk::remove_leading(p, t.b(), t.e()), l, "remove_leading(pred,range)");
  RNG(strtk::remove_leading(p, strtk::range::adapter<char>(t.b(), t.e())), l, "remove_leading(pred,adapter)");
  STR(strtk::remove_leading(p, t), l, "remove_leading(pred,string)");
  STR(strtk::remove_leading(d, t), l, "remove_leading(string,string)");
  STR(strtk::remove_leading_trailing(d, t), r_trail(l, p), "remove_leading_trailing");
  if (d.find('\0') == S::npos) {
    STR(strtk::remove_consecutives_inplace(d.c_str(), t), c, "remove_consecutives_inplace(char*,string)");
    STR(strtk::remove_trailing(d.c_str(), t), t_, "remove_trailing(char*,string)");
    STR(strtk::remove_leading(d.c_str(), t), l, "remove_leading(char*,string)");
  }
  if (d.size() == 1) {
    STR(strtk::remove_inplace(d[0], t), a, "remove_inplace(char,string)");
    STR(strtk::remove_consecutives_inplace(d[0], t), c, "remove_consecutives_inplace(char,string)");
    STR(strtk::remove_trailing(d[0], t), t_, "remove_trailing(char,string)");
    STR(strtk::remove_leading(d[0], t), l, "remove_leading(char,string)");
  }
  RNG(strtk::remove_consecutives_inplace(t.b(), t.e()), e, "remove_consecutives_inplace(range)");
  STR(strtk::remove_consecutives_inplace(t), e, "remove_consecutives_inplace(string)");
  { VI v = S2I(s); strtk::remove_consecutives_inplace(v); CHECK(I2S(v) == e, "remove_consecutives_inplace(vector)"); }
  { S t(s); CHECK(strtk::remove_duplicates(t) == r_dup(s), "remove_duplicates"); CHECK(strtk::remove_duplicates_inplace(t) == r_dup(s), "remove_duplicates_inplace"); }
}
static void idx(const S& s, const std::vector<std::size_t>& l) {
  S ls; for (std::size_t i : l) ls += num(i) + " ";
  CUR("text " + esc(s) + " indices " + ls);
  S w; for (std::size_t i = 0; i < s.size(); ++i) if (std::find(l.begin(), l.end(), i) == l.end()) w += s[i];
  RNG(strtk::remove_inplace(strtk::index_remover(l), t.b(), t.e()), w, "remove_inplace(index_remover)");
}
int main(int c, char** v) {
  init(c, v);
  all_strings(5, "ab|", [](const S& s) { one(s, "|"); one(s, "a|"); one(s, ""); });
  for (int i = 0; i < 256; ++i) for (int j = 0; j < 4; ++j) { S s; s += (char) i; s += (char) (i + j); s += (char) i; s += (char) i; one(s, S(1, (char) i)); one(s, S(1, (char) (i + j)) + "x"); one(s, "x"); }
  for (int n = 0; n < 7; ++n) for (int m = 0; m < 256; ++m) { std::vector<std::size_t> l; for (int i = 0; i < 8; ++i) if (m >> i & 1) l.push_back(i); idx(S("abcdefg").substr(0, n), l); }
  while (time_left()) {
    const S al = rnd(2) ? S("ab |") : rnd(2) ? S("") : S("a\xff\x80\x01", 4);
    one(rnd_str(rnd(10) ? 20 : 600, al), rnd_str(4, al));
    S t = rnd_str(30, ""); std::vector<std::size_t> l; for (std::size_t i = 0; i < 40; ++i) if (rnd(3) == 0) l.push_back(i); idx(t, l);
  }
  return done();
}
