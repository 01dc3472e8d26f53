#include "common.hpp"
#include "strtk.hpp"
typedef unsigned char uc;
static unsigned pc(unsigned long long v) { unsigned n = 0; for (; v; v >>= 1) n += v & 1; return n; }
static void two(const std::string& a, const std::string& b) {
  hbuf x(a), y(b);
  CUR("texts " + esc(a) + " and " + esc(b));
  std::size_t pa = 0, hd = 0, he = 0, none = ~(std::size_t) 0;
  for (std::size_t i = 0; i < a.size(); ++i) pa += pc((uc) a[i]);
  CHECK(strtk::high_bit_count(x.ub(), x.ue()) == pa && strtk::high_bit_count(x.b(), x.e()) == pa && strtk::high_bit_count(a) == pa, "high_bit_count");
  bool same = a.size() == b.size();
  if (same) for (std::size_t i = 0; i < a.size(); ++i) { hd += pc((uc) (a[i] ^ b[i])); he += a[i] != b[i]; } else hd = he = none;
  CHECK(strtk::hamming_distance(x.ub(), x.ue(), y.ub(), y.ue()) == hd && strtk::hamming_distance(a, b) == hd && strtk::hamming_distance((const char*) x.b(), (const char*) x.e(), (const char*) y.b(), (const char*) y.e()) == hd, "hamming_distance");
  CHECK(strtk::hamming_distance_elementwise((const char*) x.b(), (const char*) x.e(), (const char*) y.b(), (const char*) y.e()) == he && strtk::hamming_distance_elementwise(a, b) == he, "hamming_distance_elementwise");
  std::string want(2 * a.size(), 0);
  if (same) for (std::size_t i = 0; i < a.size(); ++i) for (int t = 0; t < 8; ++t) {
    int p = 2 * t; if ((uc) a[i] >> t & 1) want[2 * i + p / 8] |= 1 << p % 8;
    ++p; if ((uc) b[i] >> t & 1) want[2 * i + p / 8] |= 1 << p % 8; }
  hbuf o(2 * a.size()); bool r = strtk::twoway_bitwise_interleave(x.ub(), x.ue(), y.ub(), y.ue(), o.ub()); CHECK(r == same && (!same || o.str() == want), "twoway_bitwise_interleave");
  std::string so = "old"; r = strtk::twoway_bitwise_interleave(a, b, so); CHECK(r == same && so == (same ? want : "old"), "twoway_bitwise_interleave(string) gave " + esc(so));
  for (int op = 0; op < 3; ++op) {
    strtk::bitwise_operation::type p = op == 0 ? strtk::bitwise_operation::eAND : op == 1 ? strtk::bitwise_operation::eOR : strtk::bitwise_operation::eXOR;
    std::string w(a.size(), 0); if (same) for (std::size_t i = 0; i < a.size(); ++i) w[i] = op == 0 ? a[i] & b[i] : op == 1 ? a[i] | b[i] : a[i] ^ b[i];
    if (same) { hbuf q(a.size()); strtk::bitwise_transform(p, x.ub(), x.ue(), y.ub(), q.ub()); CHECK(q.str() == w, "bitwise_transform " + num(op)); }
    std::string s = "old"; strtk::bitwise_transform(p, a, b, s); CHECK(s == (same ? w : "old"), "bitwise_transform(string) " + num(op));
  }
  for (std::size_t i = 0; i < 8 * a.size(); ++i) {
    CUR("bit " + num(i) + " of " + esc(a)); bool on = (uc) a[i / 8] >> i % 8 & 1;
    CHECK(strtk::bit_state(i, x.ub()) == on, "bit_state");
    std::string h = a, l = a; h[i / 8] |= 1 << i % 8; l[i / 8] &= ~(1 << i % 8);
    hbuf g(a), k(a); strtk::set_bit_high(i, g.ub()); strtk::set_bit_low(i, k.ub()); CHECK(g.str() == h, "set_bit_high"); CHECK(k.str() == l, "set_bit_low");
  }
}
static void ints(unsigned long long v) {
  CUR("integer " + num((long long) v)); unsigned short s = v; unsigned i = v; long long l = v;
  CHECK(strtk::high_bit_count((uc) v) == pc((uc) v) && strtk::high_bit_count(s) == pc(s) && strtk::high_bit_count(i) == pc(i) && strtk::high_bit_count(l) == pc(v), "high_bit_count of an integer");
}
template <int N, class T> static void nw() {
  std::vector<T> t(256, 77); strtk::create_nway_interleave_table<N>(&t[0]);
  for (int k = 0; k < 256; ++k) { T w = 0; for (int b = 0; b < 8; ++b) if (k >> b & 1) w |= (T) 1 << b * N; CUR("interleave table of " + num(N) + " entry " + num(k)); CHECK(t[k] == w, "value"); }
}
int main(int argc, char** argv) {
  init(argc, argv);
  nw<2, unsigned short>(); nw<4, unsigned>(); nw<8, unsigned long long>();
  for (int i = 0; i < 65536; ++i) { ints(i); ints((unsigned long long) i << 16 | (unsigned long long) i << 40); }
  all_strings(2, std::string("\0\1\xff", 3), [](const std::string& a) { all_strings(2, std::string("\0\x80\x7f", 3), [&](const std::string& b) { two(a, b); }); });
  for (int i = 0; i < 256; ++i) for (int k = 0; k < 256; ++k) if (!(i % 5 && k % 5)) two(std::string(1, (char) i), std::string(1, (char) k));
  std::string alpha; for (int i = 0; i < 256; ++i) alpha += (char) i;
  while (time_left()) { std::string a = rnd_str(40, alpha), b = rnd_str(40, alpha); if (rnd(8)) b.resize(a.size(), 'z'); two(a, b); ints(rnd()); }
  return done();
}
