#include "strtk.hpp"
#include "common.hpp"
using namespace strtk::bloom;
typedef std::vector<std::string> Keys;
struct P : parameters { P(unsigned k, unsigned long long t, unsigned long long seed) { optimal_parameters.number_of_hashes = k; optimal_parameters.table_size = t; random_seed = seed; } };
template <class F> void ins(F& f, const std::string& k) { hbuf b(k); f.insert((const unsigned char*)b.b(), k.size()); }
template <class F> bool has(const F& f, const std::string& k) { hbuf b(k); return f.contains((const unsigned char*)b.b(), k.size()); }
static bool bit(const unsigned char* t, unsigned long long i) { return (t[i / 8] >> (i % 8)) & 1; }
static Keys keys(unsigned n) { Keys k; for (unsigned i = 0; i < n; ++i) k.push_back(rnd_str(i % 3 ? 20 : 3, "")); return k; }
template <class F> void all(const F& f, const Keys& k, const char* what) { for (std::size_t i = 0; i < k.size(); ++i) { CHECK(has(f, k[i]), std::string(what) + ": inserted key " + num(i) + " is not contained"); CHECK(f.contains(k[i]), what + std::string(": string key")); CHECK(f.contains(k[i].data(), k[i].size()), what + std::string(": char key")); } }
int main(int argc, char** argv)
{
   init(argc, argv);
   for (unsigned it = 0; time_left(); ++it)
   {
      unsigned nh = it % 7 == 0 ? rnd() % 130 : 1 + rnd() % 9; if (nh > 128) nh = 128; unsigned long long T = 1 + rnd() % (it % 3 ? 200 : 4000), seed = 1 + rnd() % 1000; unsigned B = (T + 7) / 8;
      CUR("hashes=" + num(nh) + " table_size=" + num(T) + " random_seed=" + num(seed) + " iteration=" + num(it));
      P p(nh, T, seed); Keys K = keys(1 + rnd() % 12), K2 = keys(1 + rnd() % 6), out = keys(8);
      filter f(p), g(p), e(p);
      CHECK(f.size() == T && f.hash_count() == nh && f.element_count() == 0, "new filter"); for (unsigned i = 0; i < B; ++i) CHECK(f.table()[i] == 0, "a new table is empty");
      Keys done_;
      for (std::size_t i = 0; i < K.size(); ++i) { std::vector<unsigned char> was(f.table(), f.table() + B); ins(f, K[i]); done_.push_back(K[i]); all(f, done_, "insert"); CHECK(f.element_count() == i + 1, "element_count");
         P p1(nh, T, seed); filter one(p1); ins(one, K[i]); for (unsigned long long b = 0; b < T; ++b) CHECK(bit(f.table(), b) == (bit(&was[0], b) || bit(one.table(), b)), "insert sets the bits of the key and no other"); }
      for (std::size_t i = 0; i < out.size(); ++i) { filter one(p); one.insert(out[i]); bool sub = true; for (unsigned long long b = 0; b < T; ++b) if (bit(one.table(), b) && !bit(f.table(), b)) sub = false; CHECK(has(f, out[i]) == sub, "contains is true exactly when every bit of the key is set"); }
      for (std::size_t i = 0; i < K2.size(); ++i) g.insert(K2[i].data(), K2[i].size());
      all(g, K2, "insert(char*,n)");
      int v[5]; for (int i = 0; i < 5; ++i) v[i] = rnd(); double d = rnd() * 0.5; { filter h(p); h.insert(v, v + 5); h.insert(d); for (int i = 0; i < 5; ++i) CHECK(h.contains(v[i]), "range insert"); CHECK(h.contains(d), "double"); CHECK(h.contains_all(v, v + 5) == v + 5, "contains_all"); CHECK(e.contains_none(v, v + 5) == v + 5 || nh == 0, "contains_none");
         const int* q = g.contains_all(v, v + 5); for (int i = 0; i < 5; ++i) if (!g.contains(v[i])) { CHECK(q == v + i, "contains_all stops at the first missing"); break; }
         q = g.contains_none(v, v + 5); for (int i = 0; i < 5; ++i) if (g.contains(v[i])) { CHECK(q == v + i, "contains_none stops at the first found"); break; } }
      { void* m = std::malloc(sizeof(filter)); std::memset(m, 0x41, sizeof(filter)); filter* c = new (m) filter(f); all(*c, K, "copy"); CHECK(*c == f, "copy equals"); CHECK(c->table() != f.table(), "own table"); c->insert(K2[0]); c->~filter(); std::free(m); all(f, K, "after the copy died"); }
      { filter h(p), z; h = f; all(h, K, "assign"); CHECK(h == f && h.table() != f.table(), "assignment"); z = g; all(z, K2, "assign to empty"); z = z; all(z, K2, "self"); }
      { filter u(f), n(f), x(f); u |= g; n &= g; x ^= g; all(u, K, "union"); all(u, K2, "union");
        for (unsigned long long b = 0; b < T; ++b) { bool P_ = bit(f.table(), b), Q = bit(g.table(), b); CHECK(bit(u.table(), b) == (P_ || Q), "union bit"); CHECK(bit(n.table(), b) == (P_ && Q), "intersection bit"); CHECK(bit(x.table(), b) == (P_ != Q), "difference bit"); }
        filter w = f | g; all(w, K, "operator|"); CHECK(std::equal(w.table(), w.table() + B, u.table()), "operator|"); filter w2 = f & g, w3 = f ^ g; CHECK(std::equal(w2.table(), w2.table() + B, n.table()) && std::equal(w3.table(), w3.table() + B, x.table()), "operators");
        P o(nh, T + 8, seed); filter other(o); other.insert(K[0]); filter keep(f); keep |= other; keep &= other; keep ^= other; CHECK(std::equal(keep.table(), keep.table() + B, f.table()), "other parameters are ignored"); }
      { compressible_filter c(p), c2(p); Keys in; for (std::size_t i = 0; i < K.size(); ++i) { c.insert(K[i]); in.push_back(K[i]); }
        all(c, in, "compressible");
        for (int r = 0; r < 4; ++r) { double pc = (rnd() % 1200) / 10.0 - 5; unsigned long long was = c.size(); bool ok = c.compress(pc); CHECK(ok ? (c.size() < was && c.size() >= 8 && c.size() % 8 == 0) : c.size() == was, "compressed size"); if (pc <= 0 || pc >= 100) CHECK(!ok, "percentage");
           all(c, in, "after compress"); std::string k = rnd_str(9, ""); c.insert(k); in.push_back(k); all(c, in, "insert after compress"); compressible_filter cc(c); all(cc, in, "copy after compress"); cc.clear(); all(c, in, "copy cleared"); c2 |= c; c2 &= c; }
        c.clear(); CHECK(c.element_count() == 0, "clear"); for (std::size_t i = 0; i < in.size(); ++i) CHECK(nh == 0 || !has(c, in[i]), "clear"); c.insert(K[0]); CHECK(c.contains(K[0]), "insert after clear"); }
      f.clear(); CHECK(f.element_count() == 0, "clear"); for (unsigned i = 0; i < B; ++i) CHECK(f.table()[i] == 0, "clear");
   }
   return done();
}
