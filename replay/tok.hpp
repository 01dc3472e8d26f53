#include <utility>
#include <list>
typedef std::vector<std::pair<long,long> > Toks;
// the fields of a text: plain reading of the documented split options
template <typename D> static Toks ref_split(const std::string& s, D isd, unsigned o) {
  Toks r; long n = (long) s.size(), p = 0; if (!n) return r;
  bool comp = o & 1, first = o & 2, all = (o & 4) && !first;
  for (;;) {
    long d = p; while (d < n && !isd(s[d])) ++d;
    if (d == n) { if (p < n || isd(s[n - 1])) r.push_back(std::make_pair(p, n)); return r; }
    long run = d; while (run < n && isd(s[run])) ++run;
    if (all) { r.push_back(std::make_pair(p, run)); p = run; }
    else if (first) { r.push_back(std::make_pair(p, d + 1)); p = comp ? run : d + 1; }
    else { r.push_back(std::make_pair(p, d)); p = comp ? run : d + 1; }
  }
}
static std::string show(const Toks& t) { std::string r; for (std::size_t i = 0; i < t.size() && i < 12; ++i) r += "[" + std::to_string(t[i].first) + "," + std::to_string(t[i].second) + ")"; return r; }
template <typename It, typename V> static Toks rel(It b, const V& v) { Toks r; for (typename V::const_iterator i = v.begin(); i != v.end(); ++i) r.push_back(std::make_pair((long) (&*i->first - &*b), (long) (&*i->second - &*b))); return r; }
struct InSet { std::string d; bool operator()(char c) const { return d.find(c) != std::string::npos; } };
