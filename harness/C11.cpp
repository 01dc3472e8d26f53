// C11: Bloom filter
#include "strtk.hpp"
#include <string>
using strtk::bloom::filter; using strtk::bloom::compressible_filter;
struct L1 : public filter // where the members lie
{
#define AT(m) static long a_##m() { L1* p = (L1*)0x1000; return (char*)&p->m - (char*)static_cast<filter*>(p); }
   AT(salt_) AT(bit_table_) AT(salt_count_) AT(table_size_) AT(raw_table_size_) AT(projected_element_count_) AT(inserted_element_count_) AT(random_seed_) AT(desired_false_positive_probability_)
};
extern "C" {
#define LAY(m) long w_at_##m() { return L1::a_##m(); }
LAY(salt_) LAY(bit_table_) LAY(salt_count_) LAY(table_size_) LAY(raw_table_size_) LAY(projected_element_count_) LAY(inserted_element_count_) LAY(random_seed_) LAY(desired_false_positive_probability_)
long w_sizeof_filter() { return sizeof(filter); }
typedef strtk::bloom::parameters par;
#define PAT(n,m) long w_par_##n() { par* p = (par*)0x1000; return (char*)&p->m - (char*)p; }
PAT(hashes,optimal_parameters.number_of_hashes) PAT(table,optimal_parameters.table_size) PAT(seed,random_seed) PAT(count,projected_element_count) PAT(fpp,false_positive_probability)
long w_sizeof_par() { return sizeof(par); }
long w_at_size_list() { return sizeof(filter); } // the only member compressible_filter adds
long w_sizeof_comp() { return sizeof(compressible_filter); }
void w_make(void* m, const par& p) { new (m) filter(p); }
void w_makec(void* m, const par& p) { new (m) compressible_filter(p); }
void w_copy(void* m, const filter& g) { new (m) filter(g); }
void w_assign(filter& f, const filter& g) { f = g; }
bool w_compress(compressible_filter& f, const double& p) { return f.compress(p); }
unsigned long long w_size(const compressible_filter& f) { return f.compressible_filter::size(); }
typedef const char* cs;
void w_insi(filter& f, const int& t) { f.insert(t); }
void w_insd(filter& f, const double& t) { f.insert(t); }
void w_inss(filter& f, const std::string& t) { f.insert(t); }
void w_insc(filter& f, const char* t, const std::size_t& n) { f.insert(t,n); }
void w_insr(filter& f, const int* b, const int* e) { f.insert(b,e); }
bool w_coni(const filter& f, const int& t) { return f.contains(t); }
bool w_cond(const filter& f, const double& t) { return f.contains(t); }
bool w_cons(const filter& f, const std::string& t) { return f.contains(t); }
bool w_conc(const filter& f, const char* t, const std::size_t& n) { return f.contains(t,n); }
const int* w_all(const filter& f, const int* b, const int* e) { return f.contains_all(b,e); }
const int* w_none(const filter& f, const int* b, const int* e) { return f.contains_none(b,e); }
void w_clear(filter& f) { f.clear(); }
void w_and(filter& f, const filter& g) { f &= g; }
void w_or(filter& f, const filter& g) { f |= g; }
void w_xor(filter& f, const filter& g) { f ^= g; }
}
