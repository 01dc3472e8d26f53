#ifndef VERIF_TOK
#define VERIF_TOK
extern "C" { void hook_emit(const char*, const char*); bool hook_pred(char); int hook_next(); void hook_val(int); }
typedef std::pair<const char*,const char*> PR;
struct Out {
  Out& operator*() { return *this; } Out& operator++() { return *this; } Out operator++(int) { return *this; }
  template <typename A, typename B> Out& operator=(const std::pair<A,B>& r) { hook_emit(&*r.first, &*r.second); return *this; }
};
struct Pred { bool operator()(const char c) const { return hook_pred(c); } };
struct Fn { template <typename A, typename B> void operator()(const std::pair<A,B>& r) { hook_emit(&*r.first, &*r.second); } };
template <typename T, typename A> struct Seq { typedef T value_type; typedef const T& const_reference; void push_back(const T& v) { hook_emit(v.first, v.second); } };
#endif
