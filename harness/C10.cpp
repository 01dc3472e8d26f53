#include "strtk.hpp"
typedef unsigned char uc;
extern "C" {
uc* w_r1(uc* d, int& t0) { return strtk::read_pod(d, t0); }
uc* w_w1(uc* d, const int& t0) { return strtk::write_pod(d, t0); }
uc* w_r2(uc* d, int& t0, char& t1) { return strtk::read_pod(d, t0, t1); }
uc* w_w2(uc* d, const int& t0, const char& t1) { return strtk::write_pod(d, t0, t1); }
uc* w_r3(uc* d, int& t0, char& t1, short& t2) { return strtk::read_pod(d, t0, t1, t2); }
uc* w_w3(uc* d, const int& t0, const char& t1, const short& t2) { return strtk::write_pod(d, t0, t1, t2); }
uc* w_r4(uc* d, int& t0, char& t1, short& t2, unsigned long long& t3) { return strtk::read_pod(d, t0, t1, t2, t3); }
uc* w_w4(uc* d, const int& t0, const char& t1, const short& t2, const unsigned long long& t3) { return strtk::write_pod(d, t0, t1, t2, t3); }
uc* w_r5(uc* d, int& t0, char& t1, short& t2, unsigned long long& t3, unsigned short& t4) { return strtk::read_pod(d, t0, t1, t2, t3, t4); }
uc* w_w5(uc* d, const int& t0, const char& t1, const short& t2, const unsigned long long& t3, const unsigned short& t4) { return strtk::write_pod(d, t0, t1, t2, t3, t4); }
uc* w_r6(uc* d, int& t0, char& t1, short& t2, unsigned long long& t3, unsigned short& t4, unsigned char& t5) { return strtk::read_pod(d, t0, t1, t2, t3, t4, t5); }
uc* w_w6(uc* d, const int& t0, const char& t1, const short& t2, const unsigned long long& t3, const unsigned short& t4, const unsigned char& t5) { return strtk::write_pod(d, t0, t1, t2, t3, t4, t5); }
uc* w_r7(uc* d, int& t0, char& t1, short& t2, unsigned long long& t3, unsigned short& t4, unsigned char& t5, long long& t6) { return strtk::read_pod(d, t0, t1, t2, t3, t4, t5, t6); }
uc* w_w7(uc* d, const int& t0, const char& t1, const short& t2, const unsigned long long& t3, const unsigned short& t4, const unsigned char& t5, const long long& t6) { return strtk::write_pod(d, t0, t1, t2, t3, t4, t5, t6); }
uc* w_r8(uc* d, int& t0, char& t1, short& t2, unsigned long long& t3, unsigned short& t4, unsigned char& t5, long long& t6, unsigned int& t7) { return strtk::read_pod(d, t0, t1, t2, t3, t4, t5, t6, t7); }
uc* w_w8(uc* d, const int& t0, const char& t1, const short& t2, const unsigned long long& t3, const unsigned short& t4, const unsigned char& t5, const long long& t6, const unsigned int& t7) { return strtk::write_pod(d, t0, t1, t2, t3, t4, t5, t6, t7); }
uc* w_r9(uc* d, int& t0, char& t1, short& t2, unsigned long long& t3, unsigned short& t4, unsigned char& t5, long long& t6, unsigned int& t7, int& t8) { return strtk::read_pod(d, t0, t1, t2, t3, t4, t5, t6, t7, t8); }
uc* w_w9(uc* d, const int& t0, const char& t1, const short& t2, const unsigned long long& t3, const unsigned short& t4, const unsigned char& t5, const long long& t6, const unsigned int& t7, const int& t8) { return strtk::write_pod(d, t0, t1, t2, t3, t4, t5, t6, t7, t8); }
uc* w_r10(uc* d, int& t0, char& t1, short& t2, unsigned long long& t3, unsigned short& t4, unsigned char& t5, long long& t6, unsigned int& t7, int& t8, short& t9) { return strtk::read_pod(d, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9); }
uc* w_w10(uc* d, const int& t0, const char& t1, const short& t2, const unsigned long long& t3, const unsigned short& t4, const unsigned char& t5, const long long& t6, const unsigned int& t7, const int& t8, const short& t9) { return strtk::write_pod(d, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9); }
uc* w_r11(uc* d, int& t0, char& t1, short& t2, unsigned long long& t3, unsigned short& t4, unsigned char& t5, long long& t6, unsigned int& t7, int& t8, short& t9, char& t10) { return strtk::read_pod(d, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10); }
uc* w_w11(uc* d, const int& t0, const char& t1, const short& t2, const unsigned long long& t3, const unsigned short& t4, const unsigned char& t5, const long long& t6, const unsigned int& t7, const int& t8, const short& t9, const char& t10) { return strtk::write_pod(d, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10); }
uc* w_r12(uc* d, int& t0, char& t1, short& t2, unsigned long long& t3, unsigned short& t4, unsigned char& t5, long long& t6, unsigned int& t7, int& t8, short& t9, char& t10, long long& t11) { return strtk::read_pod(d, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11); }
uc* w_w12(uc* d, const int& t0, const char& t1, const short& t2, const unsigned long long& t3, const unsigned short& t4, const unsigned char& t5, const long long& t6, const unsigned int& t7, const int& t8, const short& t9, const char& t10, const long long& t11) { return strtk::write_pod(d, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11); }
uc* w_ra(uc* d, int* t) { return strtk::read_pod(d, *(int(*)[5])t); }
uc* w_wa(uc* d, const int* t) { return strtk::write_pod(d, *(const int(*)[5])t); }
uc* w_rc(uc* d, char* t) { return strtk::read_pod(d, *(char(*)[7])t); }
uc* w_wc(uc* d, const char* t) { return strtk::write_pod(d, *(const char(*)[7])t); }
uc* w_wv(uc* d, const std::vector<int>& v) { return strtk::write_pod(d, v); }
uc* w_wvc(uc* d, const std::vector<char>& v) { return strtk::write_pod(d, v); }
}
