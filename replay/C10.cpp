#include "common.hpp"
#include "strtk.hpp"
typedef unsigned char uc;
static void one(const std::string& s, std::size_t at) {
  { hbuf h(s); const uc* q = h.ub() + at; CUR("read_pod of 1 values from " + esc(s) + " at " + num(at));
    int t0, e0; memcpy(&e0, q, sizeof e0); q += sizeof e0;
    uc* r = strtk::read_pod(h.ub() + at, t0); CHECK(r == q && h.str() == s, "end of record");
    CHECK(t0 == e0, "value 1 of 1");
    std::string w(s.size(), (char) ~s[0]); std::string x = w; std::size_t k = q - h.ub() - at; x.replace(at, k, s, at, k); hbuf g(w); CUR("write_pod of 1 values to " + esc(w) + " at " + num(at));
    r = strtk::write_pod(g.ub() + at, (const int&) t0); CHECK(r == g.ub() + at + k, "end of written record"); CHECK(g.str() == x, "wrote " + esc(g.str()) + " expected " + esc(x)); }
  { hbuf h(s); const uc* q = h.ub() + at; CUR("read_pod of 2 values from " + esc(s) + " at " + num(at));
    int t0, e0; memcpy(&e0, q, sizeof e0); q += sizeof e0;
    char t1, e1; memcpy(&e1, q, sizeof e1); q += sizeof e1;
    uc* r = strtk::read_pod(h.ub() + at, t0, t1); CHECK(r == q && h.str() == s, "end of record");
    CHECK(t0 == e0, "value 1 of 2");
    CHECK(t1 == e1, "value 2 of 2");
    std::string w(s.size(), (char) ~s[0]); std::string x = w; std::size_t k = q - h.ub() - at; x.replace(at, k, s, at, k); hbuf g(w); CUR("write_pod of 2 values to " + esc(w) + " at " + num(at));
    r = strtk::write_pod(g.ub() + at, (const int&) t0, (const char&) t1); CHECK(r == g.ub() + at + k, "end of written record"); CHECK(g.str() == x, "wrote " + esc(g.str()) + " expected " + esc(x)); }
  { hbuf h(s); const uc* q = h.ub() + at; CUR("read_pod of 3 values from " + esc(s) + " at " + num(at));
    int t0, e0; memcpy(&e0, q, sizeof e0); q += sizeof e0;
    char t1, e1; memcpy(&e1, q, sizeof e1); q += sizeof e1;
    short t2, e2; memcpy(&e2, q, sizeof e2); q += sizeof e2;
    uc* r = strtk::read_pod(h.ub() + at, t0, t1, t2); CHECK(r == q && h.str() == s, "end of record");
    CHECK(t0 == e0, "value 1 of 3");
    CHECK(t1 == e1, "value 2 of 3");
    CHECK(t2 == e2, "value 3 of 3");
    std::string w(s.size(), (char) ~s[0]); std::string x = w; std::size_t k = q - h.ub() - at; x.replace(at, k, s, at, k); hbuf g(w); CUR("write_pod of 3 values to " + esc(w) + " at " + num(at));
    r = strtk::write_pod(g.ub() + at, (const int&) t0, (const char&) t1, (const short&) t2); CHECK(r == g.ub() + at + k, "end of written record"); CHECK(g.str() == x, "wrote " + esc(g.str()) + " expected " + esc(x)); }
  { hbuf h(s); const uc* q = h.ub() + at; CUR("read_pod of 4 values from " + esc(s) + " at " + num(at));
    int t0, e0; memcpy(&e0, q, sizeof e0); q += sizeof e0;
    char t1, e1; memcpy(&e1, q, sizeof e1); q += sizeof e1;
    short t2, e2; memcpy(&e2, q, sizeof e2); q += sizeof e2;
    unsigned long long t3, e3; memcpy(&e3, q, sizeof e3); q += sizeof e3;
    uc* r = strtk::read_pod(h.ub() + at, t0, t1, t2, t3); CHECK(r == q && h.str() == s, "end of record");
    CHECK(t0 == e0, "value 1 of 4");
    CHECK(t1 == e1, "value 2 of 4");
    CHECK(t2 == e2, "value 3 of 4");
    CHECK(t3 == e3, "value 4 of 4");
    std::string w(s.size(), (char) ~s[0]); std::string x = w; std::size_t k = q - h.ub() - at; x.replace(at, k, s, at, k); hbuf g(w); CUR("write_pod of 4 values to " + esc(w) + " at " + num(at));
    r = strtk::write_pod(g.ub() + at, (const int&) t0, (const char&) t1, (const short&) t2, (const unsigned long long&) t3); CHECK(r == g.ub() + at + k, "end of written record"); CHECK(g.str() == x, "wrote " + esc(g.str()) + " expected " + esc(x)); }
  { hbuf h(s); const uc* q = h.ub() + at; CUR("read_pod of 5 values from " + esc(s) + " at " + num(at));
    int t0, e0; memcpy(&e0, q, sizeof e0); q += sizeof e0;
    char t1, e1; memcpy(&e1, q, sizeof e1); q += sizeof e1;
    short t2, e2; memcpy(&e2, q, sizeof e2); q += sizeof e2;
    unsigned long long t3, e3; memcpy(&e3, q, sizeof e3); q += sizeof e3;
    unsigned short t4, e4; memcpy(&e4, q, sizeof e4); q += sizeof e4;
    uc* r = strtk::read_pod(h.ub() + at, t0, t1, t2, t3, t4); CHECK(r == q && h.str() == s, "end of record");
    CHECK(t0 == e0, "value 1 of 5");
    CHECK(t1 == e1, "value 2 of 5");
    CHECK(t2 == e2, "value 3 of 5");
    CHECK(t3 == e3, "value 4 of 5");
    CHECK(t4 == e4, "value 5 of 5");
    std::string w(s.size(), (char) ~s[0]); std::string x = w; std::size_t k = q - h.ub() - at; x.replace(at, k, s, at, k); hbuf g(w); CUR("write_pod of 5 values to " + esc(w) + " at " + num(at));
    r = strtk::write_pod(g.ub() + at, (const int&) t0, (const char&) t1, (const short&) t2, (const unsigned long long&) t3, (const unsigned short&) t4); CHECK(r == g.ub() + at + k, "end of written record"); CHECK(g.str() == x, "wrote " + esc(g.str()) + " expected " + esc(x)); }
  { hbuf h(s); const uc* q = h.ub() + at; CUR("read_pod of 6 values from " + esc(s) + " at " + num(at));
    int t0, e0; memcpy(&e0, q, sizeof e0); q += sizeof e0;
    char t1, e1; memcpy(&e1, q, sizeof e1); q += sizeof e1;
    short t2, e2; memcpy(&e2, q, sizeof e2); q += sizeof e2;
    unsigned long long t3, e3; memcpy(&e3, q, sizeof e3); q += sizeof e3;
    unsigned short t4, e4; memcpy(&e4, q, sizeof e4); q += sizeof e4;
    unsigned char t5, e5; memcpy(&e5, q, sizeof e5); q += sizeof e5;
    uc* r = strtk::read_pod(h.ub() + at, t0, t1, t2, t3, t4, t5); CHECK(r == q && h.str() == s, "end of record");
    CHECK(t0 == e0, "value 1 of 6");
    CHECK(t1 == e1, "value 2 of 6");
    CHECK(t2 == e2, "value 3 of 6");
    CHECK(t3 == e3, "value 4 of 6");
    CHECK(t4 == e4, "value 5 of 6");
    CHECK(t5 == e5, "value 6 of 6");
    std::string w(s.size(), (char) ~s[0]); std::string x = w; std::size_t k = q - h.ub() - at; x.replace(at, k, s, at, k); hbuf g(w); CUR("write_pod of 6 values to " + esc(w) + " at " + num(at));
    r = strtk::write_pod(g.ub() + at, (const int&) t0, (const char&) t1, (const short&) t2, (const unsigned long long&) t3, (const unsigned short&) t4, (const unsigned char&) t5); CHECK(r == g.ub() + at + k, "end of written record"); CHECK(g.str() == x, "wrote " + esc(g.str()) + " expected " + esc(x)); }
  { hbuf h(s); const uc* q = h.ub() + at; CUR("read_pod of 7 values from " + esc(s) + " at " + num(at));
    int t0, e0; memcpy(&e0, q, sizeof e0); q += sizeof e0;
    char t1, e1; memcpy(&e1, q, sizeof e1); q += sizeof e1;
    short t2, e2; memcpy(&e2, q, sizeof e2); q += sizeof e2;
    unsigned long long t3, e3; memcpy(&e3, q, sizeof e3); q += sizeof e3;
    unsigned short t4, e4; memcpy(&e4, q, sizeof e4); q += sizeof e4;
    unsigned char t5, e5; memcpy(&e5, q, sizeof e5); q += sizeof e5;
    long long t6, e6; memcpy(&e6, q, sizeof e6); q += sizeof e6;
    uc* r = strtk::read_pod(h.ub() + at, t0, t1, t2, t3, t4, t5, t6); CHECK(r == q && h.str() == s, "end of record");
    CHECK(t0 == e0, "value 1 of 7");
    CHECK(t1 == e1, "value 2 of 7");
    CHECK(t2 == e2, "value 3 of 7");
    CHECK(t3 == e3, "value 4 of 7");
    CHECK(t4 == e4, "value 5 of 7");
    CHECK(t5 == e5, "value 6 of 7");
    CHECK(t6 == e6, "value 7 of 7");
    std::string w(s.size(), (char) ~s[0]); std::string x = w; std::size_t k = q - h.ub() - at; x.replace(at, k, s, at, k); hbuf g(w); CUR("write_pod of 7 values to " + esc(w) + " at " + num(at));
    r = strtk::write_pod(g.ub() + at, (const int&) t0, (const char&) t1, (const short&) t2, (const unsigned long long&) t3, (const unsigned short&) t4, (const unsigned char&) t5, (const long long&) t6); CHECK(r == g.ub() + at + k, "end of written record"); CHECK(g.str() == x, "wrote " + esc(g.str()) + " expected " + esc(x)); }
  { hbuf h(s); const uc* q = h.ub() + at; CUR("read_pod of 8 values from " + esc(s) + " at " + num(at));
    int t0, e0; memcpy(&e0, q, sizeof e0); q += sizeof e0;
    char t1, e1; memcpy(&e1, q, sizeof e1); q += sizeof e1;
    short t2, e2; memcpy(&e2, q, sizeof e2); q += sizeof e2;
    unsigned long long t3, e3; memcpy(&e3, q, sizeof e3); q += sizeof e3;
    unsigned short t4, e4; memcpy(&e4, q, sizeof e4); q += sizeof e4;
    unsigned char t5, e5; memcpy(&e5, q, sizeof e5); q += sizeof e5;
    long long t6, e6; memcpy(&e6, q, sizeof e6); q += sizeof e6;
    unsigned int t7, e7; memcpy(&e7, q, sizeof e7); q += sizeof e7;
    uc* r = strtk::read_pod(h.ub() + at, t0, t1, t2, t3, t4, t5, t6, t7); CHECK(r == q && h.str() == s, "end of record");
    CHECK(t0 == e0, "value 1 of 8");
    CHECK(t1 == e1, "value 2 of 8");
    CHECK(t2 == e2, "value 3 of 8");
    CHECK(t3 == e3, "value 4 of 8");
    CHECK(t4 == e4, "value 5 of 8");
    CHECK(t5 == e5, "value 6 of 8");
    CHECK(t6 == e6, "value 7 of 8");
    CHECK(t7 == e7, "value 8 of 8");
    std::string w(s.size(), (char) ~s[0]); std::string x = w; std::size_t k = q - h.ub() - at; x.replace(at, k, s, at, k); hbuf g(w); CUR("write_pod of 8 values to " + esc(w) + " at " + num(at));
    r = strtk::write_pod(g.ub() + at, (const int&) t0, (const char&) t1, (const short&) t2, (const unsigned long long&) t3, (const unsigned short&) t4, (const unsigned char&) t5, (const long long&) t6, (const unsigned int&) t7); CHECK(r == g.ub() + at + k, "end of written record"); CHECK(g.str() == x, "wrote " + esc(g.str()) + " expected " + esc(x)); }
  { hbuf h(s); const uc* q = h.ub() + at; CUR("read_pod of 9 values from " + esc(s) + " at " + num(at));
    int t0, e0; memcpy(&e0, q, sizeof e0); q += sizeof e0;
    char t1, e1; memcpy(&e1, q, sizeof e1); q += sizeof e1;
    short t2, e2; memcpy(&e2, q, sizeof e2); q += sizeof e2;
    unsigned long long t3, e3; memcpy(&e3, q, sizeof e3); q += sizeof e3;
    unsigned short t4, e4; memcpy(&e4, q, sizeof e4); q += sizeof e4;
    unsigned char t5, e5; memcpy(&e5, q, sizeof e5); q += sizeof e5;
    long long t6, e6; memcpy(&e6, q, sizeof e6); q += sizeof e6;
    unsigned int t7, e7; memcpy(&e7, q, sizeof e7); q += sizeof e7;
    int t8, e8; memcpy(&e8, q, sizeof e8); q += sizeof e8;
    uc* r = strtk::read_pod(h.ub() + at, t0, t1, t2, t3, t4, t5, t6, t7, t8); CHECK(r == q && h.str() == s, "end of record");
    CHECK(t0 == e0, "value 1 of 9");
    CHECK(t1 == e1, "value 2 of 9");
    CHECK(t2 == e2, "value 3 of 9");
    CHECK(t3 == e3, "value 4 of 9");
    CHECK(t4 == e4, "value 5 of 9");
    CHECK(t5 == e5, "value 6 of 9");
    CHECK(t6 == e6, "value 7 of 9");
    CHECK(t7 == e7, "value 8 of 9");
    CHECK(t8 == e8, "value 9 of 9");
    std::string w(s.size(), (char) ~s[0]); std::string x = w; std::size_t k = q - h.ub() - at; x.replace(at, k, s, at, k); hbuf g(w); CUR("write_pod of 9 values to " + esc(w) + " at " + num(at));
    r = strtk::write_pod(g.ub() + at, (const int&) t0, (const char&) t1, (const short&) t2, (const unsigned long long&) t3, (const unsigned short&) t4, (const unsigned char&) t5, (const long long&) t6, (const unsigned int&) t7, (const int&) t8); CHECK(r == g.ub() + at + k, "end of written record"); CHECK(g.str() == x, "wrote " + esc(g.str()) + " expected " + esc(x)); }
  { hbuf h(s); const uc* q = h.ub() + at; CUR("read_pod of 10 values from " + esc(s) + " at " + num(at));
    int t0, e0; memcpy(&e0, q, sizeof e0); q += sizeof e0;
    char t1, e1; memcpy(&e1, q, sizeof e1); q += sizeof e1;
    short t2, e2; memcpy(&e2, q, sizeof e2); q += sizeof e2;
    unsigned long long t3, e3; memcpy(&e3, q, sizeof e3); q += sizeof e3;
    unsigned short t4, e4; memcpy(&e4, q, sizeof e4); q += sizeof e4;
    unsigned char t5, e5; memcpy(&e5, q, sizeof e5); q += sizeof e5;
    long long t6, e6; memcpy(&e6, q, sizeof e6); q += sizeof e6;
    unsigned int t7, e7; memcpy(&e7, q, sizeof e7); q += sizeof e7;
    int t8, e8; memcpy(&e8, q, sizeof e8); q += sizeof e8;
    short t9, e9; memcpy(&e9, q, sizeof e9); q += sizeof e9;
    uc* r = strtk::read_pod(h.ub() + at, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9); CHECK(r == q && h.str() == s, "end of record");
    CHECK(t0 == e0, "value 1 of 10");
    CHECK(t1 == e1, "value 2 of 10");
    CHECK(t2 == e2, "value 3 of 10");
    CHECK(t3 == e3, "value 4 of 10");
    CHECK(t4 == e4, "value 5 of 10");
    CHECK(t5 == e5, "value 6 of 10");
    CHECK(t6 == e6, "value 7 of 10");
    CHECK(t7 == e7, "value 8 of 10");
    CHECK(t8 == e8, "value 9 of 10");
    CHECK(t9 == e9, "value 10 of 10");
    std::string w(s.size(), (char) ~s[0]); std::string x = w; std::size_t k = q - h.ub() - at; x.replace(at, k, s, at, k); hbuf g(w); CUR("write_pod of 10 values to " + esc(w) + " at " + num(at));
    r = strtk::write_pod(g.ub() + at, (const int&) t0, (const char&) t1, (const short&) t2, (const unsigned long long&) t3, (const unsigned short&) t4, (const unsigned char&) t5, (const long long&) t6, (const unsigned int&) t7, (const int&) t8, (const short&) t9); CHECK(r == g.ub() + at + k, "end of written record"); CHECK(g.str() == x, "wrote " + esc(g.str()) + " expected " + esc(x)); }
  { hbuf h(s); const uc* q = h.ub() + at; CUR("read_pod of 11 values from " + esc(s) + " at " + num(at));
    int t0, e0; memcpy(&e0, q, sizeof e0); q += sizeof e0;
    char t1, e1; memcpy(&e1, q, sizeof e1); q += sizeof e1;
    short t2, e2; memcpy(&e2, q, sizeof e2); q += sizeof e2;
    unsigned long long t3, e3; memcpy(&e3, q, sizeof e3); q += sizeof e3;
    unsigned short t4, e4; memcpy(&e4, q, sizeof e4); q += sizeof e4;
    unsigned char t5, e5; memcpy(&e5, q, sizeof e5); q += sizeof e5;
    long long t6, e6; memcpy(&e6, q, sizeof e6); q += sizeof e6;
    unsigned int t7, e7; memcpy(&e7, q, sizeof e7); q += sizeof e7;
    int t8, e8; memcpy(&e8, q, sizeof e8); q += sizeof e8;
    short t9, e9; memcpy(&e9, q, sizeof e9); q += sizeof e9;
    char t10, e10; memcpy(&e10, q, sizeof e10); q += sizeof e10;
    uc* r = strtk::read_pod(h.ub() + at, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10); CHECK(r == q && h.str() == s, "end of record");
    CHECK(t0 == e0, "value 1 of 11");
    CHECK(t1 == e1, "value 2 of 11");
    CHECK(t2 == e2, "value 3 of 11");
    CHECK(t3 == e3, "value 4 of 11");
    CHECK(t4 == e4, "value 5 of 11");
    CHECK(t5 == e5, "value 6 of 11");
    CHECK(t6 == e6, "value 7 of 11");
    CHECK(t7 == e7, "value 8 of 11");
    CHECK(t8 == e8, "value 9 of 11");
    CHECK(t9 == e9, "value 10 of 11");
    CHECK(t10 == e10, "value 11 of 11");
    std::string w(s.size(), (char) ~s[0]); std::string x = w; std::size_t k = q - h.ub() - at; x.replace(at, k, s, at, k); hbuf g(w); CUR("write_pod of 11 values to " + esc(w) + " at " + num(at));
    r = strtk::write_pod(g.ub() + at, (const int&) t0, (const char&) t1, (const short&) t2, (const unsigned long long&) t3, (const unsigned short&) t4, (const unsigned char&) t5, (const long long&) t6, (const unsigned int&) t7, (const int&) t8, (const short&) t9, (const char&) t10); CHECK(r == g.ub() + at + k, "end of written record"); CHECK(g.str() == x, "wrote " + esc(g.str()) + " expected " + esc(x)); }
  { hbuf h(s); const uc* q = h.ub() + at; CUR("read_pod of 12 values from " + esc(s) + " at " + num(at));
    int t0, e0; memcpy(&e0, q, sizeof e0); q += sizeof e0;
    char t1, e1; memcpy(&e1, q, sizeof e1); q += sizeof e1;
    short t2, e2; memcpy(&e2, q, sizeof e2); q += sizeof e2;
    unsigned long long t3, e3; memcpy(&e3, q, sizeof e3); q += sizeof e3;
    unsigned short t4, e4; memcpy(&e4, q, sizeof e4); q += sizeof e4;
    unsigned char t5, e5; memcpy(&e5, q, sizeof e5); q += sizeof e5;
    long long t6, e6; memcpy(&e6, q, sizeof e6); q += sizeof e6;
    unsigned int t7, e7; memcpy(&e7, q, sizeof e7); q += sizeof e7;
    int t8, e8; memcpy(&e8, q, sizeof e8); q += sizeof e8;
    short t9, e9; memcpy(&e9, q, sizeof e9); q += sizeof e9;
    char t10, e10; memcpy(&e10, q, sizeof e10); q += sizeof e10;
    long long t11, e11; memcpy(&e11, q, sizeof e11); q += sizeof e11;
    uc* r = strtk::read_pod(h.ub() + at, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11); CHECK(r == q && h.str() == s, "end of record");
    CHECK(t0 == e0, "value 1 of 12");
    CHECK(t1 == e1, "value 2 of 12");
    CHECK(t2 == e2, "value 3 of 12");
    CHECK(t3 == e3, "value 4 of 12");
    CHECK(t4 == e4, "value 5 of 12");
    CHECK(t5 == e5, "value 6 of 12");
    CHECK(t6 == e6, "value 7 of 12");
    CHECK(t7 == e7, "value 8 of 12");
    CHECK(t8 == e8, "value 9 of 12");
    CHECK(t9 == e9, "value 10 of 12");
    CHECK(t10 == e10, "value 11 of 12");
    CHECK(t11 == e11, "value 12 of 12");
    std::string w(s.size(), (char) ~s[0]); std::string x = w; std::size_t k = q - h.ub() - at; x.replace(at, k, s, at, k); hbuf g(w); CUR("write_pod of 12 values to " + esc(w) + " at " + num(at));
    r = strtk::write_pod(g.ub() + at, (const int&) t0, (const char&) t1, (const short&) t2, (const unsigned long long&) t3, (const unsigned short&) t4, (const unsigned char&) t5, (const long long&) t6, (const unsigned int&) t7, (const int&) t8, (const short&) t9, (const char&) t10, (const long long&) t11); CHECK(r == g.ub() + at + k, "end of written record"); CHECK(g.str() == x, "wrote " + esc(g.str()) + " expected " + esc(x)); }
  { hbuf h(s); int t[5]; char c[7]; CUR("arrays"); CHECK(strtk::read_pod(h.ub() + at, t) == h.ub() + at + 20 && !memcmp(t, h.ub() + at, 20), "int array"); CHECK(strtk::read_pod(h.ub() + at, c) == h.ub() + at + 7 && !memcmp(c, h.ub() + at, 7), "char array");
    hbuf g(s.size(), '!'); std::string x(s.size(), '!'); x.replace(at, 20, s, at, 20); CHECK(strtk::write_pod(g.ub() + at, (const int(&)[5]) t) == g.ub() + at + 20 && g.str() == x, "int array written");
    hbuf g2(s.size(), '!'); std::string y(s.size(), '!'); y.replace(at, 7, s, at, 7); CHECK(strtk::write_pod(g2.ub() + at, (const char(&)[7]) c) == g2.ub() + at + 7 && g2.str() == y, "char array written");
    for (int n = 0; n < 6; ++n) { std::vector<int> v(t, t + (n < 5 ? n : 5)); hbuf g3(s.size(), '!'); std::string z(s.size(), '!'); z.replace(at, 4 * v.size(), s, at, 4 * v.size()); CHECK(strtk::write_pod(g3.ub() + at, v) == g3.ub() + at + 4 * v.size() && g3.str() == z, "vector written");
      std::vector<char> vc(c, c + n); hbuf g4(s.size(), '!'); std::string z4(s.size(), '!'); z4.replace(at, n, s, at, n); CHECK(strtk::write_pod(g4.ub() + at, vc) == g4.ub() + at + n && g4.str() == z4, "char vector written"); } }
}
int main(int c, char** a) {
  init(c, a);
  for (int k = 0; k < 200 || time_left(); ++k) { if (k > 5000) break; std::string s; for (int i = 0; i < 64; ++i) s += (char) rnd(256); one(s, rnd(10)); }
  return done();
}
