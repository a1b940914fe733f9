#ifndef VP_TEXTIO_HPP
#define VP_TEXTIO_HPP
// A stream is analysed as a tape of characters and numbers: a number is one
// cell whose digits are not looked at. It is not known how much padding a width
// asks for: it is analysed as one space.
#include "names.hpp"
#include <ctype.h>
#include <string.h>
namespace std {
struct vptape
{
    enum { SIZE = 1024, NUMBER = 256 };
    int kind[SIZE]; double num[SIZE]; int n;
    vptape() : n(0) {}
    void ch(int c) { kind[n] = c; num[n] = 0; ++n; }
    void number(double d) { kind[n] = NUMBER; num[n] = d; ++n; }
};
struct vpostream
{
    vptape& t; int w;
    vpostream(vptape& x) : t(x), w(0) {}
    virtual ~vpostream() {}
    void pad() { if (w > 0) { t.ch(' '); w = 0; } }
    vpostream& put(char c) { t.ch(c); return *this; }
    vpostream& operator<<(double d) { pad(); t.number(d); return *this; }
    vpostream& operator<<(float d) { return *this << (double)d; }
    vpostream& operator<<(int d) { return *this << (double)d; }
    vpostream& operator<<(unsigned d) { return *this << (double)d; }
    vpostream& operator<<(long d) { return *this << (double)d; }
    vpostream& operator<<(unsigned long d) { return *this << (double)d; }
    vpostream& operator<<(bool d) { return *this << (double)d; }
    vpostream& operator<<(char c) { pad(); t.ch(c); return *this; }
    vpostream& operator<<(const char* s) { pad(); while (*s) t.ch(*s++); return *this; }
    vpostream& operator<<(_Setw s) { w = s._M_n; return *this; }
    vpostream& operator<<(_Setprecision) { return *this; }
    vpostream& operator<<(ios_base& (*)(ios_base&)) { return *this; }
    vpostream& operator<<(vpostream& (*f)(vpostream&)) { return f(*this); }
    int width() const { return w; }
    int width(int x) { int o = w; w = x; return o; }
    int precision() const { return 6; }
    int precision(int) { return 6; }
    vpostream& flush() { return *this; }
    bool good() const { return true; } bool fail() const { return false; } bool bad() const { return false; }
    explicit operator bool() const { return true; } bool operator!() const { return false; }
};
inline vpostream& vpendl(vpostream& o) { o.t.ch('\n'); return o; }
struct vpistream
{
    const vptape& t; int pos; bool iseof, failed;
    vpistream(const vptape& x) : t(x), pos(0), iseof(false), failed(false) {}
    virtual ~vpistream() {}
    bool good() const { return !iseof && !failed; }
    bool eof() const { return iseof; } bool fail() const { return failed; } bool bad() const { return false; }
    explicit operator bool() const { return !failed; } bool operator!() const { return failed; }
    void setstate(int) { failed = true; } void clear() { failed = iseof = false; }
    int peek() { if (!good()) { failed = true; return -1; } if (pos >= t.n) { iseof = true; return -1; } return t.kind[pos] == vptape::NUMBER ? '7' : t.kind[pos]; }
    int get() { int c = peek(); if (iseof) failed = true; if (!failed) ++pos; return c; }
    vpistream& get(char& c) { int x = get(); if (!failed) c = x; return *this; }
    vpistream& ignore(int n = 1) { while (n-- > 0) get(); return *this; }
    // a character can be put back where it was read
    vpistream& unget() { iseof = false; if (failed || pos == 0) failed = true; else --pos; return *this; }
    vpistream& putback(char c) { unget(); if (!failed && c != (t.kind[pos] == vptape::NUMBER ? '7' : (char)t.kind[pos])) { ++pos; failed = true; } return *this; }
    void skip() { while (good() && pos < t.n && (t.kind[pos] == ' ' || t.kind[pos] == '\n' || t.kind[pos] == '\t')) ++pos; }
    bool next() { skip(); if (!good() || pos >= t.n || t.kind[pos] != vptape::NUMBER) { if (pos >= t.n) iseof = true; failed = true; return false; } return true; }
    vpistream& operator>>(double& d) { if (next()) d = t.num[pos++]; else d = 0; return *this; }
    template <class T> vpistream& whole(T& d) { if (next()) d = (T)t.num[pos++]; else d = 0; return *this; }
    vpistream& operator>>(int& d) { return whole(d); }
    vpistream& operator>>(unsigned& d) { return whole(d); }
    vpistream& operator>>(long& d) { return whole(d); }
    vpistream& operator>>(unsigned long& d) { return whole(d); }
    vpistream& operator>>(bool& d) { double x; if (next()) { x = t.num[pos++]; d = x != 0; } else d = false; return *this; }
    vpistream& operator>>(char& c) { skip(); return get(c); }
    vpistream& operator>>(vpistream& (*f)(vpistream&)) { return f(*this); }
};
inline vpistream& vpws(vpistream& i) { i.skip(); return i; }
vpostream& operator<<(vpostream&, const vpname&);
vpistream& operator>>(vpistream&, vpname&);
extern vpostream vpcout;
}
inline size_t vp_strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
inline int vp_strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
inline int vp_strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
inline const char* vp_strchr(const char* s, int c) { while (*s && *s != (char)c) ++s; return *s == (char)c ? s : 0; }
inline int vp_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 'a' + 'A' : c; }
inline int vp_tolower(int c) { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; }
inline int vp_isspace(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
namespace std { using ::vp_strlen; using ::vp_strcmp; using ::vp_strncmp; using ::vp_strchr; using ::vp_toupper; using ::vp_tolower; using ::vp_isspace; }
#define istream vpistream
#define ostream vpostream
#define endl vpendl
#define ws vpws
#define cout vpcout
#define cerr vpcout
#define strlen vp_strlen
#define strcmp vp_strcmp
#define strncmp vp_strncmp
#define strchr vp_strchr
#define toupper vp_toupper
#define tolower vp_tolower
#define isspace vp_isspace
#endif
