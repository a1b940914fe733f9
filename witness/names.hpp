#ifndef VP_NAMES_HPP
#define VP_NAMES_HPP
// Names are only compared, copied and ordered: a name is analysed as a number.
#include <map>
#include <set>
#include <list>
#include <deque>
#include <queue>
#include <stack>
#include <array>
#include <tuple>
#include <fstream>
#include <iomanip>
#include <locale>
#include <codecvt>
#include <complex>
#include <chrono>
#include <random>
#include <functional>
#include <iterator>
#include <numeric>
#include <utility>
#include <limits>
#include <cmath>
#include <cassert>
#include <cstring>
#include <cstdlib>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include <memory>
namespace std {
struct vpname
{
    long id;
    inline __attribute__((always_inline)) vpname() : id(0) {}
    inline __attribute__((always_inline)) vpname(const char* s) : id(0) { while (*s) id = id * 32 + (*s++ & 31); }
    bool empty() const { return id == 0; }
    int compare(const vpname& o) const { return id < o.id ? -1 : id > o.id; }
    // what names are made of is not known
    const char* c_str() const; const char* data() const; size_t size() const; size_t length() const; char operator[](size_t) const; char at(size_t) const;
    vpname& operator+=(const vpname&); vpname& operator+=(char); vpname substr(size_t = 0, size_t = 0) const; size_t find(const vpname&, size_t = 0) const; void clear() { id = 0; }
    static const size_t npos = -1;
    void swap(vpname& o) { long t = id; id = o.id; o.id = t; }
};
inline bool operator==(const vpname& a, const vpname& b) { return a.id == b.id; }
inline bool operator!=(const vpname& a, const vpname& b) { return a.id != b.id; }
inline bool operator<(const vpname& a, const vpname& b) { return a.id < b.id; }
inline bool operator>(const vpname& a, const vpname& b) { return a.id > b.id; }
inline bool operator<=(const vpname& a, const vpname& b) { return a.id <= b.id; }
inline bool operator>=(const vpname& a, const vpname& b) { return a.id >= b.id; }
vpname operator+(const vpname&, const vpname&);
vpname operator+(const vpname&, char);
istream& operator>>(istream&, vpname&);
template <> struct hash<vpname> { size_t operator()(const vpname& a) const { return a.id; } };
ostream& operator<<(ostream& o, const vpname&);
}
#include <Eigen/Core>
#include <Eigen/Cholesky>
#define string vpname
#endif
