// Shared helpers for the conformance drivers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <stdexcept>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ULL + 0x1234567) { s = next() * 0xd1342543de82ef95ULL ^ next(); }  // streams of different seeds do not overlap
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }  // inclusive
    bool chance(double p) { return uni() < p; }
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * uni(); }
};

// <<sign, limbs...>> in base 2^15, as spec/BigInt.tla expects.
inline std::string bigMag(int sign, unsigned __int128 m) {
    if (m == 0) return "[0]";
    std::string r = "[" + std::to_string(sign);
    while (m) { r += "," + std::to_string((unsigned)(m & 32767)); m >>= 15; }
    return r + "]";
}
inline std::string big(uint64_t v) { return bigMag(1, v); }
inline std::string bigs(int64_t v) {
    return v < 0 ? bigMag(-1, (unsigned __int128)0 - (unsigned __int128)(__int128)v) : bigMag(1, (unsigned __int128)v);
}
inline std::string big128(__int128 v) { return v < 0 ? bigMag(-1, (unsigned __int128)(-v)) : bigMag(1, (unsigned __int128)v); }

// Comma separated list builder.
struct J {
    std::string s; bool first = true; char close;
    explicit J(char open) : s(1, open), close(open == '[' ? ']' : '}') {}
    J & raw(std::string const & v) { if (!first) s += ","; first = false; s += v; return *this; }
    J & num(long long v) { return raw(std::to_string(v)); }
    J & str(std::string const & v) { return raw("\"" + v + "\""); }
    J & key(std::string const & k, std::string const & v) { return raw("\"" + k + "\":" + v); }
    J & key(std::string const & k, long long v) { return raw("\"" + k + "\":" + std::to_string(v)); }
    J & key(std::string const & k, int v) { return key(k, (long long)v); }
    J & key(std::string const & k, bool v) { return raw("\"" + k + "\":" + (v ? "true" : "false")); }
    J & skey(std::string const & k, std::string const & v) { return raw("\"" + k + "\":\"" + v + "\""); }
    std::string done() const { return s + close; }
};
inline std::string boolj(bool b) { return b ? "true" : "false"; }
template <class V> std::string arr(V const & v) { J j('['); for (auto x : v) j.num((long long)x); return j.done(); }
