// Records calls of the space-filling curve functions as digit sequences (spec/TraceCurve.tla).
#include "util.h"
#include "lsst/sphgeom/curve.h"
using namespace lsst::sphgeom;
static std::string digs(uint64_t v, int bitsPer, int n) { J j('['); for (int i = n - 1; i >= 0; --i) j.num((v >> (i * bitsPer)) & ((1u << bitsPer) - 1)); return j.done(); }
static uint64_t hi(uint64_t v, int bits) { return bits >= 64 ? 0 : v >> bits; }
static std::ofstream os;
static void morton(uint32_t x, uint32_t y) {
    uint64_t z = mortonIndex(x, y); auto t = mortonIndexInverse(z);
    os << J('{').skey("op", "morton").key("x", digs(x, 1, 32)).key("y", digs(y, 1, 32)).key("z", digs(z, 2, 32)).key("ix", digs(std::get<0>(t), 1, 32)).key("iy", digs(std::get<1>(t), 1, 32)).done() << "\n";
}
static void hilbert(uint32_t x, uint32_t y, int m) {
    uint64_t h = hilbertIndex(x, y, m), h2 = mortonToHilbert(mortonIndex(x, y), m), z2 = hilbertToMorton(h, m);
#if !defined(NO_SIMD) && defined(__x86_64__)
    __m128i xy = _mm_set_epi64x((int64_t)y, (int64_t)x);
    if (hilbertIndex(xy, m) != h || mortonIndex(xy) != mortonIndex(x, y)) h2 = ~h;
    __m128i inv = hilbertIndexInverseSimd(h, m); uint64_t l[2]; _mm_storeu_si128((__m128i *)l, inv);
    auto tt = hilbertIndexInverse(h, m); if ((uint32_t)l[0] != std::get<0>(tt) || (uint32_t)l[1] != std::get<1>(tt)) z2 = ~z2;
#endif
    auto t = hilbertIndexInverse(h, m);
    uint64_t high = hi(h, 2 * m) | hi(z2, 2 * m) | hi(std::get<0>(t), m) | hi(std::get<1>(t), m);
    os << J('{').skey("op", "hilbert").key("m", m).key("x", digs(x, 1, 32)).key("y", digs(y, 1, 32)).key("h", digs(h, 2, m)).key("h2", digs(h2, 2, m)).key("z2", digs(z2, 2, m))
              .key("ix", digs(std::get<0>(t), 1, m)).key("iy", digs(std::get<1>(t), 1, m)).key("high", (int)(high != 0)).done() << "\n";
}
static void inverse(uint64_t h, int m) {
    uint64_t z = hilbertToMorton(h, m); auto t = hilbertIndexInverse(h, m); uint64_t back = hilbertIndex(std::get<0>(t), std::get<1>(t), m);
    uint64_t high = hi(z, 2 * m) | hi(std::get<0>(t), m) | hi(std::get<1>(t), m) | hi(back, 2 * m);
    os << J('{').skey("op", "inverse").key("m", m).key("h", digs(h, 2, 32)).key("z", digs(z, 2, m)).key("ix", digs(std::get<0>(t), 1, m)).key("iy", digs(std::get<1>(t), 1, m)).key("back", digs(back, 2, m)).key("high", (int)(high != 0)).done() << "\n";
}
static void lg(uint64_t x) {
    os << J('{').skey("op", "log2").key("x", digs(x, 1, 64)).key("r", (int)log2(x)).done() << "\n";
    uint32_t y = (uint32_t)(x >> 32) | (x >> 40 ? 0 : (uint32_t)x);
    os << J('{').skey("op", "log2").key("x", digs(y, 1, 32)).key("r", (int)log2(y)).done() << "\n";
}
int main(int, char ** v) {
    os.open(v[1]); Rng g(atoll(v[2])); int n = atoi(v[3]), full = atoi(v[4]);
    for (int m = 0; m <= full; ++m) for (uint32_t x = 0; x < (1u << m); ++x) for (uint32_t y = 0; y < (1u << m); ++y) { hilbert(x, y, m); inverse(((uint64_t)x << m) | y, m); }
    for (int s = 0; s < 64; ++s) { uint64_t bit = (uint64_t)1 << s; lg(bit); lg(bit - 1); lg(bit | (g.next() & (bit - 1))); lg(bit | (bit - 1)); }
    for (int s = 0; s < 32; ++s) { morton(1u << s, 0); morton(0, 1u << s); morton(~(1u << s), 0); morton(0, ~(1u << s)); for (int m = 1; m <= 32; m += (s % 3) + 1) { hilbert(1u << s, 0, m); hilbert(0, 1u << s, m); } }
    for (int i = 0; i < n; ++i) {
        uint32_t x = (uint32_t)g.next(), y = (uint32_t)g.next(); if (g.chance(0.2)) x = g.chance(0.5) ? 0 : ~0u; if (g.chance(0.2)) y = g.chance(0.5) ? 0 : ~0u;
        int m = g.range(1, 32);
        morton(x, y); hilbert(x, y, m); inverse(g.next(), m); lg(g.next() >> g.below(64));
    }
    return 0;
}
