// Drives BigInteger objects with exact-size storage and records every step (spec/TraceBigInteger.tla).
#include "util.h"
#include <memory>
#include "lsst/sphgeom/BigInteger.h"
using namespace lsst::sphgeom;
// repack 32 bit digits into <<sign, base 2^15 limbs>>
static std::string val(BigInteger const & b) {
    std::string r = "[" + std::to_string(b.getSign()); unsigned __int128 acc = 0; int bits = 0; std::vector<unsigned> l;
    for (unsigned i = 0; i < b.getSize(); ++i) { acc |= (unsigned __int128)b.getDigits()[i] << bits; bits += 32; while (bits >= 15) { l.push_back((unsigned)(acc & 32767)); acc >>= 15; bits -= 15; } }
    l.push_back((unsigned)acc); while (!l.empty() && l.back() == 0) l.pop_back();
    for (unsigned x : l) r += "," + std::to_string(x);
    return r + "]";
}
struct Var {
    std::unique_ptr<uint32_t[]> buf; BigInteger b; unsigned cap;
    explicit Var(unsigned c) : buf(new uint32_t[c]), b(buf.get(), c), cap(c) { for (unsigned i = 0; i < c; ++i) buf[i] = 0xdeadbeef; }
};
static uint64_t word(Rng & g) {
    uint64_t v = g.next();
    switch (g.below(9)) { case 0: return 0; case 1: return 1; case 2: return ~0ull; case 3: return 0xffffffffull; case 4: return 0x100000000ull; case 5: return 0x8000000000000000ull; case 6: return v >> g.below(64); case 7: return v & 0xffffffff00000000ull; default: return v; }
}
int main(int, char ** v) {
    std::ofstream os(v[1]); Rng g(atoll(v[2])); int n = atoi(v[3]), len = atoi(v[4]);
    for (int i = 0; i < n; ++i) {
        std::vector<std::unique_ptr<Var>> x; J caps('[');
        for (int k = 0; k < 4; ++k) { unsigned c = g.chance(0.6) ? g.range(8, 30) : g.range(1, 8); x.emplace_back(new Var(c)); caps.num(c); }
        J ev('[');
        for (int s = 0; s < len; ++s) {
            int o = g.below(4), p = g.chance(0.15) ? o : g.below(4); BigInteger & a = x[o]->b; BigInteger const & b = x[p]->b;
            J e('{'); bool thr = false; int op = g.below(12); unsigned sh = 0; bool other = true; std::string before = val(b);
            try {
                switch (op) {
                    case 0: case 1: { uint64_t w = word(g); e.skey("op", "setu").key("w", big(w)); a.setTo(w); break; }
                    case 2: { int64_t w = (int64_t)word(g); e.skey("op", "seti").key("w", bigs(w)); a.setTo(w); break; }
                    case 3: e.skey("op", "neg"); a.negate(); break;
                    case 4: case 5: e.skey("op", "add"); a.add(b); break;
                    case 6: case 7: e.skey("op", "sub"); a.subtract(b); break;
                    case 8: sh = g.chance(0.3) ? 32 * g.range(0, 4) : g.chance(0.5) ? g.range(0, 40) : g.range(0, 200); e.skey("op", "shl").key("n", (int)sh); a.multiplyPow2(sh); break;
                    case 9: case 10: e.skey("op", "mul"); a.multiply(b); break;
                    default: if (g.chance(0.2)) { e.skey("op", "zero"); a.setToZero(); } else { e.skey("op", "asg"); a = b; } break;
                }
            } catch (std::runtime_error const &) { thr = true; }
            if (o != p && val(b) != before) other = false;
            ev.raw(e.key("o", o + 1).key("p", p + 1).key("thr", thr).key("v", val(a)).key("size", (int)a.getSize()).key("cap", (int)a.getCapacity()).key("other", other).done());
        }
        os << J('{').key("caps", caps.done()).key("ev", ev.done()).done() << "\n";
    }
    return 0;
}
