// Conformance driver for RangeSet: replays transitions of spec/MCRangeSet.tla and records histories for
// spec/TraceRangeSet.tla and coarsening/scaling events for spec/RangeSetNum.tla.
#include "util.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include "lsst/sphgeom/RangeSet.h"
using lsst::sphgeom::RangeSet;
typedef uint64_t u64;
typedef std::vector<u64> Map;  // breakpoints: b[0] = 0 < b[1] < ...

static Map makeMap(int kind, int K, Rng & g) {
    Map b(K, 0);
    switch (kind) {
        case 0: for (int i = 0; i < K; ++i) b[i] = i; break;
        case 1: for (int i = 1; i < K; ++i) b[i] = (u64)0 - (u64)(K - i); break;
        case 2: { int w = 0; while ((1 << w) < K) ++w; for (int i = 0; i < K; ++i) b[i] = w ? ((u64)i << (64 - w)) : 0; break; }
        case 3: for (int i = 1; i < K; ++i) b[i] = ((u64)1 << 63) - K / 2 + i; break;
        default: {
            std::set<u64> s;
            while ((int)s.size() < K - 1) {
                u64 v = g.next() >> g.below(64);
                if (g.chance(0.3)) v = ~v;
                if (v) { s.insert(v); if (g.chance(0.5) && (int)s.size() < K - 1 && v + 1) s.insert(v + 1); }
            }
            int i = 1; for (u64 v : s) b[i++] = v;
        }
    }
    return b;
}
static RangeSet build(unsigned mask, Map const & b) {
    RangeSet r; int K = b.size();
    for (int i = 0; i < K; ++i) if (mask >> i & 1) r.insert(b[i], b[(i + 1) % K]);
    if (mask == (1u << K) - 1) r.fill();
    return r;
}
static std::vector<std::pair<u64, u64>> listing(RangeSet const & r) {
    std::vector<std::pair<u64, u64>> v;
    for (auto t : r) v.emplace_back(std::get<0>(t), std::get<1>(t));
    return v;
}
static std::vector<std::pair<u64, u64>> maskListing(unsigned m, Map const & b) {
    std::vector<std::pair<u64, u64>> v; int K = b.size();
    for (int i = 0; i < K;) {
        if (!(m >> i & 1)) { ++i; continue; }
        int e = i; while (e < K && (m >> e & 1)) ++e;
        v.emplace_back(b[i], e == K ? 0 : b[e]); i = e;
    }
    return v;
}
static std::string show(std::vector<std::pair<u64, u64>> const & v) {
    std::string s; for (auto & p : v) s += "[" + std::to_string(p.first) + "," + std::to_string(p.second) + ") "; return s;
}
static RangeSet apply(std::string const & op, RangeSet const & a, RangeSet const & b, bool named) {
    if (named) return op == "and" ? a.intersection(b) : op == "or" ? a.join(b) : op == "sub" ? a.difference(b) : a.symmetricDifference(b);
    return op == "and" ? (a & b) : op == "or" ? (a | b) : op == "sub" ? (a - b) : (a ^ b);
}
static void applyTo(std::string const & op, RangeSet & a, RangeSet const & b) {
    if (op == "and") a &= b; else if (op == "or") a |= b; else if (op == "sub") a -= b; else a ^= b;
}

static long nbad = 0;
static void bad(std::string const & line, std::string const & why, Map const & b) {
    if (++nbad <= 20) { std::cout << "MISMATCH " << line << " :: " << why << " breakpoints="; for (u64 v : b) std::cout << v << ","; std::cout << "\n"; }
}
static std::string replayLine(std::string const & name, std::vector<std::string> const & a, Map const & b, Rng & g) {
    int K = b.size();
    auto I = [&](int i) { return (unsigned)std::stoul(a[i]); };
    auto chk = [&](RangeSet const & r, unsigned m) -> std::string {
        auto e = maskListing(m, b);
        if (listing(r) != e) return "ranges " + show(listing(r)) + " expected " + show(e);
        if (!r.isValid()) return "isValid() is false";
        if (!(r == build(m, b)) || (r != build(m, b))) return "not equal to a set with the same integers";
        if (r.size() != e.size() || r.empty() != (m == 0) || r.full() != (m + 1 == 1u << K)) return "size/empty/full";
        u64 c = 0; for (auto & p : e) c += p.second - p.first;
        if (r.cardinality() != c) return "cardinality " + std::to_string(r.cardinality());
        std::vector<std::pair<u64, u64>> cc;
        for (auto i = r.beginc(); i != r.endc(); ++i) cc.emplace_back(std::get<0>(*i), std::get<1>(*i));
        if (cc != maskListing(~m & ((1u << K) - 1), b)) return "complement ranges " + show(cc);
        return "";
    };
    auto q4 = [&](bool x, bool y, bool z, bool w, int i) -> std::string {
        if (x != (bool)I(i) || y != (bool)I(i + 1) || z != (bool)I(i + 2) || w != (bool)I(i + 3))
            return "answers " + std::to_string(x) + std::to_string(y) + std::to_string(z) + std::to_string(w);
        return "";
    };
    if (name == "ins" || name == "era") {
        RangeSet r = build(I(0), b); u64 f = b[I(1)], l = b[I(2)];
        bool ins = name == "ins";
        switch (g.below(2)) {
            case 0: if (ins) r.insert(f, l); else r.erase(f, l); break;
            default: if (ins) r.insert(std::make_tuple(f, l)); else r.erase(std::make_tuple(f, l));
        }
        std::string e = chk(r, I(3));
        if (e.empty() && l == f + 1) {
            RangeSet u = build(I(0), b); if (ins) u.insert(f); else u.erase(f);
            e = chk(u, I(3)); if (!e.empty()) e = "single integer form: " + e;
        }
        return e;
    }
    if (name == "com") {
        RangeSet r = build(I(0), b), s = r; RangeSet t = r.complemented(), u = ~r; r.complement();
        std::string e = chk(r, I(1)); if (e.empty()) e = chk(t, I(1)); if (e.empty()) e = chk(u, I(1)); if (e.empty()) e = chk(s, I(0));
        return e;
    }
    if (name == "fil" || name == "clr") { RangeSet r = build(I(0), b); if (name == "fil") r.fill(); else r.clear(); return chk(r, I(1)); }
    if (name == "sel") {
        RangeSet r = build(I(1), b); RangeSet n = apply(a[0], r, r, true), o = apply(a[0], r, r, false);
        std::string e = chk(r, I(1)); applyTo(a[0], r, r);
        if (e.empty()) e = chk(r, I(2)); if (e.empty()) e = chk(n, I(2)); if (e.empty()) e = chk(o, I(2));
        return e;
    }
    if (name == "bin") {
        RangeSet x = build(I(1), b), y = build(I(2), b); RangeSet n = apply(a[0], x, y, true), o = apply(a[0], x, y, false);
        std::string e = chk(n, I(3)); if (e.empty()) e = chk(o, I(3));
        if (e.empty()) e = chk(x, I(1)); if (e.empty()) e = chk(y, I(2));
        applyTo(a[0], x, y);
        if (e.empty()) e = chk(x, I(3)); if (e.empty()) e = chk(y, I(2));
        if (e.empty() && (x == n) != true) e = "in place result differs";
        return e;
    }
    if (name == "swp") {
        RangeSet x = build(I(0), b), y = build(I(1), b);
        if (g.chance(0.5)) x.swap(y); else swap(x, y);
        std::string e = chk(x, I(1)); if (e.empty()) e = chk(y, I(0));
        if (e.empty() && ((x == y) != (I(0) == I(1)) || (x != y) == (I(0) == I(1)))) e = "equality";
        return e;
    }
    if (name == "obs") return chk(build(I(0), b), I(0));
    if (name == "qrg") {
        RangeSet r = build(I(0), b); u64 f = b[I(1)], l = b[I(2)];
        std::string e = q4(r.intersects(f, l), r.contains(f, l), r.isWithin(f, l), r.isDisjointFrom(f, l), 3);
        if (e.empty() && l == f + 1) {
            e = q4(r.intersects(f), r.contains(f), r.isWithin(f), r.isDisjointFrom(f), 3);
            if (!e.empty()) e = "single integer: " + e;
        }
        if (e.empty()) e = chk(r, I(0));
        return e;
    }
    if (name == "qsl") { RangeSet r = build(I(0), b); return q4(r.intersects(r), r.contains(r), r.isWithin(r), r.isDisjointFrom(r), 1); }
    if (name == "qst") {
        RangeSet x = build(I(0), b), y = build(I(1), b);
        std::string e = q4(x.intersects(y), x.contains(y), x.isWithin(y), x.isDisjointFrom(y), 2);
        if (e.empty()) e = chk(x, I(0)); if (e.empty()) e = chk(y, I(1));
        return e;
    }
    return "unknown transition";
}

static void parse(std::string const & line, std::string & name, std::vector<std::string> & a) {
    size_t p = line.find('@'); name = line.substr(p + 1, 3); a.clear();
    std::string cur;
    for (size_t i = p + 4; i < line.size(); ++i) {
        char c = line[i];
        if (isalnum(c)) cur += c; else if (!cur.empty()) { a.push_back(cur); cur.clear(); }
    }
}
static int replay(char const * file, int K, u64 seed, char const * classes) {
    Rng g(seed); std::ifstream in(file); std::string line, name; std::vector<std::string> a; long n = 0;
    std::map<std::string, long> count;
    std::vector<Map> maps; for (int k = 0; k < 9; ++k) maps.push_back(makeMap(k, K, g));
    while (std::getline(in, line)) {
        if (line.compare(0, 2, "\"@")) continue;
        parse(line, name, a);
        bool isq = name[0] == 'q'; if (isq != (classes[0] == 'q')) continue;
        for (auto & b : maps) { std::string e = replayLine(name, a, b, g); if (!e.empty()) bad(line, e, b); ++n; }
        ++count[name];
    }
    std::cout << "REPLAYED " << n << " MISMATCHES " << nbad;
    for (auto & c : count) std::cout << " " << c.first << "=" << c.second;
    std::cout << "\n";
    return 0;
}

// ---- random histories
static int record(char const * out, int K, u64 seed, int ntraces, int len, bool queries) {
    Rng g(seed); std::ofstream os(out);
    static char const * ops[] = {"and", "or", "sub", "xor"};
    for (int t = 0; t < ntraces; ++t) {
        Map b = makeMap((int)g.below(9), K, g);
        std::map<u64, int> idx; for (int i = 0; i < K; ++i) idx[b[i]] = i;
        J w('['); for (int i = 0; i < K; ++i) w.raw(big((i + 1 < K ? b[i + 1] : 0) - b[i]));
        RangeSet r[4];
        auto ranges = [&](RangeSet const & s, bool comp) {
            J j('[');
            auto it = comp ? s.beginc() : s.begin(), e = comp ? s.endc() : s.end();
            for (; it != e; ++it) {
                auto f = idx.find(std::get<0>(*it)), l = idx.find(std::get<1>(*it));
                j.raw("[" + std::to_string(f == idx.end() ? -1 : f->second) + "," + std::to_string(l == idx.end() ? -1 : l->second) + "]");
            }
            return j.done();
        };
        // a walk of two iterators (0 and 1) over the ranges: moves, positions by subtraction, what they point at, comparisons
        auto walk = [&](RangeSet const & s, bool comp) {
            RangeSet::Iterator const b0 = comp ? s.beginc() : s.begin(), e0 = comp ? s.endc() : s.end();
            RangeSet::Iterator it[2] = {b0, e0}; long n = e0 - b0; long pos[2] = {0, n};
            auto at = [&](RangeSet::Iterator i, long p) { // p: only used to stay within the ranges
                if (p < 0 || p >= n) return std::string("[]");
                auto t = *i; auto f = idx.find(std::get<0>(t)), l = idx.find(std::get<1>(t));
                return "[" + std::to_string(f == idx.end() ? -1 : f->second) + "," + std::to_string(l == idx.end() ? -1 : l->second) + "]";
            };
            J j('[');
            for (int k = 0; k < 12; ++k) {
                int w = g.below(2), op = g.below(10); long to = g.below(n + 1), d = to - pos[w];
                if (op < 4) { d = (op & 1) ? -1 : 1; if (pos[w] + d < 0 || pos[w] + d > n) continue; }
                J m('{'); std::string old = "[]"; RangeSet::Iterator & i = it[w]; long p0 = pos[w];
                switch (op) {
                    case 0: ++i; break; case 1: --i; break;
                    case 2: old = at(i++, p0); break; case 3: old = at(i--, p0); break;
                    case 4: i += d; break; case 5: i -= -d; break;
                    case 6: i = i + d; break; case 7: i = i - (-d); break; case 8: i = d + i; break;
                    default: if (p0 + d < n) { auto t = i[d]; old = "[" + std::to_string(idx.count(std::get<0>(t)) ? idx[std::get<0>(t)] : -1) + "," + std::to_string(idx.count(std::get<1>(t)) ? idx[std::get<1>(t)] : -1) + "]"; } d = 0;
                        m.key("ix", (int)(to - p0)); if (p0 + (to - p0) >= n) m.key("no", true);
                }
                pos[w] += d;
                long q = i - b0;
                m.key("w", w).key("op", op).key("d", (int)d).key("old", old).key("p", (int)q).key("cur", q == pos[w] ? at(i, q) : std::string("[-2]"));
                J cmp('['); cmp.raw(boolj(it[0] == it[1])).raw(boolj(it[0] != it[1])).raw(boolj(it[0] < it[1])).raw(boolj(it[0] > it[1])).raw(boolj(it[0] <= it[1])).raw(boolj(it[0] >= it[1]));
                m.key("cmp", cmp.done()).key("end", (int)(e0 - i)); j.raw(m.done());
                if (q != pos[w]) break;
                if (g.chance(0.1)) { swap(it[0], it[1]); std::swap(pos[0], pos[1]); J z('{'); z.key("w", -1); j.raw(z.done()); }
            }
            return j.done();
        };
        auto obs = [&](int o) {
            J q('{'); RangeSet const & s = r[o];
            q.key("r", ranges(s, false)).key("c", ranges(s, true)).key("n", (long long)s.size()).key("e", s.empty()).key("f", s.full())
             .key("v", s.isValid()).key("card", big(s.cardinality()));
            J eq('['), ne('['); for (int i = 1; i <= 3; ++i) { eq.raw(boolj(s == r[i])); ne.raw(boolj(s != r[i])); }
            q.key("eq", eq.done()).key("ne", ne.done()); return q.done();
        };
        J ev('[');
        for (int i = 0; i < len; ++i) {
            J e('{'); int o = g.range(1, 3), a = g.range(1, 3), c = g.range(1, 3); int f = g.below(K), l = g.below(K);
            if (g.chance(0.15)) l = 0; if (g.chance(0.1)) f = 0; if (g.chance(0.9) && f == l) l = (l + 1) % K;
            if (g.chance(0.4)) l = (f + 1) % K;
            e.key("o", o);
            if (queries && g.chance(0.5)) {
                if (g.chance(0.5)) {
                    RangeSet const & s = r[o]; bool unit = b[l] == b[f] + 1 && g.chance(0.7);
                    J q('[');
                    if (unit) q.raw(boolj(s.intersects(b[f]))).raw(boolj(s.contains(b[f]))).raw(boolj(s.isWithin(b[f]))).raw(boolj(s.isDisjointFrom(b[f])));
                    else q.raw(boolj(s.intersects(b[f], b[l]))).raw(boolj(s.contains(b[f], b[l]))).raw(boolj(s.isWithin(b[f], b[l]))).raw(boolj(s.isDisjointFrom(b[f], b[l])));
                    e.skey("op", "qrg").key("f", f).key("l", l).key("ans", q.done());
                } else {
                    RangeSet const & s = r[o]; RangeSet const & u = r[a]; J q('[');
                    q.raw(boolj(s.intersects(u))).raw(boolj(s.contains(u))).raw(boolj(s.isWithin(u))).raw(boolj(s.isDisjointFrom(u)));
                    e.skey("op", "qst").key("a", a).key("ans", q.done());
                }
                ev.raw(e.done()); continue;
            }
            if (g.chance(0.06)) { bool comp = g.chance(0.5); e.skey("op", "itr").key("comp", comp).key("walk", walk(r[o], comp)); ev.raw(e.done()); continue; }
            switch (g.below(22)) {
                case 0: case 1: case 2: case 3: case 4: case 5:
                    e.skey("op", "ins").key("f", f).key("l", l);
                    if (b[l] == b[f] + 1 && g.chance(0.5)) r[o].insert(b[f]);
                    else if (g.chance(0.5)) r[o].insert(std::make_tuple(b[f], b[l])); else r[o].insert(b[f], b[l]);
                    break;
                case 6: case 7: case 8: case 9: case 10:
                    e.skey("op", "era").key("f", f).key("l", l);
                    if (b[l] == b[f] + 1 && g.chance(0.5)) r[o].erase(b[f]);
                    else if (g.chance(0.5)) r[o].erase(std::make_tuple(b[f], b[l])); else r[o].erase(b[f], b[l]);
                    break;
                case 11: case 12: e.skey("op", "com"); r[o].complement(); break;
                case 13: if (g.chance(0.3)) { if (g.chance(0.5)) { e.skey("op", "fil"); r[o].fill(); } else { e.skey("op", "clr"); r[o].clear(); } break; }
                    // fallthrough
                case 14: e.skey("op", "asg").key("a", a); if (g.chance(0.5)) r[o] = r[a]; else { RangeSet m(r[a]); r[o] = std::move(m); } break;
                case 15: e.skey("op", "cpl").key("a", a); if (g.chance(0.5)) r[o] = r[a].complemented(); else r[o] = ~r[a]; break;
                case 16: case 17: { char const * op = ops[g.below(4)]; e.skey("op", "bin").skey("b", op).key("x", a).key("y", c); r[o] = apply(op, r[a], r[c], g.chance(0.5)); break; }
                case 18: case 19: { char const * op = ops[g.below(4)]; e.skey("op", "opa").skey("b", op).key("y", a); applyTo(op, r[o], r[a]); break; }
                case 20: e.skey("op", "swp").key("a", a); if (g.chance(0.5)) r[o].swap(r[a]); else swap(r[o], r[a]); break;
                default: {
                    int n = g.below(5); J rs('['); std::vector<std::tuple<u64, u64>> v; std::vector<u64> ints; bool allunit = true;
                    for (int k = 0; k < n; ++k) {
                        int x = g.below(K), y = g.below(K); if (x == y) y = (y + 1) % K; if (g.chance(0.6)) y = (x + 1) % K;
                        rs.raw("[" + std::to_string(x) + "," + std::to_string(y) + "]"); v.emplace_back(b[x], b[y]); ints.push_back(b[x]);
                        allunit = allunit && b[y] == b[x] + 1;
                    }
                    e.skey("op", "ctr").key("rs", rs.done());
                    if (allunit && n) r[o] = g.chance(0.5) ? RangeSet(ints) : RangeSet(ints.begin(), ints.end());
                    else if (n == 1) r[o] = g.chance(0.5) ? RangeSet(std::get<0>(v[0]), std::get<1>(v[0])) : RangeSet(v[0]);
                    else if (n == 2 && g.chance(0.5)) r[o] = RangeSet{std::make_pair(std::get<0>(v[0]), std::get<1>(v[0])), std::make_pair(std::get<0>(v[1]), std::get<1>(v[1]))};
                    else r[o] = g.chance(0.5) ? RangeSet(v) : RangeSet(v.begin(), v.end());
                }
            }
            e.key("obs", obs(o)); ev.raw(e.done());
        }
        os << "{\"w\":" << w.done() << ",\"ev\":" << ev.done() << "}\n";
    }
    return 0;
}

// ---- coarsening and scaling events with full 64 bit values
static std::string bigRanges(RangeSet const & s) {
    J j('['); for (auto t : s) j.raw("[" + big(std::get<0>(t)) + "," + big(std::get<1>(t)) + "]"); return j.done();
}
static RangeSet randomSet(Rng & g) {
    RangeSet r; int n = g.below(9); int sh = g.below(64);
    for (int i = 0; i < n; ++i) {
        u64 f = g.next() >> (g.chance(0.5) ? sh : g.below(64)), len = (g.next() >> g.below(64)) >> (g.chance(0.7) ? sh : 0);
        if (g.chance(0.1)) f = 0; if (g.chance(0.1)) f = 0 - (g.next() >> (40 + g.below(24)));
        if (g.chance(0.3)) { int k = g.below(20); f = f >> k << k; if (len >> k) len = len >> k << k; }
        if (!len) len = 1;
        u64 l = f + len; if (l < f && l != 0 && g.chance(0.8)) l = 0;
        r.insert(f, l);
    }
    if (g.chance(0.08)) r.insert(0 - (g.next() >> 50), 0);
    if (g.chance(0.02)) r.fill();
    if (g.chance(0.05)) r.complement();
    return r;
}
static int numeric(char const * out, u64 seed, int n) {
    Rng g(seed); std::ofstream os(out);
    for (int i = 0; i < n; ++i) {
        RangeSet r = randomSet(g), keep = r; J e('{'); RangeSet res, res2 = r;
        if (g.chance(0.5)) {
            uint32_t k = g.chance(0.9) ? g.below(66) : (uint32_t)(g.next() >> g.below(40)); if (g.chance(0.02)) k = 0xffffffffu;
            e.skey("op", "simp").key("k", big(k)); res = r.simplified(k); res2.simplify(k);
        } else {
            u64 k = g.next() >> g.below(64); if (g.chance(0.2)) k = (u64)1 << g.below(64); if (g.chance(0.05)) k = 0; if (g.chance(0.05)) k = 1; if (g.chance(0.05)) k = ~(u64)0;
            if (g.chance(0.4)) k = g.below(20);
            if (g.chance(0.1) && r.size()) { auto t = r.begin()[g.below(r.size())]; u64 v = g.chance(0.5) ? std::get<0>(t) : std::get<1>(t); if (v) { k = (~(u64)0) / v; k += g.below(2); } }
            e.skey("op", "scale").key("k", big(k)); res = r.scaled(k); res2.scale(k);
        }
        e.key("pre", bigRanges(keep)).key("kept", (bool)(r == keep)).key("post", bigRanges(res)).key("inplace", bigRanges(res2)).key("valid", res.isValid() && res2.isValid())
         .key("same", (bool)(res == res2)).key("size", (long long)res.size());
        J c('['); for (auto it = res.beginc(); it != res.endc(); ++it) c.raw("[" + big(std::get<0>(*it)) + "," + big(std::get<1>(*it)) + "]");
        e.key("compl", c.done());
        os << e.done() << "\n";
    }
    return 0;
}
// exhaustive small universe: subsets of 0..2^w-1, aligned to the top (shift = 64-w) or at the bottom times 2^j
static int small(char const * file, int w, u64 seed) {
    Rng g(seed); std::ifstream in(file); std::string line, name; std::vector<std::string> a; long n = 0; int M = 1 << w;
    while (std::getline(in, line)) {
        if (line.compare(0, 2, "\"@")) continue;
        parse(line, name, a);
        auto I = [&](int i) { return (u64)std::stoull(a[i]); };
        // sim top: mask k result;  sib bottom;  sct scale top;  scb scale bottom
        bool top = name[2] == 't';
        for (int rep = 0; rep < 3; ++rep) {
            int sh = top ? 64 - w : (rep == 0 ? 0 : (int)g.below(50));
            Map b(M); for (int i = 0; i < M; ++i) b[i] = (u64)i << sh;
            auto mk = [&](u64 mask) { RangeSet r; for (int i = 0; i < M; ++i) if (mask >> i & 1) { r.insert((u64)i << sh, (u64)(i + 1) << sh); } if (top && M < 64 && mask == ((u64)1 << M) - 1) r.fill(); return r; };
            RangeSet r = mk(I(0)), exp = mk(I(2)); u64 k = I(1);
            RangeSet c = r;
            if (name.compare(0, 2, "si") == 0) { r.simplify((uint32_t)(k + sh)); c = c.simplified((uint32_t)(k + sh)); }
            else { r.scale(k); c = c.scaled(k); }
            ++n;
            if (!(r == exp) || !(c == exp) || !r.isValid()) bad(line, "got " + show(listing(r)) + " expected " + show(listing(exp)) + " shift " + std::to_string(sh), b);
            if (top) break;
        }
    }
    std::cout << "REPLAYED " << n << " MISMATCHES " << nbad << "\n";
    return 0;
}

int main(int c, char ** v) {
    std::string m = v[1];
    if (m == "replay") return replay(v[2], atoi(v[3]), atoll(v[4]), v[5]);
    if (m == "record") return record(v[2], atoi(v[3]), atoll(v[4]), atoi(v[5]), atoi(v[6]), v[7][0] == 'q');
    if (m == "numeric") return numeric(v[2], atoll(v[3]), atoi(v[4]));
    if (m == "small") return small(v[2], atoi(v[3]), atoll(v[4]));
    return 3;
}
