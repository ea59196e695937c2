// Randomised check of the term simplifier: every smart constructor against direct evaluation.
#include "solve.h"
#include "tactics.h"
#include <cstdlib>
static uint64_t rs = 1; static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
int selftest(uint64_t seed, unsigned rounds) {
  rs = seed * 0x9E3779B97F4A7C15ull + 1; const int NA = 12; unsigned long bad = 0, ops = 0, fpn = 0, forms = 0;
  static const unsigned ws[] = {1, 1, 1, 2, 3, 8, 8, 16, 32, 64};
  for (unsigned r = 0; r < rounds; r++) {
    struct N { T t; u128 v[NA]; }; std::vector<N> pool; std::vector<std::pair<T, size_t>> vars;
    auto M = [&](unsigned w) { return Terms::msk(w); };
    Model mods[NA];
    auto pushv = [&](unsigned w) { N n; n.t = G.var("s", w); for (int i = 0; i < NA; i++) { u128 v = rnd(); unsigned m = rnd() % 4; if (m == 0) v = rnd() % 3; if (m == 1) v = ~(u128)(rnd() % 3); if (m == 2) v = (u128)1 << (w - 1); n.v[i] = v & M(w); mods[i].v[(uint32_t)G.n[n.t].c] = n.v[i]; } pool.push_back(n); };
    for (int i = 0; i < 3; i++) { pushv(1); } unsigned ww = ws[rnd() % 10], w2 = ws[rnd() % 10]; pushv(ww); pushv(ww); pushv(w2); pushv(w2); pushv(8);
    auto pick = [&](unsigned w) -> N { if (rnd() % 5 == 0 ) { N n; u128 v = rnd(); unsigned m = rnd() % 5; if (m == 0) v = 0; if (m == 1) v = ~(u128)0; if (m == 2) v = 1; if (m == 3) v = (u128)1 << (w - 1); n.t = G.k(v, w); for (auto& x : n.v) x = v & M(w); return n; }
      for (int k = 0; k < 60; k++) { N& n = pool[pool.size() - 1 - rnd() % std::min<size_t>(pool.size(), k < 20 ? 6 : pool.size())]; if (G.W(n.t) == w) return n; }
      for (auto& n : pool) if (G.W(n.t) == w) return n; pushv(w); return pool.back(); };
    auto pickAny = [&]() -> N { return pool[rnd() % pool.size()]; };
    for (int step = 0; step < 60; step++) {
      N a = pickAny(); unsigned w = G.W(a.t); N b = pick(w), n; unsigned o = rnd() % 34; auto S = [&](u128 v, unsigned w) { return Terms::sx(v, w); };
      auto bin = [&](T t, auto f) { n.t = t; for (int i = 0; i < NA; i++) n.v[i] = f(a.v[i], b.v[i]) & M(G.W(t)); };
      switch (o) {
        case 0: bin(G.add(a.t, b.t), [&](u128 x, u128 y) { return x + y; }); break;
        case 1: bin(G.sub(a.t, b.t), [&](u128 x, u128 y) { return x - y; }); break;
        case 2: bin(G.mul(a.t, b.t), [&](u128 x, u128 y) { return x * y; }); break;
        case 3: bin(G.udiv(a.t, b.t), [&](u128 x, u128 y) { return y ? x / y : M(w); }); break;
        case 4: bin(G.urem(a.t, b.t), [&](u128 x, u128 y) { return y ? x % y : x; }); break;
        case 5: bin(G.sdiv(a.t, b.t), [&](u128 x, u128 y) -> u128 { i128 p = S(x, w), q = S(y, w); if (!q) return p < 0 ? (u128)1 : M(w); if (q == -1) return (u128)0 - (u128)p; return (u128)(p / q); }); break;
        case 6: bin(G.srem(a.t, b.t), [&](u128 x, u128 y) -> u128 { i128 p = S(x, w), q = S(y, w); if (!q) return (u128)p; if (q == -1) return 0; return (u128)(p % q); }); break;
        case 7: case 8: bin(G.And(a.t, b.t), [&](u128 x, u128 y) { return x & y; }); break;
        case 9: case 10: bin(G.Or(a.t, b.t), [&](u128 x, u128 y) { return x | y; }); break;
        case 11: bin(G.Xor(a.t, b.t), [&](u128 x, u128 y) { return x ^ y; }); break;
        case 12: bin(G.Not(a.t), [&](u128 x, u128) { return ~x; }); break;
        case 13: bin(G.shl(a.t, b.t), [&](u128 x, u128 y) { return y >= w ? (u128)0 : x << (unsigned)y; }); break;
        case 14: bin(G.lshr(a.t, b.t), [&](u128 x, u128 y) { return y >= w ? (u128)0 : x >> (unsigned)y; }); break;
        case 15: bin(G.ashr(a.t, b.t), [&](u128 x, u128 y) { return (u128)(S(x, w) >> (y >= w ? w - 1 : (unsigned)y)); }); break;
        case 16: case 17: { N c = pickAny(); if (w + G.W(c.t) > 64) continue; T t = G.concat2(c.t, a.t); n.t = t; for (int i = 0; i < NA; i++) n.v[i] = a.v[i] | c.v[i] << w; break; }
        case 18: case 19: { unsigned lo = rnd() % w, k = 1 + rnd() % (w - lo); n.t = G.extract(a.t, lo, k); for (int i = 0; i < NA; i++) n.v[i] = (a.v[i] >> lo) & M(k); break; }
        case 20: { unsigned k = w + rnd() % (65 - w); n.t = G.sext(a.t, k); for (int i = 0; i < NA; i++) n.v[i] = (u128)S(a.v[i], w) & M(k); break; }
        case 21: { unsigned k = w + rnd() % (65 - w); n.t = G.zext(a.t, k); for (int i = 0; i < NA; i++) n.v[i] = a.v[i]; break; }
        case 22: case 23: case 24: case 25: { N c = pick(1); n.t = G.ite(c.t, a.t, b.t); for (int i = 0; i < NA; i++) n.v[i] = c.v[i] ? a.v[i] : b.v[i]; break; }
        case 26: case 27: bin(G.eq(a.t, b.t), [&](u128 x, u128 y) { return (u128)(x == y); }); break;
        case 28: bin(G.ult(a.t, b.t), [&](u128 x, u128 y) { return (u128)(x < y); }); break;
        case 29: bin(G.slt(a.t, b.t), [&](u128 x, u128 y) { return (u128)(S(x, w) < S(y, w)); }); break;
        case 30: { if (w < 8) continue; bin(G.popcnt(a.t), [&](u128 x, u128) { u128 c = 0; while (x) { c += x & 1; x >>= 1; } return c; }); break; }
        case 31: { if (w < 8) continue; bin(G.ctlz(a.t), [&](u128 x, u128) { u128 z = 0; while (z < w && !((x >> (w - 1 - (unsigned)z)) & 1)) z++; return z; }); break; }
        case 32: { if (w < 8) continue; bin(G.cttz(a.t), [&](u128 x, u128) { u128 z = 0; while (z < w && !((x >> (unsigned)z) & 1)) z++; return z; }); break; }
        default: { if (w > 16) continue; bin(G.mulc(a.t, 5), [&](u128 x, u128) { return x * 5; }); break; }
      }
      ops++;
      bool fail = false; for (int i = 0; i < NA && !fail; i++) { std::unordered_map<T, u128> memo; u128 g = evalUnder(n.t, mods[i], memo); if (g != n.v[i]) { fail = true; if (bad < 10) fprintf(stderr, "SELFTEST MISMATCH op %u a=%s b=%s r=%s: got %llx want %llx\n", o, G.str(a.t, 6).c_str(), G.str(b.t, 6).c_str(), G.str(n.t, 6).c_str(), (unsigned long long)g, (unsigned long long)n.v[i]); } 
        u128 mx = G.umax(n.t); if (!fail && n.v[i] > mx) { fail = true; fprintf(stderr, "umax wrong for %s\n", G.str(n.t).c_str()); } unsigned tz = G.tz(n.t); if (!fail && tz < 128 && (n.v[i] & M(tz))) { fail = true; fprintf(stderr, "tz wrong %u for %s\n", tz, G.str(n.t).c_str()); } }
      if (!fail && rnd() % 8 == 0 && G.W(n.t) <= 128) { T bit = G.extract(n.t, rnd() % G.W(n.t), 1); for (int i = 0; i < NA && !fail; i++) { std::unordered_map<T, u128> memo; if (!xorFormAgrees(bit, [&](T q) { return evalUnder(q, mods[i], memo); })) { fail = true; fprintf(stderr, "xor form wrong for %s\n", G.str(bit).c_str()); } } }
    if (!fail && rnd() % 8 == 0) { for (int i = 0; i < NA && !fail; i++) { std::unordered_map<T, u128> memo; bool has; if (!linearFormAgrees(n.t, [&](T q) { return evalUnder(q, mods[i], memo); }, has)) { fail = true; fprintf(stderr, "linear form wrong for %s\n", G.str(n.t).c_str()); } if (!has) break; forms++; } }
      if (!fail && rnd() % 8 == 0 && G.W(n.t) > 4) { // int to float of a known leading one
        unsigned p = rnd() % (G.W(n.t) - 1); std::vector<T> pc; if (p) pc.push_back(G.extract(n.t, 0, p)); pc.push_back(G.k(1, 1)); pc.push_back(G.k(0, 64 - p - 1)); if (p > 25 && (rnd() & 1)) { pc[0] = G.concat({G.extract(n.t, 0, p - 24), G.k(0, 1), G.extract(n.t, p - 23, 23)}); } T x = G.concat(pc);
        T f = G.fop(O_SI2F, 32, {x}), fd = G.fop(O_UI2F, 64, {x}); for (int i = 0; i < NA; i++) { std::unordered_map<T, u128> memo; u128 xv = evalUnder(x, mods[i], memo); float fv = (float)(int64_t)xv; double dv = (double)(uint64_t)xv; uint32_t fb; uint64_t db; memcpy(&fb, &fv, 4); memcpy(&db, &dv, 8); if (evalUnder(f, mods[i], memo) != fb || evalUnder(fd, mods[i], memo) != db) { fail = true; fprintf(stderr, "int to float wrong p=%u\n", p); break; } } }
      if (!fail && rnd() % 8 == 0) { // floating-point rewritings against the host
        const unsigned fw = rnd() & 1 ? 32 : 64, mb = fw == 32 ? 23 : 52, eb = fw - 1 - mb;
        auto wide = [&](unsigned k) { std::vector<T> pc; unsigned have = 0; while (have < k) { T q = pickAny().t; unsigned b = std::min(k - have, G.W(q)); pc.push_back(G.trunc(q, b)); have += b; } return pc.size() == 1 ? pc[0] : G.concat(pc); };
        auto flt = [&]() -> T { T r; switch (rnd() % 6) {
          case 0: return G.concat({G.k(0, mb), wide(eb), wide(1)});
          case 1: return G.concat({wide(mb), G.k(rnd() & 1 ? 0 : rnd() % (1u << eb), eb), wide(1)});
          case 2: return G.fop(rnd() & 1 ? O_UI2F : O_SI2F, fw, {G.zext(wide(1 + rnd() % 12), 32)});
          case 3: { T y = G.concat({wide(mb), G.add(G.zext(wide(4), eb), G.k((1u << (eb - 1)) - 9, eb)), wide(1)}); return y; }
          case 4: { r = G.concat({wide(mb), G.add(G.zext(wide(4), eb), G.k((1u << (eb - 1)) - 9, eb)), wide(1)}); return G.Xor(r, G.k((u128)1 << (fw - 1), fw)); }
          default: return wide(fw); } };
        T x = flt(), y = flt(), z = flt(); Op fo[] = {O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FMA, O_FMUL}; Op o2 = fo[rnd() % 6]; bool tr = fw == 32 && o2 == O_FMUL && (rnd() & 1); if (rnd() & 1 && o2 != O_FMA) { T y2 = flt(); y = G.fop(o2, fw, {y, y2}); }
        T f = o2 == O_FMA ? G.fop(o2, fw, {x, y, z}) : tr ? G.fop(O_FPTRUNC, 32, {G.fop(O_FMUL, 64, {G.fop(O_FPEXT, 64, {x}), G.fop(O_FPEXT, 64, {y})})}) : G.fop(o2, fw, {x, y});
        for (int i = 0; i < NA && !fail; i++) { std::unordered_map<T, u128> memo; u128 a1 = evalUnder(x, mods[i], memo), b1 = evalUnder(y, mods[i], memo), c1 = evalUnder(z, mods[i], memo), g = evalUnder(f, mods[i], memo), want; 
          auto F = [](u128 v) { uint32_t b = (uint32_t)v; float r; memcpy(&r, &b, 4); return r; }; auto D = [](u128 v) { uint64_t b = (uint64_t)v; double r; memcpy(&r, &b, 8); return r; };
          if (fw == 32) { float p = F(a1), q = F(b1), t = F(c1), r = o2 == O_FADD ? p + q : o2 == O_FSUB ? p - q : o2 == O_FMUL ? p * q : o2 == O_FDIV ? p / q : fmaf(p, q, t); uint32_t b; memcpy(&b, &r, 4); want = b; if (r != r && F(g) != F(g)) continue; }
          else { double p = D(a1), q = D(b1), t = D(c1), r = o2 == O_FADD ? p + q : o2 == O_FSUB ? p - q : o2 == O_FMUL ? p * q : o2 == O_FDIV ? p / q : fma(p, q, t); uint64_t b; memcpy(&b, &r, 8); want = b; if (r != r && D(g) != D(g)) continue; }
          fpn++; if (g != want) { fail = true; fprintf(stderr, "float rewriting wrong: %s width %u x=%llx y=%llx z=%llx got %llx want %llx\n", kOpName[o2], fw, (unsigned long long)a1, (unsigned long long)b1, (unsigned long long)c1, (unsigned long long)g, (unsigned long long)want); } } }
      if (fail) { bad++; continue; }
      pool.push_back(n);
    }
  }
  printf("selftest: %lu constructor applications, %lu mismatches (%lu linear forms, %lu floating-point evaluations)\n", ops, bad, forms, fpn); return bad ? 1 : 0;
}
