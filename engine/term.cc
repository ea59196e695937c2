#include "term.h"
Terms G;
const char* kOpName[] = {"const","var","lin","mul","udiv","urem","sdiv","srem","and","or","xor","not","shl","lshr","ashr","concat","extract","sext","ite","eq","ult","slt","popcnt","ctlz","cttz","fadd","fsub","fmul","fdiv","fsqrt","fma","fpext","fptrunc","f2si","f2ui","si2f","ui2f","frint","frem","uf"};

Terms::Terms() { table.assign(1 << 16, 0); mask = table.size() - 1; n.push_back(Node{}); n[0].op = O_CONST; n[0].w = 0; }

static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; return h; }
static uint64_t hashNode(Op op, unsigned w, const T* k, unsigned nk, u128 c, const u128* cf) {
  uint64_t h = mix(op * 131 + w, (uint64_t)c); h = mix(h, (uint64_t)(c >> 64));
  for (unsigned i = 0; i < nk; i++) h = mix(h, k[i]);
  if (cf) for (unsigned i = 0; i < nk; i++) { h = mix(h, (uint64_t)cf[i]); h = mix(h, (uint64_t)(cf[i] >> 64)); }
  return h;
}
T Terms::raw(Op op, unsigned w, const T* k, unsigned nk, u128 c, const u128* cf) {
  uint64_t h = hashNode(op, w, k, nk, c, cf);
  size_t i = h & mask;
  while (table[i]) {
    Node& m = n[table[i]];
    if (m.op == op && m.w == w && m.nk == nk && m.c == c) {
      bool ok = true;
      for (unsigned j = 0; j < nk && ok; j++) ok = kids[m.koff + j] == k[j];
      if (cf) for (unsigned j = 0; j < nk && ok; j++) ok = coefs[m.coff + j] == cf[j];
      if (ok) return table[i];
    }
    i = (i + 1) & mask;
  }
  Node m; m.op = op; m.flag = 0; m.w = w; m.nk = nk; m.koff = kids.size(); m.coff = 0; m.c = c;
  // note: k may point into kids; copy first
  std::vector<T> tmp(k, k + nk);
  for (T x : tmp) kids.push_back(x);
  if (cf) { m.coff = coefs.size(); std::vector<u128> t2(cf, cf + nk); for (u128 x : t2) coefs.push_back(x); }
  n.push_back(m);
  T id = n.size() - 1;
  table[i] = id;
  if (n.size() * 2 > table.size()) {
    std::vector<uint32_t> nt(table.size() * 2, 0); size_t nm = nt.size() - 1;
    for (T t = 1; t < n.size(); t++) {
      Node& q = n[t];
      uint64_t hh = hashNode(q.op, q.w, kids.data() + q.koff, q.nk, q.c, q.op == O_LIN ? coefs.data() + q.coff : nullptr);
      size_t p = hh & nm; while (nt[p]) p = (p + 1) & nm; nt[p] = t;
    }
    table.swap(nt); mask = nm;
  }
  return id;
}
T Terms::var(const std::string& name, unsigned w, unsigned alignBits, int obj, bool input) {
  vars.push_back({name, (uint8_t)alignBits, obj, input});
  T t = raw(O_VAR, w, nullptr, 0, vars.size() - 1);
  varTerm.push_back(t);
  return t;
}
void Terms::linView(T t, std::vector<std::pair<T, u128>>& at, u128& c) {
  Node& m = n[t];
  if (m.op == O_CONST) { c = m.c; return; }
  if (m.op == O_LIN) { c = m.c; for (unsigned i = 0; i < m.nk; i++) at.push_back({kids[m.koff + i], coefs[m.coff + i]}); return; }
  c = 0; at.push_back({t, 1});
}
T Terms::mkLin(std::vector<std::pair<T, u128>>& at, u128 c, unsigned w) {
  u128 M = msk(w);
  std::sort(at.begin(), at.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::vector<T> ks; std::vector<u128> cs;
  for (auto& p : at) {
    if (!ks.empty() && ks.back() == p.first) cs.back() = (cs.back() + p.second) & M;
    else { ks.push_back(p.first); cs.push_back(p.second & M); }
  }
  size_t o = 0;
  for (size_t i = 0; i < ks.size(); i++) if (cs[i]) { ks[o] = ks[i]; cs[o] = cs[i]; o++; }
  ks.resize(o); cs.resize(o); c &= M;
  if (o == 0) return k(c, w);
  if (o == 1 && cs[0] == 1 && c == 0) return ks[0];
  if (w == 1) { T r = k(c, 1); for (T x : ks) r = Xor(r, x); return r; }
  if (o == 1 && (cs[0] == 1 || cs[0] == M) && w <= 64 && op(ks[0]) == O_CONCAT && isC(kid(ks[0], 0))) { // constant low part: split off, with a constant carry
    T x = ks[0]; unsigned q = W(kid(x, 0)), r = w - q; i128 low = (i128)C(kid(x, 0)); low = (cs[0] == 1 ? low : -low) + (i128)c;
    u128 lc = (u128)low & msk(q); u128 hc = (u128)(low >> q) & msk(r); T rest = extract(x, q, r); T h;
    if (cs[0] == 1) h = add(rest, k(hc, r)); else if (hc == msk(r)) h = Not(rest); else { std::vector<std::pair<T, u128>> at2; u128 c3 = 0; linView(rest, at2, c3); for (auto& p : at2) p.second = (0 - p.second) & msk(r); h = mkLin(at2, hc - c3, r); }
    return concat2(h, k(lc, q));
  }
  if (o == 2 && c == 0) for (int q = 0; q < 2; q++) { // x - ite(p, 0, x - y) is ite(p, x, y): saturating subtraction used as minimum or maximum
    const T x = ks[1 - q], t = ks[q]; if (cs[1 - q] != 1 || (cs[q] != 1 && cs[q] != M) || op(t) != O_ITE) continue;
    for (int z = 1; z <= 2; z++) if (isC(kid(t, z), 0) && op(kid(t, 3 - z)) == O_LIN && n[kid(t, 3 - z)].nk == 2) { const T p = kid(t, 0), y = cs[q] == 1 ? add(x, kid(t, 3 - z)) : sub(x, kid(t, 3 - z)); if (op(y) != O_LIN) return z == 1 ? ite(p, x, y) : ite(p, y, x); } }
  return raw(O_LIN, w, ks.data(), o, c, cs.data());
}
static bool sameIteCond(Terms& G, T a, T b) { return G.op(a) == O_ITE && G.op(b) == O_ITE && G.kid(a, 0) == G.kid(b, 0); }
// bits known to be zero from the structure of the term
static u128 zeroBits(Terms& G, T t, int depth) {
  const unsigned w = G.W(t); const u128 M = Terms::msk(w); const Node x = G.n[t];
  switch (x.op) {
    case O_CONST: return ~x.c & M;
    case O_CONCAT: { u128 r = 0; unsigned off = 0; for (unsigned i = 0; i < x.nk; i++) { T q = G.kid(t, i); if (off < 128) r |= (depth > 0 ? zeroBits(G, q, depth - 1) : G.isC(q) ? ~G.C(q) & Terms::msk(G.W(q)) : 0) << off; off += G.W(q); } return r & M; }
    case O_AND: { u128 r = 0; if (depth > 0) for (unsigned i = 0; i < x.nk; i++) r |= zeroBits(G, G.kid(t, i), depth - 1); return r & M; }
    case O_OR: { u128 r = M; if (depth <= 0) return 0; for (unsigned i = 0; i < x.nk; i++) r &= zeroBits(G, G.kid(t, i), depth - 1); return r; }
    case O_ITE: { if (depth <= 0) return 0; const u128 l = zeroBits(G, G.kid(t, 1), depth - 1); return l ? l & zeroBits(G, G.kid(t, 2), depth - 1) : 0; }
    default: return 0;
  }
}
T Terms::add(T a, T b) {
  unsigned w = W(a);
  if (isC(a, 0)) return b;
  if (isC(b, 0)) return a;
  if (w == 1) return Xor(a, b);
  if (w <= 64 && !isC(a) && !isC(b)) { const u128 za = zeroBits(*this, a, 4); if (za && (za | zeroBits(*this, b, 4)) == msk(w)) return Or(a, b); }
  if (sameIteCond(*this, a, b)) return ite(kid(a, 0), add(kid(a, 1), kid(b, 1)), add(kid(a, 2), kid(b, 2)));
  std::vector<std::pair<T, u128>> at; u128 c1 = 0, c2 = 0;
  linView(a, at, c1); linView(b, at, c2);
  return mkLin(at, c1 + c2, w);
}
T Terms::mulc(T a, u128 c) {
  unsigned w = W(a); c &= msk(w);
  if (c == 0) return k(0, w);
  if (c == 1) return a;
  if (isC(a)) return k(C(a) * c, w);
  std::vector<std::pair<T, u128>> at; u128 c1 = 0;
  linView(a, at, c1);
  for (auto& p : at) p.second *= c;
  return mkLin(at, c1 * c, w);
}
T Terms::neg(T a) { return mulc(a, msk(W(a))); }
T Terms::sub(T a, T b) {
  unsigned w = W(a);
  if (isC(b, 0)) return a;
  if (a == b) return k(0, w);
  if (w == 1) return Xor(a, b);
  std::vector<std::pair<T, u128>> at, bt; u128 c1 = 0, c2 = 0;
  linView(a, at, c1); linView(b, bt, c2);
  u128 M = msk(w);
  for (auto& p : bt) at.push_back({p.first, (~p.second + 1) & M});
  return mkLin(at, c1 - c2, w);
}
T Terms::mul(T a, T b) {
  unsigned w = W(a);
  if (isC(a)) return mulc(b, C(a));
  if (isC(b)) return mulc(a, C(b));
  if (w == 1) return And(a, b);
  // pull out constant factors of single-atom linear terms
  Node x = n[a], y = n[b];
  u128 f = 1;
  if (x.op == O_LIN && x.nk == 1 && x.c == 0) { f *= coefs[x.coff]; a = kids[x.koff]; }
  if (y.op == O_LIN && y.nk == 1 && y.c == 0) { f *= coefs[y.coff]; b = kids[y.koff]; }
  if (a > b) std::swap(a, b);
  T ks[2] = {a, b};
  T r = raw(O_MUL, w, ks, 2, 0);
  return mulc(r, f);
}
#define BIN(OP, a, b) ({ T ks_[2] = {a, b}; raw(OP, W(a), ks_, 2, 0); })
T Terms::udiv(T a, T b) {
  if (isC(b) && C(b)) {
    if (isC(a)) return k(C(a) / C(b), W(a));
    u128 d = C(b);
    if (d == 1) return a;
    if ((d & (d - 1)) == 0) { unsigned s = 0; while (!((d >> s) & 1)) s++; return lshr(a, k(s, W(a))); }
  }
  return BIN(O_UDIV, a, b);
}
T Terms::urem(T a, T b) {
  if (isC(b) && C(b)) {
    if (isC(a)) return k(C(a) % C(b), W(a));
    u128 d = C(b);
    if ((d & (d - 1)) == 0) return And(a, k(d - 1, W(a)));
  }
  return BIN(O_UREM, a, b);
}
T Terms::sdiv(T a, T b) {
  if (isC(a) && isC(b) && C(b)) { i128 x = sx(C(a), W(a)), y = sx(C(b), W(a)); if (!(W(a) == 128 && y == -1)) return k((u128)(x / y), W(a)); }
  if (isC(b, 1) && W(a) > 1) return a;
  return BIN(O_SDIV, a, b);
}
T Terms::srem(T a, T b) {
  if (isC(a) && isC(b) && C(b)) { i128 x = sx(C(a), W(a)), y = sx(C(b), W(a)); if (y == -1) return k(0, W(a)); return k((u128)(x % y), W(a)); }
  return BIN(O_SREM, a, b);
}
T Terms::Not(T a) {
  Node m = n[a];
  if (m.op == O_CONST) return k(~m.c, m.w);
  if (m.op == O_NOT) return kids[m.koff];
  if (m.op == O_SEXT) return sext(Not(kids[m.koff]), m.w);
  if (m.op == O_CONCAT) { std::vector<T> v; for (unsigned i = 0; i < m.nk; i++) v.push_back(Not(kids[m.koff + i])); return concat(v); }
  if (m.op == O_ITE && (isC(kids[m.koff + 1]) || isC(kids[m.koff + 2]))) { T c = kid(a, 0), x = kid(a, 1), y = kid(a, 2); return ite(c, Not(x), Not(y)); }
  T ks[1] = {a};
  return raw(O_NOT, m.w, ks, 1, 0);
}
// split helper: if either is CONCAT, do the bitwise op piecewise
static bool pieces(Terms& G, T a, T b, std::vector<std::pair<unsigned, unsigned>>& cuts) {
  auto collect = [&](T t, std::vector<unsigned>& v) {
    if (G.op(t) == O_CONCAT) { unsigned p = 0; for (unsigned i = 0; i + 1 < G.n[t].nk; i++) { p += G.W(G.kid(t, i)); v.push_back(p); } }
  };
  std::vector<unsigned> v; collect(a, v); collect(b, v);
  if (v.empty()) return false;
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  unsigned p = 0; for (unsigned x : v) { cuts.push_back({p, x - p}); p = x; }
  cuts.push_back({p, G.W(a) - p});
  return true;
}
// constant with long runs of ones/zeros used as a mask: cut points
static bool maskCuts(u128 c, unsigned w, std::vector<std::pair<unsigned, unsigned>>& cuts) {
  unsigned p = 0; bool cur = c & 1; unsigned runs = 0;
  for (unsigned i = 1; i <= w; i++) {
    bool b = i < w ? ((c >> i) & 1) : !cur;
    if (b != cur) { cuts.push_back({p, i - p}); p = i; cur = b; runs++; }
  }
  return runs <= 9 && runs > 1;
}
T Terms::And(T a, T b) {
  unsigned w = W(a);
  if (a == b) return a;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return k(C(a) & C(b), w);
    if (C(b) == 0) return b;
    if (C(b) == msk(w)) return a;
    std::vector<std::pair<unsigned, unsigned>> cuts;
    if (op(a) != O_CONCAT && maskCuts(C(b), w, cuts)) {
      u128 c = C(b); std::vector<T> v;
      for (auto& p : cuts) v.push_back(((c >> p.first) & 1) ? extract(a, p.first, p.second) : k(0, p.second));
      return concat(v);
    }
  }
  if (op(a) == O_NOT && kid(a, 0) == b) return k(0, w);
  if (op(b) == O_NOT && kid(b, 0) == a) return k(0, w);
  if (w > 1) {
    if (op(a) == O_SEXT && W(kid(a, 0)) == 1) return ite(kid(a, 0), b, k(0, w));
    if (op(b) == O_SEXT && W(kid(b, 0)) == 1) return ite(kid(b, 0), a, k(0, w));
  } else {
    // absorption: a & (a & x), a & (a | x)
    for (int sw = 0; sw < 2; sw++) {
      if (op(b) == O_AND && (kid(b, 0) == a || kid(b, 1) == a)) return b;
      if (op(b) == O_OR && (kid(b, 0) == a || kid(b, 1) == a)) return a;
      if (op(b) == O_NOT) { T q = kid(b, 0); if (op(q) == O_OR && (kid(q, 0) == a || kid(q, 1) == a)) return k(0, 1);
        if (op(q) == O_AND) { if (kid(q, 0) == a) return And(a, Not(kid(q, 1))); if (kid(q, 1) == a) return And(a, Not(kid(q, 0))); } }
      std::swap(a, b);
    }
  }
  std::vector<std::pair<unsigned, unsigned>> cuts;
  if (pieces(*this, a, b, cuts)) {
    std::vector<T> v; for (auto& p : cuts) v.push_back(And(extract(a, p.first, p.second), extract(b, p.first, p.second)));
    return concat(v);
  }
  if (sameIteCond(*this, a, b)) return ite(kid(a, 0), And(kid(a, 1), kid(b, 1)), And(kid(a, 2), kid(b, 2)));
  if (op(a) == O_ITE && (isC(kid(a, 1)) || isC(kid(a, 2))) && isC(b)) return ite(kid(a, 0), And(kid(a, 1), b), And(kid(a, 2), b));
  if (op(b) == O_ITE && isC(kid(b, 1)) && isC(kid(b, 2)) && (isC(kid(b, 1), 0) || isOnes(kid(b, 1))) && (isC(kid(b, 2), 0) || isOnes(kid(b, 2)))) return ite(kid(b, 0), And(a, kid(b, 1)), And(a, kid(b, 2)));
  if (a > b) std::swap(a, b);
  return BIN(O_AND, a, b);
}
T Terms::Or(T a, T b) {
  unsigned w = W(a);
  if (a == b) return a;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return k(C(a) | C(b), w);
    if (C(b) == 0) return a;
    if (C(b) == msk(w)) return b;
    std::vector<std::pair<unsigned, unsigned>> cuts;
    if (op(a) != O_CONCAT && maskCuts(C(b), w, cuts)) {
      u128 c = C(b); std::vector<T> v;
      for (auto& p : cuts) v.push_back(((c >> p.first) & 1) ? k(msk(p.second), p.second) : extract(a, p.first, p.second));
      return concat(v);
    }
  }
  if (op(a) == O_NOT && kid(a, 0) == b) return k(msk(w), w);
  if (op(b) == O_NOT && kid(b, 0) == a) return k(msk(w), w);
  if (w == 1) {
    // (c & x) | (!c & y) etc. stays; use De Morgan to share And's simplifications
    T r = Not(And(Not(a), Not(b)));
    Op o = op(r);
    if (o != O_NOT) return r;
    T q = kid(r, 0);
    if (op(q) != O_AND) return r;
    return r;
  }
  if (op(a) == O_SEXT && W(kid(a, 0)) == 1) return ite(kid(a, 0), k(msk(w), w), b);
  if (op(b) == O_SEXT && W(kid(b, 0)) == 1) return ite(kid(b, 0), k(msk(w), w), a);
  std::vector<std::pair<unsigned, unsigned>> cuts;
  if (pieces(*this, a, b, cuts)) {
    std::vector<T> v; for (auto& p : cuts) v.push_back(Or(extract(a, p.first, p.second), extract(b, p.first, p.second)));
    return concat(v);
  }
  if (sameIteCond(*this, a, b)) return ite(kid(a, 0), Or(kid(a, 1), kid(b, 1)), Or(kid(a, 2), kid(b, 2)));
  if (a > b) std::swap(a, b);
  return BIN(O_OR, a, b);
}
T Terms::Xor(T a, T b) {
  unsigned w = W(a);
  if (a == b) return k(0, w);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return k(C(a) ^ C(b), w);
    if (C(b) == 0) return a;
    if (C(b) == msk(w)) return Not(a);
    std::vector<std::pair<unsigned, unsigned>> cuts;
    if (op(a) != O_CONCAT && maskCuts(C(b), w, cuts)) {
      u128 c = C(b); std::vector<T> v;
      for (auto& p : cuts) { T e = extract(a, p.first, p.second); v.push_back(((c >> p.first) & 1) ? Not(e) : e); }
      return concat(v);
    }
  }
  bool inv = false;
  if (op(a) == O_NOT) { a = kid(a, 0); inv = !inv; }
  if (op(b) == O_NOT) { b = kid(b, 0); inv = !inv; }
  if (inv) return Not(Xor(a, b));
  if (a == b) return k(0, w);
  if (w > 1) {
    if (op(a) == O_SEXT && W(kid(a, 0)) == 1) { if (op(b) == O_SEXT && W(kid(b, 0)) == 1) return sext(Xor(kid(a, 0), kid(b, 0)), w); return ite(kid(a, 0), Not(b), b); }
    if (op(b) == O_SEXT && W(kid(b, 0)) == 1) return ite(kid(b, 0), Not(a), a);
  }
  std::vector<std::pair<unsigned, unsigned>> cuts;
  if (pieces(*this, a, b, cuts)) {
    std::vector<T> v; for (auto& p : cuts) v.push_back(Xor(extract(a, p.first, p.second), extract(b, p.first, p.second)));
    return concat(v);
  }
  if (sameIteCond(*this, a, b)) return ite(kid(a, 0), Xor(kid(a, 1), kid(b, 1)), Xor(kid(a, 2), kid(b, 2)));
  // x ^ (x ^ y) = y
  if (op(b) == O_XOR) { if (kid(b, 0) == a) return kid(b, 1); if (kid(b, 1) == a) return kid(b, 0); }
  if (op(a) == O_XOR) { if (kid(a, 0) == b) return kid(a, 1); if (kid(a, 1) == b) return kid(a, 0); }
  if (a > b) std::swap(a, b);
  return BIN(O_XOR, a, b);
}
T Terms::shl(T a, T b) {
  unsigned w = W(a);
  if (isC(b)) {
    u128 s = C(b);
    if (s == 0) return a;
    if (s >= w) return k(0, w);
    return concat({k(0, (unsigned)s), extract(a, 0, w - (unsigned)s)});
  }
  if (isC(a, 0)) return a;
  return BIN(O_SHL, a, b);
}
T Terms::lshr(T a, T b) {
  unsigned w = W(a);
  if (isC(b)) {
    u128 s = C(b);
    if (s == 0) return a;
    if (s >= w) return k(0, w);
    return concat({extract(a, (unsigned)s, w - (unsigned)s), k(0, (unsigned)s)});
  }
  if (isC(a, 0)) return a;
  return BIN(O_LSHR, a, b);
}
T Terms::ashr(T a, T b) {
  unsigned w = W(a);
  if (isC(b)) {
    u128 s = C(b);
    if (s == 0) return a;
    if (s >= w) s = w - 1;
    return sext(extract(a, (unsigned)s, w - (unsigned)s), w);
  }
  if (isC(a, 0)) return a;
  return BIN(O_ASHR, a, b);
}
T Terms::sext(T a, unsigned w) {
  unsigned aw = W(a);
  if (aw == w) return a;
  Node m = n[a];
  if (m.op == O_CONST) return k((u128)sx(m.c, aw), w);
  if (m.op == O_SEXT) return sext(kids[m.koff], w);
  if (m.op == O_CONCAT) { // top piece constant -> known sign
    T top = kids[m.koff + m.nk - 1];
    if (isC(top)) { bool s = (C(top) >> (W(top) - 1)) & 1; return concat({a, k(s ? ~(u128)0 : 0, w - aw)}); }
  }
  if (m.op == O_ITE && aw > 1 && (isC(kids[m.koff + 1]) || isC(kids[m.koff + 2]))) { T c = kid(a, 0), x = kid(a, 1), y = kid(a, 2); return ite(c, sext(x, w), sext(y, w)); }
  T ks[1] = {a};
  return raw(O_SEXT, w, ks, 1, 0);
}
T Terms::extract(T a, unsigned lo, unsigned w) {
  unsigned aw = W(a);
  if (lo == 0 && w == aw) return a;
  if (lo + w > aw) { fprintf(stderr, "bad extract\n"); abort(); }
  Node m = n[a];
  switch (m.op) {
    case O_CONST: return k(m.c >> lo, w);
    case O_VAR: if (vars[(size_t)m.c].alignBits >= lo + w) return k(0, w); break;
    case O_EXTRACT: return extract(kids[m.koff], lo + (unsigned)m.c, w);
    case O_CONCAT: {
      std::vector<T> v; unsigned p = 0;
      for (unsigned i = 0; i < m.nk; i++) {
        T q = kids[m.koff + i]; unsigned qw = W(q);
        unsigned s = std::max(p, lo), e = std::min(p + qw, lo + w);
        if (s < e) v.push_back(extract(q, s - p, e - s));
        p += qw;
      }
      return concat(v);
    }
    default: break;
  }
  uint64_t key = ((uint64_t)a << 16) ^ ((uint64_t)lo << 8) ^ w;
  bool memo = (m.op == O_AND || m.op == O_OR || m.op == O_XOR || m.op == O_NOT || m.op == O_ITE || m.op == O_LIN || m.op == O_MUL || m.op == O_SEXT) && lo < 256 && w < 256;
  if (memo) { auto it = exMemo.find(key); if (it != exMemo.end() && n[it->second].w == w) return it->second; }
  T r = 0;
  switch (m.op) {
    case O_AND: { T x = kids[m.koff], y = kids[m.koff + 1]; r = And(extract(x, lo, w), extract(y, lo, w)); break; }
    case O_OR: { T x = kids[m.koff], y = kids[m.koff + 1]; r = Or(extract(x, lo, w), extract(y, lo, w)); break; }
    case O_XOR: { T x = kids[m.koff], y = kids[m.koff + 1]; r = Xor(extract(x, lo, w), extract(y, lo, w)); break; }
    case O_NOT: { T x = kids[m.koff]; r = Not(extract(x, lo, w)); break; }
    case O_ITE: { T c = kids[m.koff], x = kids[m.koff + 1], y = kids[m.koff + 2]; r = ite(c, extract(x, lo, w), extract(y, lo, w)); break; }
    case O_SEXT: {
      T x = kids[m.koff]; unsigned xw = W(x);
      if (lo + w <= xw) r = extract(x, lo, w);
      else if (lo >= xw) r = sext(extract(x, xw - 1, 1), w);
      else r = sext(extract(x, lo, xw - lo), w);
      break;
    }
    case O_LIN: if (lo == 0) {
      // push only when every atom simplifies
      bool ok = true; std::vector<std::pair<T, u128>> at;
      for (unsigned i = 0; i < m.nk && ok; i++) {
        T q = kids[m.koff + i]; u128 cf = coefs[m.coff + i];
        if ((cf & msk(w)) == 0) continue;
        Op qo = op(q);
        if (!(qo == O_CONCAT || qo == O_SEXT || qo == O_EXTRACT || (qo == O_VAR && vars[(size_t)n[q].c].alignBits >= w) || (qo == O_MUL) || qo == O_ITE || (qo==O_LSHR) )) { ok = false; break; }
        T e = extract(q, 0, w);
        if (op(e) == O_EXTRACT && kid(e, 0) == q) { ok = false; break; }
        at.push_back({e, cf});
      }
      if (ok) {
        std::vector<std::pair<T, u128>> bt; u128 c = m.c;
        for (auto& p : at) { std::vector<std::pair<T, u128>> ct; u128 cc = 0; linView(p.first, ct, cc); c += cc * p.second; for (auto& q : ct) bt.push_back({q.first, q.second * p.second}); }
        r = mkLin(bt, c, w);
      }
    } else if (lo + w == m.w) {
      // summands that are multiples of 2^lo do not carry into or out of the low part
      std::vector<std::pair<T, u128>> rest, hi; u128 lowc = m.c & msk(lo), hic = m.c >> lo;
      for (unsigned i = 0; i < m.nk; i++) {
        T q = kids[m.koff + i]; u128 cf = coefs[m.coff + i]; unsigned t1 = 0; while (t1 < lo && !((cf >> t1) & 1)) t1++;
        if (t1 >= lo) hi.push_back({extract(q, 0, w), cf >> lo}); else if (t1 == 0 && tz(q) >= lo) hi.push_back({extract(q, lo, w), cf}); else rest.push_back({q, cf});
      }
      if (!hi.empty() || (hic && !lowc && !rest.empty())) {
        T b = k(0, m.w); for (auto& p : rest) b = add(b, mulc(p.first, p.second)); b = add(b, k(lowc, m.w));
        r = extract(b, lo, w); for (auto& p : hi) r = add(r, mulc(p.first, p.second & msk(w))); r = add(r, k(hic, w));
      }
    } break;
    case O_MUL: if (lo == 0) {
      T x = kids[m.koff], y = kids[m.koff + 1];
      T ex = extract(x, 0, w), ey = extract(y, 0, w);
      if (!(op(ex) == O_EXTRACT && kid(ex, 0) == x) && !(op(ey) == O_EXTRACT && kid(ey, 0) == y)) r = mul(ex, ey);
    } else if (m.w % 2 == 0 && lo == m.w / 2 && w == m.w / 2 && w >= 32) {
      // upper half of a signed product: hi(sext x * sext y) = hi(zext x * zext y) - (x<0 ? y : 0) - (y<0 ? x : 0)
      T p = kids[m.koff], q = kids[m.koff + 1];
      if (op(p) == O_SEXT && op(q) == O_SEXT && W(kid(p, 0)) == w && W(kid(q, 0)) == w) {
        T x = kid(p, 0), y = kid(q, 0), z = k(0, w);
        T u = extract(mul(zext(x, m.w), zext(y, m.w)), w, w);
        r = sub(sub(u, ite(extract(x, w - 1, 1), y, z)), ite(extract(y, w - 1, 1), x, z));
      }
    } break;
    default: break;
  }
  if (!r) { T ks[1] = {a}; r = raw(O_EXTRACT, w, ks, 1, lo); }
  if (memo) exMemo[key] = r;
  return r;
}
T Terms::concat(const std::vector<T>& in) {
  std::vector<T> v;
  std::function<void(T)> push = [&](T t) {
    if (op(t) == O_CONCAT) { Node m = n[t]; for (unsigned i = 0; i < m.nk; i++) push(kids[m.koff + i]); return; }
    if (!v.empty()) {
      T p = v.back(); Node a = n[p], b = n[t];
      unsigned tw = a.w + b.w;
      if (a.op == O_CONST && b.op == O_CONST && tw <= 128) { v.back() = k(a.c | (b.c << a.w), tw); return; }
      if (a.op == O_EXTRACT && b.op == O_EXTRACT && kids[a.koff] == kids[b.koff] && (unsigned)a.c + a.w == (unsigned)b.c) {
        v.pop_back(); push(extract(kids[a.koff], (unsigned)a.c, tw)); return;
      }
      if (b.op == O_EXTRACT && a.op != O_CONST && tw <= 128) {
        // EXTRACT(x, lo) above a narrowed form of x's low bits
        T x = kids[b.koff];
        if (b.c == a.w && extract(x, 0, a.w) == p) { v.pop_back(); push(extract(x, 0, tw)); return; }
      }
      // high half of a product above its low half
      if (b.op == O_EXTRACT && a.op == O_MUL && b.c == a.w && op(kids[b.koff]) == O_MUL && tw <= 128) { T M = kids[b.koff], A = extract(kid(M, 0), 0, a.w), B = extract(kid(M, 1), 0, a.w), u = kids[a.koff], v2 = kids[a.koff + 1]; if ((A == u && B == v2) || (A == v2 && B == u)) { v.pop_back(); push(extract(M, 0, tw)); return; } }
      // sign-fill merges
      if (b.op == O_SEXT && W(kids[b.koff]) == 1 && a.op == O_SEXT && kids[a.koff] == kids[b.koff]) { v.pop_back(); push(sext(kids[a.koff], tw)); return; }
      if (tw <= 128) {
        if (b.op == O_SEXT && W(kids[b.koff]) == 1) {
          T bit = kids[b.koff];
          if (bit == extract(p, a.w - 1, 1)) { v.pop_back(); push(sext(p, tw)); return; }
        } else if (b.w == 1 && (b.op == O_EXTRACT) && b.c == W(kids[b.koff]) - 1 && a.op != O_CONST && t == extract(p, a.w - 1, 1)) { v.pop_back(); push(sext(p, tw)); return; }
        if (a.op == O_SEXT && W(kids[a.koff]) == 1 && b.op == O_SEXT && kids[b.koff] == kids[a.koff]) { v.pop_back(); push(sext(kids[a.koff], tw)); return; }
        if (a.op == O_ITE && b.op == O_ITE && kids[a.koff] == kids[b.koff]) {
          T c = kids[a.koff]; T x = concat({kids[a.koff + 1], kids[b.koff + 1]}), y = concat({kids[a.koff + 2], kids[b.koff + 2]});
          v.pop_back(); push(ite(c, x, y)); return;
        }
        if (a.op == b.op && (a.op == O_AND || a.op == O_OR || a.op == O_XOR)) {
          T a0 = kids[a.koff], a1 = kids[a.koff + 1], b0 = kids[b.koff], b1 = kids[b.koff + 1];
          auto adj = [&](T x, T y) { Node p = n[x], q = n[y]; return (p.op == O_EXTRACT && q.op == O_EXTRACT && kids[p.koff] == kids[q.koff] && (unsigned)p.c + p.w == (unsigned)q.c) || (p.op == O_CONST && q.op == O_CONST); };
          if (adj(a0, b1) && adj(a1, b0)) std::swap(b0, b1);
          if (adj(a0, b0) && adj(a1, b1)) {
            T x = concat({a0, b0}), y = concat({a1, b1});
            v.pop_back(); push(a.op == O_AND ? And(x, y) : a.op == O_OR ? Or(x, y) : Xor(x, y)); return;
          }
        }
        if (a.op == O_NOT && b.op == O_NOT) {
          T x = concat({kids[a.koff], kids[b.koff]});
          if (op(x) != O_CONCAT) { v.pop_back(); push(Not(x)); return; }
        }
      }
    }
    v.push_back(t);
  };
  unsigned w = 0;
  for (T t : in) { if (W(t) == 0) continue; w += W(t); push(t); }
  if (v.size() == 1) return v[0];
  return raw(O_CONCAT, w, v.data(), v.size(), 0);
}
T Terms::ite(T c, T a, T b) {
  if (isC(c)) return C(c) ? a : b;
  if (a == b) return a;
  unsigned w = W(a);
  if (op(c) == O_NOT) return ite(kid(c, 0), b, a);
  if (op(a) == O_ITE && kid(a, 0) == c) return ite(c, kid(a, 1), b);
  if (op(b) == O_ITE && kid(b, 0) == c) return ite(c, a, kid(b, 2));
  if ((w == 32 || w == 64) && ((op(a) == O_UI2F && isC(b, 0)) || (op(b) == O_UI2F && isC(a, 0)))) { // exact conversions commute with selection
    T u = op(a) == O_UI2F ? a : b, x = kid(u, 0); if (W(x) <= (w == 32 ? 24u : 53u)) return fop(O_UI2F, w, {u == a ? ite(c, x, k(0, W(x))) : ite(c, k(0, W(x)), x)});
  }
  if (w == 1) {
    if (a == c) a = tru();
    if (b == c) b = fls();
    if (isC(a) && isC(b)) return a == b ? a : C(a) ? c : Not(c);
    if (isC(a)) return C(a) ? Or(c, b) : And(Not(c), b);
    if (isC(b)) return C(b) ? Or(Not(c), a) : And(c, a);
    if (a == Not(b)) return Not(Xor(c, a));
  } else {
    if (isC(a) && isC(b)) {
      if (C(a) == msk(w) && C(b) == 0) return sext(c, w);
      if (C(b) == msk(w) && C(a) == 0) return sext(Not(c), w);
      if (C(a) == 1 && C(b) == 0) return zext(c, w);
      if (C(b) == 1 && C(a) == 0) return zext(Not(c), w);
    }
    // zext on both sides: narrow
    if (op(a) == O_CONCAT || op(b) == O_CONCAT) {
      auto top = [&](T t) -> unsigned { // known-zero high bits
        if (isC(t)) { unsigned z = 0; while (z < w && !((C(t) >> (w - 1 - z)) & 1)) z++; return z; }
        if (op(t) == O_CONCAT) { T q = kid(t, n[t].nk - 1); if (isC(q, 0)) return W(q); }
        return 0; };
      unsigned z = std::min(top(a), top(b));
      if (z && z < w) return zext(ite(c, extract(a, 0, w - z), extract(b, 0, w - z)), w);
      auto lowz = [&](T t) -> unsigned {
        if (isC(t)) { unsigned z = 0; while (z < w && !((C(t) >> z) & 1)) z++; return z; }
        if (op(t) == O_CONCAT) { T q = kid(t, 0); if (isC(q, 0)) return W(q); }
        return 0; };
      z = std::min(lowz(a), lowz(b));
      if (z && z < w) return concat({k(0, z), ite(c, extract(a, z, w - z), extract(b, z, w - z))});
    }
  }
  // two pointers into the same object
  if (w == 64) {
    auto baseOf = [&](T t) -> T { if (op(t) == O_VAR) return vars[(size_t)n[t].c].obj >= 0 ? t : 0; if (op(t) != O_LIN) return 0; for (unsigned i = 0; i < n[t].nk; i++) { T q = kid(t, i); if (op(q) == O_VAR && vars[(size_t)n[q].c].obj >= 0 && coefs[n[t].coff + i] == 1) return q; } return 0; };
    T ba = baseOf(a); if (ba && ba == baseOf(b)) return add(ba, ite(c, sub(a, ba), sub(b, ba)));
  }
  // c implies eq: ite(x==k, k, x) = x
  if (op(c) == O_EQ) {
    T x = kid(c, 0), y = kid(c, 1);
    if ((a == x && b == y) || (a == y && b == x)) return b;
  }
  T ks[3] = {c, a, b};
  return raw(O_ITE, w, ks, 3, 0);
}
T Terms::eq(T a, T b) {
  if (a == b) return tru();
  unsigned w = W(a);
  if (isC(a)) std::swap(a, b);
  if (isC(a) && isC(b)) return k(C(a) == C(b), 1);
  if (w == 1) { if (isC(b)) return C(b) ? a : Not(a); return Not(Xor(a, b)); }
  if ((w == 32 || w == 64) && op(a) == O_UI2F && op(b) == O_UI2F) { T x = kid(a, 0), y = kid(b, 0); unsigned mb = w == 32 ? 24 : 53, m = std::max(W(x), W(y)); if (m <= mb) return eq(zext(x, m), zext(y, m)); }
  if (isC(b)) {
    u128 c = C(b);
    Node m = n[a];
    if (w == 64 && m.op == O_VAR && vars[(size_t)m.c].obj >= 0 && (c < 4096 || c >> 47)) return fls(); // objects lie in the lower half of the address space, not at zero
    if (w == 64 && c == 0 && m.op == O_LIN && m.c < 65536) { // object base plus small nonnegative offsets
      bool base = false, okp = true;
      for (unsigned i = 0; i < m.nk && okp; i++) { T q = kids[m.koff + i]; u128 cf = coefs[m.coff + i];
        if (op(q) == O_VAR && vars[(size_t)n[q].c].obj >= 0) { okp = !base && cf == 1; base = true; continue; }
        if (op(q) != O_CONCAT || cf > 64) { okp = false; break; }
        T hi = kid(q, n[q].nk - 1); okp = isC(hi, 0) && W(hi) >= 48; }
      if (base && okp) return fls();
    }
    if (m.op == O_NOT) return eq(kids[m.koff], k(~c, w));
    if (m.op == O_SEXT) {
      T x = kids[m.koff]; unsigned xw = W(x);
      u128 lowc = c & msk(xw);
      if ((u128)sx(lowc, xw) % 1 == 0) { if (((u128)sx(lowc, xw) & msk(w)) != c) return fls(); return eq(x, k(lowc, xw)); }
    }
    if (m.op == O_ITE) {
      T cc = kids[m.koff], x = kids[m.koff + 1], y = kids[m.koff + 2];
      if (isC(x) || isC(y)) { T ex = eq(x, b), ey = eq(y, b); return ite(cc, ex, ey); }
    }
    if (m.op == O_CONCAT) {
      T r = tru(); unsigned p = 0;
      std::vector<T> ks(kids.begin() + m.koff, kids.begin() + m.koff + m.nk);
      for (T q : ks) { r = And(r, eq(q, k(c >> p, W(q)))); p += W(q); if (isFalse(r)) return r; }
      return r;
    }
    if (m.op == O_LIN && m.nk == 1 && coefs[m.coff] == 1) return eq(kids[m.koff], k(c - m.c, w));
    if (m.op == O_EXTRACT && op(kids[m.koff]) == O_LIN && W(kids[m.koff]) <= 64 && (unsigned)m.c + w == W(kids[m.koff]) && umin(kids[m.koff], 0) >> (unsigned)m.c > c) return fls();
    if (m.op == O_LIN && m.nk == 1 && coefs[m.coff] == msk(w)) return eq(kids[m.koff], k(m.c - c, w));
  } else {
    if (op(a) == O_SEXT && op(b) == O_SEXT && W(kid(a, 0)) == W(kid(b, 0))) return eq(kid(a, 0), kid(b, 0));
    if (op(a) == O_NOT && op(b) == O_NOT) return eq(kid(a, 0), kid(b, 0));
    if (op(a) == O_LIN || op(b) == O_LIN) {
      T d = sub(a, b);
      if (isC(d)) return fls(); // nonzero constant (a != b structurally handled)
      Node m = n[d];
      if (m.op == O_LIN && m.nk == 1 && coefs[m.coff] == 1) return eq(kids[m.koff], k(~m.c + 1, w));
      if (m.op == O_LIN && m.nk == 1 && coefs[m.coff] == msk(w)) return eq(kids[m.koff], k(m.c, w));
      if (m.op != O_LIN) return eq(d, k(0, w));
      // canonical: split into positive/negative halves
      std::vector<std::pair<T, u128>> P, Q; u128 half = (u128)1 << (w - 1);
      for (unsigned i = 0; i < m.nk; i++) { u128 cf = coefs[m.coff + i]; T q = kids[m.koff + i]; if (cf >= half) Q.push_back({q, (~cf + 1) & msk(w)}); else P.push_back({q, cf}); }
      T x = mkLin(P, m.c, w), y = mkLin(Q, 0, w);
      if (isC(x) || isC(y)) { if (isC(x)) std::swap(x, y); T ks[2] = {x, y}; return raw(O_EQ, 1, ks, 2, 0); }
      if (x > y) std::swap(x, y);
      T ks[2] = {x, y};
      return raw(O_EQ, 1, ks, 2, 0);
    }
    if (op(a) == O_CONCAT || op(b) == O_CONCAT) {
      std::vector<std::pair<unsigned, unsigned>> cuts;
      if (pieces(*this, a, b, cuts)) {
        T r = tru();
        for (auto& p : cuts) { r = And(r, eq(extract(a, p.first, p.second), extract(b, p.first, p.second))); if (isFalse(r)) return r; }
        return r;
      }
    }
    if (op(a) == O_ITE && op(b) == O_ITE && kid(a, 0) == kid(b, 0)) return ite(kid(a, 0), eq(kid(a, 1), kid(b, 1)), eq(kid(a, 2), kid(b, 2)));
    if (op(a) == O_ITE && (kid(a, 1) == b || kid(a, 2) == b)) return ite(kid(a, 0), eq(kid(a, 1), b), eq(kid(a, 2), b));
    if (op(b) == O_ITE && (kid(b, 1) == a || kid(b, 2) == a)) return ite(kid(b, 0), eq(kid(b, 1), a), eq(kid(b, 2), a));
  }
  if (a > b && !isC(b)) std::swap(a, b);
  T ks[2] = {a, b};
  return raw(O_EQ, 1, ks, 2, 0);
}
u128 Terms::umin(T t, int d) {
  Node m = n[t];
  if (m.op == O_CONST) return m.c;
  if (d > 4 || m.w > 64) return 0;
  switch (m.op) {
    case O_CONCAT: { u128 r = 0; unsigned p = 0; for (unsigned i = 0; i < m.nk; i++) { T q = kids[m.koff + i]; r |= umin(q, d + 1) << p; p += W(q); } return r; }
    case O_ITE: return std::min(umin(kids[m.koff + 1], d + 1), umin(kids[m.koff + 2], d + 1));
    case O_LIN: { u128 r = m.c, hi = m.c; for (unsigned i = 0; i < m.nk; i++) { u128 c = coefs[m.coff + i]; u128 x = umax(kids[m.koff + i], d + 1); if (c && x > msk(m.w) / c) return 0; hi += c * x; if (hi > msk(m.w)) return 0; r += c * umin(kids[m.koff + i], d + 1); } return r; }
    default: return 0;
  }
}
u128 Terms::umax(T t, int d) {
  Node m = n[t];
  if (m.op == O_CONST) return m.c;
  if (d > 8 || m.w > 128) return msk(m.w);
  switch (m.op) {
    case O_CONCAT: { u128 r = 0; unsigned p = 0; for (unsigned i = 0; i < m.nk; i++) { T q = kids[m.koff + i]; r |= umax(q, d + 1) << p; p += W(q); } return r; }
    case O_ITE: return std::max(umax(kids[m.koff + 1], d + 1), umax(kids[m.koff + 2], d + 1));
    case O_AND: return std::min(umax(kids[m.koff], d + 1), umax(kids[m.koff + 1], d + 1));
    case O_LIN: {
      if (m.w > 64) return msk(m.w);
      u128 r = m.c;
      for (unsigned i = 0; i < m.nk; i++) { u128 c = coefs[m.coff + i]; u128 x = umax(kids[m.koff + i], d + 1); if (c && x > msk(m.w) / c) return msk(m.w); r += c * x; if (r > msk(m.w)) return msk(m.w); }
      return r;
    }
    case O_POPCNT: return m.w <= 7 ? std::min<u128>(msk(m.w), m.w) : m.w;
    case O_CTLZ: case O_CTTZ: return m.w <= 7 ? std::min<u128>(msk(m.w), m.w) : m.w;
    case O_LSHR: return umax(kids[m.koff], d + 1);
    case O_EXTRACT: { T q = kids[m.koff]; if (W(q) <= 64 && W(q) == (unsigned)m.c + m.w && (op(q) == O_UI2F || op(q) == O_SI2F)) return umax(q, d + 1) >> (unsigned)m.c; return msk(m.w); }
    case O_UI2F: case O_SI2F: { // conversion is monotone
      T q = kids[m.koff]; u128 x = umax(q, d + 1); if (W(q) > 64 || (m.w != 32 && m.w != 64) || (m.op == O_SI2F && (x >> (W(q) - 1)))) return msk(m.w);
      if (m.w == 32) { float f = (float)(uint64_t)x; uint32_t u; memcpy(&u, &f, 4); return u; } double f = (double)(uint64_t)x; uint64_t u; memcpy(&u, &f, 8); return u; }
    case O_UREM: { T b = kids[m.koff + 1]; if (isC(b) && C(b)) return C(b) - 1; return msk(m.w); }
    case O_UDIV: { T b = kids[m.koff + 1]; if (isC(b) && C(b)) return umax(kids[m.koff], d + 1) / C(b); return msk(m.w); }
    case O_MUL: { if (m.w > 64) return msk(m.w); u128 x = umax(kids[m.koff], d + 1), y = umax(kids[m.koff + 1], d + 1); if (x && y > msk(m.w) / x) return msk(m.w); return x * y; }
    default: return msk(m.w);
  }
}
unsigned Terms::tz(T t, int d) {
  Node m = n[t];
  if (m.op == O_CONST) { if (!m.c) return m.w; unsigned s = 0; while (!((m.c >> s) & 1)) s++; return s; }
  if (d > 8) return 0;
  switch (m.op) {
    case O_VAR: return vars[(size_t)m.c].alignBits;
    case O_CONCAT: { T q = kids[m.koff]; unsigned z = tz(q, d + 1); if (z == W(q) && m.nk > 1) return z + tz(kids[m.koff + 1], d + 1); return z; }
    case O_LIN: {
      unsigned r = m.w; if (m.c) { unsigned s = 0; while (!((m.c >> s) & 1)) s++; r = s; }
      for (unsigned i = 0; i < m.nk; i++) { u128 c = coefs[m.coff + i]; unsigned s = 0; while (!((c >> s) & 1)) s++; r = std::min(r, s + tz(kids[m.koff + i], d + 1)); }
      return std::min<unsigned>(r, m.w);
    }
    case O_ITE: return std::min(tz(kids[m.koff + 1], d + 1), tz(kids[m.koff + 2], d + 1));
    case O_MUL: return std::min<unsigned>(m.w, tz(kids[m.koff], d + 1) + tz(kids[m.koff + 1], d + 1));
    case O_AND: return std::max(tz(kids[m.koff], d + 1), tz(kids[m.koff + 1], d + 1));
    default: return 0;
  }
}
static unsigned zeroTop(Terms& G, T t) {
  if (G.op(t) == O_CONCAT) { T q = G.kid(t, G.n[t].nk - 1); if (G.isC(q, 0)) return G.W(q); }
  if (G.isC(t)) { unsigned w = G.W(t), z = 0; while (z < w && !((G.C(t) >> (w - 1 - z)) & 1)) z++; return z; }
  return 0;
}
T Terms::ult(T a, T b) {
  if (a == b) return fls();
  unsigned w = W(a);
  if (isC(a) && isC(b)) return k(C(a) < C(b), 1);
  if (isC(b, 0)) return fls();
  if (isC(a) && C(a) == msk(w)) return fls();
  if (isC(b, 1)) return eq(a, k(0, w));
  if (isC(a, 0)) return ne(b, k(0, w));
  if (w == 1) return And(Not(a), b);
  if (isC(b) && umax(a) < C(b)) return tru();
  if (isC(a) && umax(b) <= C(a)) return fls();
  if (isC(b) && (op(a) == O_EXTRACT) && umax(a) == C(b)) return ne(a, b);
  unsigned z = std::min(zeroTop(*this, a), zeroTop(*this, b));
  if (z && z < w) return ult(extract(a, 0, w - z), extract(b, 0, w - z));
  if (op(a) == O_ITE && isC(b) && (isC(kid(a, 1)) || isC(kid(a, 2)))) return ite(kid(a, 0), ult(kid(a, 1), b), ult(kid(a, 2), b));
  if (op(b) == O_ITE && isC(a) && (isC(kid(b, 1)) || isC(kid(b, 2)))) return ite(kid(b, 0), ult(a, kid(b, 1)), ult(a, kid(b, 2)));
  // x <u 2^k  ==> high bits zero ; x >u 2^k-1
  if (isC(b) && (C(b) & (C(b) - 1)) == 0) { unsigned s = 0; while (!((C(b) >> s) & 1)) s++; return eq(extract(a, s, w - s), k(0, w - s)); }
  if (isC(a) && ((C(a) + 1) & C(a)) == 0) { unsigned s = 0; while (((C(a) >> s) & 1)) s++; return ne(extract(b, s, w - s), k(0, w - s)); }
  if (op(a) == O_NOT && op(b) == O_NOT) return ult(kid(b, 0), kid(a, 0));
  T ks[2] = {a, b};
  return raw(O_ULT, 1, ks, 2, 0);
}
T Terms::slt(T a, T b) {
  if (a == b) return fls();
  unsigned w = W(a);
  if (isC(a) && isC(b)) return k(sx(C(a), w) < sx(C(b), w), 1);
  if (isC(b, 0)) return extract(a, w - 1, 1);
  if (w > 1 && isC(a) && C(a) == msk(w)) return Not(extract(b, w - 1, 1)); // -1 < b
  if (w == 1) return And(a, Not(b));
  unsigned za = zeroTop(*this, a), zb = zeroTop(*this, b);
  if (za && zb) return ult(a, b);
  // sign-extended operands: narrow
  auto sw = [&](T t) -> unsigned { // minimal signed width
    if (op(t) == O_SEXT) return W(kid(t, 0));
    if (isC(t)) { i128 v = sx(C(t), w); unsigned q = 1; while (q < w && (sx((u128)v & msk(q), q) != v)) q++; return q; }
    unsigned z = zeroTop(*this, t); if (z > 1) return w - z + 1;
    return w; };
  unsigned q = std::max(sw(a), sw(b));
  if (q < w) return slt(extract(a, 0, q), extract(b, 0, q));
  if (op(a) == O_ITE && isC(b) && (isC(kid(a, 1)) || isC(kid(a, 2)))) return ite(kid(a, 0), slt(kid(a, 1), b), slt(kid(a, 2), b));
  if (op(b) == O_ITE && isC(a) && (isC(kid(b, 1)) || isC(kid(b, 2)))) return ite(kid(b, 0), slt(a, kid(b, 1)), slt(a, kid(b, 2)));
  // both with flipped sign bit -> unsigned compare handled by SMT
  T ks[2] = {a, b};
  return raw(O_SLT, 1, ks, 2, 0);
}
T Terms::popcnt(T a) {
  if (isC(a)) { u128 v = C(a); unsigned c = 0; while (v) { c += v & 1; v >>= 1; } return k(c, W(a)); }
  T ks[1] = {a}; return raw(O_POPCNT, W(a), ks, 1, 0);
}
T Terms::ctlz(T a) {
  unsigned w = W(a);
  if (isC(a)) { unsigned z = 0; while (z < w && !((C(a) >> (w - 1 - z)) & 1)) z++; return k(z, w); }
  if (op(a) == O_CONCAT) { const T top = kid(a, n[a].nk - 1); if (isC(top) && C(top)) { unsigned z = 0; while (!((C(top) >> (W(top) - 1 - z)) & 1)) z++; return k(z, w); } }
  T ks[1] = {a}; return raw(O_CTLZ, w, ks, 1, 0);
}
T Terms::cttz(T a) {
  unsigned w = W(a);
  if (isC(a)) { unsigned z = 0; while (z < w && !((C(a) >> z) & 1)) z++; return k(z, w); }
  if (op(a) == O_CONCAT) { const T bot = kid(a, 0); if (isC(bot) && C(bot)) { unsigned z = 0; while (!((C(bot) >> z) & 1)) z++; return k(z, w); } }
  T ks[1] = {a}; return raw(O_CTTZ, w, ks, 1, 0);
}
static float bf(u128 v) { uint32_t b = (uint32_t)v; float f; memcpy(&f, &b, 4); return f; }
static double bd(u128 v) { uint64_t b = (uint64_t)v; double f; memcpy(&f, &b, 8); return f; }
static u128 fb(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static u128 db(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }
static bool evalF(Op op, unsigned w, u128 c, const std::vector<u128>& v, const std::vector<unsigned>& kw, u128& out) {
  auto get = [&](unsigned i) -> double { return kw[i] == 32 ? (double)bf(v[i]) : bd(v[i]); };
  for (unsigned i = 0; i < v.size(); i++) if (op != O_SI2F && op != O_UI2F && kw[i] != 32 && kw[i] != 64) {
    if (op == O_FPEXT && kw[i] == 16 && w == 32) { _Float16 h; uint16_t b = (uint16_t)v[i]; memcpy(&h, &b, 2); out = fb((float)h); return true; }
    return false;
  }
  switch (op) {
    case O_FADD: if (w == 32) out = fb(bf(v[0]) + bf(v[1])); else out = db(bd(v[0]) + bd(v[1])); return true;
    case O_FSUB: if (w == 32) out = fb(bf(v[0]) - bf(v[1])); else out = db(bd(v[0]) - bd(v[1])); return true;
    case O_FMUL: if (w == 32) out = fb(bf(v[0]) * bf(v[1])); else out = db(bd(v[0]) * bd(v[1])); return true;
    case O_FDIV: if (w == 32) out = fb(bf(v[0]) / bf(v[1])); else out = db(bd(v[0]) / bd(v[1])); return true;
    case O_FSQRT: if (w == 32) out = fb(sqrtf(bf(v[0]))); else out = db(sqrt(bd(v[0]))); return true;
    case O_FMA: if (w == 32) out = fb(fmaf(bf(v[0]), bf(v[1]), bf(v[2]))); else out = db(fma(bd(v[0]), bd(v[1]), bd(v[2]))); return true;
    case O_FPEXT: if (kw[0] == 32 && w == 64) { out = db((double)bf(v[0])); return true; } return false;
    case O_FPTRUNC: if (kw[0] == 64 && w == 32) { out = fb((float)bd(v[0])); return true; }
      if (kw[0] == 32 && w == 16) { _Float16 h = (_Float16)bf(v[0]); uint16_t b; memcpy(&b, &h, 2); out = b; return true; }
      if (kw[0] == 64 && w == 16) { _Float16 h = (_Float16)bd(v[0]); uint16_t b; memcpy(&b, &h, 2); out = b; return true; }
      return false;
    case O_SI2F: { i128 x = Terms::sx(v[0], kw[0]); if (w == 32) out = fb((float)x); else if (w == 64) out = db((double)x); else return false; return true; }
    case O_UI2F: { u128 x = v[0]; if (w == 32) out = fb((float)x); else if (w == 64) out = db((double)x); else return false; return true; }
    case O_F2SI: { double x = get(0); double lim = ldexp(1.0, w - 1); if (!(x > -lim - 1 && x < lim)) { out = (u128)1 << (w - 1); return true; } if (w == 64 && x < -lim) { out = (u128)1 << (w - 1); return true; } out = (u128)(i128)x & Terms::msk(w); return true; }
    case O_F2UI: { double x = get(0); double lim = ldexp(1.0, w); if (!(x > -1 && x < lim)) { out = Terms::msk(w); return true; } out = (u128)x & Terms::msk(w); return true; }
    case O_FRINT: {
      double x = get(0), r;
      switch ((int)c) { case 0: r = nearbyint(x); break; case 1: r = floor(x); break; case 2: r = ceil(x); break; case 3: r = trunc(x); break; default: r = round(x); }
      out = w == 32 ? fb((float)r) : db(r); return true; }
    default: return false;
  }
}
// x times (-1)^s 2^K for a signed integer K, rounded to nearest even; |K| must be small against 2^W(K)
T Terms::scalePow2(T x, T s, T K) {
  Terms& g = *this; const unsigned w = g.W(x), mb = w == 32 ? 23 : 52, eb = w == 32 ? 8 : 11, ew = W(K), pw = 2 * mb + 3; const u128 one = 1;
  T mx = g.extract(x, 0, mb), ex = g.extract(x, mb, eb), sg = g.Xor(g.extract(x, w - 1, 1), s);
  auto mk = [&](T m, T ee) { return g.concat({m, ee, sg}); };
  T nan = g.concat({g.k(one << (mb - 1), mb), g.k(~(u128)0, eb), g.k(0, 1)}), inf = mk(g.k(0, mb), g.k(~(u128)0, eb)), zero = mk(g.k(0, mb), g.k(0, eb));
  T m0 = g.eq(mx, g.k(0, mb)), e0 = g.eq(ex, g.k(0, eb)), e1 = g.eq(ex, g.k(~(u128)0, eb));
  T z = g.ctlz(g.zext(mx, mb + 1)); T M = g.ite(e0, g.shl(g.zext(mx, mb + 1), z), g.concat({mx, g.k(1, 1)}));
  T zz = mb + 1 >= ew ? g.trunc(z, ew) : g.zext(z, ew);
  T E = g.add(g.ite(e0, g.sub(g.k(1, ew), zz), g.zext(ex, ew)), K);
  T sh = g.sub(g.k(1, ew), E); T R = g.lshr(g.concat({g.k(0, mb + 2), M}), g.zext(sh, pw));
  T q = g.extract(R, mb + 2, mb + 1), rem = g.extract(R, 0, mb + 2), half = g.k(one << (mb + 1), mb + 2);
  T up = g.Or(g.ult(half, rem), g.And(g.eq(rem, half), g.extract(q, 0, 1)));
  T sub = g.concat({g.zext(g.add(q, g.zext(up, mb + 1)), w - 1), sg});
  T fin = g.ite(g.slt(E, g.k(1, ew)), g.ite(g.slt(sh, g.k(mb + 2, ew)), sub, zero), g.ite(g.slt(E, g.k((one << eb) - 1, ew)), mk(g.trunc(M, mb), g.trunc(E, eb)), inf));
  return g.ite(g.And(e1, g.Not(m0)), nan, g.ite(g.And(e0, m0), zero, g.ite(e1, inf, fin)));
}
// x times the number with sign s, exponent field e and a zero mantissa
static T mulPow2(Terms& g, T x, T s, T e) {
  const unsigned w = g.W(x), mb = w == 32 ? 23 : 52, eb = w == 32 ? 8 : 11, ew = eb + 3; const u128 bias = w == 32 ? 127 : 1023, one = 1;
  T mx = g.extract(x, 0, mb), ex = g.extract(x, mb, eb), sg = g.Xor(g.extract(x, w - 1, 1), s);
  T nan = g.concat({g.k(one << (mb - 1), mb), g.k(~(u128)0, eb), g.k(0, 1)}), inf = g.concat({g.k(0, mb), g.k(~(u128)0, eb), sg}), zero = g.concat({g.k(0, mb), g.k(0, eb), sg});
  T m0 = g.eq(mx, g.k(0, mb)), e0 = g.eq(ex, g.k(0, eb)), e1 = g.eq(ex, g.k(~(u128)0, eb));
  T x0 = g.And(e0, m0), xi = g.And(e1, m0), f0 = g.eq(e, g.k(0, eb)), fi = g.eq(e, g.k(~(u128)0, eb));
  T r = g.scalePow2(x, s, g.sub(g.zext(e, ew), g.k(bias, ew)));
  r = g.ite(f0, g.ite(xi, nan, zero), g.ite(fi, g.ite(x0, nan, inf), r));
  return g.ite(g.And(e1, g.Not(m0)), nan, r);
}
T Terms::fop(Op o, unsigned w, const std::vector<T>& ks, u128 c) {
  bool allc = true; for (T t : ks) if (!isC(t)) allc = false;
  if (allc) { std::vector<u128> v; std::vector<unsigned> kw; for (T t : ks) { v.push_back(C(t)); kw.push_back(W(t)); } u128 out; if (evalF(o, w, c, v, kw, out)) return k(out, w); }
  std::vector<T> q = ks;
  // Exact rewritings (equal up to the sign and payload of NaN, which no contract relies on)
  auto flip = [&](T x) { return Xor(x, k((u128)1 << (w - 1), w)); };
  auto strip = [&](T& x) { // removes a negation; true if there was one
    if (isC(x)) { if ((C(x) >> (w - 1)) & 1) { x = flip(x); return true; } return false; }
    if (op(x) == O_CONCAT) { T top = kid(x, n[x].nk - 1); T s = extract(x, w - 1, 1); if (isC(s, 1) || (W(top) == 1 && op(top) == O_NOT)) { x = flip(x); return true; } }
    return false; };
  if (o == O_FSUB) return fop(O_FADD, w, {q[0], flip(q[1])});
  if (o == O_FMUL || o == O_FDIV) { bool ng = strip(q[0]); ng ^= strip(q[1]); if (ng) return flip(fop(o, w, q)); }
  if (o == O_FMUL && (w == 32 || w == 64)) for (unsigned i = 0; i < 2; i++) { const unsigned mb = w == 32 ? 23 : 52; if (op(q[i]) == O_CONCAT && isC(extract(q[i], 0, mb), 0)) return mulPow2(*this, q[1 - i], extract(q[i], w - 1, 1), extract(q[i], mb, w - 1 - mb)); }
  if (o == O_FMA) { bool ng = strip(q[0]); ng ^= strip(q[1]); if (ng) { if (q[0] > q[1]) std::swap(q[0], q[1]); q[1] = flip(q[1]); return raw(o, w, q.data(), 3, c); } }
  if (w == 32 || w == 64) { // sums and products of small non-negative integers are exact
    const unsigned mb = w == 32 ? 24 : 53;
    auto small = [&](T t) { return op(t) == O_UI2F && W(kid(t, 0)) <= mb; };
    if ((o == O_FADD || o == O_FMUL || o == O_FMA) && small(q[0]) && small(q[1]) && (o != O_FMA || small(q[2]))) {
      T x = zext(kid(q[0], 0), 64), y = zext(kid(q[1], 0), 64); u128 mx = umax(x), my = umax(y), mz = o == O_FADD ? mx + my : mx * my; T r = 0;
      if (o == O_FADD) r = add(x, y); else r = mul(x, y);
      if (o == O_FMA) { T z = zext(kid(q[2], 0), 64); mz += umax(z); if (mx * my <= ((u128)1 << mb)) r = add(r, z); }
      if (mz < ((u128)1 << mb)) { unsigned b = 1; while (mz >> b) b++; return fop(O_UI2F, w, {trunc(r, b)}); }
    }
    if (o == O_FPTRUNC && w == 32 && op(q[0]) == O_FMUL && W(q[0]) == 64) { // the product of two floats is exact in double
      T x[2]; bool okp = true; for (unsigned i = 0; i < 2; i++) { T y = kid(q[0], i); if (op(y) == O_FPEXT && W(kid(y, 0)) == 32) x[i] = kid(y, 0); else okp = false; }
      if (okp) return fop(O_FMUL, 32, {x[0], x[1]});
    }
    if (o == O_FPEXT && op(q[0]) == O_UI2F && W(kid(q[0], 0)) <= 24) return fop(O_UI2F, w, {kid(q[0], 0)});
    if ((o == O_SI2F || o == O_UI2F) && W(q[0]) > 1) {
      T x = q[0]; unsigned b = W(x); while (b > 1 && isC(extract(x, b - 1, 1), 0)) b--;
      if (b < W(x)) return fop(O_UI2F, w, {trunc(x, b)});
    }
  }
  if ((o == O_FADD || o == O_FMUL) && q[0] > q[1]) std::swap(q[0], q[1]);
  if (o == O_FMA && q[0] > q[1]) std::swap(q[0], q[1]);
  if ((o == O_SI2F || o == O_UI2F) && (w == 32 || w == 64) && W(q[0]) <= 64 && op(q[0]) == O_CONCAT) { // known leading one: exact result, or round-down when the guard bit is a known zero
    T x = q[0]; int p = (int)W(x) - 1; bool neg = false;
    if (o == O_SI2F) { T b = extract(x, p, 1); if (!isC(b, 0)) neg = true; }
    if (!neg) {
      while (p >= 0 && isC(extract(x, p, 1), 0)) p--;
      int mb = w == 32 ? 23 : 52, bias = w == 32 ? 127 : 1023, eb = w == 32 ? 8 : 11;
      if (p >= 0 && isC(extract(x, p, 1), 1) && (p <= mb || isC(extract(x, p - mb - 1, 1), 0))) {
        T m = p == 0 ? k(0, mb) : p <= mb ? (p == mb ? extract(x, 0, p) : concat2(extract(x, 0, p), k(0, mb - p))) : extract(x, p - mb, mb);
        return concat({m, k(bias + p, eb), k(0, 1)});
      }
    }
  }
  return raw(o, w, q.data(), q.size(), c);
}
u128 Terms::evalNode(T t, const std::function<u128(T)>& kv) {
  Node& m = n[t]; u128 M = msk(m.w);
  auto K = [&](unsigned i) { return kv(kids[m.koff + i]); };
  auto KW = [&](unsigned i) { return W(kids[m.koff + i]); };
  switch (m.op) {
    case O_CONST: return m.c;
    case O_LIN: { u128 r = m.c; for (unsigned i = 0; i < m.nk; i++) r += coefs[m.coff + i] * K(i); return r & M; }
    case O_MUL: return (K(0) * K(1)) & M;
    case O_UDIV: { u128 b = K(1); return b ? K(0) / b : M; }
    case O_UREM: { u128 b = K(1); return b ? K(0) % b : K(0); }
    case O_SDIV: { i128 a = sx(K(0), m.w), b = sx(K(1), m.w); if (!b) return a < 0 ? 1 : M; if (b == -1) return (u128)0 - (u128)a & M; return (u128)(a / b) & M; }
    case O_SREM: { i128 a = sx(K(0), m.w), b = sx(K(1), m.w); if (!b) return (u128)a & M; if (b == -1) return 0; return (u128)(a % b) & M; }
    case O_AND: return K(0) & K(1);
    case O_OR: return K(0) | K(1);
    case O_XOR: return K(0) ^ K(1);
    case O_NOT: return ~K(0) & M;
    case O_SHL: { u128 s = K(1); return s >= m.w ? 0 : (K(0) << (unsigned)s) & M; }
    case O_LSHR: { u128 s = K(1); return s >= m.w ? 0 : K(0) >> (unsigned)s; }
    case O_ASHR: { u128 s = K(1); if (s >= m.w) s = m.w - 1; return (u128)(sx(K(0), m.w) >> (unsigned)s) & M; }
    case O_CONCAT: { u128 r = 0; unsigned p = 0; for (unsigned i = 0; i < m.nk; i++) { if (p < 128) r |= K(i) << p; p += KW(i); } return r; }
    case O_EXTRACT: return (K(0) >> (unsigned)m.c) & M;
    case O_SEXT: return (u128)sx(K(0), KW(0)) & M;
    case O_ITE: return K(0) ? K(1) : K(2);
    case O_EQ: return K(0) == K(1);
    case O_ULT: return K(0) < K(1);
    case O_SLT: return sx(K(0), KW(0)) < sx(K(1), KW(1));
    case O_POPCNT: { u128 v = K(0); unsigned c = 0; while (v) { c += (unsigned)(v & 1); v >>= 1; } return c & M; }
    case O_CTLZ: { u128 v = K(0); unsigned z = 0; while (z < m.w && !((v >> (m.w - 1 - z)) & 1)) z++; return z & M; }
    case O_CTTZ: { u128 v = K(0); unsigned z = 0; while (z < m.w && !((v >> z) & 1)) z++; return z & M; }
    default: {
      std::vector<u128> v; std::vector<unsigned> kw;
      for (unsigned i = 0; i < m.nk; i++) { v.push_back(K(i)); kw.push_back(KW(i)); }
      u128 out;
      if (m.op != O_UF && evalF(m.op, m.w, m.c, v, kw, out)) return out & M;
      uint64_t h = mix(m.op, (uint64_t)m.c); for (u128 x : v) { h = mix(h, (uint64_t)x); h = mix(h, (uint64_t)(x >> 64)); }
      return (u128)h & M;
    }
  }
}
std::string Terms::str(T t, int d) {
  Node m = n[t]; char buf[64];
  if (m.op == O_CONST) { if (m.c >> 64) snprintf(buf, 64, "0x%llx%016llx:%u", (unsigned long long)(m.c >> 64), (unsigned long long)m.c, m.w); else snprintf(buf, 64, "0x%llx:%u", (unsigned long long)m.c, m.w); return buf; }
  if (m.op == O_VAR) return vars[(size_t)m.c].name;
  if (d == 0) { snprintf(buf, 64, "#%u", t); return buf; }
  std::string s = "(" + std::string(m.op == O_UF ? ufNames[(size_t)m.c] : kOpName[m.op]);
  if (m.op == O_EXTRACT) { snprintf(buf, 64, "[%u+%u]", (unsigned)m.c, m.w); s += buf; }
  if (m.op == O_SEXT) { snprintf(buf, 64, ":%u", m.w); s += buf; }
  for (unsigned i = 0; i < m.nk; i++) {
    s += " ";
    if (m.op == O_LIN) { u128 c = coefs[m.coff + i]; if (c != 1) { if (c > msk(m.w) / 2) snprintf(buf, 64, "-%llu*", (unsigned long long)((~c + 1) & msk(m.w))); else snprintf(buf, 64, "%llu*", (unsigned long long)c); s += buf; } }
    s += str(kids[m.koff + i], d - 1);
  }
  if (m.op == O_LIN && m.c) { snprintf(buf, 64, " +%lld", (long long)sx(m.c, m.w)); s += buf; }
  return s + ")";
}
