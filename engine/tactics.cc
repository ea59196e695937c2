// Proof tactics that need no solver: exact integer linear forms over bits, substitution, case splits.
#include "tactics.h"
#include <cstdlib>
T rebuildNode(T t, const std::vector<T>& k) {
  Node m = G.n[t];
  switch (m.op) {
    case O_LIN: { T r = G.k(m.c, m.w); for (unsigned i = 0; i < m.nk; i++) r = G.add(r, G.mulc(k[i], G.coefs[m.coff + i])); return r; }
    case O_MUL: return G.mul(k[0], k[1]);
    case O_UDIV: return G.udiv(k[0], k[1]); case O_UREM: return G.urem(k[0], k[1]); case O_SDIV: return G.sdiv(k[0], k[1]); case O_SREM: return G.srem(k[0], k[1]);
    case O_AND: return G.And(k[0], k[1]); case O_OR: return G.Or(k[0], k[1]); case O_XOR: return G.Xor(k[0], k[1]); case O_NOT: return G.Not(k[0]);
    case O_SHL: return G.shl(k[0], k[1]); case O_LSHR: return G.lshr(k[0], k[1]); case O_ASHR: return G.ashr(k[0], k[1]);
    case O_CONCAT: return G.concat(k); case O_EXTRACT: return G.extract(k[0], (unsigned)m.c, m.w); case O_SEXT: return G.sext(k[0], m.w);
    case O_ITE: return G.ite(k[0], k[1], k[2]); case O_EQ: return G.eq(k[0], k[1]); case O_ULT: return G.ult(k[0], k[1]); case O_SLT: return G.slt(k[0], k[1]);
    case O_POPCNT: return G.popcnt(k[0]); case O_CTLZ: return G.ctlz(k[0]); case O_CTTZ: return G.cttz(k[0]);
    case O_CONST: case O_VAR: return t;
    case O_UF: return G.uf((unsigned)m.c, m.w, k);
    default: return G.fop(m.op, m.w, k, m.c);
  }
}
T Subst::go(T root) {
  std::vector<T> st{root};
  while (!st.empty()) {
    T t = st.back(); if (memo.count(t)) { st.pop_back(); continue; }
    bool ready = true; unsigned nk = G.n[t].nk; for (unsigned i = 0; i < nk; i++) { T q = G.kid(t, i); if (!memo.count(q)) { if (ready) ready = false; st.push_back(q); } }
    if (!ready) continue;
    st.pop_back();
    bool same = true; std::vector<T> k; for (unsigned i = 0; i < nk; i++) { T q = G.kid(t, i), r = memo[q]; k.push_back(r); if (r != q) same = false; }
    memo[t] = same ? t : rebuildNode(t, k);
  }
  return memo[root];
}
// ---------------------------------------------------------------- linear forms
// value(t) = c + sum cf_i * bit_i exactly as an integer (bits are 1-bit terms)
struct Form { bool ok = false; i128 c = 0; std::map<T, i128> a; };
struct LinBits {
  std::unordered_map<T, Form> memo; std::unordered_map<T, std::set<T>> supp; size_t work = 0;
  static const size_t LIM = 600;
  static void range(const Form& f, i128& lo, i128& hi) { lo = hi = f.c; for (auto& p : f.a) { if (p.second > 0) hi += p.second; else lo += p.second; } }
  static bool mac(i128& x, i128 y, i128 k) { i128 p; if (__builtin_mul_overflow(y, k, &p) || __builtin_add_overflow(x, p, &x)) return false; const i128 L = (i128)1 << 110; return x > -L && x < L; }
  static void addTo(Form& r, const Form& f, i128 k) { if (!mac(r.c, f.c, k)) r.ok = false; for (auto& p : f.a) { i128& x = r.a[p.first]; if (!mac(x, p.second, k)) { r.ok = false; return; } if (x == 0) r.a.erase(p.first); } }
  Form atom(T t) { // bits of an opaque term
    Form f; f.ok = true; unsigned w = G.W(t);
    for (unsigned i = 0; i < w; i++) { T b = G.extract(t, i, 1); if (G.isC(b)) { if (G.C(b)) f.c += (i128)1 << i; } else { T nb = G.op(b) == O_NOT ? G.kid(b, 0) : 0; if (nb) { f.c += (i128)1 << i; f.a[nb] -= (i128)1 << i; } else f.a[b] += (i128)1 << i; } }
    for (auto it = f.a.begin(); it != f.a.end();) if (it->second == 0) it = f.a.erase(it); else ++it;
    return f;
  }
  bool bitsOf(T t, std::set<T>& out) { // variable bits a term depends on (at most 8)
    auto it = supp.find(t); if (it != supp.end()) { for (T x : it->second) out.insert(x); return out.size() <= 8; }
    std::set<T> s; Node m = G.n[t];
    if (m.op == O_CONST) ;
    else if (m.op == O_VAR) { if (m.w > 8) return false; for (unsigned i = 0; i < m.w; i++) s.insert(G.extract(t, i, 1)); }
    else if (m.op == O_EXTRACT && G.op(G.kid(t, 0)) == O_VAR) { if (m.w > 8) return false; for (unsigned i = 0; i < m.w; i++) s.insert(G.extract(t, i, 1)); }
    else { if (++work > 20000) return false; for (unsigned i = 0; i < m.nk; i++) if (!bitsOf(G.kid(t, i), s)) return false; }
    if (s.size() > 8) return false;
    supp[t] = s; for (T x : s) out.insert(x); return out.size() <= 8;
  }
  bool table(T t, Form& f) { // truth table of a term with few input bits; succeeds when it is affine in the bits
    std::set<T> s; if (!bitsOf(t, s) || s.empty()) return false;
    std::vector<T> v(s.begin(), s.end()); unsigned n = v.size(); std::vector<i128> tab((size_t)1 << n);
    for (size_t e = 0; e < tab.size(); e++) {
      // assign whole variables from the bits
      std::unordered_map<T, u128> val; for (unsigned i = 0; i < n; i++) { T b = v[i]; T var = b; unsigned pos = 0; if (G.op(b) == O_EXTRACT) { var = G.kid(b, 0); pos = (unsigned)G.n[b].c; } u128& x = val[var]; if ((e >> i) & 1) x |= (u128)1 << pos; }
      std::function<u128(T)> ev = [&](T q) -> u128 { auto it = val.find(q); if (it != val.end()) return it->second; if (G.op(q) == O_VAR) return 0; u128 r = G.evalNode(q, ev); val[q] = r; return r; };
      tab[e] = (i128)ev(t);
    }
    f = Form(); f.ok = true; f.c = tab[0];
    for (unsigned i = 0; i < n; i++) { i128 d = tab[(size_t)1 << i] - tab[0]; if (d) f.a[v[i]] = d; }
    for (size_t e = 0; e < tab.size(); e++) { i128 x = f.c; for (unsigned i = 0; i < n; i++) if ((e >> i) & 1) { auto it = f.a.find(v[i]); if (it != f.a.end()) x += it->second; } if (x != tab[e]) return false; }
    return true;
  }
  bool cut(const Form& f, unsigned lo, unsigned w, Form& out) { // (f >> lo) mod 2^w, if exact
    i128 P = (i128)1 << lo; Form l; out = Form(); out.ok = true; l.ok = true;
    auto fl = [&](i128 x) { i128 q = x / P; if (x % P < 0) q--; return q; };
    out.c = fl(f.c); l.c = f.c - out.c * P;
    for (auto& p : f.a) { i128 q = fl(p.second), r = p.second - q * P; if (q) out.a[p.first] = q; if (r) l.a[p.first] = r; }
    i128 a, b; range(l, a, b); if (a < 0 || b >= P) return false;
    i128 M = (i128)1 << w; range(out, a, b); if (a >= 0 && b < M) return true;
    Form o; o.ok = true; o.c = ((out.c % M) + M) % M; for (auto& p : out.a) { i128 x = ((p.second % M) + M) % M; if (x) o.a[p.first] = x; }
    range(o, a, b); if (a >= 0 && b < M) { out = o; return true; }
    // signed residues
    Form s2; s2.ok = true; s2.c = o.c; for (auto& p : o.a) s2.a[p.first] = p.second > M / 2 ? p.second - M : p.second;
    range(s2, a, b); if (a >= 0 && b < M) { out = s2; return true; }
    return false;
  }
  Form go(T t) {
    auto it = memo.find(t); if (it != memo.end()) return it->second;
    if (++work > 20000) { Form f; return f; }
    Node m = G.n[t]; Form f; f.ok = false;
    if (m.w > 64) return f;
    switch (m.op) {
      case O_CONST: f.ok = true; f.c = (i128)m.c; break;
      case O_CONCAT: { f.ok = true; unsigned off = 0; for (unsigned i = 0; i < m.nk; i++) { T p = G.kid(t, i); Form q = go(p); if (!q.ok) { f.ok = false; break; } addTo(f, q, (i128)1 << off); off += G.W(p); } break; }
      case O_LIN: case O_POPCNT: {
        Form s; s.ok = true;
        if (m.op == O_LIN) { s.c = (i128)m.c; for (unsigned i = 0; i < m.nk; i++) { Form q = go(G.kid(t, i)); if (!q.ok) { s.ok = false; break; } u128 cf = G.coefs[m.coff + i] & Terms::msk(m.w); i128 k = cf > Terms::msk(m.w) / 2 ? (i128)cf - ((i128)1 << m.w) : (i128)cf; addTo(s, q, k); } }
        else { T x = G.kid(t, 0); for (unsigned i = 0; i < G.W(x) && s.ok; i++) { Form q = go(G.extract(x, i, 1)); if (!q.ok) s.ok = false; else addTo(s, q, 1); } }
        if (s.ok && s.a.size() <= LIM) { Form o; if (cut(s, 0, m.w, o)) f = o; }
        break; }
      case O_EXTRACT: { T x = G.kid(t, 0); if (G.W(x) <= 64 && G.op(x) != O_VAR) { Form q = go(x), o; if (q.ok && cut(q, (unsigned)m.c, m.w, o)) f = o; } break; }
      case O_ITE: { Form a = go(G.kid(t, 1)), b = go(G.kid(t, 2)), c = go(G.kid(t, 0)); if (a.ok && b.ok && c.ok) { addTo(a, b, -1); if (a.ok && a.a.empty()) { f = b; addTo(f, c, a.c); } } break; }
      case O_MUL: { Form a = go(G.kid(t, 0)), b = go(G.kid(t, 1)); if (!a.ok || !b.ok || a.a.size() > 64 || b.a.size() > 64 || a.a.size() * b.a.size() > LIM) break;
        Form s; s.ok = true; addTo(s, a, b.c); Form b0 = b; b0.c = 0; addTo(s, b0, a.c);
        for (auto& p : a.a) for (auto& q : b.a) { if (!s.ok) break; T bit = p.first == q.first ? p.first : G.And(p.first, q.first); i128 k; if (__builtin_mul_overflow(p.second, q.second, &k)) { s.ok = false; break; } if (G.isC(bit)) { if (G.C(bit)) { if (!mac(s.c, k, 1)) s.ok = false; } continue; } Form one; one.ok = true; one.a[bit] = 1; addTo(s, one, k); }
        if (s.ok && s.a.size() <= LIM) { Form o; if (cut(s, 0, m.w, o)) f = o; }
        break; }
      case O_NOT: { Form q = go(G.kid(t, 0)); if (q.ok) { f.ok = true; f.c = (i128)Terms::msk(m.w); addTo(f, q, -1); } break; }
      case O_SEXT: { T x = G.kid(t, 0); Form q = go(x), s = go(G.extract(x, G.W(x) - 1, 1)); if (q.ok && s.ok) { f = q; addTo(f, s, ((i128)1 << m.w) - ((i128)1 << G.W(x))); } break; }
      default: break;
    }
    if (!f.ok && m.op != O_VAR && m.op != O_CONST && m.w <= 64) { Form q; if (table(t, q)) f = q; }
    if (!f.ok) { if (m.w == 1) { f.ok = true; f.a[t] = 1; } else if (m.w <= 64) f = atom(t); }
    if (f.a.size() > LIM) f.ok = false;
    memo[t] = f; return f;
  }
};
bool linearBits(T goal) {
  if (G.op(goal) == O_AND && G.W(goal) == 1) return linearBits(G.kid(goal, 0)) && linearBits(G.kid(goal, 1));
  if (G.op(goal) != O_EQ || G.W(G.kid(goal, 0)) > 64) return false;
  LinBits L; Form a = L.go(G.kid(goal, 0)), b = L.go(G.kid(goal, 1));
  if (!a.ok || !b.ok) return false;
  LinBits::addTo(a, b, -1); return a.ok && a.c == 0 && a.a.empty();
}
// ---------------------------------------------------------------- exclusive-or normal form
// A bit is written as constant + sum (mod 2) of functions of one byte of one variable each (truth tables) + opaque bits.
struct XorNF {
  typedef std::pair<T, unsigned> Grp; // variable, byte
  typedef std::vector<uint64_t> Tab;  // 256 bits
  struct F { bool c = false; std::map<Grp, Tab> tab; std::set<T> at; };
  std::unordered_map<T, F> memo; std::unordered_map<T, std::pair<int, Grp>> gm; std::map<std::pair<T, Grp>, std::vector<u128>> vals; LinBits L; size_t work = 0;
  static const size_t MAXW = 4000000;
  std::pair<int, Grp> group(T t) { // 0 constant, 1 one byte of one variable, 2 more
    auto it = gm.find(t); if (it != gm.end()) return it->second;
    Node m = G.n[t]; std::pair<int, Grp> r{0, Grp{0, 0}};
    if (m.op == O_CONST) ;
    else if (m.op == O_VAR) r = m.w <= 8 ? std::make_pair(1, Grp{t, 0}) : std::make_pair(2, Grp{0, 0});
    else if (m.op == O_EXTRACT && G.op(G.kid(t, 0)) == O_VAR && G.W(G.kid(t, 0)) > 8) { unsigned lo = (unsigned)m.c; r = lo / 8 == (lo + m.w - 1) / 8 ? std::make_pair(1, Grp{G.kid(t, 0), lo / 8}) : std::make_pair(2, Grp{0, 0}); }
    else if (m.op >= O_FADD) r.first = 2;
    else for (unsigned i = 0; i < m.nk && r.first < 2; i++) { auto q = group(G.kid(t, i)); if (q.first == 2) r = q; else if (q.first == 1) { if (r.first == 0) r = q; else if (r.second != q.second) r.first = 2; } }
    gm[t] = r; return r;
  }
  const std::vector<u128>& value(T t, const Grp& g) {
    auto key = std::make_pair(t, g); auto it = vals.find(key); if (it != vals.end()) return it->second;
    Node m = G.n[t]; std::vector<u128> v(256);
    if (m.op == O_CONST) { for (auto& x : v) x = m.c; }
    else if (m.op == O_VAR) { for (unsigned e = 0; e < 256; e++) v[e] = e & Terms::msk(m.w); }
    else if (m.op == O_EXTRACT && G.op(G.kid(t, 0)) == O_VAR && G.W(G.kid(t, 0)) > 8) { for (unsigned e = 0; e < 256; e++) v[e] = (e >> ((unsigned)m.c % 8)) & Terms::msk(m.w); }
    else { std::vector<const std::vector<u128>*> kv; std::vector<T> ks; for (unsigned i = 0; i < m.nk; i++) { T q = G.kid(t, i); ks.push_back(q); kv.push_back(&value(q, g)); }
      work += 256; unsigned e = 0; std::function<u128(T)> ev = [&](T q) -> u128 { for (unsigned i = 0; i < ks.size(); i++) if (ks[i] == q) return (*kv[i])[e]; return 0; };
      for (e = 0; e < 256; e++) v[e] = G.evalNode(t, ev) & Terms::msk(m.w); }
    return vals[key] = v;
  }
  static void add(F& r, const F& f) {
    r.c ^= f.c; for (auto& p : f.tab) { auto& x = r.tab[p.first]; if (x.empty()) x = p.second; else { bool z = true; for (int i = 0; i < 4; i++) { x[i] ^= p.second[i]; if (x[i]) z = false; } if (z) r.tab.erase(p.first); } }
    for (T a : f.at) { auto q = r.at.insert(a); if (!q.second) r.at.erase(q.first); }
  }
  const F& nf(T t) {
    auto it = memo.find(t); if (it != memo.end()) return it->second;
    F f; Node m = G.n[t]; auto g = group(t); bool done = true; work++;
    if (g.first == 1 && work < MAXW) { Tab b(4, 0); auto& v = value(t, g.second); f.c = v[0] & 1; bool z = true; for (unsigned e = 0; e < 256; e++) if ((v[e] & 1) != (v[0] & 1)) { b[e / 64] |= 1ull << (e % 64); z = false; } if (!z) f.tab[g.second] = b; }
    else if (m.op == O_CONST) f.c = m.c & 1;
    else if (work > MAXW) done = false;
    else if (m.op == O_NOT) { f = nf(G.kid(t, 0)); f.c ^= true; }
    else if (m.op == O_XOR || m.op == O_LIN) { if (m.op == O_LIN) f.c = m.c & 1; for (unsigned i = 0; i < m.nk; i++) if (m.op == O_XOR || (G.coefs[m.coff + i] & 1)) { F q = nf(G.kid(t, i)); add(f, q); } }
    else if (m.op == O_EQ && G.W(G.kid(t, 0)) == 1) { f = nf(G.kid(t, 0)); F q = nf(G.kid(t, 1)); add(f, q); f.c ^= true; }
    else if (m.op == O_ITE) { F a = nf(G.kid(t, 1)), b = nf(G.kid(t, 2)); F d = a; add(d, b); if (d.tab.empty() && d.at.empty()) { f = b; if (d.c) { F c = nf(G.kid(t, 0)); add(f, c); } } else done = false; }
    else if (m.op == O_EXTRACT && G.op(G.kid(t, 0)) != O_VAR && G.W(G.kid(t, 0)) <= 64) {
      if (L.work > 15000) L = LinBits();
      Form q = L.go(G.kid(t, 0)), lo; unsigned pos = (unsigned)m.c; done = false;
      if (q.ok) { // bit pos of c + sum a_i x_i, when the part below 2^pos cannot carry
        i128 P = (i128)1 << pos; auto fl = [&](i128 x) { i128 d = x / P; if (x % P < 0) d--; return d; };
        i128 k = fl(q.c); lo.c = q.c - k * P; F r; r.c = k & 1; std::vector<T> odd; for (auto& p : q.a) { i128 d = fl(p.second), e = p.second - d * P; if (e) lo.a[p.first] = e; if (d & 1) odd.push_back(p.first); }
        i128 a, b; LinBits::range(lo, a, b); if (a >= 0 && b < P && !(odd.size() == 1 && odd[0] == t)) { for (T x : odd) { F y = x == t ? F() : nf(x); if (x == t) { y.at.insert(t); } add(r, y); } f = r; done = true; }
      }
    }
    else done = false;
    if (!done) { f = F(); f.at.insert(t); }
    return memo[t] = f;
  }
};
bool xorNormal(T goal) {
  std::vector<T> st{goal}; XorNF X;
  while (!st.empty()) {
    T q = st.back(); st.pop_back();
    if (G.op(q) == O_AND && G.W(q) == 1) { st.push_back(G.kid(q, 0)); st.push_back(G.kid(q, 1)); continue; }
    if (G.isTrue(q)) continue;
    if (G.op(q) != O_EQ) return false;
    T a = G.kid(q, 0), b = G.kid(q, 1);
    for (unsigned i = 0; i < G.W(a); i++) { XorNF::F f = X.nf(G.extract(a, i, 1)), g = X.nf(G.extract(b, i, 1)); XorNF::add(f, g); if (f.c || !f.tab.empty() || !f.at.empty()) return false; }
  }
  return true;
}
// ---------------------------------------------------------------- minimum and maximum are associative, commutative and idempotent
// kind: 0 unsigned min, 1 unsigned max, 2 signed min, 3 signed max.  Terms are numbered so that equal numbers mean equal values.
struct MinMaxNF {
  struct Cls { int kind = -1; std::set<int> leaves; T rep = 0; };
  std::vector<Cls> cls; std::map<std::pair<int, std::set<int>>, int> nodes; std::unordered_map<T, int> memo; size_t work = 0;
  int opaque(T t) { Cls c; c.rep = t; cls.push_back(c); return (int)cls.size() - 1; }
  int mk(int kind, int a, int b, T rep) {
    std::set<int> l; unsigned w = G.W(rep); u128 m = Terms::msk(w), s = (u128)1 << (w - 1), id = kind == 0 ? m : kind == 1 ? 0 : kind == 2 ? m >> 1 : s;
    for (int x : {a, b}) { if (cls[x].kind == kind) l.insert(cls[x].leaves.begin(), cls[x].leaves.end()); else if (!G.isC(cls[x].rep, id)) l.insert(x); }
    if (l.size() == 1) return *l.begin();
    if (l.empty()) return a;
    auto it = nodes.find({kind, l}); if (it != nodes.end()) return it->second;
    Cls c; c.kind = kind; c.leaves = l; c.rep = rep; cls.push_back(c); return nodes[{kind, l}] = (int)cls.size() - 1;
  }
  int inv(int a, u128 c, unsigned w) { // class of value ^ c, for c = all ones or the sign bit or both
    if (cls[a].kind < 0) return id(G.Xor(cls[a].rep, G.k(c, w)));
    u128 m = Terms::msk(w), s = (u128)1 << (w - 1); bool sg = c == s || c == (m ^ s), rev = c == m || c == (m ^ s); int k = cls[a].kind; if (sg) k ^= 2; if (rev) k ^= 1;
    std::set<int> l = cls[a].leaves; int r = -1; T rep = G.Xor(cls[a].rep, G.k(c, w)); for (int x : l) { int y = inv(x, c, w); r = r < 0 ? y : mk(k, r, y, rep); }
    return r;
  }
  int widen(int a, unsigned w, bool sg) { // class of the sign (zero) extension to w bits; -1 if unknown
    if (cls[a].kind < 0) { T t = cls[a].rep; return id(sg ? G.sext(t, w) : G.zext(t, w)); }
    int k = cls[a].kind, r = -1; if ((k >= 2) != sg) return -1;
    std::set<int> lv = cls[a].leaves; T rep = sg ? G.sext(cls[a].rep, w) : G.zext(cls[a].rep, w); for (int x : lv) { int y = widen(x, w, sg); if (y < 0) return -1; r = r < 0 ? y : mk(k, r, y, rep); }
    return r;
  }
  int narrow(int a, unsigned w, bool sg) { // class of the low w bits, provided that the value is their sign (zero) extension; -1 otherwise
    if (cls[a].kind < 0) { T t = cls[a].rep, l = G.trunc(t, w); if ((sg ? G.sext(l, G.W(t)) : G.zext(l, G.W(t))) != t) return -1; return id(l); }
    int k = cls[a].kind, r = -1; if ((k >= 2) != sg) return -1;
    std::set<int> lv = cls[a].leaves; T rep = G.trunc(cls[a].rep, w); for (int x : lv) { int y = narrow(x, w, sg); if (y < 0) return -1; r = r < 0 ? y : mk(k, r, y, rep); }
    return r;
  }
  int id(T t) {
    auto it = memo.find(t); if (it != memo.end()) return it->second;
    int r = -1; Node n = G.n[t]; if (++work > 20000) return memo[t] = opaque(t);
    if (n.op == O_NOT && n.w > 1) { T q = G.kid(t, 0); int a = id(q); if (cls[a].kind >= 0) r = inv(a, Terms::msk(n.w), n.w); }
    else if (n.op == O_ITE && n.w > 1) {
      T c = G.kid(t, 0); bool neg = false; if (G.op(c) == O_NOT) { neg = true; c = G.kid(c, 0); }
      bool cmp = G.op(c) == O_ULT || G.op(c) == O_SLT; int p = -1, q = -1;
      if (cmp) { p = id(G.kid(c, 0)); q = id(G.kid(c, 1)); if (G.W(G.kid(c, 0)) > n.w) { p = narrow(p, n.w, G.op(c) == O_SLT); q = narrow(q, n.w, G.op(c) == O_SLT); } else if (G.W(G.kid(c, 0)) < n.w) { p = widen(p, n.w, G.op(c) == O_SLT); q = widen(q, n.w, G.op(c) == O_SLT); } }
      if (p >= 0 && q >= 0) {
        int base = G.op(c) == O_SLT ? 2 : 0, x = id(G.kid(t, 1)), y = id(G.kid(t, 2)); u128 m = Terms::msk(n.w), sg = (u128)1 << (n.w - 1);
        for (int v = 0; v < 4 && r < 0; v++) { u128 k = (v & 1 ? m : 0) ^ (v & 2 ? sg : 0); int pc = p, qc = q, kd = base; if (k) { if (v > 0 && work > 5000) break; pc = inv(p, k, n.w); qc = inv(q, k, n.w); } if (v & 1) kd ^= 1; if (v & 2) kd ^= 2;
          if (x == pc && y == qc) r = mk(kd ^ (neg ? 1 : 0), x, y, t); else if (x == qc && y == pc) r = mk(kd ^ (neg ? 0 : 1), x, y, t); }
      }
    }
    if (r < 0) r = opaque(t);
    return memo[t] = r;
  }
};
bool minMaxEqual(T goal) {
  if (G.op(goal) == O_AND && G.W(goal) == 1) return minMaxEqual(G.kid(goal, 0)) && minMaxEqual(G.kid(goal, 1));
  if (G.isTrue(goal)) return true;
  if (G.op(goal) != O_EQ) return false;
  T a = G.kid(goal, 0), b = G.kid(goal, 1); if (G.op(a) != O_ITE && G.op(a) != O_NOT && G.op(b) != O_ITE && G.op(b) != O_NOT) return false;
  MinMaxNF N; return N.id(a) == N.id(b);
}
// selftest: the normal form of a bit has the value of the bit
bool xorFormAgrees(T t, const std::function<u128(T)>& ev) {
  XorNF X; XorNF::F f = X.nf(t); bool v = f.c; for (T a : f.at) v ^= ev(a) & 1; for (auto& p : f.tab) { unsigned e = (unsigned)((ev(p.first.first) >> (p.first.second * 8)) & 255); v ^= (p.second[e / 64] >> (e % 64)) & 1; }
  return v == (bool)(ev(t) & 1);
}
// selftest: the linear form of t, when there is one, has the value of t
bool linearFormAgrees(T t, const std::function<u128(T)>& ev, bool& has) {
  LinBits L; Form f = L.go(t); has = f.ok; if (!f.ok) return true;
  i128 v = f.c; for (auto& p : f.a) if (ev(p.first)) v += p.second; return v == (i128)ev(t);
}
std::map<uint32_t, SplitHint> gSplits;
// the cases of a split of variable v: replacement terms that together cover every value of v
void splitCases(T v, const SplitHint& h, bool hiZero, std::vector<T>& out) {
  unsigned w = G.W(v);
  if (h.kind == 0) { unsigned lb = 0; while (((uint64_t)1 << lb) < h.k) lb++; if (lb > w) lb = w;
    for (uint64_t i = 0; i < ((uint64_t)1 << lb); i++) out.push_back(lb == w ? G.k(i, w) : G.concat2(hiZero ? G.k(0, w - lb) : G.extract(v, lb, w - lb), G.k(i, lb))); return; }
  out.push_back(G.k(0, w));
  for (unsigned p = 0; p < w; p++) {
    std::vector<T> pc;
    if (h.kind == 1) { if (p) pc.push_back(G.extract(v, 0, p)); pc.push_back(G.k(1, 1)); if (p + 1 < w) pc.push_back(G.k(0, w - 1 - p)); }
    else { if (p) pc.push_back(G.k(0, p)); pc.push_back(G.k(1, 1)); if (p + 1 < w) pc.push_back(G.extract(v, p + 1, w - 1 - p)); }
    out.push_back(G.concat(pc));
  }
}
