#include <unordered_set>
#include "exec.h"
#include "tactics.h"
#include <llvm/IR/IntrinsicsX86.h>
#include <cstdarg>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
static std::string sfmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, 512, f, a); va_end(a); return b; }

Exec::Exec(Module* m) : M(m), DL(&m->getDataLayout()) {}
void Exec::reset() { gSplits.clear(); obls.clear(); inputs.clear(); regions.clear(); ambient.clear(); cands.clear(); cutFns.clear(); replace.clear(); undefCount = 0; steps = 0; notes.clear(); liveRegionObjs.clear(); loopsCut = loopInvs = 0; onRegionRead = nullptr; bmcBound = 0; }
FnInfo& Exec::info(const Function* F) {
  auto& p = finfo[F];
  if (!p) {
    p = std::make_unique<FnInfo>(); Function& f = *const_cast<Function*>(F);
    p->DT = std::make_unique<DominatorTree>(f); p->PDT = std::make_unique<PostDominatorTree>(f); p->LI = std::make_unique<LoopInfo>(*p->DT);
  }
  return *p;
}
unsigned Exec::leaves(Type* t) {
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
  if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : s->elements()) n += leaves(e); return n; }
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * leaves(a->getElementType());
  if (t->isVoidTy()) return 0;
  return 1;
}
static Type* leafType(Type* t, unsigned i, Exec& E) {
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getElementType();
  if (auto* s = dyn_cast<StructType>(t)) { for (auto* e : s->elements()) { unsigned n = E.leaves(e); if (i < n) return leafType(e, i, E); i -= n; } abort(); }
  if (auto* a = dyn_cast<ArrayType>(t)) { unsigned n = E.leaves(a->getElementType()); return leafType(a->getElementType(), i % n, E); }
  return t;
}
T Exec::undef(unsigned w, const char* why) { return G.var(sfmt("%s%u", why, undefCount++), w); }

// ---------------------------------------------------------------- memory
int Exec::newObj(State& S, uint64_t size, unsigned align, const std::string& name) {
  int id = nextObj++;
  auto o = std::make_shared<Obj>(); o->size = size; o->name = name;
  unsigned ab = 0; while ((1u << (ab + 1)) <= align) ab++;
  o->base = G.var("&" + name, 64, ab, id);
  S.mem[id] = o; objName[id] = name;
  return id;
}
void Exec::initGlobal(Obj& o, uint64_t off, const Constant* c, State& S) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) {
    uint64_t n = DL->getTypeStoreSize(t); uint64_t p = 0;
    if (n > 4096) { o.zeroInit = true; return; }
    unsigned step = 8; if (t->isArrayTy() || t->isVectorTy()) { Type* e = leafType(t, 0, *this); step = std::max<unsigned>(1, DL->getTypeStoreSize(e)); if (step > 8) step = 8; }
    while (p < n) { unsigned k = std::min<uint64_t>(step, n - p); o.ch[off + p] = {G.k(0, k * 8), k}; p += k; }
    return;
  }
  if (isa<UndefValue>(c)) return;
  if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initGlobal(o, off + sl->getElementOffset(i), s->getOperand(i), S); return; }
  if (auto* a = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initGlobal(o, off + i * es, a->getOperand(i), S); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = d->getElementByteSize();
    for (unsigned i = 0; i < d->getNumElements(); i++) {
      uint64_t v; if (d->getElementType()->isIntegerTy()) v = d->getElementAsInteger(i); else v = d->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
      o.ch[off + i * es] = {G.k(v, es * 8), (uint32_t)es};
    }
    return;
  }
  Val v = constant(c, S);
  uint64_t p = off;
  for (unsigned i = 0; i < v.size(); i++) { uint32_t n = (G.W(v[i]) + 7) / 8; o.ch[p] = {G.zext(v[i], n * 8), n}; p += n; }
}
int Exec::globalObj(const GlobalValue* g, State& S) {
  auto it = gobj.find(g);
  int id;
  if (it == gobj.end()) {
    id = nextObj++; gobj[g] = id;
    unsigned al = 1;
    if (auto* gv = dyn_cast<GlobalVariable>(g)) { al = gv->getAlign() ? gv->getAlign()->value() : 1; }
    else al = 16;
    unsigned ab = 0; while ((1u << (ab + 1)) <= al) ab++;
    T base = G.var("&" + g->getName().str(), 64, ab, id);
    objName[id] = g->getName().str();
    if (isa<Function>(g)) objFn[id] = cast<Function>(g);
    (void)base;
  } else id = it->second;
  if (!S.mem.count(id)) {
    auto o = std::make_shared<Obj>(); o->name = objName[id];
    // find base var
    static std::unordered_map<int, T> baseOf; // id -> base
    auto b = baseOf.find(id);
    if (b == baseOf.end()) { for (size_t i = G.vars.size(); i-- > 0;) if (G.vars[i].obj == id) { baseOf[id] = G.varTerm[i]; break; } b = baseOf.find(id); }
    o->base = b->second;
    if (auto* gv = dyn_cast<GlobalVariable>(g)) {
      o->size = DL->getTypeAllocSize(gv->getValueType()); o->readonly = gv->isConstant();
      S.mem[id] = o;
      if (gv->hasInitializer()) initGlobal(*o, 0, gv->getInitializer(), S);
    } else S.mem[id] = o;
  }
  return id;
}
static bool hasBase(T t, std::unordered_map<T, bool>& memo) {
  auto it = memo.find(t); if (it != memo.end()) return it->second;
  bool r = false; Node m = G.n[t];
  if (m.op == O_VAR) r = G.vars[(size_t)m.c].obj >= 0;
  else if (m.op == O_LIN || m.op == O_ITE) for (unsigned i = (m.op == O_ITE); i < m.nk && !r; i++) r = hasBase(G.kid(t, i), memo);
  memo[t] = r; return r;
}
// (base + x) rounded down to a power of two that divides the alignment of the object at `base`: base + (x rounded down)
static T normPtr(T p) {
  Node m = G.n[p]; std::vector<T> cand;
  if (m.op == O_CONCAT) cand.push_back(p);
  if (m.op == O_LIN) for (unsigned i = 0; i < m.nk; i++) { T q = G.kid(p, i); if (G.op(q) == O_VAR && G.vars[(size_t)G.n[q].c].obj >= 0) return p; if (G.coefs[m.coff + i] == 1 && G.op(q) == O_CONCAT) cand.push_back(q); }
  for (T q : cand) {
    T lo = G.kid(q, 0); unsigned z = G.W(lo);
    T hi = G.extract(q, z, 64 - z); T base = 0; bool many = false; std::unordered_set<T> seen; std::vector<T> st{hi};
    while (!st.empty()) { T x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (G.op(x) == O_VAR) { if (G.vars[(size_t)G.n[x].c].obj >= 0) { if (base && base != x) many = true; base = x; } continue; } for (unsigned i = 0; i < G.n[x].nk; i++) st.push_back(G.kid(x, i)); }
    if (!base || many || G.tz(base) < z) continue;
    T d = G.sub(hi, G.extract(base, z, 64 - z)); seen.clear(); st = {d}; bool left = false;
    while (!st.empty() && !left) { T x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x == base) left = true; for (unsigned i = 0; i < G.n[x].nk; i++) st.push_back(G.kid(x, i)); }
    if (left) continue;
    return G.add(G.add(G.sub(p, q), base), G.concat({lo, d}));
  }
  return p;
}
void Exec::decompose(T p, std::vector<std::pair<T, std::pair<int, T>>>& out, T guard, State& S) {
  Node m = G.n[p];
  if (m.op == O_VAR && G.vars[(size_t)m.c].obj >= 0) { out.push_back({guard, {G.vars[(size_t)m.c].obj, G.k(0, 64)}}); return; }
  std::unordered_map<T, bool> memo;
  if (m.op == O_ITE && hasBase(p, memo)) {
    T c = G.kid(p, 0), a = G.kid(p, 1), b = G.kid(p, 2);
    T g1 = G.And(guard, c), g2 = G.And(guard, G.Not(c));
    if (!G.isFalse(g1)) decompose(a, out, g1, S);
    if (!G.isFalse(g2)) decompose(b, out, g2, S);
    return;
  }
  if (m.op == O_LIN) {
    int found = -1; T bt = 0;
    for (unsigned i = 0; i < m.nk; i++) {
      T q = G.kid(p, i);
      if (G.op(q) == O_VAR && G.vars[(size_t)G.n[q].c].obj >= 0 && G.coefs[m.coff + i] == 1) { if (found >= 0) { found = -2; break; } found = G.vars[(size_t)G.n[q].c].obj; bt = q; }
    }
    if (found >= 0) { out.push_back({guard, {found, G.sub(p, bt)}}); return; }
    if (found == -1) for (unsigned i = 0; i < m.nk; i++) {
      T q = G.kid(p, i);
      if (G.op(q) == O_ITE && G.coefs[m.coff + i] == 1 && hasBase(q, memo)) {
        T rest = G.sub(p, q);
        T c = G.kid(q, 0), a = G.kid(q, 1), b = G.kid(q, 2);
        T g1 = G.And(guard, c), g2 = G.And(guard, G.Not(c));
        if (!G.isFalse(g1)) decompose(G.add(a, rest), out, g1, S);
        if (!G.isFalse(g2)) decompose(G.add(b, rest), out, g2, S);
        return;
      }
    }
  }
  out.push_back({guard, {-1, p}});
}
void Exec::oblig(State& S, T goal, const std::string& label) {
  if (G.isFalse(S.pc)) return;
  obls.push_back({S.pc, goal, label});
}
T Exec::objRead(State& S, int id, uint64_t off, unsigned n) {
  Obj* o = S.mem[id].get();
  auto it = o->ch.find(off);
  if (it != o->ch.end() && it->second.n == n) return it->second.t;
  std::vector<T> parts; uint64_t pos = off, end = off + n;
  while (pos < end) {
    o = S.mem[id].get();
    auto u = o->ch.upper_bound(pos);
    bool got = false;
    if (u != o->ch.begin()) {
      auto p = std::prev(u);
      if (p->first + p->second.n > pos) {
        uint64_t e = std::min(end, p->first + p->second.n);
        parts.push_back(G.extract(p->second.t, (pos - p->first) * 8, (e - pos) * 8)); pos = e; got = true;
      }
    }
    if (!got) {
      uint64_t e = u == o->ch.end() ? end : std::min(end, u->first);
      uint32_t k = std::min<uint64_t>(e - pos, 16);
      Obj* w = S.wr(id);
      T v = w->zeroInit ? G.k(0, k * 8) : undef(k * 8, "uninit");
      w->ch[pos] = {v, k}; parts.push_back(v); pos += k;
    }
  }
  return G.concat(parts);
}
void Exec::objWrite(State& S, int id, uint64_t off, T val, unsigned n) {
  Obj* o = S.wr(id); uint64_t end = off + n;
  auto it = o->ch.find(off);
  if (it != o->ch.end() && it->second.n == n) { it->second.t = val; return; }
  auto u = o->ch.lower_bound(off);
  if (u != o->ch.begin()) {
    auto p = std::prev(u);
    if (p->first + p->second.n > off) {
      Chunk c = p->second; uint64_t ps = p->first, pe = ps + c.n;
      p->second = {G.extract(c.t, 0, (off - ps) * 8), (uint32_t)(off - ps)};
      if (pe > end) o->ch[end] = {G.extract(c.t, (end - ps) * 8, (pe - end) * 8), (uint32_t)(pe - end)};
    }
  }
  u = o->ch.lower_bound(off);
  while (u != o->ch.end() && u->first < end) {
    Chunk c = u->second; uint64_t s = u->first, e = s + c.n;
    u = o->ch.erase(u);
    if (e > end) { o->ch[end] = {G.extract(c.t, (end - s) * 8, (e - end) * 8), (uint32_t)(e - end)}; break; }
  }
  o->ch[off] = {val, n};
}
static T regValue(const Obj* o, T off) {
  T r = o->mc ? G.ite(o->mc, regValue(o->ma.get(), off), regValue(o->mb.get(), off)) : G.uf(o->uf, o->es * 8, {off});
  for (auto& w : o->log) { T c = G.And(w.guard, G.eq(off, w.off)); r = G.ite(c, w.val, r); }
  return r;
}
static void regAligned(Exec& E, State& S, const Obj* o, T off) { // regions are arrays of elements: every access starts at an element
  unsigned a = __builtin_ctz(o->es); if (G.tz(off) < a) E.oblig(S, G.eq(G.extract(off, 0, a), G.k(0, a)), "memory: element-aligned access to " + o->name);
}
T Exec::regRead(State& S, int id, T off, unsigned n) {
  ObjP op = S.mem[id]; Obj* o = op.get();
  if (n == o->es) {
    regAligned(*this, S, o, off);
    if (auto h = onRegionRead) h(off, id);
    return regValue(o, off);
  }
  if (n % o->es == 0) { std::vector<T> v; for (unsigned j = 0; j < n; j += o->es) v.push_back(regRead(S, id, G.add(off, G.k(j, 64)), o->es)); return G.concat(v); }
  if (o->es % n == 0) { // sub-element read at constant residue
    T c = G.extract(off, 0, __builtin_ctz(o->es));
    if (G.isC(c)) { unsigned r = (unsigned)G.C(c); T e = regRead(S, id, G.sub(off, G.k(r, 64)), o->es); return G.extract(e, r * 8, n * 8); }
  }
  throw Unsupported("region sub-element read");
}
// Enumerate candidate offsets for a symbolic offset in a fixed-size object
struct Cand { T sel; uint64_t c; unsigned stride; unsigned bits; };
static bool offCands(Exec& E, State& S, T off, uint64_t size, unsigned n, Cand& r) {
  uint64_t c = 0; T o2 = off;
  Node m = G.n[off];
  if (m.op == O_LIN && m.c && m.c < size) { c = (uint64_t)m.c; o2 = G.sub(off, G.k(c, 64)); }
  unsigned z = std::min(G.tz(o2), 12u);
  u128 mx = std::min<u128>(G.umax(o2), size);
  uint64_t cnt = (uint64_t)(mx >> z) + 1; unsigned bits = 0; while ((1ull << bits) < cnt) bits++;
  if (bits > 13) return false;
  r.sel = bits ? G.extract(o2, z, bits) : 0; r.c = c; r.stride = 1u << z; r.bits = bits;
  if (z + bits < 64) E.oblig(S, G.eq(G.extract(o2, z + bits, 64 - z - bits), G.k(0, 64 - z - bits)), "memory: offset in object range");
  return true;
}
T Exec::loadBytes(State& S, T ptr, unsigned n, const char* what) {
  std::vector<std::pair<T, std::pair<int, T>>> tg;
  decompose(ptr, tg, G.tru(), S);
  T res = 0;
  for (size_t i = tg.size(); i-- > 0;) {
    T g = tg[i].first; int id = tg[i].second.first; T off = tg[i].second.second;
    T v;
    if (id < 0 || !S.mem.count(id) || S.mem[id]->freed || objFn.count(id)) {
      oblig(S, G.Not(g), std::string("memory: invalid pointer in load ") + what);
      if (getenv("DV_TRACE")) fprintf(stderr, "bad ptr %s\n", G.str(ptr).c_str());
      v = undef(n * 8, "badload");
    } else {
      Obj* o = S.mem[id].get();
      if (o->region) {
        T ok = G.And(G.ule(G.k(n, 64), o->sizeT), G.ule(off, G.sub(o->sizeT, G.k(n, 64))));
        oblig(S, G.Or(G.Not(g), ok), "memory: load within " + o->name);
        v = regRead(S, id, off, n);
      } else if (G.isC(off)) {
        u128 c = G.C(off);
        if (c + n > o->size) { oblig(S, G.Not(g), "memory: load within " + o->name); v = undef(n * 8, "oob"); }
        else v = objRead(S, id, (uint64_t)c, n);
      } else {
        if (o->size < n) { oblig(S, G.Not(g), "memory: load within " + o->name); v = undef(n * 8, "oob"); }
        else {
        oblig(S, G.Or(G.Not(g), G.ule(off, G.k(o->size - n, 64))), "memory: load within " + o->name);
        Cand cd; State S2g = S; S2g.pc = G.And(S.pc, g);
        uint64_t size = o->size;
        if (!offCands(*this, S2g, off, size, n, cd)) throw Unsupported("symbolic offset load with too many candidates in " + o->name + " off=" + G.str(off));
        std::function<T(int, uint64_t)> rec = [&](int bit, uint64_t idx) -> T {
          if (bit < 0) { uint64_t a = idx * cd.stride + cd.c; if (a + n > size) a = size - n; return objRead(S, id, a, n); }
          T b = G.extract(cd.sel, bit, 1);
          uint64_t hi = (idx << 1) | 1;
          if (((hi << bit) * cd.stride + cd.c + n) > size) return rec(bit - 1, idx << 1); // high half out of range
          return G.ite(b, rec(bit - 1, hi), rec(bit - 1, idx << 1));
        };
        v = rec((int)cd.bits - 1, 0);
        }
      }
    }
    res = res ? G.ite(g, v, res) : v;
  }
  return res;
}
void Exec::storeBytes(State& S, T ptr, T val, unsigned n, const char* what) {
  std::vector<std::pair<T, std::pair<int, T>>> tg;
  decompose(ptr, tg, G.tru(), S);
  for (auto& e : tg) {
    T g = e.first; int id = e.second.first; T off = e.second.second;
    if (id < 0 || !S.mem.count(id) || S.mem[id]->freed || S.mem[id]->readonly || objFn.count(id)) {
      if (getenv("DV_TRACE")) fprintf(stderr, "bad store ptr %s\n", G.str(ptr).c_str());
      oblig(S, G.Not(g), std::string("memory: invalid pointer in store ") + what); continue; }
    Obj* o = S.mem[id].get();
    if (o->region) {
      T ok = G.And(G.ule(G.k(n, 64), o->sizeT), G.ule(off, G.sub(o->sizeT, G.k(n, 64))));
      oblig(S, G.Or(G.Not(g), ok), "memory: store within " + o->name);
      o = S.wr(id);
      if (n % o->es == 0) { regAligned(*this, S, o, off); for (unsigned j = 0; j < n; j += o->es) o->log.push_back({g, G.add(off, G.k(j, 64)), G.extract(val, j * 8, o->es * 8), o->es}); }
      else if (o->es % n == 0) {
        T c = G.extract(off, 0, __builtin_ctz(o->es)); if (!G.isC(c)) throw Unsupported("region sub-element store");
        unsigned r = (unsigned)G.C(c); T eo = G.sub(off, G.k(r, 64)); T old = regRead(S, id, eo, o->es); o = S.wr(id);
        std::vector<T> pc; if (r) pc.push_back(G.extract(old, 0, r * 8)); pc.push_back(val); if (r + n < o->es) pc.push_back(G.extract(old, (r + n) * 8, (o->es - r - n) * 8));
        o->log.push_back({g, eo, G.concat(pc), o->es});
      } else throw Unsupported("region store size");
    } else if (G.isC(off)) {
      u128 c = G.C(off);
      if (c + n > o->size) { oblig(S, G.Not(g), "memory: store within " + o->name); continue; }
      T v = val; if (!G.isTrue(g)) v = G.ite(g, val, objRead(S, id, (uint64_t)c, n));
      objWrite(S, id, (uint64_t)c, v, n);
    } else {
      if (o->size < n) { oblig(S, G.Not(g), "memory: store within " + o->name); continue; }
      oblig(S, G.Or(G.Not(g), G.ule(off, G.k(o->size - n, 64))), "memory: store within " + o->name);
      Cand cd; State S2g = S; S2g.pc = G.And(S.pc, g); uint64_t size = o->size;
      if (!offCands(*this, S2g, off, size, n, cd)) throw Unsupported("symbolic offset store with too many candidates in " + o->name);
      // A store at a candidate offset may overlap other candidates when stride < n: write bytewise
      unsigned st = cd.stride; 
      for (uint64_t i = 0; i < (1ull << cd.bits); i++) {
        uint64_t a = i * st + cd.c; if (a + n > size) break;
        T c = G.And(g, cd.bits ? G.eq(cd.sel, G.k(i, cd.bits)) : G.tru());
        if (G.isFalse(c)) continue;
        if (st >= n) objWrite(S, id, a, G.ite(c, val, objRead(S, id, a, n)), n);
        else for (unsigned j = 0; j < n; j += st) { unsigned kx = std::min(st, n - j); objWrite(S, id, a + j, G.ite(c, G.extract(val, j * 8, kx * 8), objRead(S, id, a + j, kx)), kx); }
      }
    }
  }
}
void Exec::loadVal(State& S, T ptr, Type* t, Val& out) {
  if (auto* v = dyn_cast<FixedVectorType>(t)) {
    unsigned w = leafWidth(v->getElementType()), n = v->getNumElements();
    if (w % 8 == 0) { for (unsigned i = 0; i < n; i++) out.push_back(loadBytes(S, G.add(ptr, G.k(i * (w / 8), 64)), w / 8, "vec")); }
    else { unsigned tb = (w * n + 7) / 8; T x = loadBytes(S, ptr, tb, "bits"); for (unsigned i = 0; i < n; i++) out.push_back(G.extract(x, i * w, w)); }
    return;
  }
  if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) loadVal(S, G.add(ptr, G.k(sl->getElementOffset(i).getFixedValue(), 64)), s->getElementType(i), out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) loadVal(S, G.add(ptr, G.k(i * es, 64)), a->getElementType(), out); return; }
  unsigned w = leafWidth(t), nb = DL->getTypeStoreSize(t).getFixedValue();
  T x = loadBytes(S, ptr, nb, "scalar");
  out.push_back(G.trunc(x, w));
}
void Exec::storeVal(State& S, T ptr, Type* t, const Val& v) {
  unsigned pos = 0;
  std::function<void(T, Type*)> rec = [&](T p, Type* ty) {
    if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
      unsigned w = leafWidth(vt->getElementType()), n = vt->getNumElements();
      if (w % 8 == 0) { for (unsigned i = 0; i < n; i++) storeBytes(S, G.add(p, G.k(i * (w / 8), 64)), v[pos++], w / 8, "vec"); }
      else { std::vector<T> b; for (unsigned i = 0; i < n; i++) b.push_back(v[pos++]); T x = G.concat(b); unsigned tb = (w * n + 7) / 8; storeBytes(S, p, G.zext(x, tb * 8), tb, "bits"); }
      return;
    }
    if (auto* s = dyn_cast<StructType>(ty)) { auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) rec(G.add(p, G.k(sl->getElementOffset(i).getFixedValue(), 64)), s->getElementType(i)); return; }
    if (auto* a = dyn_cast<ArrayType>(ty)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) rec(G.add(p, G.k(i * es, 64)), a->getElementType()); return; }
    unsigned nb = DL->getTypeStoreSize(ty).getFixedValue();
    storeBytes(S, p, G.zext(v[pos++], nb * 8), nb, "scalar");
  };
  rec(ptr, t);
}
void Exec::memcpySym(State& S, T dst, T src, T n, bool) {
  if (G.isC(n)) {
    uint64_t N = (uint64_t)G.C(n); if (!N) return;
    // copy chunk-wise following the source's chunk structure when the source is a plain object
    std::vector<std::pair<T, std::pair<int, T>>> tg; decompose(src, tg, G.tru(), S);
    std::vector<unsigned> sizes;
    if (tg.size() == 1 && tg[0].second.first >= 0 && S.mem.count(tg[0].second.first) && G.isC(tg[0].second.second)) {
      Obj* o = S.mem[tg[0].second.first].get(); uint64_t off = (uint64_t)G.C(tg[0].second.second);
      if (o->region) { for (uint64_t p = 0; p < N; p += o->es) sizes.push_back(std::min<uint64_t>(o->es, N - p)); }
      else {
        uint64_t p = 0;
        while (p < N) {
          auto u = o->ch.upper_bound(off + p); uint64_t e = off + N; unsigned k = 8;
          if (u != o->ch.begin()) { auto q = std::prev(u); if (q->first + q->second.n > off + p) k = q->first + q->second.n - (off + p); else if (u != o->ch.end()) k = std::min<uint64_t>(8, u->first - off - p); }
          else if (u != o->ch.end()) k = std::min<uint64_t>(8, u->first - off - p);
          k = std::min<uint64_t>(k, e - off - p); if (!k) k = 1;
          sizes.push_back(k); p += k;
        }
      }
    } else {
      unsigned step = 8;
      std::vector<std::pair<T, std::pair<int, T>>> td; decompose(dst, td, G.tru(), S);
      for (auto& q : {tg, td}) for (auto& e : q) { int id = e.second.first; if (id >= 0 && S.mem.count(id) && S.mem[id]->region) step = S.mem[id]->es; }
      if (N > 65536) throw Unsupported("huge memcpy");
      for (uint64_t p = 0; p < N; p += step) sizes.push_back(std::min<uint64_t>(step, N - p));
    }
    std::vector<T> vals; uint64_t p = 0;
    for (unsigned k : sizes) { vals.push_back(loadBytes(S, G.add(src, G.k(p, 64)), k, "memcpy")); p += k; }
    p = 0;
    for (size_t i = 0; i < sizes.size(); i++) { storeBytes(S, G.add(dst, G.k(p, 64)), vals[i], sizes[i], "memcpy"); p += sizes[i]; }
    return;
  }
  // symbolic length, bounded: guarded byte copies
  u128 mx = G.umax(n);
  uint64_t lim = 0; 
  std::vector<std::pair<T, std::pair<int, T>>> tg; decompose(src, tg, G.tru(), S); decompose(dst, tg, G.tru(), S);
  uint64_t cap = (uint64_t)std::min<u128>(mx, 4096); unsigned gran = 1u << std::min(3u, G.tz(n));
  for (auto& e : tg) { int id = e.second.first; if (id >= 0 && S.mem.count(id)) { if (!S.mem[id]->region) cap = std::min<uint64_t>(cap, S.mem[id]->size); else gran = std::min<unsigned>(gran, S.mem[id]->es); } }
  if (cap > 1024) throw Unsupported("memcpy with unbounded symbolic length");
  lim = cap;
  oblig(S, G.ule(n, G.k(cap, 64)), "memory: memcpy length within object");
  std::vector<T> vals;
  T pc0 = S.pc;
  std::vector<T> guards;
  for (uint64_t p = 0; p < lim; p += gran) guards.push_back(G.ult(G.k(p, 64), n));
  for (uint64_t p = 0, i = 0; p < lim; p += gran, i++) { S.pc = G.And(pc0, guards[i]); if (G.isFalse(S.pc)) { vals.push_back(0); continue; } vals.push_back(loadBytes(S, G.add(src, G.k(p, 64)), gran, "memcpy")); }
  for (uint64_t p = 0, i = 0; p < lim; p += gran, i++) { if (!vals[i]) continue; S.pc = G.And(pc0, guards[i]); T d = G.add(dst, G.k(p, 64)); storeBytes(S, G.isTrue(guards[i]) ? d : d, G.ite(guards[i], vals[i], ({ T old; std::vector<Obligation> sv = obls; old = loadBytes(S, d, gran, "memcpy-old"); obls = sv; old; })), gran, "memcpy"); }
  S.pc = pc0;
}
std::string Exec::readStr(State& S, T ptr) {
  std::string s;
  for (unsigned i = 0; i < 300; i++) { T b = loadBytes(S, G.add(ptr, G.k(i, 64)), 1, "str"); if (!G.isC(b)) throw Unsupported("symbolic string"); char c = (char)G.C(b); if (!c) break; s += c; }
  return s;
}
// ---------------------------------------------------------------- constants
Val Exec::constant(const Constant* c, State& S) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { Val r; for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(G.k(ci->getZExtValue(), leafWidth(vt->getElementType()))); return r; }
    const APInt& a = ci->getValue(); unsigned w = a.getBitWidth();
    u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
    return {G.k(v, w)};
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return {G.k(v, a.getBitWidth())}; }
  if (isa<ConstantPointerNull>(c)) return {G.k(0, 64)};
  if (isa<UndefValue>(c)) { Val r; unsigned n = leaves(t); for (unsigned i = 0; i < n; i++) r.push_back(undef(leafWidth(leafType(t, i, *this)), "undef")); return r; }
  if (isa<ConstantAggregateZero>(c)) { Val r; unsigned n = leaves(t); for (unsigned i = 0; i < n; i++) r.push_back(G.k(0, leafWidth(leafType(t, i, *this)))); return r; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
    Val r;
    for (unsigned i = 0; i < d->getNumElements(); i++) { uint64_t v; if (d->getElementType()->isIntegerTy()) v = d->getElementAsInteger(i); else v = d->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(); r.push_back(G.k(v, d->getElementByteSize() * 8)); }
    return r;
  }
  if (isa<ConstantAggregate>(c)) { Val r; for (unsigned i = 0; i < c->getNumOperands(); i++) { Val q = constant(cast<Constant>(c->getOperand(i)), S); r.append(q.begin(), q.end()); } return r; }
  if (auto* g = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(g)) return constant(ga->getAliasee(), S);
    int id = globalObj(g, S); return {S.mem[id]->base}; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) return {gepAddr(gep, nullptr, S)};
    switch (ce->getOpcode()) {
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        Val v = constant(ce->getOperand(0), S);
        if (ce->getOpcode() == Instruction::BitCast && leaves(t) != v.size()) { T all = G.concat(std::vector<T>(v.begin(), v.end())); unsigned lw = leafWidth(t->getScalarType()); Val r; for (unsigned i = 0; i < leaves(t); i++) r.push_back(G.extract(all, i * lw, lw)); return r; }
        return v; }
      case Instruction::ExtractElement: { Val v = constant(ce->getOperand(0), S); T i = constant(ce->getOperand(1), S)[0]; if (G.isC(i) && G.C(i) < v.size()) return {v[(size_t)G.C(i)]}; break; }
      case Instruction::Sub: return {G.sub(constant(ce->getOperand(0), S)[0], constant(ce->getOperand(1), S)[0])};
      case Instruction::Add: return {G.add(constant(ce->getOperand(0), S)[0], constant(ce->getOperand(1), S)[0])};
      case Instruction::Trunc: return {G.trunc(constant(ce->getOperand(0), S)[0], leafWidth(t))};
      case Instruction::ICmp: { T a = constant(ce->getOperand(0), S)[0], b = constant(ce->getOperand(1), S)[0]; if (ce->getPredicate() == CmpInst::ICMP_EQ) return {G.eq(a, b)}; if (ce->getPredicate() == CmpInst::ICMP_NE) return {G.ne(a, b)}; break; }
      default: break;
    }
    throw Unsupported("constexpr");
  }
  throw Unsupported("constant kind");
}
T Exec::gepAddr(const GEPOperator* g, Frame* f, State& S) {
  auto val = [&](const Value* v) -> T { if (f) return get1(v, *f, S); return constant(cast<Constant>(v), S)[0]; };
  T p = val(g->getPointerOperand());
  Type* cur = g->getSourceElementType(); bool first = true;
  for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
    const Value* ix = *it;
    if (!first) if (auto* st = dyn_cast<StructType>(cur)) {
      unsigned i = cast<ConstantInt>(ix)->getZExtValue(); p = G.add(p, G.k(DL->getStructLayout(st)->getElementOffset(i).getFixedValue(), 64)); cur = st->getElementType(i); continue;
    }
    uint64_t es;
    if (first) { es = DL->getTypeAllocSize(cur); first = false; }
    else if (auto* at = dyn_cast<ArrayType>(cur)) { cur = at->getElementType(); es = DL->getTypeAllocSize(cur); }
    else if (auto* vt = dyn_cast<FixedVectorType>(cur)) { cur = vt->getElementType(); es = DL->getTypeAllocSize(cur); }
    else throw Unsupported("gep");
    T i = val(ix); unsigned w = G.W(i); if (w < 64) i = G.sext(i, 64); else if (w > 64) i = G.trunc(i, 64);
    p = G.add(p, G.mulc(i, es));
  }
  return p;
}
Val Exec::get(const Value* v, Frame& f, State& S) {
  if (auto* c = dyn_cast<Constant>(v)) return constant(c, S);
  auto it = f.regs.find(v);
  if (it == f.regs.end()) { if (isa<MetadataAsValue>(v)) return {}; std::string s; raw_string_ostream os(s); v->print(os); throw Unsupported("no value for " + s); }
  return it->second;
}
// ---------------------------------------------------------------- floats
T Exec::isNaN(T x) { unsigned w = G.W(x), e, m; expBits(w, e, m); T mag = G.extract(x, 0, w - 1); return G.ult(G.k(((u128)((1u << e) - 1)) << m, w - 1), mag); }
static T flt(T a, T b) { // a < b given neither is NaN
  unsigned w = G.W(a); T sa = G.extract(a, w - 1, 1), sb = G.extract(b, w - 1, 1);
  T ma = G.extract(a, 0, w - 1), mb = G.extract(b, 0, w - 1); T z = G.k(0, w - 1);
  T bothz = G.And(G.eq(ma, z), G.eq(mb, z));
  return G.ite(sa, G.ite(sb, G.ult(mb, ma), G.Not(bothz)), G.ite(sb, G.fls(), G.ult(ma, mb)));
}
static T feq(T a, T b) { unsigned w = G.W(a); T z = G.k(0, w - 1); return G.Or(G.eq(a, b), G.And(G.eq(G.extract(a, 0, w - 1), z), G.eq(G.extract(b, 0, w - 1), z))); }
T Exec::fcmp(unsigned p, T a, T b) {
  if (p == CmpInst::FCMP_FALSE) return G.fls();
  if (p == CmpInst::FCMP_TRUE) return G.tru();
  T un = G.Or(isNaN(a), isNaN(b));
  T r;
  switch (p) {
    case CmpInst::FCMP_ORD: return G.Not(un);
    case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = feq(a, b); break;
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = G.Not(feq(a, b)); break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = flt(a, b); break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = flt(b, a); break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = G.Not(flt(b, a)); break;
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = G.Not(flt(a, b)); break;
    default: throw Unsupported("fcmp");
  }
  bool ordered = p < CmpInst::FCMP_UNO;
  return ordered ? G.And(G.Not(un), r) : G.Or(un, r);
}
static T bf16FromF32(Exec& E, T x) {
  T lsb = G.extract(x, 16, 1); T r = G.add(x, G.add(G.k(0x7fff, 32), G.zext(lsb, 32)));
  return G.ite(E.isNaN(x), G.Or(G.extract(x, 16, 16), G.k(0x40, 16)), G.extract(r, 16, 16));
}
// ---------------------------------------------------------------- control
void Exec::enterBlock(const BasicBlock* from, const BasicBlock* to, Frame& f, State& S) {
  std::vector<std::pair<const Value*, Val>> up;
  for (auto& I : *to) { auto* phi = dyn_cast<PHINode>(&I); if (!phi) break; up.push_back({phi, get(phi->getIncomingValueForBlock(from), f, S)}); }
  for (auto& p : up) f.regs[p.first] = p.second;
  f.prev = from;
}
void Exec::mergeMem(T c, State& A, State& B, State& S) {
  S.mem.clear();
  for (auto& kv : A.mem) {
    auto it = B.mem.find(kv.first);
    if (it == B.mem.end() || it->second == kv.second) { S.mem[kv.first] = kv.second; continue; }
    Obj &a = *kv.second, &b = *it->second;
    auto o = std::make_shared<Obj>(a);
    if (a.freed != b.freed) o->freed = true; // conservative: treat as freed
    if (a.region) {
      if (!a.sameBase(b)) { o->mc = c; o->ma = kv.second; o->mb = it->second; o->log.clear(); S.mem[kv.first] = o; continue; }
      size_t n = 0; while (n < a.log.size() && n < b.log.size() && a.log[n].guard == b.log[n].guard && a.log[n].off == b.log[n].off && a.log[n].val == b.log[n].val) n++;
      o->log.resize(n);
      for (size_t i = n; i < a.log.size(); i++) { RegWrite w = a.log[i]; w.guard = G.And(c, w.guard); o->log.push_back(w); }
      for (size_t i = n; i < b.log.size(); i++) { RegWrite w = b.log[i]; w.guard = G.And(G.Not(c), w.guard); o->log.push_back(w); }
      S.mem[kv.first] = o; continue;
    }
    S.mem[kv.first] = o;
    // chunks differing: re-read over the union of ranges
    std::set<uint64_t> cuts;
    auto addc = [&](Obj& q) { for (auto& e : q.ch) { cuts.insert(e.first); cuts.insert(e.first + e.second.n); } };
    bool same = a.ch.size() == b.ch.size();
    if (same) { auto i = a.ch.begin(); auto j = b.ch.begin(); for (; i != a.ch.end(); ++i, ++j) if (i->first != j->first || i->second.n != j->second.n) { same = false; break; } }
    if (same) { auto j = b.ch.begin(); for (auto& e : o->ch) { if (e.second.t != j->second.t) e.second.t = G.ite(c, e.second.t, j->second.t); ++j; } continue; }
    addc(a); addc(b);
    o->ch.clear();
    auto rd = [&](Obj& q, uint64_t s, uint64_t e, T& out) -> bool {
      auto u = q.ch.upper_bound(s); if (u == q.ch.begin()) return false; auto p = std::prev(u);
      if (p->first + p->second.n < e) return false;
      out = G.extract(p->second.t, (s - p->first) * 8, (e - s) * 8); return true; };
    for (auto i = cuts.begin(); std::next(i) != cuts.end(); ++i) {
      uint64_t s = *i, e = *std::next(i); T x, y; bool hx = rd(a, s, e, x), hy = rd(b, s, e, y);
      if (!hx && !hy) continue;
      if (e - s > 16) continue;
      if (!hx) x = a.zeroInit ? G.k(0, (e - s) * 8) : undef((e - s) * 8, "uninit");
      if (!hy) y = b.zeroInit ? G.k(0, (e - s) * 8) : undef((e - s) * 8, "uninit");
      o->ch[s] = {G.ite(c, x, y), (uint32_t)(e - s)};
    }
  }
  for (auto& kv : B.mem) if (!A.mem.count(kv.first)) S.mem[kv.first] = kv.second;
}
bool Exec::mergeInto(T c, Frame& fa, State& A, bool al, Frame& fb, State& B, bool bl, T pc0, Frame& f, State& S) {
  if (!al && !bl) return DEAD;
  if (!al) { f = std::move(fb); S = std::move(B); return ALIVE; }
  if (!bl) { f = std::move(fa); S = std::move(A); return ALIVE; }
  T pa = G.And(pc0, c), pb = G.And(pc0, G.Not(c)), pc;
  if (A.pc == pa && B.pc == pb) pc = pc0; else pc = G.Or(A.pc, B.pc);
  State N; mergeMem(c, A, B, N); N.pc = pc;
  for (auto& kv : fa.regs) {
    auto it = fb.regs.find(kv.first);
    if (it == fb.regs.end()) continue;
    if (it->second.size() != kv.second.size()) continue;
    for (unsigned i = 0; i < kv.second.size(); i++) if (kv.second[i] != it->second[i]) { if (G.W(kv.second[i]) == G.W(it->second[i])) kv.second[i] = G.ite(c, kv.second[i], it->second[i]); }
  }
  for (auto& kv : fb.regs) if (!fa.regs.count(kv.first)) fa.regs[kv.first] = kv.second;
  if (fa.returned && fb.returned) { for (unsigned i = 0; i < fa.ret.size(); i++) fa.ret[i] = G.ite(c, fa.ret[i], fb.ret[i]); }
  for (int a : fb.allocas) if (std::find(fa.allocas.begin(), fa.allocas.end(), a) == fa.allocas.end()) fa.allocas.push_back(a);
  f = std::move(fa); S = std::move(N);
  return ALIVE;
}
bool Exec::execBlockBody(const BasicBlock* bb, Frame& f, State& S) {
  for (auto& I : *bb) {
    if (isa<PHINode>(I)) continue;
    if (I.isTerminator()) return ALIVE;
    if (++steps > stepLimit) throw Unsupported("step limit");
    if (!execInst(&I, f, S)) return DEAD;
  }
  return ALIVE;
}
bool Exec::runRegion(const BasicBlock* bb, const BasicBlock* stop, Frame& f, State& S) {
  FnInfo& fi = info(f.F);
  for (;;) {
    if (bb == stop) return ALIVE;
    Loop* L = fi.LI->getLoopFor(bb);
    if (f.cuts.size()) {
      auto& ct = *f.cuts.back();
      if (bb == ct.H && f.prev && ct.L->contains(f.prev)) { backEdge(ct, f, S); return DEAD; }
      if (ct.trial && !ct.L->contains(bb)) return DEAD;
      if (!ct.trial) while (f.cuts.size() && !f.cuts.back()->L->contains(bb)) f.cuts.pop_back();
    }
    if (cutFns.size() && L && L->getHeader() == bb && !(f.cuts.size() && f.cuts.back()->H == bb) && f.prev && !L->contains(f.prev) && wantCut(f.F)) cutLoop(bb, f, S, L);
    if (!execBlockBody(bb, f, S)) return DEAD;
    const Instruction* t = bb->getTerminator();
    if (auto* ri = dyn_cast<ReturnInst>(t)) { if (ri->getReturnValue()) f.ret = get(ri->getReturnValue(), f, S); f.returned = true; return ALIVE; }
    if (isa<UnreachableInst>(t)) { oblig(S, G.fls(), "reached unreachable"); return DEAD; }
    std::vector<std::pair<T, const BasicBlock*>> succ;
    if (auto* br = dyn_cast<BranchInst>(t)) {
      if (br->isUnconditional()) { enterBlock(bb, br->getSuccessor(0), f, S); bb = br->getSuccessor(0); continue; }
      T c = get1(br->getCondition(), f, S);
      if (br->getSuccessor(0) == br->getSuccessor(1)) { enterBlock(bb, br->getSuccessor(0), f, S); bb = br->getSuccessor(0); continue; }
      if (!G.isC(c)) { // implied by the path condition syntactically?
        if (G.isFalse(G.And(S.pc, c))) c = G.fls(); else if (G.isFalse(G.And(S.pc, G.Not(c)))) c = G.tru();
      }
      if (G.isC(c)) { auto* n = br->getSuccessor(G.C(c) ? 0 : 1); enterBlock(bb, n, f, S); bb = n; continue; }
      succ.push_back({c, br->getSuccessor(0)}); succ.push_back({G.Not(c), br->getSuccessor(1)});
    } else if (auto* sw = dyn_cast<SwitchInst>(t)) {
      T v = get1(sw->getCondition(), f, S); T none = G.tru();
      std::vector<const BasicBlock*> order; std::map<const BasicBlock*, T> cond;
      for (auto& cs : sw->cases()) {
        T e = G.eq(v, constant(cs.getCaseValue(), S)[0]); none = G.And(none, G.Not(e));
        auto* b = cs.getCaseSuccessor(); if (!cond.count(b)) { order.push_back(b); cond[b] = G.fls(); } cond[b] = G.Or(cond[b], e);
      }
      auto* d = sw->getDefaultDest(); if (!cond.count(d)) { order.push_back(d); cond[d] = G.fls(); } cond[d] = G.Or(cond[d], none);
      const BasicBlock* only = nullptr;
      for (auto* b : order) { if (G.isTrue(cond[b])) only = b; if (!G.isFalse(G.And(S.pc, cond[b]))) succ.push_back({cond[b], b}); }
      if (only || succ.size() == 1) { auto* n = only ? only : succ[0].second; enterBlock(bb, n, f, S); bb = n; continue; }
      if (succ.empty()) return DEAD;
    } else throw Unsupported("terminator");
    // symbolic branch
    auto* pn = fi.PDT->getNode(const_cast<BasicBlock*>(bb));
    const BasicBlock* join = pn && pn->getIDom() ? pn->getIDom()->getBlock() : nullptr;
    unsigned vis = ++f.visits[bb];
    if (vis % 8 == 0 && getenv("DV_TRACE")) fprintf(stderr, "unroll %u %s\n", vis, f.F->getName().str().substr(0,150).c_str());
    if (vis > maxUnroll) throw Unsupported("unroll limit");
    T pc0 = S.pc;
    bool exitBr = false; if (L) for (auto& sc : succ) if (!L->contains(sc.second)) exitBr = true;
    bool feas = vis > 1 && exitBr;
    // If the region's own stop lies inside the branch's region we still must not run past it.
    bool first = true; Frame facc; State sacc; bool alive = false; T condAcc = 0; (void)condAcc;
    struct Side { T c; Frame f; State s; bool a; };
    std::vector<Side> sides;
    for (auto& sc : succ) {
      Side sd; sd.c = sc.first; sd.f = f; sd.s = S; sd.s.pc = G.And(pc0, sc.first); sd.a = false;
      if (G.isFalse(sd.s.pc)) { sides.push_back(std::move(sd)); continue; }
      if (feas) { std::vector<T> cj = ambient; cj.push_back(sd.s.pc); if (satisfiable(cj, 5000).v == REFUTED) { sides.push_back(std::move(sd)); continue; } }
      enterBlock(bb, sc.second, sd.f, sd.s);
      sd.a = runRegion(sc.second, join, sd.f, sd.s);
      sides.push_back(std::move(sd));
    }
    for (size_t i = sides.size(); i-- > 0;) {
      if (first) { facc = std::move(sides[i].f); sacc = std::move(sides[i].s); alive = sides[i].a; first = false; continue; }
      Frame nf; State ns; 
      // pc bookkeeping: sacc.pc was derived from pc0 & (conds of later sides)
      T c = sides[i].c; bool al = sides[i].a;
      if (al && alive) {
        T pa = G.And(pc0, c); bool clean = sides[i].s.pc == pa;
        bool accClean = true; // accumulated conds
        T accPc = sacc.pc; T expect = pc0; (void)expect;
        if (sides.size() == 2) accClean = accPc == G.And(pc0, sides[i + 1].c);
        else accClean = false;
        State N; mergeMem(c, sides[i].s, sacc, N);
        N.pc = (clean && accClean && sides.size() == 2) ? pc0 : G.Or(sides[i].s.pc, accPc);
        Frame& fa = sides[i].f; Frame& fb = facc;
        for (auto& kv : fa.regs) { auto it = fb.regs.find(kv.first); if (it == fb.regs.end() || it->second.size() != kv.second.size()) continue;
          for (unsigned q = 0; q < kv.second.size(); q++) if (kv.second[q] != it->second[q] && G.W(kv.second[q]) == G.W(it->second[q])) kv.second[q] = G.ite(c, kv.second[q], it->second[q]); }
        for (auto& kv : fb.regs) if (!fa.regs.count(kv.first)) fa.regs[kv.first] = kv.second;
        if (fa.returned && fb.returned) for (unsigned q = 0; q < fa.ret.size(); q++) fa.ret[q] = G.ite(c, fa.ret[q], fb.ret[q]);
        for (int a : fb.allocas) if (std::find(fa.allocas.begin(), fa.allocas.end(), a) == fa.allocas.end()) fa.allocas.push_back(a);
        facc = std::move(fa); sacc = std::move(N);
      } else if (al) { facc = std::move(sides[i].f); sacc = std::move(sides[i].s); alive = true; }
    }
    if (!alive) return DEAD;
    unsigned keepVis = f.visits.size() ? f.visits[bb] : 0;
    f = std::move(facc); S = std::move(sacc); f.visits[bb] = keepVis;
    if (f.returned) return ALIVE;
    if (!join) return ALIVE;
    bb = join;
  }
}
bool Exec::call(const Function* F, std::vector<Val>& args, State& S, Val& ret) {
  if (++depth > 400) throw Unsupported("call depth");
  calledFns.insert(F->getName().str());
  Frame f; f.F = F;
  unsigned i = 0; for (auto& a : F->args()) f.regs[&a] = args[i++];
  bool alive = runRegion(&F->getEntryBlock(), nullptr, f, S);
  depth--;
  if (alive) { ret = f.ret; for (int a : f.allocas) S.mem.erase(a); }
  return alive;
}
bool Exec::runEntry(const Function* F, State& S) { depth = 0; std::vector<Val> args; Val r; return call(F, args, S, r); }
// ---------------------------------------------------------------- instructions
bool Exec::execInst(const Instruction* I, Frame& f, State& S) {
  Type* ty = I->getType();
  auto set = [&](Val v) { f.regs[I] = std::move(v); return ALIVE; };
  auto bin = [&](std::function<T(T, T)> fn) { Val a = get(I->getOperand(0), f, S), b = get(I->getOperand(1), f, S); for (unsigned i = 0; i < a.size(); i++) a[i] = fn(a[i], b[i]); return set(a); };
  switch (I->getOpcode()) {
    case Instruction::Add: 
      if (checkNSW && cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap()) { Val a = get(I->getOperand(0), f, S), b = get(I->getOperand(1), f, S); for (unsigned i = 0; i < a.size(); i++) { unsigned w = G.W(a[i]); if (w < 128) oblig(S, G.eq(G.sext(G.add(a[i], b[i]), w + 1), G.add(G.sext(a[i], w + 1), G.sext(b[i], w + 1))), "no signed overflow (add)"); } }
      return bin([](T a, T b) { return G.add(a, b); });
    case Instruction::Sub:
      if (checkNSW && cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap()) { Val a = get(I->getOperand(0), f, S), b = get(I->getOperand(1), f, S); for (unsigned i = 0; i < a.size(); i++) { unsigned w = G.W(a[i]); if (w < 128) oblig(S, G.eq(G.sext(G.sub(a[i], b[i]), w + 1), G.sub(G.sext(a[i], w + 1), G.sext(b[i], w + 1))), "no signed overflow (sub)"); } }
      return bin([](T a, T b) { return G.sub(a, b); });
    case Instruction::Mul:
      if (checkNSW && cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap()) { Val a = get(I->getOperand(0), f, S), b = get(I->getOperand(1), f, S); for (unsigned i = 0; i < a.size(); i++) { unsigned w = G.W(a[i]); if (2 * w <= 128) oblig(S, G.eq(G.sext(G.mul(a[i], b[i]), 2 * w), G.mul(G.sext(a[i], 2 * w), G.sext(b[i], 2 * w))), "no signed overflow (mul)"); } }
      return bin([](T a, T b) { return G.mul(a, b); });
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      unsigned op = I->getOpcode();
      return bin([&](T a, T b) {
        if (!G.isC(b) || G.isC(b, 0)) oblig(S, G.ne(b, G.k(0, G.W(b))), "no division by zero");
        if (op == Instruction::SDiv || op == Instruction::SRem) { unsigned w = G.W(a); T bad = G.And(G.eq(a, G.k((u128)1 << (w - 1), w)), G.eq(b, G.k(~(u128)0, w))); if (!G.isFalse(bad)) oblig(S, G.Not(bad), "no signed division overflow"); }
        return op == Instruction::UDiv ? G.udiv(a, b) : op == Instruction::URem ? G.urem(a, b) : op == Instruction::SDiv ? G.sdiv(a, b) : G.srem(a, b); });
    }
    case Instruction::And: return bin([](T a, T b) { return G.And(a, b); });
    case Instruction::Or: return bin([](T a, T b) { return G.Or(a, b); });
    case Instruction::Xor: return bin([](T a, T b) { return G.Xor(a, b); });
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      unsigned op = I->getOpcode();
      return bin([&](T a, T b) {
        unsigned w = G.W(a); T ok = G.ult(b, G.k(w, w));
        if (w == 1) ok = G.tru();
        T r = op == Instruction::Shl ? G.shl(a, b) : op == Instruction::LShr ? G.lshr(a, b) : G.ashr(a, b);
        if (!G.isTrue(ok)) { oblig(S, ok, "shift amount in range"); }
        return r; });
    }
    case Instruction::FAdd: return bin([](T a, T b) { return G.fop(O_FADD, G.W(a), {a, b}); });
    case Instruction::FSub: return bin([](T a, T b) { return G.fop(O_FSUB, G.W(a), {a, b}); });
    case Instruction::FMul: return bin([](T a, T b) { return G.fop(O_FMUL, G.W(a), {a, b}); });
    case Instruction::FDiv: return bin([](T a, T b) { return G.fop(O_FDIV, G.W(a), {a, b}); });
    case Instruction::FRem: return bin([](T a, T b) { return G.fop(O_FREM, G.W(a), {a, b}); });
    case Instruction::FNeg: { Val a = get(I->getOperand(0), f, S); for (auto& x : a) x = G.Xor(x, G.k((u128)1 << (G.W(x) - 1), G.W(x))); return set(a); }
    case Instruction::ICmp: {
      auto p = cast<ICmpInst>(I)->getPredicate();
      return bin([&](T a, T b) -> T {
        switch (p) {
          case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: {
            T r = G.eq(a, b);
            if (!G.isC(r) && G.W(a) == 64) { // pointer vs null
              std::unordered_map<T, bool> memo; T z = G.isC(b, 0) ? a : G.isC(a, 0) ? b : 0;
              if (z && (G.op(z) == O_VAR) && hasBase(z, memo)) r = G.fls();
            }
            return p == CmpInst::ICMP_EQ ? r : G.Not(r); }
          case CmpInst::ICMP_ULT: return G.ult(a, b);
          case CmpInst::ICMP_UGT: return G.ult(b, a);
          case CmpInst::ICMP_ULE: return G.ule(a, b);
          case CmpInst::ICMP_UGE: return G.ule(b, a);
          case CmpInst::ICMP_SLT: return G.slt(a, b);
          case CmpInst::ICMP_SGT: return G.slt(b, a);
          case CmpInst::ICMP_SLE: return G.sle(a, b);
          default: return G.sle(b, a);
        } });
    }
    case Instruction::FCmp: {
      auto p = cast<FCmpInst>(I)->getPredicate(); Type* et = I->getOperand(0)->getType()->getScalarType();
      if (et->isBFloatTy()) return bin([&](T a, T b) { return fcmp(p, G.concat2(a, G.k(0, 16)), G.concat2(b, G.k(0, 16))); });
      return bin([&](T a, T b) { return fcmp(p, a, b); });
    }
    case Instruction::Select: {
      Val c = get(I->getOperand(0), f, S), a = get(I->getOperand(1), f, S), b = get(I->getOperand(2), f, S);
      for (unsigned i = 0; i < a.size(); i++) a[i] = G.ite(c.size() == 1 ? c[0] : c[i], a[i], b[i]);
      return set(a);
    }
    case Instruction::Freeze: return set(get(I->getOperand(0), f, S));
    case Instruction::Trunc: { Val a = get(I->getOperand(0), f, S); unsigned w = leafWidth(ty->getScalarType()); for (auto& x : a) x = G.trunc(x, w); return set(a); }
    case Instruction::ZExt: { Val a = get(I->getOperand(0), f, S); unsigned w = leafWidth(ty->getScalarType()); for (auto& x : a) x = G.zext(x, w); return set(a); }
    case Instruction::SExt: { Val a = get(I->getOperand(0), f, S); unsigned w = leafWidth(ty->getScalarType()); for (auto& x : a) x = G.sext(x, w); return set(a); }
    case Instruction::FPExt: {
      Val a = get(I->getOperand(0), f, S); unsigned w = leafWidth(ty->getScalarType()); bool bfl = I->getOperand(0)->getType()->getScalarType()->isBFloatTy();
      for (auto& x : a) { if (bfl) { x = G.concat2(x, G.k(0, 16)); if (w == 64) x = G.fop(O_FPEXT, 64, {x}); } else x = G.fop(O_FPEXT, w, {x}); }
      return set(a);
    }
    case Instruction::FPTrunc: {
      Val a = get(I->getOperand(0), f, S); unsigned w = leafWidth(ty->getScalarType()); bool bfl = ty->getScalarType()->isBFloatTy();
      for (auto& x : a) { if (bfl) { if (G.W(x) != 32) throw Unsupported("f64->bf16"); x = bf16FromF32(*this, x); } else x = G.fop(O_FPTRUNC, w, {x}); }
      return set(a);
    }
    case Instruction::FPToSI: { Val a = get(I->getOperand(0), f, S); unsigned w = leafWidth(ty->getScalarType()); for (auto& x : a) x = w < 32 ? G.trunc(G.fop(O_F2SI, 32, {x}), w) : G.fop(O_F2SI, w, {x}); return set(a); }
    case Instruction::FPToUI: { Val a = get(I->getOperand(0), f, S); unsigned w = leafWidth(ty->getScalarType()); for (auto& x : a) x = w < 32 ? G.trunc(G.fop(O_F2SI, 32, {x}), w) : G.fop(O_F2UI, w, {x}); return set(a); }
    case Instruction::SIToFP: { Val a = get(I->getOperand(0), f, S); unsigned w = leafWidth(ty->getScalarType()); for (auto& x : a) x = G.fop(O_SI2F, w, {G.W(x) < 32 ? G.sext(x, 32) : x}); return set(a); }
    case Instruction::UIToFP: { Val a = get(I->getOperand(0), f, S); unsigned w = leafWidth(ty->getScalarType()); for (auto& x : a) { if (G.W(x) < 32) x = G.fop(O_SI2F, w, {G.zext(x, 32)}); else x = G.fop(O_UI2F, w, {x}); } return set(a); }
    case Instruction::PtrToInt: { Val a = get(I->getOperand(0), f, S); unsigned w = leafWidth(ty->getScalarType()); for (auto& x : a) x = w > 64 ? G.zext(x, w) : G.trunc(x, w); return set(a); }
    case Instruction::IntToPtr: { Val a = get(I->getOperand(0), f, S); for (auto& x : a) x = normPtr(G.W(x) < 64 ? G.zext(x, 64) : G.trunc(x, 64)); return set(a); }
    case Instruction::AddrSpaceCast: return set(get(I->getOperand(0), f, S));
    case Instruction::BitCast: {
      Val a = get(I->getOperand(0), f, S); unsigned n = leaves(ty);
      if (n == a.size()) return set(a);
      unsigned w = leafWidth(ty->getScalarType()), sw = G.W(a[0]); Val r;
      if (w > sw) { unsigned k = w / sw; if (w % sw) throw Unsupported("bitcast ratio"); for (unsigned i = 0; i < n; i++) { std::vector<T> p(a.begin() + i * k, a.begin() + (i + 1) * k); r.push_back(G.concat(p)); } }
      else { if (sw % w) throw Unsupported("bitcast ratio"); unsigned k = sw / w; for (unsigned i = 0; i < n; i++) r.push_back(G.extract(a[i / k], (i % k) * w, w)); }
      return set(r);
    }
    case Instruction::ExtractElement: {
      Val a = get(I->getOperand(0), f, S); T i = get1(I->getOperand(1), f, S);
      if (G.isC(i)) { u128 c = G.C(i); if (c >= a.size()) return set({undef(G.W(a[0]))}); return set({a[(unsigned)c]}); }
      oblig(S, a.size() >= 2 && G.W(i) >= 8 ? G.ult(i, G.k(a.size(), G.W(i))) : G.tru(), "extractelement index in range");
      T r = a[0]; for (unsigned k = 1; k < a.size(); k++) r = G.ite(G.eq(i, G.k(k, G.W(i))), a[k], r);
      return set({r});
    }
    case Instruction::InsertElement: {
      Val a = get(I->getOperand(0), f, S); T v = get1(I->getOperand(1), f, S), i = get1(I->getOperand(2), f, S);
      if (G.isC(i)) { if (G.C(i) < a.size()) a[(unsigned)G.C(i)] = v; return set(a); }
      oblig(S, G.ult(i, G.k(a.size(), G.W(i))), "insertelement index in range");
      for (unsigned k = 0; k < a.size(); k++) a[k] = G.ite(G.eq(i, G.k(k, G.W(i))), v, a[k]);
      return set(a);
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I); 
      Val a, b; bool needB = false, needA = false; auto mask = sv->getShuffleMask(); int na = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
      for (int m : mask) { if (m >= na) needB = true; else if (m >= 0) needA = true; }
      if (needA) a = get(sv->getOperand(0), f, S);
      if (needB) b = get(sv->getOperand(1), f, S);
      unsigned w = leafWidth(ty->getScalarType()); Val r;
      for (int m : mask) r.push_back(m < 0 ? undef(w) : m < na ? a[m] : b[m - na]);
      return set(r);
    }
    case Instruction::ExtractValue: {
      auto* ev = cast<ExtractValueInst>(I); Val a = get(ev->getAggregateOperand(), f, S);
      Type* t = ev->getAggregateOperand()->getType(); unsigned off = 0;
      for (unsigned ix : ev->indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += leaves(s->getElementType(k)); t = s->getElementType(ix); } else { auto* at = cast<ArrayType>(t); off += ix * leaves(at->getElementType()); t = at->getElementType(); } }
      return set(Val(a.begin() + off, a.begin() + off + leaves(t)));
    }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(I); Val a = get(iv->getAggregateOperand(), f, S), v = get(iv->getInsertedValueOperand(), f, S);
      Type* t = iv->getAggregateOperand()->getType(); unsigned off = 0;
      for (unsigned ix : iv->indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += leaves(s->getElementType(k)); t = s->getElementType(ix); } else { auto* at = cast<ArrayType>(t); off += ix * leaves(at->getElementType()); t = at->getElementType(); } }
      for (unsigned k = 0; k < v.size(); k++) a[off + k] = v[k];
      return set(a);
    }
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(I); T n = get1(ai->getArraySize(), f, S); if (!G.isC(n)) throw Unsupported("vla");
      int id = newObj(S, (uint64_t)G.C(n) * DL->getTypeAllocSize(ai->getAllocatedType()).getFixedValue(), ai->getAlign().value(), "alloca." + ai->getName().str());
      f.allocas.push_back(id);
      return set({S.mem[id]->base});
    }
    case Instruction::Load: { Val r; loadVal(S, get1(I->getOperand(0), f, S), ty, r); return set(r); }
    case Instruction::Store: { Val v = get(I->getOperand(0), f, S); storeVal(S, get1(I->getOperand(1), f, S), I->getOperand(0)->getType(), v); return ALIVE; }
    case Instruction::GetElementPtr: {
      if (ty->isVectorTy()) throw Unsupported("vector gep");
      return set({gepAddr(cast<GEPOperator>(I), &f, S)}); }
    case Instruction::Fence: return ALIVE;
    case Instruction::AtomicRMW: {
      auto* a = cast<AtomicRMWInst>(I); T p = get1(a->getPointerOperand(), f, S); Val old; loadVal(S, p, ty, old); T v = get1(a->getValOperand(), f, S), o = old[0], n;
      switch (a->getOperation()) { case AtomicRMWInst::Add: n = G.add(o, v); break; case AtomicRMWInst::Sub: n = G.sub(o, v); break; case AtomicRMWInst::And: n = G.And(o, v); break; case AtomicRMWInst::Or: n = G.Or(o, v); break; case AtomicRMWInst::Xor: n = G.Xor(o, v); break; case AtomicRMWInst::Xchg: n = v; break; default: throw Unsupported("atomicrmw"); }
      storeVal(S, p, ty, {n}); return set({o});
    }
    case Instruction::AtomicCmpXchg: {
      auto* a = cast<AtomicCmpXchgInst>(I); T p = get1(a->getPointerOperand(), f, S); Type* vt = a->getCompareOperand()->getType(); Val old; loadVal(S, p, vt, old);
      T e = get1(a->getCompareOperand(), f, S), n = get1(a->getNewValOperand(), f, S); T ok = G.eq(old[0], e);
      storeVal(S, p, vt, {G.ite(ok, n, old[0])}); return set({old[0], ok});
    }
    case Instruction::Call: return execCall(cast<CallBase>(I), f, S);
    default: break;
  }
  std::string s; raw_string_ostream os(s); I->print(os);
  throw Unsupported("instruction " + s);
}
