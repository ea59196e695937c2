#pragma once
#include "solve.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <map>
#include <set>
#include <stdexcept>

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
typedef llvm::SmallVector<T, 4> Val;

struct Chunk { T t; uint32_t n; };           // n bytes
struct RegWrite { T guard, off, val; uint32_t n; }; // byte offset
struct Obj {
  std::string name; uint64_t size = 0; T base = 0; bool readonly = false;
  bool freed = false; bool heap = false;
  std::map<uint64_t, Chunk> ch;
  // symbolic-size region
  bool region = false; T sizeT = 0; unsigned es = 0; unsigned uf = 0; int regionId = -1;
  std::vector<RegWrite> log;
  bool zeroInit = false;
  // merge of two different regions: base content is mc ? *ma : *mb
  T mc = 0; std::shared_ptr<Obj> ma, mb;
  bool sameBase(const Obj& o) const { return uf == o.uf && mc == o.mc && ma == o.ma && mb == o.mb; }
};
typedef std::shared_ptr<Obj> ObjP;

struct State {
  std::unordered_map<int, ObjP> mem;
  T pc;
  Obj* wr(int id) { auto& p = mem[id]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
};
struct CutInfo; typedef std::shared_ptr<CutInfo> CutP;
struct Frame {
  std::vector<CutP> cuts;
  const llvm::Function* F; llvm::DenseMap<const llvm::Value*, Val> regs; Val ret; bool returned = false;
  const llvm::BasicBlock* prev = nullptr; std::vector<int> allocas; llvm::DenseMap<const llvm::BasicBlock*, unsigned> visits;
};
struct Obligation { T pc, goal; std::string label; };
struct FnInfo {
  std::unique_ptr<llvm::DominatorTree> DT; std::unique_ptr<llvm::PostDominatorTree> PDT; std::unique_ptr<llvm::LoopInfo> LI;
};
struct InputRec { std::vector<T> elems; unsigned es; std::string name; };
struct RegionRec { int obj; unsigned es; T count; unsigned uf; std::string name; T initKey; };
struct Entry { std::string name; const llvm::Function* F; };

// candidate invariant registered by a harness: kind 1: inv(x), 2: inv(x,y), 3: forall idx: inv(idx,x), 4: inv()
struct InvCand { const llvm::Function* F; int kind; std::string label; std::string fn; };
struct CutVar { const llvm::PHINode* phi; unsigned leaf; int obj; uint64_t off; uint32_t n; T init, cur; bool affine; u128 step; T ptrBase = 0; bool pbDone = false; unsigned pes = 1; }; // scalar loop state
struct CutInfo {
  const llvm::BasicBlock* H; llvm::Loop* L; bool trial = true;
  std::vector<CutVar> vars; T k = 0; State head; T headPc;
  std::vector<std::vector<int>> insts; // candidate instantiations kept: {cand, x[, y]}
  std::vector<char> keep; bool checkInv = false;
  std::vector<State> backStates; std::vector<std::vector<T>> backVals;
  std::vector<Obligation> indObls; std::vector<int> indIdx;
  std::set<int> modRegions;
};

struct Exec {
  llvm::Module* M; const llvm::DataLayout* DL;
  std::unordered_map<const llvm::Function*, std::unique_ptr<FnInfo>> finfo;
  std::unordered_map<int, std::string> objName;
  std::unordered_map<const llvm::GlobalValue*, int> gobj;
  std::unordered_map<int, const llvm::Function*> objFn;
  int nextObj = 1;
  std::vector<Obligation> obls;
  std::vector<InputRec> inputs;
  std::vector<RegionRec> regions;
  std::vector<Entry> entries;
  std::map<std::string, const llvm::Function*> replace;
  std::vector<T> ambient; // axioms valid everywhere (instances)
  std::vector<InvCand> cands;
  std::set<std::string> usedModels, usedExternals, calledFns;
  std::vector<std::string> cutFns; bool wantCut(const llvm::Function*);
  unsigned evalDepth = 0; bool concrete = false; uint64_t concreteSeed = 0; std::vector<std::string> outLog;
  bool checkNSW = false;
  unsigned depth = 0; uint64_t steps = 0, stepLimit = 200000000ull; unsigned maxUnroll = 5000;
  unsigned undefCount = 0, loopsCut = 0, loopInvs = 0;
  std::vector<std::string> notes;
  std::vector<int> liveRegionObjs;
  unsigned bmcBound = 0;

  explicit Exec(llvm::Module* m);
  void reset();
  bool runEntry(const llvm::Function* F, State& S);
  bool call(const llvm::Function* F, std::vector<Val>& args, State& S, Val& ret);
  FnInfo& info(const llvm::Function* F);
  enum { DEAD = 0, ALIVE = 1 };
  // run from block `bb` (phis already set) until stop (phis of stop set) or return
  bool runRegion(const llvm::BasicBlock* bb, const llvm::BasicBlock* stop, Frame& f, State& S);
  void enterBlock(const llvm::BasicBlock* from, const llvm::BasicBlock* to, Frame& f, State& S);
  // executes non-terminator instructions; false if the path dies
  bool execBlockBody(const llvm::BasicBlock* bb, Frame& f, State& S);
  bool execInst(const llvm::Instruction* I, Frame& f, State& S);
  bool execCall(const llvm::CallBase* CI, Frame& f, State& S);
  bool execIntrinsic(const llvm::CallBase* CI, llvm::StringRef name, std::vector<Val>& args, Frame& f, State& S, Val& ret, bool& handled);
  bool mergeInto(T c, Frame& fa, State& A, bool aliveA, Frame& fb, State& B, bool aliveB, T pc0, Frame& f, State& S);
  void mergeMem(T c, State& A, State& B, State& S);
  void cutLoop(const llvm::BasicBlock* H, Frame& f, State& S, llvm::Loop* L);
  void installHook(CutInfo& ct);
  void storeBytesIf(State& S, T m, T ptr, T val, T old, unsigned n);
  void memsetSym(State& S, T p, T v, T n);
  bool externCall(const llvm::Function* F, const std::string& name, std::vector<Val>& a, const llvm::CallBase* CI, Frame& f, State& S, Val& r);
  bool apiCall(const std::string& name, std::vector<Val>& a, Frame& f, State& S, Val& r);
  void backEdge(CutInfo& ct, Frame& f, State& S);
  void generalise(CutInfo& ct, Frame& f, State& S);
  T evalPred(const llvm::Function* F, const std::vector<T>& args, State& S);
  T cutX(CutInfo& ct, T v, State& S, bool& ok);
  Val get(const llvm::Value* v, Frame& f, State& S);
  Val constant(const llvm::Constant* c, State& S);
  T get1(const llvm::Value* v, Frame& f, State& S) { Val x = get(v, f, S); return x[0]; }
  unsigned leaves(llvm::Type* t);
  unsigned leafWidth(llvm::Type* t) { return t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits().getFixedValue(); }
  T undef(unsigned w, const char* why = "undef");
  // memory
  int newObj(State& S, uint64_t size, unsigned align, const std::string& name);
  int globalObj(const llvm::GlobalValue* g, State& S);
  void initGlobal(Obj& o, uint64_t off, const llvm::Constant* c, State& S);
  void decompose(T ptr, std::vector<std::pair<T, std::pair<int, T>>>& out, T guard, State& S);
  T loadBytes(State& S, T ptr, unsigned n, const char* what);
  void storeBytes(State& S, T ptr, T val, unsigned n, const char* what);
  T objRead(State& S, int id, uint64_t off, unsigned n);
  void objWrite(State& S, int id, uint64_t off, T val, unsigned n);
  T regRead(State& S, int id, T off, unsigned n);
  void oblig(State& S, T goal, const std::string& label);
  void loadVal(State& S, T ptr, llvm::Type* t, Val& out);
  void storeVal(State& S, T ptr, llvm::Type* t, const Val& v);
  void memcpySym(State& S, T dst, T src, T n, bool isConst);
  T gepAddr(const llvm::GEPOperator* g, Frame* f, State& S);
  std::string readStr(State& S, T ptr);
  // fp helpers
  T isNaN(T x); T fcmp(unsigned pred, T a, T b);
  void expBits(unsigned w, unsigned& e, unsigned& m) { if (w == 16) { e = 5; m = 10; } else if (w == 32) { e = 8; m = 23; } else { e = 11; m = 52; } }
  std::function<void(T, int)> onRegionRead;
};
