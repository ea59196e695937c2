#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/LegacyPassManager.h>
#include <llvm/Transforms/Utils.h>
#include <chrono>
#include <regex>
#include <unistd.h>
using namespace llvm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static std::string hex(u128 v) { char b[48]; if (v >> 64) snprintf(b, 48, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 48, "%llx", (unsigned long long)v); return b; }
int selftest(uint64_t, unsigned);
int main(int argc, char** argv) {
  if (argc > 1 && std::string(argv[1]) == "--selftest") return selftest(argc > 2 ? atoll(argv[2]) : 1, argc > 3 ? atoi(argv[3]) : 2000);
  std::string file, only, json, cexdir; int shard = 0, nsh = 1; bool list = false; long long conc = -1; bool verbose = false; double entryBudget = 1e9; unsigned maxFail = 3;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--shard") sscanf(argv[++i], "%d/%d", &shard, &nsh); else if (a == "--only") only = argv[++i]; else if (a == "--timeout") gTimeoutMs = atoi(argv[++i]);
    else if (a == "--json") json = argv[++i]; else if (a == "--list") list = true; else if (a == "--concrete") conc = atoll(argv[++i]); else if (a == "-v") verbose = true; else if (a == "--cex") cexdir = argv[++i]; else if (a == "--budget") entryBudget = atof(argv[++i]); else if (a == "--maxfail") maxFail = atoi(argv[++i]); else file = a;
  }
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(file, err, ctx);
  if (!M) { err.print("dv", errs()); return 2; }
  if (!getenv("DV_NOM2R")) { legacy::FunctionPassManager fpm(M.get()); fpm.add(createPromoteMemoryToRegisterPass()); fpm.doInitialization(); for (auto& f : *M) if (!f.isDeclaration()) { f.removeFnAttr(Attribute::OptimizeNone); fpm.run(f); } fpm.doFinalization(); }
  Exec E(M.get());
  State S0; S0.pc = G.tru();
  Function* vm = M->getFunction("vp_main"); if (!vm) { fprintf(stderr, "no vp_main\n"); return 2; }
  try { E.runEntry(vm, S0); } catch (Unsupported& u) { fprintf(stderr, "vp_main: %s\n", u.what()); return 2; }
  auto entries = E.entries; std::regex re(only.empty() ? ".*" : only);
  FILE* out = json.empty() ? stdout : fopen(json.c_str(), "w");
  int rc = 0; std::map<std::string, int> shards;
  for (auto& en : entries) {
    if (!std::regex_search(en.name, re)) continue;
    { // lane-count variants of a contract often share obligations: keep them in one process
      auto key = en.name.substr(0, en.name.find(',')); auto it = shards.emplace(key, (int)(shards.size() % nsh)).first; if (it->second != shard) continue; }
    if (list) { printf("%s\n", en.name.c_str()); continue; }
    double t0 = now(); E.reset(); State S; S.pc = G.tru(); E.concrete = conc >= 0; E.concreteSeed = conc; E.outLog.clear(); E.usedModels.clear(); E.calledFns.clear();
    std::string status = "proved", why; size_t discharged = 0; std::string fails; SolveStats s0 = gStats; unsigned nfail = 0, nunk = 0; bool alive = true;
    try { alive = E.runEntry(en.F, S); } catch (Unsupported& u) { status = "unsupported"; why = u.what(); }
    double t1 = now();
    if (conc >= 0) { for (auto& l : E.outLog) fprintf(out, "%s %s\n", en.name.c_str(), l.c_str()); if (status == "unsupported") fprintf(out, "%s UNSUPPORTED %s\n", en.name.c_str(), why.c_str()); bool bad = false; for (auto& o : E.obls) if (G.isFalse(o.goal) && G.isTrue(o.pc)) { fprintf(out, "%s FAILOBL %s\n", en.name.c_str(), o.label.c_str()); bad = true; break; } (void)bad; continue; }
    if (status == "proved" || E.obls.size()) {
      std::string st0 = status;
      for (auto& o : E.obls) {
        std::vector<T> as = E.ambient; as.push_back(o.pc);
        ProveResult r;
        if (now() - t0 > entryBudget && !G.isTrue(o.goal)) { r.v = UNKNOWN; r.backend = "budget"; r.secs = 0; } else r = prove(as, o.goal);
        if (verbose && r.secs > 1) fprintf(stderr, "  slow %.1fs %s %s %s\n", r.secs, r.backend, en.name.c_str(), o.label.c_str());
        if (r.v == PROVED) { discharged++; continue; }
        rc = 1; std::string cexf;
        if (r.v == REFUTED) {
          nfail++;
          if (cexdir.size()) { // write all inputs of the entry
            cexf = cexdir + "/" + std::regex_replace(en.name, std::regex("[^A-Za-z0-9_]"), "_") + "." + std::to_string(nfail) + ".cex"; FILE* c = fopen(cexf.c_str(), "w"); fprintf(c, "entry %s\n# obligation %s\n", en.name.c_str(), o.label.c_str());
            std::unordered_map<T, u128> memo; for (auto& in : E.inputs) { fprintf(c, "in %u %zu", in.es, in.elems.size()); for (T t : in.elems) fprintf(c, " %s", hex(evalUnder(t, r.m, memo)).c_str()); fprintf(c, "\n"); } fclose(c); }
        } else nunk++;
        if (verbose) { fprintf(stderr, "  %s: %s [%s] goal=%s\n", r.v == REFUTED ? "REFUTED" : "UNKNOWN", o.label.c_str(), r.backend, G.str(o.goal, 4).c_str()); if (r.v == REFUTED) { std::unordered_map<T, u128> memo; for (auto& in : E.inputs) { fprintf(stderr, "    %s:", in.name.c_str()); for (T t : in.elems) fprintf(stderr, " %s", hex(evalUnder(t, r.m, memo)).c_str()); fprintf(stderr, "\n"); } } }
        fails += std::string(fails.empty() ? "" : ",") + "{\"obligation\":\"" + esc(o.label) + "\",\"verdict\":\"" + (r.v == REFUTED ? "refuted" : "unknown") + "\",\"backend\":\"" + r.backend + "\",\"cex\":\"" + esc(cexf) + "\"}";
        if (nfail + nunk >= maxFail) break;
      }
      status = nfail ? "refuted" : st0 == "unsupported" ? "unsupported" : nunk ? "unknown" : "proved";
    }
    // vacuity: the assumptions made along the way must be satisfiable
    std::string vac = "ok";
    if (status == "proved") { if (!alive || G.isFalse(S.pc)) vac = "dead"; else if (!G.isTrue(S.pc)) { std::vector<T> cj = E.ambient; cj.push_back(S.pc); auto r = satisfiable(cj, 10000); if (r.v == REFUTED) vac = "contradiction"; else if (r.v == UNKNOWN) vac = "unknown"; } }
    if (status == "proved" && (vac == "dead" || vac == "contradiction")) { status = "vacuous"; }
    std::string models; for (auto& m : E.usedModels) models += std::string(models.empty() ? "" : ",") + "\"" + esc(m) + "\"";
    std::string fns; for (auto& m : E.calledFns) { if (m.find("hwy") == std::string::npos) continue; fns += std::string(fns.empty() ? "" : ",") + "\"" + esc(m) + "\""; }
    fprintf(out, "{\"entry\":\"%s\",\"status\":\"%s\",\"why\":\"%s\",\"obligations\":%zu,\"discharged\":%zu,\"exec_s\":%.3f,\"secs\":%.3f,\"simplifier\":%zu,\"duplicate\":%zu,\"z3\":%zu,\"z3fp\":%zu,\"products\":%zu,\"enumeration\":%zu,\"linear_bits\":%zu,\"case_split\":%zu,\"sat\":%zu,\"z3_s\":%.3f,\"vacuity\":\"%s\",\"loops_cut\":%u,\"loop_invariants\":%u,\"fails\":[%s],\"models\":[%s],\"functions\":[%s]}\n",
            esc(en.name).c_str(), status.c_str(), esc(why).c_str(), E.obls.size(), discharged, t1 - t0, now() - t0, gStats.bySimp - s0.bySimp, gStats.byCache - s0.byCache, gStats.byZ3 - s0.byZ3, gStats.byZ3FP - s0.byZ3FP, gStats.byRing - s0.byRing, gStats.byInt - s0.byInt, gStats.byLinBits - s0.byLinBits, gStats.bySplit - s0.bySplit, gStats.bySat - s0.bySat, gStats.z3secs - s0.z3secs, vac.c_str(), E.loopsCut, E.loopInvs, fails.c_str(), models.c_str(), fns.c_str());
    fflush(out);
    if (verbose) fprintf(stderr, "%-40s %-11s obl %zu/%zu exec %.2fs total %.2fs %s\n", en.name.c_str(), status.c_str(), discharged, E.obls.size(), t1 - t0, now() - t0, why.c_str());
    if (status != "proved") rc = 1;
  }
  if (out != stdout) fclose(out);
  fflush(stdout); _exit(rc);
}
