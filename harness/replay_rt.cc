// Native implementation of the harness API: replays a counterexample, searches for one, or logs
// the values a harness computes (used to validate the VC generator against the hardware).
#include "vp.h"
#include "vp_rng.h"
#include <stdio.h>
#include <stdlib.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <string>
#include <vector>
#include <sys/mman.h>
static std::vector<std::pair<std::string, void (*)()>> gE;
static std::vector<std::vector<uint64_t>> gIn; static bool gFromFile = false, gLog = false; static uint64_t gSeed = 0; static unsigned gNext = 0;
static jmp_buf gSkip; static unsigned gFail = 0; static std::vector<std::pair<void*, size_t>> gMaps;
static std::vector<std::vector<uint64_t>> gUsed; static std::vector<unsigned> gUsedEs;
extern "C" {
void vp_entry(const char* n, void (*f)()) { gE.push_back({n, f}); }
void vp_sym(void* p, size_t bytes, size_t es, const char*) {
  unsigned ix = gNext++; std::vector<uint64_t> used;
  for (size_t i = 0; i < bytes / es; i++) { uint64_t v = gFromFile ? (ix < gIn.size() && i < gIn[ix].size() ? gIn[ix][i] : 0) : vp_rand_elem(gSeed, ix, i, es); used.push_back(v); memcpy((char*)p + i * es, &v, es > 8 ? 8 : es); }
  gUsed.push_back(used); gUsedEs.push_back(es);
}
size_t vp_size(const char*, size_t max) { unsigned ix = gNext++; const uint64_t sel = (vp_rand_elem(gSeed, ix, 99, 8) * 0x9E3779B97F4A7C15ull) >> 58; const uint64_t lim = sel == 0 ? 140000 : sel < 4 ? 3000 : 200, cap = max < lim ? max : lim; uint64_t v = gFromFile ? (ix < gIn.size() && gIn[ix].size() ? gIn[ix][0] : 0) : vp_mix64(gSeed * 977 + ix) % (cap + 1); gUsed.push_back({v}); gUsedEs.push_back(8); if (v > max) longjmp(gSkip, 1); if (gFromFile && v > (1u << 24)) longjmp(gSkip, 1); return v; }
void vp_assume(int c) { if (!c) longjmp(gSkip, 1); }
void vp_check(int c, const char* l) { if (gLog) printf("C %s %d\n", l, c ? 1 : 0); if (!c) { gFail++; if (!gLog) printf("FAILED: %s\n", l); } }
static void eq(const void* a, const void* b, size_t n, size_t es, const char* l, bool fl) {
  for (size_t i = 0; i < n; i++) {
    uint64_t x[2] = {0, 0}, y[2] = {0, 0}; memcpy(x, (const char*)a + i * es, es); memcpy(y, (const char*)b + i * es, es);
    auto nan = [&](uint64_t v) { return es == 2 ? (v & 0x7fff) > 0x7c00 : es == 4 ? (v & 0x7fffffff) > 0x7f800000 : (v & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; };
    if (gLog) { if (fl && nan(x[0])) printf("E %s[%u] nan\n", l, (unsigned)i); else printf("E %s[%u] %llx%016llx\n", l, (unsigned)i, (unsigned long long)x[1], (unsigned long long)x[0]); }
    bool ok = x[0] == y[0] && x[1] == y[1]; if (fl && nan(x[0]) && nan(y[0])) ok = true;
    if (!ok) { gFail++; if (!gLog) printf("FAILED: %s[%u] actual 0x%llx expected 0x%llx\n", l, (unsigned)i, (unsigned long long)x[0], (unsigned long long)y[0]); }
  }
}
void vp_eq(const void* a, const void* b, size_t n, size_t es, const char* l) { eq(a, b, n, es, l, false); }
void vp_feq(const void* a, const void* b, size_t n, size_t es, const char* l) { eq(a, b, n, es, l, true); }
void* vp_region(size_t es, size_t count, const char*) {  // exact size, followed by an inaccessible page
  size_t n = es * count, pg = 4096, len = (n + pg - 1) / pg * pg; if (!len) len = pg;
  char* m = (char*)mmap(nullptr, len + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m, pg, PROT_NONE); mprotect(m + pg + len, pg, PROT_NONE); gMaps.push_back({m, len + 2 * pg});
  char* p = m + pg + len - n; static uint64_t q = 0; if (gFromFile) q = 0; for (size_t i = 0; i < n; i++) { if (i % es == 0) q = vp_rand_elem(gSeed ^ 77, gMaps.size(), i / es, es); p[i] = (char)(q >> (8 * (i % es))); } return p; }
void* vp_snapshot(const void* p) { for (auto& m : gMaps) if (p >= m.first && p <= (char*)m.first + m.second) { char* q = (char*)mmap(nullptr, m.second, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(q + 4096, (char*)m.first + 4096, m.second - 8192); size_t off = (const char*)p - (char*)m.first; gMaps.push_back({q, m.second}); return q + off; } return nullptr; }
void vp_replace(const char*, void (*)()) {} void vp_cut(const char*) {} void vp_inv0(int (*)(), const char*) {} void vp_inv1(int (*)(size_t), const char*) {} void vp_inv2(int (*)(size_t, size_t), const char*) {} void vp_invE(int (*)(size_t, size_t), const char*) {} void vp_def1(int (*)(size_t), const char*) {} void vp_nsw(int) {} void vp_split(const void*, size_t, size_t, int, size_t) {} void vp_havoc(void*, size_t, size_t) {} void vp_havoc_region(void*) {}
uint64_t vp_pure(const char* n, uint64_t x) { uint64_t h = 0; while (*n) h = h * 131 + *n++; return vp_mix64(h ^ x * 0x9E3779B97F4A7C15ull); }
uint64_t vp_pure2(const char* n, uint64_t x, uint64_t y) { return vp_pure(n, vp_mix64(x) ^ y); }
int vp_native() { return 1; }
void vp_dead() { longjmp(gSkip, 1); }
}
static int once(void (*f)()) {
  gNext = 0; gFail = 0; gUsed.clear(); gUsedEs.clear();
  int r = setjmp(gSkip); if (r == 0) f();
  for (auto& m : gMaps) munmap(m.first, m.second); gMaps.clear();
  return r ? -1 : (int)gFail;
}
static const char* gOut = nullptr; static std::string gName;
static void dump(const char* why) { if (!gOut) return; FILE* f = fopen(gOut, "w"); if (!f) return; fprintf(f, "entry %s\n# %s\n", gName.c_str(), why); fprintf(f, "seed %llu\n", (unsigned long long)gSeed); for (size_t i = 0; i < gUsed.size(); i++) { fprintf(f, "in %u %zu", gUsedEs[i], gUsed[i].size()); for (auto v : gUsed[i]) fprintf(f, " %llx", (unsigned long long)v); fprintf(f, "\n"); } fclose(f); }
static void onsig(int s) { static char b[64]; snprintf(b, 64, "FAILED: signal %d\n", s); if (write(1, b, strlen(b))) {} dump("crashed"); _exit(3); }
int main(int argc, char** argv) {
  for (int s : {SIGSEGV, SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGTRAP}) signal(s, onsig);
  vp_main(); std::string mode = argc > 1 ? argv[1] : "list";
  if (mode == "list") { for (auto& e : gE) puts(e.first.c_str()); return 0; }
  for (auto& e : gE) {
    if (mode == "log") { // log SEED [regex-free prefix]
      if (argc > 3 && e.first.find(argv[3]) == std::string::npos) continue;
      gSeed = strtoull(argv[2], 0, 10); gLog = true; 
      // prefix each line with the entry name
      char tmpl[] = "/tmp/vplogXXXXXX"; int fd = mkstemp(tmpl); fflush(stdout); int sv = dup(1); dup2(fd, 1); int rr = once(e.second); fflush(stdout); dup2(sv, 1); close(sv); FILE* f = fopen(tmpl, "r"); char line[512]; while (fgets(line, 512, f)) printf("%s %s", e.first.c_str(), line); (void)rr; fclose(f); close(fd); unlink(tmpl); continue; }
    if (e.first != argv[2]) continue; gName = e.first;
    if (mode == "run") { FILE* f = fopen(argv[3], "r"); if (!f) return 2; gFromFile = true; char w[256]; while (fscanf(f, "%255s", w) == 1) { if (!strcmp(w, "in")) { unsigned es; size_t n; if (fscanf(f, "%u %zu", &es, &n) != 2) return 2; std::vector<uint64_t> v; for (size_t i = 0; i < n; i++) { unsigned long long x; if (fscanf(f, "%llx", &x) != 1) return 2; v.push_back(x); } gIn.push_back(v); } else if (!strcmp(w, "seed")) { unsigned long long x; if (fscanf(f, "%llu", &x) == 1) gSeed = x; } else if (w[0] == '#') { int c; while ((c = fgetc(f)) != '\n' && c != EOF) {} } } fclose(f); int r = once(e.second); printf(r < 0 ? "precondition not met\n" : r ? "postcondition violated\n" : "ok\n"); return r > 0 ? 1 : 0; }
    if (mode == "search") { double secs = atof(argv[3]); gOut = argc > 4 ? argv[4] : nullptr; timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0); uint64_t base = argc > 5 ? strtoull(argv[5], 0, 10) : 0; for (uint64_t s = 1;; s++) { gSeed = base + s; int r = once(e.second); if (r > 0) { dump("found by native search"); return 1; } clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) { printf("no failure in %llu trials\n", (unsigned long long)s); return 0; } } }
  }
  return mode == "log" ? 0 : 2;
}
