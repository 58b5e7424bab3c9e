// Replay runtime: executes the contract text natively on a tape of inputs, or searches random tapes.
//   prog PROOF tape FILE                replay (exit 0 holds, 3 vacuous (an assumption fails), 10 violated)
//   prog PROOF search SEED SECONDS OUT  random search; on a violation writes the tape to OUT and exits 10
#include "vc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <setjmp.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <stdarg.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*)) __attribute__((weak));
extern "C" void __sanitizer_set_death_callback(void (*cb)(void)) __attribute__((weak));
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=10:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "exitcode=10"; }

struct Entry { const char* n; void (*f)(); };
static std::vector<Entry>& reg() { static std::vector<Entry> v; return v; }
extern "C" void vc_register(const char* n, void (*f)()) { reg().push_back({ n, f }); }

static bool replay = false;
static std::vector<std::string> tape_in; static size_t tpos;
static char* tbuf; static size_t tlen, tcap = 1 << 22; // recorded tape (plain buffer: usable from handlers)
static const char* outpath;
static jmp_buf jb; static volatile bool injb = false;
static volatile int ghost = 0; static volatile long live = 0;
static uint64_t rs;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
static void rec(const char* fmt, ...) { va_list a; va_start(a, fmt); if(tlen + 64 < tcap) tlen += vsnprintf(tbuf + tlen, tcap - tlen, fmt, a); va_end(a); }
static void rechex(const unsigned char* p, size_t n) { static const char* h = "0123456789abcdef"; for(size_t i = 0; i < n && tlen + 8 < tcap; ++i) { tbuf[tlen++] = h[p[i] >> 4]; tbuf[tlen++] = h[p[i] & 15]; } if(!n) tbuf[tlen++] = '-'; tbuf[tlen++] = '\n'; }
static char msg[512] = "crash (memory error or undefined behaviour)";
static bool dumped = false;
static void dump() {
  if(dumped) return; dumped = true;
  fprintf(stderr, "VC-FAIL %s\n", msg);
  if(!replay && outpath) { FILE* f = fopen(outpath, "w"); if(f) { fwrite(tbuf, 1, tlen, f); fprintf(f, "# %s\n", msg); fclose(f); } }
}
static void fail(const char* kind, const char* label) { snprintf(msg, sizeof msg, "%s: %s", kind, label); dump(); fflush(0); _exit(10); }
static void vacuous() { if(replay) { fprintf(stderr, "VC-VACUOUS\n"); fflush(0); _exit(3); } longjmp(jb, 1); }
static void onalarm(int) { snprintf(msg, sizeof msg, "hang: the operation did not finish"); dump(); _exit(10); }
static void onsig(int s) { snprintf(msg, sizeof msg, "crash: signal %d", s); dump(); _exit(10); }
static void mhook(const volatile void*, size_t) { if(!ghost) ++live; }
static void fhook(const volatile void* p) { if(p && !ghost) --live; }

static std::vector<uint64_t>* pool;
static uint64_t rval(unsigned bits) {
  uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1), v;
  switch(rnd() % 10) {
  case 0: case 1: case 2: v = rnd() % 5; break;
  case 3: v = rnd() % 20; break;
  case 4: v = 0 - (rnd() % 5); break;
  case 5: v = (1ull << (rnd() % bits)) + (rnd() % 3) - 1; break;
  case 6: v = rnd(); break;
  case 7: v = rnd() >> (rnd() % 64); break;
  case 8: v = ((1ull << (bits - 1)) + (rnd() % 5)) - 2; break;
  default: v = pool->empty() ? rnd() % 3 : (*pool)[rnd() % pool->size()] + (rnd() % 3) - 1; break;
  }
  v &= m; ++ghost; if(pool->size() < 64) pool->push_back(v); --ghost; return v;
}
static const std::string& nxt() { return tape_in[tpos++]; }
static bool fromtape() { return replay && tpos < tape_in.size(); } // a recorded input ends where the verifier's path ended; continue with arbitrary values
static uint64_t smallmode;
extern "C" {
u64 vc_any(u32 bits) {
  u64 v;
  if(fromtape()) { ++ghost; const std::string& s = nxt(); v = strtoull(s.c_str() + 2, 0, 10); --ghost; }
  else v = rval(bits);
  rec("a %llu\n", (unsigned long long)v); return v;
}
u64 vc_size(u64 max) {
  u64 v;
  if(fromtape()) { ++ghost; v = strtoull(nxt().c_str() + 2, 0, 10); --ghost; }
  else { v = (rnd() % 12 == 0) ? rnd() % 40 : rnd() % (smallmode + 1); if(v > max) v = max ? rnd() % (max + 1) : 0; }
  rec("a %llu\n", (unsigned long long)v);
  if(v > max) vacuous();
  return v;
}
void vc_assume(bool c) { if(!c) vacuous(); }
void vc_assert_(bool c, const char* l) { if(!c) fail("obligation", l); }
void vc_code_assert(bool c, const char* l) { if(!c) fail("assert in code", l); }
void vc_cover(const char*) {}
static void fillmem(void* p, u64 n, u64 esz) {
  if(n * esz > (1u << 22)) vacuous();
  if(fromtape()) {
    ++ghost;
    const std::string& s = nxt(); unsigned long long nn = 0, ee = 0; int off = 0; sscanf(s.c_str(), "r %llu %llu %n", &nn, &ee, &off);
    if(nn != n || ee != esz) { fprintf(stderr, "VC-VACUOUS tape mismatch (%llu %llu vs %llu %llu)\n", nn, ee, (unsigned long long)n, (unsigned long long)esz); _exit(3); }
    unsigned char* q = (unsigned char*)p;
    for(u64 i = 0; i < n * esz; ++i) { unsigned x; sscanf(s.c_str() + off + 2 * i, "%2x", &x); q[i] = (unsigned char)x; }
    --ghost;
  } else {
    unsigned style = rnd() % 4;
    unsigned unit = (esz % 8 == 0) ? 8 : (esz % 4 == 0) ? 4 : (esz % 2 == 0) ? 2 : 1;
    if(unit == 8 && esz > 8 && (rnd() & 1)) unit = 4;
    unsigned char* q = (unsigned char*)p;
    uint64_t run = 0;
    for(u64 i = 0; i < n * esz; i += unit) {
      u64 v;
      if(style == 0) v = rnd() % 4;
      else if(style == 1) { run += rnd() % 3; v = run; }
      else if(style == 2) { v = rval(unit * 8); }
      else { v = (rnd() % 7) - 3; }
      memcpy(q + i, &v, unit);
    }
  }
  rec("r %llu %llu ", (unsigned long long)n, (unsigned long long)esz); rechex((unsigned char*)p, n * esz);
}
void* vc_alloc(u64 n, u64 esz, bool heap) {
  if(n * esz > (1u << 22)) vacuous();
  if(!heap) ++ghost;
  void* p = malloc(n * esz ? n * esz : 1);
  if(!heap) --ghost;
  fillmem(p, n, esz); return p;
}
void vc_fill(void* p, u64 n, u64 esz) { fillmem(p, n, esz); }
void* vc_snap(const void* p, u64 n, u64 esz) { ++ghost; void* q = malloc(n * esz ? n * esz : 1); --ghost; if(n) memcpy(q, p, n * esz); return q; }
void* vc_ghost(u64 n, u64 esz) { if(n * esz > (1u << 22)) vacuous(); ++ghost; void* q = calloc(n + 1, esz); --ghost; return q; }
u64 vc_live() { return (u64)live; }
void vc_unroll(u64) {}
void vc_terminates() {}
void vc_shared(const void*) {}
void vc_inv_(const char*, u32, void*, void*) {}
void vc_invp_(const char*, u32, void*, void*, u64) {}
void vc_clear_inv() {}
bool vc_forall1_(u64 lo, u64 hi, bool (*fn)(void*, u64), void* env) {
  if(hi > lo && hi - lo > (1u << 20)) vacuous();
  for(u64 k = lo; k < hi; ++k) if(!fn(env, k)) return false;
  return true;
}
bool vc_forall2_(u64 lo, u64 hi, u64 lo2, u64 hi2, bool (*fn)(void*, u64, u64), void* env) {
  if((hi > lo && hi - lo > 2000) || (hi2 > lo2 && hi2 - lo2 > 2000)) vacuous();
  for(u64 k = lo; k < hi; ++k) for(u64 j = lo2; j < hi2; ++j) if(!fn(env, k, j)) return false;
  return true;
}
}
int main(int argc, char** argv) {
  if(argc < 3) { for(auto& e : reg()) puts(e.n); return 0; }
  tbuf = (char*)malloc(tcap); pool = new std::vector<uint64_t>(); pool->reserve(64);
  void (*fn)() = 0;
  for(auto& e : reg()) if(!strcmp(e.n, argv[1])) fn = e.f;
  if(!fn) { fprintf(stderr, "no such proof\n"); return 2; }
  if(__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
  if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(dump);
  else { signal(SIGSEGV, onsig); signal(SIGFPE, onsig); }
  signal(SIGABRT, onsig); signal(SIGALRM, onalarm);
  if(!strcmp(argv[2], "tape")) {
    replay = true;
    FILE* f = fopen(argv[3], "r"); if(!f) return 2;
    static char line[1 << 22];
    while(fgets(line, sizeof line, f)) if(line[0] == 'a' || line[0] == 'r') { size_t n = strlen(line); if(line[n - 1] == '\n') line[n - 1] = 0; tape_in.push_back(line); }
    fclose(f); alarm(20); live = 0; rs = 88172645463325252ull; smallmode = 4; fn(); fprintf(stderr, "VC-HOLDS\n"); fflush(0); _exit(0);
  }
  uint64_t seed = strtoull(argv[3], 0, 10); double secs = atof(argv[4]); outpath = argv[5];
  time_t t0 = time(0); rs = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  static volatile unsigned long long it = 0, ok = 0;
  for(;;) {
    if((it & 255) == 0) { if(time(0) - t0 >= secs) break; }
    ++it; tlen = 0; pool->clear(); smallmode = 1 + rnd() % 8; live = 0; ghost = 0;
    if(!setjmp(jb)) { alarm(10); fn(); ++ok; }
  }
  printf("iterations %llu completed %llu\n", it, ok); fflush(0); _exit(0);
}
