// Coverage of the library's code (tools/coverage.py): active only in builds made with VMC_COV=1.
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
#include "vm.h"
static u32 *map_; static bool tried;
static void init() { tried = true; const char *f = getenv("VMC_COVFILE"); if (!f) return; int d = open(f, O_RDWR); if (d < 0) return; map_ = (u32 *)mmap(nullptr, 1 << 22, PROT_READ | PROT_WRITE, MAP_SHARED, d, 0); close(d); if (map_ == MAP_FAILED) map_ = nullptr; }
extern "C" void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) { if (a != b && !*a) { u32 i = 1; for (u32 *p = a; p < b; p++) *p = i++; } }
extern "C" void __sanitizer_cov_pcs_init(const u64 *b, const u64 *e) {   // the second half of the file: where each block is
  if (!tried) init(); if (!map_) return; extern u64 cov_base(u64); u64 base = cov_base(*b); u32 i = 1; for (const u64 *p = b; p < e; p += 2) map_[(1 << 19) + i++] = (u32)(*p - base);
}
extern "C" void __sanitizer_cov_trace_pc_guard(u32 *g) { if (!tried) init(); if (map_ && *g < (1 << 19)) map_[*g] = 1; }
#include <dlfcn.h>
u64 cov_base(u64 a) { Dl_info i; return dladdr((void *)a, &i) ? (u64)i.dli_fbase : 0; }
