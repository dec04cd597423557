// coverage build only: children add their counters to shared memory, the parent writes the profile at the end.
#include <sys/mman.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
extern "C" {
char* __llvm_profile_begin_counters(void);
char* __llvm_profile_end_counters(void);
void __llvm_profile_reset_counters(void);
int __llvm_profile_write_file(void);
void __llvm_profile_set_filename(const char*);
static uint64_t* g_acc; static size_t g_n;
__attribute__((constructor)) static void init(void)
{
    g_n = (size_t)(__llvm_profile_end_counters() - __llvm_profile_begin_counters()) / 8;
    g_acc = (uint64_t*)mmap(0, g_n * 8 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
void sim_cov_child(void)
{
    uint64_t* c = (uint64_t*)__llvm_profile_begin_counters();
    for (size_t i = 0; i < g_n; ++i) if (c[i]) __atomic_fetch_add(&g_acc[i], c[i], __ATOMIC_RELAXED);
}
void sim_cov_write(void)
{
    memcpy(__llvm_profile_begin_counters(), g_acc, g_n * 8);
    __llvm_profile_set_filename(getenv("COVFILE") ? getenv("COVFILE") : "/tmp/w/cov.profraw");
    __llvm_profile_write_file();
}
}
