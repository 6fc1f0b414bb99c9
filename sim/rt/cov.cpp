// Development aid (tools/cover.py): which basic blocks of HelFEM the simulated
// runs reach, over all processes of a campaign.
#include <cstdint>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/syscall.h>
extern "C" char __executable_start, etext;
static uint8_t *g_map = nullptr;
__attribute__((constructor(101))) static void cov_init() {
  const char *p = getenv("SIM_COV"); if (!p) return;
  size_t n = (size_t)(&etext - &__executable_start);
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CREAT, 0600); if (fd < 0) return;
  if (syscall(SYS_ftruncate, fd, n)) return;
  void *m = (void *)syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (m != MAP_FAILED) g_map = (uint8_t *)m;
  syscall(SYS_close, fd);
}
extern "C" void __sanitizer_cov_trace_pc() {
  if (g_map) g_map[(char *)__builtin_return_address(0) - &__executable_start] = 1;
}
