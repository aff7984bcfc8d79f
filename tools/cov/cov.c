// block coverage of one rank's code (development tool, see tools/cover.py): one byte per code address in a shared file
#include <fcntl.h>
#include <sys/mman.h>
#include <stdint.h>
extern char __ehdr_start __attribute__((visibility("hidden")));
static unsigned char* map;
void __sanitizer_cov_trace_pc(void) {
  if (!map) { int fd = open("/tmp/cov.map", O_RDWR); if (fd < 0) return; map = (unsigned char*)mmap(0, 1 << 25, 3, MAP_SHARED, fd, 0); if (map == MAP_FAILED) { map = 0; return; } }
  uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__ehdr_start;
  if (pc < (1 << 25)) map[pc] = 1;
}
