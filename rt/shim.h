// force-included: routes the environment calls made by the repository's sources to stand-ins
#pragma once
#include <sys/types.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <time.h>
extern "C" {
void* vx_mmap(void* addr, size_t n, int prot, int flags, int fd, long off);
int vx_munmap(void* p, size_t n);
int vx_mprotect(void* p, size_t n, int prot);
long vx_sysconf(int name);
int vx_getpagesize(void);
int vx_getrlimit(int what, struct rlimit* l);
}
#define mmap vx_mmap
#define munmap vx_munmap
#define mprotect vx_mprotect
#define sysconf vx_sysconf
#define getpagesize vx_getpagesize
#define getrlimit vx_getrlimit
