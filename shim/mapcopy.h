/* Force-included into the sanitizer build: read-only file mappings become heap blocks of exactly the mapped length, so that
 * AddressSanitizer sees accesses outside the mapping (and after munmap) to the byte. */
#ifndef MX_MAPCOPY_H
#define MX_MAPCOPY_H
#ifndef _GNU_SOURCE
#define MX_UNDEF_GNU
#endif
#include <sys/types.h>
#include <sys/mman.h>
#include <stdlib.h>
#include <unistd.h>
#include <stdio.h>
__attribute__((weak)) void *mx_map_tab[1024];
static inline void *mx_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off)
{
  int i;
  char *p;
  size_t got = 0;
  if (prot != PROT_READ || fd < 0) return mmap(a, len, prot, flags, fd, off);
  for (i = 0; i < 1024 && mx_map_tab[i]; i++) ;
  if (i == 1024) return mmap(a, len, prot, flags, fd, off);
  fflush(NULL);
  p = malloc(len);
  if (!p) return MAP_FAILED;
  while (got < len) {
    ssize_t n = pread(fd, p + got, len - got, off + (off_t) got);
    if (n <= 0) break;
    got += n;
  }
  if (got < len) { /* file not (yet) that long, e.g. unflushed temporary: needs the real thing */
    free(p);
    return mmap(a, len, prot, flags, fd, off);
  }
  mx_map_tab[i] = p;
  return p;
}
static inline int mx_munmap(void *p, size_t len)
{
  int i;
  for (i = 0; i < 1024; i++) {
    if (mx_map_tab[i] == p && p) {
      mx_map_tab[i] = 0;
      free(p);
      return 0;
    }
  }
  return munmap(p, len);
}
#define mmap mx_mmap
#define munmap mx_munmap
#endif
