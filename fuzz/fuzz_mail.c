/* In-process target: one byte selects the consumer, the rest is its input.
 * 0..: a message (parse + tokenise), 1: an mbox scanned for From_/MMDF separators is covered by the process-level
 * workload; 2: an nvp header; 3: a folder pattern and a name; 4: a date expression; 5: an rc value (expand_string). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include "mairix.h"
#include "nvp.h"
#include "dates.h"
#include "md5.h"

static char *exact(const uint8_t *d, size_t n)
{
  char *p = malloc(n ? n : 1);
  memcpy(p, d, n);
  return p;
}
static char *zstr(const uint8_t *d, size_t n)
{
  char *p = malloc(n + 1);
  memcpy(p, d, n);
  p[n] = 0;
  return p;
}
static jmp_buf out;
static int inside = 0;
void __real_exit(int);
void __wrap_exit(int code)
{
  if (inside) longjmp(out, 1);   /* refusing an input is fine */
  __real_exit(code);
}
int LLVMFuzzerInitialize(int *argc, char ***argv)
{
  setenv("TZ", "UTC", 1);
  setenv("X", "exp", 1);
  return 0;
}
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
  static char fname[] = "/m";
  struct msg_src src = { MS_FILE, fname, 0, 0 };
  uint8_t sel;
  char *p;
  if (n < 1) return 0;
  sel = d[0] & 7;
  d++; n--;
  if (setjmp(out)) { inside = 0; return 0; }
  inside = 1;
  switch (sel) {
    case 2: {
      struct nvp *v;
      p = zstr(d, n);
      v = make_nvp(&src, p, "");
      if (v) {
        nvp_lookup(v, "name"); nvp_lookupcase(v, "boundary"); nvp_major(v); nvp_minor(v); nvp_first(v);
        free_nvp(v);
      }
      free(p);
      break;
    }
    case 3: {
      size_t k = n / 2;
      char *g = zstr(d, k), *s = zstr(d + k, n - k);
      struct globber *gl = make_globber(g);
      is_glob_match(gl, s);
      free_globber(gl);
      free(g); free(s);
      break;
    }
    case 4: {
      int hs, he; time_t a, b;
      p = zstr(d, n);
      scan_date_string(p, &a, &hs, &b, &he);
      free(p);
      break;
    }
    default: {
      struct database *db;
      struct rfc822 *r;
      enum data_to_rfc822_error err;
      p = exact(d, n);
      r = data_to_rfc822(&src, p, (int) n, (sel & 1) ? &err : NULL);
      free(p);
      if (r) {
        db = new_database(1);
        tokenise_message(0, db, r);
        free_rfc822(r);
        free_database(db);
      }
      break;
    }
  }
  inside = 0;
  return 0;
}
