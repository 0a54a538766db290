/* The library's allocations are counted: its objects and the harness's are
   linked with malloc and free renamed to these (mk/Makefile, heap_*). */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include <pthread.h>
#include <unistd.h>
#define NF 7
typedef struct { void *p; size_t n; void *f[NF]; } E;
#define TAB (1 << 17)
static E tab[TAB]; static long live, total; static int on; static uintptr_t top_;
void *mcl_malloc (size_t);
static size_t slot (void *p) { return ((uintptr_t) p >> 4) * 0x9e3779b97f4a7c15ull >> 47; }
static void add (void *p, size_t n)
{
  if (!on || !p) return;
  size_t i = slot (p); while (tab[i].p && tab[i].p != (void *) 1) i = (i + 1) & (TAB - 1);
  E *e = &tab[i]; e->p = p; e->n = n; live++; total++;
  void **fp = __builtin_frame_address (0); memset (e->f, 0, sizeof e->f); fp = *fp;   /* the frame of mcl_* */
  for (int k = 0; k < NF && (uintptr_t) fp > (uintptr_t) &fp && (uintptr_t) fp < top_; k++) { e->f[k] = fp[1]; if ((void **) fp[0] <= fp) break; fp = fp[0]; }
  if (live > TAB / 2) { fprintf (stderr, "heap: too many live blocks\n"); abort (); }
}
static void del (void *p) { if (!p || !live) return; size_t i = slot (p); for (int n = 0; tab[i].p && n < TAB; i = (i + 1) & (TAB - 1), n++) if (tab[i].p == p) { size_t j = (i + 1) & (TAB - 1); tab[i].p = tab[j].p ? (void *) 1 : NULL; live--; return; } }
void *mcl_malloc (size_t n) { void *p = malloc (n); add (p, n); return p; }
void *mcl_calloc (size_t a, size_t b) { void *p = calloc (a, b); add (p, a * b); return p; }
void *mcl_realloc (void *o, size_t n) { del (o); void *p = realloc (o, n); add (p, n); return p; }
char *mcl_strdup (const char *s) { char *p = strdup (s); add (p, strlen (s) + 1); return p; }
char *mcl_strndup (const char *s, size_t n) { char *p = strndup (s, n); add (p, n); return p; }
int mcl_vasprintf (char **r, const char *f, __builtin_va_list a) { int k = vasprintf (r, f, a); if (k >= 0) add (*r, k + 1); return k; }
int mcl_asprintf (char **r, const char *f, ...) { __builtin_va_list a; __builtin_va_start (a, f); int k = vasprintf (r, f, a); __builtin_va_end (a); if (k >= 0) add (*r, k + 1); return k; }
char *mcl_canon (const char *s) { char *p = canonicalize_file_name (s); add (p, 1); return p; }
void mcl_free (void *p) { del (p); free (p); }
void mcl_begin (void) { memset (tab, 0, sizeof tab); live = 0; on = 1; if (!top_) { pthread_attr_t a; void *s; size_t n; pthread_getattr_np (pthread_self (), &a); pthread_attr_getstack (&a, &s, &n); top_ = (uintptr_t) s + n; pthread_attr_destroy (&a); } }
/* the blocks that are still there: how many; KEY: who allocated one of them */
long mcl_end (char *key, int nk, char *msg, int nm)
{
  on = 0; if (!live) return 0;
  E *e = NULL; for (int i = 0; i < TAB; i++) if ((uintptr_t) tab[i].p > 1) { e = &tab[i]; break; }
  char cmd[400] = "addr2line -f -e /proc/self/exe"; size_t n = strlen (cmd); char self[300]; (void) self;
  n = snprintf (cmd, sizeof cmd, "addr2line -f -e /proc/%d/exe", (int) getpid ()); for (int k = 0; k < NF && e->f[k]; k++) n += snprintf (cmd + n, sizeof cmd - n, " %p", (void *) ((char *) e->f[k] - 1));
  FILE *f = popen (cmd, "r"); char fn[200], ln[300]; int used = 0; *msg = *key = 0; size_t m = 0;
  for (int k = 0; f && fgets (fn, sizeof fn, f) && fgets (ln, sizeof ln, f); k++) {
    fn[strcspn (fn, "\n")] = 0; ln[strcspn (ln, "\n")] = 0; char *b = strrchr (ln, '/'); b = b ? b + 1 : ln; b[strcspn (b, " ")] = 0;
    if (m < (size_t) nm - 100) m += snprintf (msg + m, nm - m, "%s%s (%s)", k ? " from " : "", fn, b);
    if (!strcmp (fn, "ped_malloc") || !strcmp (fn, "ped_calloc") || !strcmp (fn, "zalloc")) continue;
    if (used < 3 && (int) (strlen (key) + strlen (fn)) < nk - 2) { if (used) strcat (key, "<"); strcat (key, fn); used++; }
  }
  if (f) pclose (f);
  return live;
}
long mcl_total (void) { return total; }
