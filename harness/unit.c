/* P19: locations and sizes, formatted and parsed, against exact arithmetic */
#include <config.h>
#include "mc.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <ctype.h>

typedef __int128 I;
typedef long long L;
#define N(a) ((int) (sizeof (a) / sizeof *(a)))
#define BAD(key, ...) late (key, __VA_ARGS__)
static char late_key[40], late_msg[600];
#include <stdarg.h>
static void late (const char *k, const char *f, ...) { if (*late_key) return; va_list a; va_start (a, f); snprintf (late_key, 40, "%s", k); vsnprintf (late_msg, 600, f, a); va_end (a); }
static void ev (const char *w) { mc_count (w, 1); mc_count ("evaluations", 1); }

static const McGeom devs[] = {
  { .length = 1, .ss = 512, .phys = 512, .heads = 1, .sects = 1 },
  { .length = 63, .ss = 512, .phys = 512, .heads = 4, .sects = 8 },
  { .length = 1000, .ss = 512, .phys = 512, .heads = 16, .sects = 63 },
  { .length = 2048, .ss = 4096, .phys = 4096, .heads = 255, .sects = 63 },
  { .length = 40960, .ss = 512, .phys = 4096, .heads = 16, .sects = 63 },
  { .length = 40961, .ss = 2048, .phys = 2048, .heads = 7, .sects = 9 },
  { .length = 1000003, .ss = 512, .phys = 512, .heads = 255, .sects = 63 },
  { .length = 21000000, .ss = 1024, .phys = 1024, .heads = 255, .sects = 63 },
  { .length = 0x7fffffffLL, .ss = 512, .phys = 512, .heads = 255, .sects = 63 },
  { .length = 0x100000005LL, .ss = 512, .phys = 512, .heads = 255, .sects = 63 },
  { .length = 0x100000000LL, .ss = 4096, .phys = 4096, .heads = 128, .sects = 32 },
  { .length = 0x20000000007LL, .ss = 512, .phys = 512, .heads = 255, .sects = 63 },
  { .length = 0x80000000000LL, .ss = 512, .phys = 512, .heads = 16, .sects = 63 },
};
static PedDevice *dev; static const McGeom *G;
static const char *const uname[] = { "s", "B", "kB", "MB", "GB", "TB", "compact", "cyl", "chs", "%", "kiB", "MiB", "GiB", "TiB" };
enum { US, UB, UKB, UMB, UGB, UTB, UCOMPACT, UCYL, UCHS, UPC, UKIB, UMIB, UGIB, UTIB };
static L usize (int u)
{
  static const L t[] = { 0, 1, 1000, 1000000, 1000000000, 1000000000000LL, 0, 0, 0, 0, 1 << 10, 1 << 20, 1 << 30, 1LL << 40 };
  return u == US || u == UCHS ? G->ss : u == UCYL ? (L) G->heads * G->sects * G->ss : u == UPC ? G->length * G->ss / 100 : t[u];
}
static bool iec (int u) { return u >= UKIB; }

/* ---------- formatting ---------- */
static void format1 (PedSector byte, int u)
{
  PedSector s = byte / G->ss;
  char *t = ped_unit_format_custom_byte (dev, byte, u), w[100]; ev ("locations formatted");
  if (u == UCHS) { snprintf (w, 100, "%lld,%lld,%lld", s / G->sects / G->heads, s / G->sects % G->heads, s % G->sects); if (strcmp (t, w)) BAD ("format-chs", "byte %lld is '%s', not '%s'", (L) byte, t, w); }
  else if (u == US || u == UB || u == UCYL) { snprintf (w, 100, "%lld%s", (L) byte / usize (u), uname[u]); if (strcmp (t, w)) BAD ("format-exact", "byte %lld is '%s', not '%s'", (L) byte, t, w); }
  else {
    int v = u;
    if (u == UCOMPACT) v = byte >= 10000000000000LL ? UTB : byte >= 10000000000LL ? UGB : byte >= 10000000 ? UMB : byte >= 10000 ? UKB : UB;
    long double x = (long double) byte / usize (v), tol = x * 1e-15L + 1e-15L;
    char *e; long double y = strtold (t, &e); char *dot = strchr (t, '.'); int p = dot ? (int) (e - dot - 1) : 0;
    long double half = p == 2 ? 0.005L : p == 1 ? 0.05L : 0.5L;
    if (strcmp (e, uname[v])) BAD ("format-unit", "byte %lld in unit %s is '%s'", (L) byte, uname[u], t);
    if (fabsl (y - x) > half + tol * 10) BAD ("format-value", "byte %lld in unit %s is '%s', not %.6Lf", (L) byte, uname[u], t, x);
    int want = x < 9.994999L ? 2 : x > 9.995001L && x < 99.94999L ? 1 : x > 99.95001L ? 0 : p;
    if (p != want) BAD ("format-digits", "byte %lld in unit %s is '%s': %d digits after the point, not %d", (L) byte, uname[u], t, p, want);
  }
  /* and back */
  char *q = t; bool small = *q == '0' && q[1] == '.' && strtod (q, NULL) > 0;
  PedSector r = -1; PedGeometry *g = NULL;
  if (s < G->length && !small) {
    ped_unit_set_default (u);
    int ok = ped_unit_parse (t, dev, &r, &g); ev ("locations formatted and parsed");
    int v = u; if (u == UCOMPACT) v = byte >= 10000000000000LL ? UTB : byte >= 10000000000LL ? UGB : byte >= 10000000 ? UMB : byte >= 10000 ? UKB : UB;
    char *dot = strchr (t, '.'); long double unit = (long double) usize (v) / G->ss;
    long double tol = v == US || v == UCHS || v == UB ? 0 : v == UCYL ? unit : unit * (dot ? (isdigit (dot[2]) ? 0.005L : 0.05L) : 0.5L) + 1;
    if (!ok) { if (!(v != US && v != UCHS && v != UB && s + tol > G->length - 1)) BAD ("round-trip", "'%s' (sector %lld of %lld) cannot be parsed: %s", t, (L) s, (L) G->length, mc_exc_msg); }
    else {
      if (fabsl ((long double) r - s) > tol) BAD ("round-trip", "sector %lld is '%s', which is sector %lld", (L) s, t, (L) r);
      if (g) ped_geometry_destroy (g);
    }
  }
  free (t);
  if (byte % G->ss == 0) {
    char *a = ped_unit_format_custom (dev, s, u), *b = ped_unit_format_custom_byte (dev, byte, u); ped_unit_set_default (u);
    char *c = ped_unit_format (dev, s), *d = ped_unit_format_byte (dev, byte);
    if (strcmp (a, b) || strcmp (b, c) || strcmp (c, d)) BAD ("format-same", "sector %lld: %s %s %s %s", (L) s, a, b, c, d);
    if (ped_unit_get_default () != u) BAD ("default", "the default unit is not what was set");
    free (a); free (b); free (c); free (d);
  }
}
static void formats (int di, int u)
{
  static const L ks[] = { 0, 1, 2, 3, 5, 9, 10, 11, 49, 50, 51, 99, 100, 101, 499, 999, 1000, 1001, 9999, 10000, 99999, 123456, 1000000, 4194304 };
  for (int v = 0; v < 14; v++) for (int k = 0; k < N (ks); k++) for (int d = -2; d <= 2; d++) for (int h = 0; h < 3; h++) {
    I b = (I) ks[k] * (usize (v) ? usize (v) : 1);
    if (h == 1) b += usize (u == UCOMPACT ? UKB : u) / 2; if (h == 2) b -= usize (u == UCOMPACT ? UKB : u) / 200;
    b += d * (v & 1 ? 1 : G->ss);
    if (b < 0 || b > (I) G->length * G->ss) continue;
    format1 (b, u);
  }
  for (int d = 0; d < 5; d++) { format1 ((G->length - d > 0 ? G->length - d : 0) * G->ss, u); format1 (G->length / 2 * G->ss + d, u); format1 (G->length * G->ss - 1 - d, u); }
  for (L s = 0; s < G->length && s < 300; s++) { format1 (s * G->ss, u); format1 (s * G->ss + G->ss - 1, u); }
  for (int i = 0; i < 200; i++) format1 ((PedSector) ((I) G->length * G->ss * i / 200), u);
}

/* ---------- parsing ---------- */
static const struct { const char *t; int u; } suf[] = {
  { "", -1 }, { "s", US }, { "S", US }, { "sectors", US }, { "B", UB }, { "b", UB }, { "k", UKB }, { "kB", UKB }, { "KB", UKB }, { "kib", UKIB }, { "KiB", UKIB }, { "M", UMB }, { "MB", UMB }, { "mb", UMB },
  { "MiB", UMIB }, { "mib", UMIB }, { "Mi", UMIB }, { "G", UGB }, { "GB", UGB }, { "GiB", UGIB }, { "T", UTB }, { "TB", UTB }, { "tb", UTB }, { "TiB", UTIB }, { "tIb", UTIB }, { "%", UPC }, { "cyl", UCYL }, { "c", UCYL } };
static const char *const frac[] = { "", ".", ".0", ".5", ".25", ".750", ".999", ".001", ".04" };
static const char *const lay[] = { "%s%s", "%s %s", "%s  %s", " %s%s", "%s%s  ", "  %s   %s " };
static void parse1 (const char *str, bool neg, const char *num, const char *fr, int su, int def)
{
  int u = su >= 0 ? su : def == UCOMPACT ? UMB : def;
  /* exact value */
  I n = 0; long double nl = 0; int big = strlen (num) > 24; for (const char *c = num; *c; c++) { n = n * 10 + (*c - '0'); nl = nl * 10 + (*c - '0'); if (big) n = 1; }
  L den = 1; bool inexact = false; I nf = n; for (const char *c = *fr ? fr + 1 : fr; *c; c++) { nf = nf * 10 + (*c - '0'); den *= 10; }
  if (!strcmp (fr, ".999") || !strcmp (fr, ".001") || !strcmp (fr, ".04")) inexact = true;
  long double val = big ? nl : (long double) nf / den, x = val * usize (u) / G->ss;
  bool tiny = val > 0 && val < 1 && !neg, huge = x > 1e18L;
  PedSector s = -7; PedGeometry *g = (PedGeometry *) -1; mc_nexc = 0;
  ped_unit_set_default (def);
  int ok = ped_unit_parse (str, dev, &s, &g); ev ("locations parsed");
  if (!ok) { if (s || g) BAD ("parse-fail-output", "'%s' is refused but sector is %lld", str, (L) s); if (!mc_nexc) BAD ("parse-silent", "'%s' is refused without a message", str); }
  else if (!g) { BAD ("parse-no-range", "'%s' is accepted without a range", str); return; }
  if (tiny) { if (ok) { BAD ("parse-tiny", "'%s' is accepted", str); ped_geometry_destroy (g); } return; }
  if (huge) { if (ok) { BAD ("parse-huge", "'%s' is accepted as sector %lld of %lld", str, (L) s, (L) G->length); ped_geometry_destroy (g); } return; }
  /* truncated to a sector */
  I w = nf * usize (u) / ((I) den * G->ss), lo = w, hi = w;
  if (inexact || (long double) n * usize (u) > 9e15L || val > 9e15L || (*fr && val > 1e15L)) { lo = (I) (x * (1 - 1e-15L)); hi = (I) (x * (1 + 1e-15L)); }
  if (neg) { I t = lo; lo = G->length - hi; hi = G->length - t; }
  long double half = iec (u) || usize (u) <= G->ss ? 0 : (long double) usize (u) / G->ss / 2;
  bool inside = lo >= 0 && hi < G->length, outside = hi + half + 1 < 0 || lo - half - 1 > G->length - 1;
  if (!half) outside = hi < 0 || lo > G->length - 1;
  if (inside && !ok) BAD ("parse-refused", "'%s' is refused, but is sector %lld of %lld: %s", str, (L) lo, (L) G->length, mc_exc_msg);
  if (outside && ok) BAD ("parse-outside", "'%s' is accepted as sector %lld, but is %lld of %lld", str, (L) s, (L) lo, (L) G->length);
  if (ok) {
    I cl = lo < 0 ? 0 : lo > G->length - 1 ? G->length - 1 : lo, ch = hi < 0 ? 0 : hi > G->length - 1 ? G->length - 1 : hi;
    if (s < cl || s > ch) BAD ("parse-value", "'%s' is sector %lld, not %lld", str, (L) s, (L) lo);
    if (g->start < 0 || g->end >= G->length || g->start > g->end) BAD ("parse-range", "'%s': range %lld-%lld of %lld", str, (L) g->start, (L) g->end, (L) G->length);
    if (!half) { if (g->start != s || g->end != s) BAD ("parse-range", "'%s' is sector %lld but has the range %lld-%lld", str, (L) s, (L) g->start, (L) g->end); }
    else {
      if (g->start > s || g->end < s) BAD ("parse-range", "'%s' is sector %lld but has the range %lld-%lld", str, (L) s, (L) g->start, (L) g->end);
      if (lo - g->start > half + 1 || g->end - hi > half + 1) BAD ("parse-range", "'%s' is sector %lld but has the range %lld-%lld (unit of %lld sectors)", str, (L) s, (L) g->start, (L) g->end, usize (u) / G->ss);
      if ((g->start > 0 && hi - g->start < half - 2) || (g->end < G->length - 1 && g->end - lo < half - 2)) BAD ("parse-range", "'%s' is sector %lld but has only the range %lld-%lld (unit of %lld sectors)", str, (L) s, (L) g->start, (L) g->end, usize (u) / G->ss);
    }
    ped_geometry_destroy (g);
  }
}
static void parses (int di, int si)
{
  char nb[40][40]; int nn = 0; static const L fix[] = { 0, 1, 2, 3, 7, 10, 63, 99, 100, 101, 512, 1000, 1024, 2048, 4294967295LL, 4294967296LL, 99999999999LL, 9223372036854775807LL };
  for (int i = 0; i < N (fix); i++) sprintf (nb[nn++], "%lld", fix[i]);
  strcpy (nb[nn++], "9223372036854775808"); strcpy (nb[nn++], "18446744073709551617"); strcpy (nb[nn++], "99999999999999999999999999"); strcpy (nb[nn++], "007");
  int u = suf[si].u < 0 ? US : suf[si].u; L per = usize (u) / G->ss ? usize (u) / G->ss : 1; I end = (I) G->length * G->ss / usize (u);
  for (int d = -2; d <= 2; d++) if (end + d >= 0) sprintf (nb[nn++], "%lld", (L) (end + d));
  sprintf (nb[nn++], "%lld", (L) (end / 2)); sprintf (nb[nn++], "%lld", (L) (end / 3)); (void) per;
  for (int def = 0; def < (suf[si].u < 0 ? 14 : 1); def++) for (int neg = 0; neg < 2; neg++) for (int k = 0; k < nn; k++) for (int f = 0; f < N (frac); f++) for (int l = 0; l < N (lay); l++) {
    if (suf[si].u < 0 && l == 2) continue;
    char v[90], str[140]; snprintf (v, 90, "%s%s%s", neg ? "-" : "", nb[k], frac[f]); snprintf (str, 140, lay[l], v, suf[si].t);
    parse1 (str, neg, nb[k], frac[f], suf[si].u, def);
  }
}
static void chs (int di)
{
  static const char *const fmt[] = { "%lld,%lld,%lld", "%lld, %lld, %lld", " %lld,%lld,%lld " };
  L C = G->length / (G->heads * G->sects);
  L cs[] = { 0, 1, 2, C - 1, C, C + 1, 1023, 1024, 65535, 4294967296LL, 4294967297LL, 2147483648LL, 9223372036854775807LL }, hs[] = { 0, 1, G->heads - 1, G->heads, 255, 256, 4294967296LL }, ss[] = { 0, 1, G->sects - 1, G->sects, 63, 64, 4294967297LL };
  for (int f = 0; f < N (fmt); f++) for (int i = 0; i < N (cs); i++) for (int j = 0; j < N (hs); j++) for (int k = 0; k < N (ss); k++) for (int def = 0; def < 14; def += 7) {
    if (cs[i] < 0) continue;
    char str[100]; snprintf (str, 100, fmt[f], cs[i], hs[j], ss[k]);
    I w = (I) cs[i] * G->heads * G->sects + (I) hs[j] * G->sects + ss[k];
    bool want = hs[j] < G->heads && ss[k] < G->sects && w < G->length;
    PedSector s = -7; PedGeometry *g = NULL; mc_nexc = 0; ped_unit_set_default (def); int ok = ped_unit_parse (str, dev, &s, &g); ev ("CHS locations parsed");
    if (ok != want) BAD ("chs", "'%s' is %s", str, ok ? "accepted" : "refused");
    if (ok && (s != w || g->start != w || g->end != w)) BAD ("chs", "'%s' is sector %lld, not %lld", str, (L) s, (L) w);
    if (!ok && (s || !mc_nexc)) BAD ("parse-fail-output", "'%s' is refused but sector is %lld", str, (L) s);
    if (g) ped_geometry_destroy (g);
  }
}
static void malformed (int di)
{
  static const char *const bad[] = { "", " ", "-", ".", ",", "-.", "x", "s", "MiB", "%", "--1", "--1s", "1-", "1-s", "1-2", "1-2s", "1,5", "1,5MB", "1,", ",1", "1.2.3.4", "1..2", "1,2", "1,2,", ",1,2", "1,2,3,4", "-1,2,3", "1,2,-3", "+1s", "inf", "nan", "infMB",
    "1.5.5GB", "s1", "MiB1", "-s", ".s", "1,2,x", "x,1,2", "," ",", ",,,", "1 ,5 GB" };
  for (int i = 0; i < N (bad); i++) for (int def = 0; def < 14; def++) {
    PedSector s = -7; PedGeometry *g = (PedGeometry *) -1; mc_nexc = 0; ped_unit_set_default (def); int ok = ped_unit_parse (bad[i], dev, &s, &g); ev ("malformed locations");
    if (ok) { BAD ("malformed", "'%s' is accepted as sector %lld", bad[i], (L) s); continue; }
    if (s || g || !mc_nexc) BAD ("parse-fail-output", "'%s' is refused, sector is %lld", bad[i], (L) s);
    s = -7; if (ped_unit_parse_custom (bad[i], dev, def, &s, NULL)) BAD ("malformed", "'%s' is accepted as sector %lld", bad[i], (L) s);
  }
  for (int u = 0; u < 14; u++) {
    char up[20]; snprintf (up, 20, "%s", uname[u]);
    if (strcmp (ped_unit_get_name (u), uname[u]) || ped_unit_get_by_name (up) != u) BAD ("names", "unit %d", u);
    for (char *c = up; *c; c++) *c = toupper (*c); if (ped_unit_get_by_name (up) != u) BAD ("names", "unit %s", up);
    strcat (up, "x"); if (ped_unit_get_by_name (up) != -1) BAD ("names", "there is no unit %s", up);
    ev ("unit names and sizes");
    if (u != UCOMPACT && ped_unit_get_size (dev, u) != usize (u)) BAD ("size", "unit %s has %lld bytes", uname[u], ped_unit_get_size (dev, u));
  }
}
#define PER (14 + N (suf) + 2)
static void run (long i)
{
  int di = i / PER, k = i % PER; G = &devs[di]; dev = mc_device (G); mc_ans = ANS_CANCEL; *late_key = 0;
  if (k < 14) formats (di, k); else if (k < 14 + N (suf)) parses (di, k - 14); else if (k == PER - 1) chs (di); else malformed (di);
  if (*late_key) mc_fail (late_key, "device of %lld sectors of %lld bytes (%d heads, %d sectors): %s", (L) G->length, G->ss, G->heads, G->sects, late_msg);
  mc_nontrivial (mc_hash (&i, sizeof i, 9));
}
static void describe (long i, FILE *f)
{
  int di = i / PER, k = i % PER;
  fprintf (f, "device of %lld sectors of %lld bytes, ", (L) devs[di].length, devs[di].ss);
  if (k < 14) fprintf (f, "formatting in %s", uname[k]); else if (k < 14 + N (suf)) fprintf (f, "parsing numbers with suffix '%s'", suf[k - 14].t); else fprintf (f, k == PER - 1 ? "CHS" : "malformed locations");
}
int main (int argc, char **argv)
{
  McSweep s = { "P19", (long) N (devs) * PER, run, describe };
  return mc_sweep (&s, argc, argv);
}
