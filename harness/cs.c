/* P11: the arithmetic of alignments, geometries and constraints against brute
   force over every value in small domains (and a grid of large values). */
#include <config.h>
#include "mc.h"
#include "architecture.h"
#include <stdlib.h>
#include <string.h>

typedef __int128 I;
static void ev (const char *what, int n) { mc_count (what, n); mc_count ("evaluations", n); }
static PedDevice *dev;
static PedDeviceArchOps *ops;   /* the architecture's table, to make sectors bad */

/* ---------- independent statements ---------- */
static I imod (I a, I b) { I r = a % b; return r < 0 ? r + b : r; }
typedef struct { PedSector o, g; } Al;                 /* o + X*g; g 0: only o */
static bool al_has (Al a, I s) { return a.g ? imod (s - a.o, a.g) == 0 : s == a.o; }
static bool pal_has (const PedAlignment *a, I s) { return a && (a->grain_size ? imod (s - (I) a->offset, a->grain_size) == 0 : s == a->offset); }
#define BAD(key, ...) mc_fail (key, __VA_ARGS__)
typedef long long L;

/* ---------- A: numbers ---------- */
static const PedSector bigs[] = { 0, 1, 511, 512, 513, 2047, 2048, 0x7fffffffLL, 0x80000000LL, 0x80000001LL, 0xffffffffLL, 0x100000000LL, 0x100000001LL, 0x1234567890LL, 1LL << 40, (1LL << 40) + 7, 1LL << 50 };
static const PedSector bigg[] = { 1, 2, 3, 8, 63, 2048, 16065, 0x7fffffffLL, 0x80000000LL, 0x80000001LL, 0xffffffffLL, 0x100000000LL, 0x100000003LL, 1LL << 40 };
#define N(a) ((int) (sizeof (a) / sizeof *(a)))
static void round1 (PedSector s, PedSector g)
{
  I lo = (I) s - imod (s, g), hi = imod (s, g) ? lo + g : lo;
  PedSector d = ped_round_down_to (s, g), u = ped_round_up_to (s, g), n = ped_round_to_nearest (s, g);
  if (d != lo) BAD ("round-down", "ped_round_down_to (%lld, %lld) is %lld, not %lld", (L) s, (L) g, (L) d, (L) lo);
  if (u != hi) BAD ("round-up", "ped_round_up_to (%lld, %lld) is %lld, not %lld", (L) s, (L) g, (L) u, (L) hi);
  if (!((n == lo && s - lo <= hi - s) || (n == hi && hi - s <= s - lo))) BAD ("round-nearest", "ped_round_to_nearest (%lld, %lld) is %lld", (L) s, (L) g, (L) n);
  if (s >= 0) {
    I q = hi / g; if (ped_div_round_up (s, g) != q) BAD ("div-round-up", "ped_div_round_up (%lld, %lld) is %lld", (L) s, (L) g, (L) ped_div_round_up (s, g));
    PedSector r = ped_div_round_to_nearest (s, g); I dl = s - (I) r * g; if (dl < 0) dl = -dl;
    if (2 * dl > g) BAD ("div-round-nearest", "ped_div_round_to_nearest (%lld, %lld) is %lld", (L) s, (L) g, (L) r);
  }
  ev ("roundings", 3);
}
static I gcd (I a, I b) { while (b) { I t = a % b; a = b; b = t; } return a; }
static void sec_numbers (int i)
{
  if (i < 60) for (int g = 1; g <= 24; g++) round1 (i - 20, g);
  else if (i < 60 + N (bigs)) for (int g = 0; g < N (bigg); g++) for (int k = -1; k <= 1; k += 2) round1 (k * bigs[i - 60], bigg[g]);
  else for (int a = 0; a < 64; a++) for (int b = 0; b < 64; b++) {
    if (ped_greatest_common_divisor (a, b) != gcd (a, b)) BAD ("gcd", "gcd (%d, %d) is %lld", a, b, (L) ped_greatest_common_divisor (a, b));
    PedSector x = bigg[a % N (bigg)], y = bigg[b % N (bigg)];
    if (ped_greatest_common_divisor (x, y) != gcd (x, y)) BAD ("gcd", "gcd (%lld, %lld)", (L) x, (L) y);
  }
}
#define N_NUM (60 + 17 + 1)

/* ---------- B: one alignment ---------- */
static void align_check (const PedAlignment *a, Al m, const PedGeometry *g, PedSector s, PedSector lo, PedSector hi)
{
  /* lo..hi is a window known to contain the answers */
  PedSector up = ped_alignment_align_up (a, g, s), dn = ped_alignment_align_down (a, g, s), ne = ped_alignment_align_nearest (a, g, s);
  I nextu = -1, lastd = -1, first = -1, last = -1; I best = -1;
  for (I x = lo; x <= hi; x++) {
    if (!al_has (m, x) || (g && (x < g->start || x > g->end))) continue;
    if (first == -1) first = x;
    last = x;
    if (x >= s && nextu == -1) nextu = x;
    if (x <= s) lastd = x;
    I d = x > s ? x - s : s - x; if (best == -1 || d < best) best = d;
  }
  I eu = nextu != -1 ? nextu : last, ed = lastd != -1 ? lastd : first;
  if (!m.g && !g) eu = ed = m.o;
  if (up != eu) BAD ("align-up", "align_up (%lld+X*%lld, %lld-%lld, %lld) is %lld, not %lld", (L) m.o, (L) m.g, g ? (L) g->start : -1, g ? (L) g->end : -1, (L) s, (L) up, (L) eu);
  if (dn != ed) BAD ("align-down", "align_down (%lld+X*%lld, %lld-%lld, %lld) is %lld, not %lld", (L) m.o, (L) m.g, g ? (L) g->start : -1, g ? (L) g->end : -1, (L) s, (L) dn, (L) ed);
  if (first == -1 ? ne != -1 : !al_has (m, ne) || (g && (ne < g->start || ne > g->end)) || (ne > s ? ne - s : s - ne) != best)
    BAD ("align-nearest", "align_nearest (%lld+X*%lld, %lld-%lld, %lld) is %lld", (L) m.o, (L) m.g, g ? (L) g->start : -1, g ? (L) g->end : -1, (L) s, (L) ne);
  ev ("alignments of a sector", 3);
}
static void sec_align (int i)
{
  PedSector g = i % 10, o = i / 10 - 8;
  PedAlignment *a = ped_alignment_new (o, g); if (!a) BAD ("align-new", "ped_alignment_new (%lld, %lld) failed", (L) o, (L) g);
  Al m = { o, g };
  if (ped_alignment_new (o, -1 - g)) BAD ("align-new", "negative grain accepted");
  PedAlignment *b = ped_alignment_duplicate (a);
  for (int s = -30; s < 40; s++) {
    if (!!ped_alignment_is_aligned (a, NULL, s) != al_has (m, s) || !!ped_alignment_is_aligned (b, NULL, s) != al_has (m, s))
      BAD ("is-aligned", "is_aligned (%lld+X*%lld, %d) is %d", (L) o, (L) g, s, ped_alignment_is_aligned (a, NULL, s));
    if (ped_alignment_is_aligned (NULL, NULL, s)) BAD ("is-aligned", "something is aligned to the empty alignment");
    if (g && s >= 20 && s < 30) align_check (a, m, NULL, s, 0, 60);
  }
  for (int f = 0; f < 19; f++) for (int e = f; e < 19; e++) {
    PedGeometry ge; ped_geometry_init (&ge, dev, f, e - f + 1);
    for (int s = 0; s < 22; s++) {
      align_check (a, m, &ge, s, 0, 20);
      if (!!ped_alignment_is_aligned (a, &ge, s) != (al_has (m, s) && s >= f && s <= e)) BAD ("is-aligned", "is_aligned in %d-%d of %d", f, e, s);
    }
  }
  ped_alignment_destroy (a); ped_alignment_destroy (b);
}
#define N_AL (10 * 24)

/* ---------- C: intersections of alignments ---------- */
static void isect (Al x, Al y, bool big)
{
  PedAlignment *a = ped_alignment_new (x.o, x.g), *b = ped_alignment_new (y.o, y.g), *c = ped_alignment_intersect (a, b);
  if (!big) {
    bool any = false;
    for (int s = -130; s < 260; s++) {
      bool want = al_has (x, s) && al_has (y, s); any |= want;
      if (pal_has (c, s) != want) BAD ("align-intersect", "(%lld+X*%lld) and (%lld+X*%lld) give %lld+X*%lld: sector %d", (L) x.o, (L) x.g, (L) y.o, (L) y.g, c ? (L) c->offset : -1, c ? (L) c->grain_size : -1, s);
    }
    if (!any != !c) BAD ("align-intersect", "(%lld+X*%lld) and (%lld+X*%lld): %s", (L) x.o, (L) x.g, (L) y.o, (L) y.g, c ? "an empty intersection is not NULL" : "NULL");
  } else {
    I g = gcd (x.g, y.g), lcm = (I) x.g / g * y.g; bool want = imod (y.o - (I) x.o, g) == 0;
    if (want != !!c) BAD ("align-intersect-large", "(%lld+X*%lld) and (%lld+X*%lld): %s", (L) x.o, (L) x.g, (L) y.o, (L) y.g, c ? "should be empty" : "should not be empty");
    if (c && (c->grain_size != lcm || !al_has (x, c->offset) || !al_has (y, c->offset)))
      BAD ("align-intersect-large", "(%lld+X*%lld) and (%lld+X*%lld) give %lld+X*%lld", (L) x.o, (L) x.g, (L) y.o, (L) y.g, (L) c->offset, (L) c->grain_size);
  }
  if (ped_alignment_intersect (a, NULL) || ped_alignment_intersect (NULL, b)) BAD ("align-intersect", "intersection with the empty alignment");
  ped_alignment_destroy (a); ped_alignment_destroy (b); ped_alignment_destroy (c);
  ev ("intersections of alignments", 1);
}
static void sec_isect (int i)
{
  if (i < 13) {
    for (int o = -3; o < 13; o++) for (int g = 0; g < 13; g++) for (int p = -3; p < 13; p++) isect ((Al) { o, i }, (Al) { p, g }, false);
  } else {
    PedSector g = bigg[i - 13];
    for (int j = 0; j < N (bigg); j++) {
      /* keep the product of the grains (all intermediate values) within range */
      if ((I) g * bigg[j] * 2048 >= (I) 1 << 61) continue;
      for (int k = 0; k < 8; k++) for (int l = 0; l < 8; l++) {
        static const int off[] = { 0, 1, 2, 5, 63, 100, 1000, 2048 };
        isect ((Al) { off[k], g }, (Al) { off[l], bigg[j] }, true);
      }
    }
  }
}
#define N_IS (13 + 14)

/* ---------- D: geometries ---------- */
#define GL 9
static void sec_geom_at (int i, PedSector B)
{
  PedDevice other = *dev;
  PedSector f = B + i / GL, e = B + i % GL;
  PedGeometry a; PedGeometry *pa;
  long x = mc_nexc;
  pa = ped_geometry_new (dev, f, e - f + 1);
  if (!pa != (e < f)) BAD ("geom-new", "ped_geometry_new (%lld, %lld)", f, e - f + 1);
  if (e < f) { if (mc_nexc == x) BAD ("geom-new", "refused in silence"); return; }
  if (pa->start != f || pa->end != e || pa->length != e - f + 1 || pa->dev != dev) BAD ("geom-new", "%lld-%lld became %lld-%lld", f, e, (L) pa->start, (L) pa->end);
  PedGeometry *d = ped_geometry_duplicate (pa);
  if (!ped_geometry_test_equal (pa, d)) BAD ("geom-dup", "a duplicate differs");
  a = *pa; ped_geometry_destroy (pa); ped_geometry_destroy (d);
  for (PedSector s = B - 2; s < B + GL + 2; s++) if (!!ped_geometry_test_sector_inside (&a, s) != (s >= f && s <= e)) BAD ("geom-sector-inside", "%lld in %lld-%lld", s, f, e);
  for (PedSector s = B; s < B + GL; s++) {
    PedGeometry t = a; int ok = ped_geometry_set_start (&t, s);
    if (ok ? t.start != s || t.end != e || t.length != e - s + 1 || s > e : s <= e || !ped_geometry_test_equal (&t, &a) || t.length != a.length) BAD ("geom-set-start", "%lld-%lld start %lld", f, e, s);
    t = a; ok = ped_geometry_set_end (&t, s);
    if (ok ? t.start != f || t.end != s || t.length != s - f + 1 || s < f : s >= f || !ped_geometry_test_equal (&t, &a) || t.length != a.length) BAD ("geom-set-end", "%lld-%lld end %lld", f, e, s);
  }
  for (int dv = 0; dv < 2; dv++) for (PedSector g = B; g < B + GL; g++) for (PedSector h = g; h < B + GL; h++) {
    PedGeometry b; ped_geometry_init (&b, dv ? &other : dev, g, h - g + 1);
    bool ov = false, in = !dv, eq = !dv && f == g && e == h;
    for (PedSector s = B; s < B + GL; s++) { bool ia = s >= f && s <= e, ib = s >= g && s <= h; ov |= ia && ib && !dv; if (ib && !ia) in = false; }
    if (!!ped_geometry_test_overlap (&a, &b) != ov) BAD ("geom-overlap", "%lld-%lld and %lld-%lld", f, e, g, h);
    if (!!ped_geometry_test_inside (&a, &b) != in) BAD ("geom-inside", "%lld-%lld in %lld-%lld", g, h, f, e);
    if (!!ped_geometry_test_equal (&a, &b) != eq) BAD ("geom-equal", "%lld-%lld and %lld-%lld", g, h, f, e);
    PedGeometry *c = ped_geometry_intersect (&a, &b);
    if (!c != !ov) BAD ("geom-intersect", "%lld-%lld and %lld-%lld", f, e, g, h);
    for (PedSector s = B; c && s < B + GL; s++) if ((s >= f && s <= e && s >= g && s <= h) != (s >= c->start && s <= c->end) || c->length != c->end - c->start + 1) BAD ("geom-intersect", "%lld-%lld and %lld-%lld: %lld-%lld", f, e, g, h, (L) c->start, (L) c->end);
    if (c) ped_geometry_destroy (c);
    /* the same sector seen from another geometry */
    for (int s = -1; s <= GL; s++) {
      PedSector r = ped_geometry_map (&a, &b, s), abs = g + s;
      PedSector want = !dv && s >= 0 && s <= h - g && abs >= f && abs <= e ? abs - f : -1;
      if (r != want) BAD ("geom-map", "offset %d of %lld-%lld is mapped to offset %lld of %lld-%lld, not %lld", s, g, h, (L) r, f, e, (L) want);
    }
    ev ("pairs of geometries", 1);
  }
}
static void sec_geom (int i)
{
  sec_geom_at (i, 0);
  sec_geom_at (i, (PedSector) 1 << 31); sec_geom_at (i, ((PedSector) 1 << 32) - 4); sec_geom_at (i, (PedSector) 1 << 40);
  int f = i / GL, e = i % GL; PedGeometry a;
  if (e < f) return;
  ped_geometry_init (&a, dev, f, e - f + 1);
  /* input and output */
  char buf[(GL + 2) * 512], ref[512];
  for (int off = 0; off <= GL; off++) for (int n = 0; n <= GL; n++) {
    bool in = n ? off + n - 1 <= e - f : 1;
    memset (buf, 0x5a, sizeof buf); int ok = ped_geometry_read (&a, buf, off, n);
    if (n && !!ok != in) BAD ("geom-read", "reading %d sectors at %d of %d-%d: %d", n, off, f, e, ok);
    for (int k = 0; ok && k < n; k++) { mc_store_read (f + off + k, ref); if (memcmp (ref, buf + 512 * k, 512)) BAD ("geom-read", "reading %d sectors at %d of %d-%d: wrong data", n, off, f, e); }
    if (!ok) for (int k = 0; k < n * 512; k++) if (buf[k] != 0x5a) BAD ("geom-read", "a refused read changed the buffer");
    void *al = &a; ok = ped_geometry_read_alloc (&a, &al, off, n);
    if (n && (!!ok != in || !ok != !al)) BAD ("geom-read-alloc", "reading %d sectors at %d of %d-%d: %d", n, off, f, e, ok);
    for (int k = 0; ok && k < n; k++) { mc_store_read (f + off + k, ref); if (memcmp (ref, (char *) al + 512 * k, 512)) BAD ("geom-read-alloc", "wrong data"); }
    if (ok) free (al);
    if (!n) continue;
    for (int ans = 0; ans < 2; ans++) {
      mc_ans = ans ? ANS_IGNORE : ANS_CANCEL;
      McImage *im = mc_image_save (); mc_io_reset (); long xe = mc_nexc;
      for (int k = 0; k < n; k++) memset (buf + 512 * k, 0x30 + k, 512);
      ok = ped_geometry_write (&a, buf, off, n);
      if (in ? !ok : ok != ans || mc_nexc == xe) BAD ("geom-write", "writing %d sectors at %d of %d-%d: %d", n, off, f, e, ok);
      if (!in && mc_nwrite) BAD ("geom-write", "a write outside the region reached the device");
      for (int s = 0; s < 20; s++) {
        char now[512], was[512]; mc_store_read (s, now);
        McImage *n2 = mc_image_save (); mc_image_load (im); mc_store_read (s, was); mc_image_load (n2); mc_image_free (n2);
        if (in && s >= f + off && s < f + off + n) memset (was, 0x30 + s - f - off, 512);
        if (memcmp (now, was, 512)) BAD ("geom-write", "writing %d sectors at %d of %d-%d: sector %d is wrong", n, off, f, e, s);
      }
      mc_image_load (im); mc_image_free (im); mc_ans = ANS_CANCEL;
    }
    ev ("reads and writes of regions", 3);
    /* the device fails on one sector */
    for (int b = 0; b < 20; b++) {
      bool hit = in && b >= f + off && b < f + off + n; mc_bad_sector = b; mc_bad_mask = 3;
      ok = ped_geometry_read (&a, buf, off, n); if (!!ok != (in && !hit)) BAD ("geom-read-fault", "sector %d is bad; reading %d sectors at %d of %d-%d: %d", b, n, off, f, e, ok);
      al = NULL; ok = ped_geometry_read_alloc (&a, &al, off, n); if (!!ok != (in && !hit) || !ok != !al) BAD ("geom-read-fault", "sector %d is bad; allocating and reading %d sectors at %d of %d-%d: %d", b, n, off, f, e, ok); if (ok) free (al);
      mc_ans = ANS_CANCEL; McImage *im = mc_image_save (); ok = ped_geometry_write (&a, buf, off, n); if (!!ok != (in && !hit)) BAD ("geom-write-fault", "sector %d is bad; writing %d sectors at %d of %d-%d: %d", b, n, off, f, e, ok);
      mc_image_load (im); mc_image_free (im); mc_bad_sector = -1; ev ("accesses with a bad sector", 3);
    }
  }
  for (int k = 0; k < 2; k++) for (int bad = 0; bad < 2; bad++) {
    mc_io_reset (); mc_fail_mask = 4; mc_fail_io = bad; int ok = k ? ped_geometry_sync_fast (&a) : ped_geometry_sync (&a);
    if (!!ok == bad) BAD ("geom-sync", "syncing %d-%d, the device %s: %d", f, e, bad ? "fails" : "works", ok); if (mc_nsync != 1) BAD ("geom-sync", "%ld syncs reach the device", mc_nsync);
    mc_fail_mask = 7; mc_io_reset ();
  }
}
#define N_GE (GL * GL)

/* ---------- F: checking for bad sectors ---------- */
static uint64_t badmask; static long nreads, once;
static int (*real_read) (const PedDevice *, void *, PedSector, PedSector);
static int bad_read (const PedDevice *d, void *b, PedSector s, PedSector n)
{
  if (++nreads > 4000) BAD ("geom-check-endless", "still reading after 4000 reads");
  if (nreads == once) { ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL, "once"); return 0; }
  for (PedSector k = s; k < s + n; k++) if (k >= 0 && k < 64 && badmask >> k & 1) {
    ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL, "bad sector"); return 0; }
  return real_read (d, b, s, n);
}
static void sec_check (int i)
{
  static const int bufs[] = { 1, 2, 3, 4, 6, 8, 16 }, gr[] = { 1, 2, 3, 4 };
  int bs = bufs[i % 7], g = gr[i / 7];
  if (bs % g) return;
  PedGeometry a; ped_geometry_init (&a, dev, 3, 15);
  char buf[17 * 512];
  PedDeviceArchOps o2 = *ops, *keep = ops; real_read = ops->read; o2.read = bad_read;
  PedArchitecture arch = *ped_architecture; const PedArchitecture *karch = ped_architecture;
  arch.dev_ops = &o2; ped_architecture = &arch; (void) keep;
  for (int off = 1; off < 15; off++) for (int cnt = 1; off + cnt <= 15; cnt++)
    for (int b1 = -1; b1 < 15; b1++) for (int b2 = b1; b2 < 15; b2++) {
      if (b1 < 0 && b2 >= 0) continue;
      badmask = (b1 >= 0 ? 1ull << (b1 + 3) : 0) | (b2 >= 0 ? 1ull << (b2 + 3) : 0); nreads = 0;
      PedSector r = ped_geometry_check (&a, buf, bs, off, g, cnt, NULL), want = 0;
      for (int k = 0; k < cnt && !want; k++) if (badmask >> (3 + off + k) & 1) want = off + k / g * g;
      if (r != want) BAD ("geom-check", "checking %d sectors at %d of 3-17, buffer %d, granularity %d, bad sectors %d and %d: %lld, not %lld", cnt, off, bs, g, b1, b2, (L) r, (L) want);
      long x = mc_nexc; ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL, "probe"); ped_exception_catch ();
      if (mc_nexc == x) BAD ("geom-check-fetch", "exceptions are still being fetched after the check");
      ev ("checks for bad sectors", 1);
      if (b1 < 0) for (once = 1; once <= (cnt + bs - 1) / bs; once++) {   /* a read of a group fails, and works when repeated */
        nreads = 0; r = ped_geometry_check (&a, buf, bs, off, g, cnt, NULL); if (r) BAD ("geom-check-once", "checking %d sectors at %d of 3-17, buffer %d, granularity %d, read %ld fails once: %lld", cnt, off, bs, g, once, (L) r);
        x = mc_nexc; ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL, "probe"); ped_exception_catch (); if (mc_nexc == x) BAD ("geom-check-fetch", "exceptions are still being fetched after a check in which read %ld failed once", once);
        ev ("checks with a read that fails once", 1);
      } once = 0;
    }
  ped_architecture = karch;
}
#define N_CK 28

/* ---------- E: constraints ---------- */
/* a failure that is reported only when nothing else fails in the same task */
static char late_key[40], late_msg[300];
#define LATE(key, ...) do { if (!*late_key) { snprintf (late_key, sizeof late_key, "%s", key); snprintf (late_msg, sizeof late_msg, __VA_ARGS__); } } while (0)
static int CL;                           /* device length for this section */
static PedSector BS;                     /* all sectors of this section are counted from here */
static int NA;
static const Al als[] = { {0, 1}, {0, 2}, {1, 2}, {2, 3}, {2, 0}, {5, 0}, {0, 0}, {0, 4}, {3, 4}, {1, 1}, {0, 3}, {4, 6}, {4, 0}, {2, 4} };
static const int szs[][2] = { {1, 9}, {1, 3}, {3, 3}, {4, 6}, {9, 9}, {2, 8}, {5, 4}, {2, 1}, {1, 100}, {1, 1}, {4, 7} };
typedef struct { int sf, se, ef, ee; Al sa, ea; int mn, mx; } C;
static bool c_ok (const C *c, int s, int e)
{
  return s >= 0 && e < CL && e >= s && s >= c->sf && s <= c->se && e >= c->ef && e <= c->ee && al_has (c->sa, s) && al_has (c->ea, e) && e - s + 1 >= c->mn && e - s + 1 <= c->mx;
}
static PedConstraint *c_make (const C *c)
{
  PedAlignment sa, ea; PedGeometry sr, er;
  ped_alignment_init (&sa, BS + c->sa.o, c->sa.g); ped_alignment_init (&ea, BS + c->ea.o, c->ea.g);
  ped_geometry_init (&sr, dev, BS + c->sf, c->se - c->sf + 1); ped_geometry_init (&er, dev, BS + c->ef, c->ee - c->ef + 1);
  return ped_constraint_new (&sa, &ea, &sr, &er, c->mn, c->mx);
}
static bool pc_ok (const PedConstraint *c, int s, int e)
{
  return c && pal_has (c->start_align, s) && pal_has (c->end_align, e) && s >= c->start_range->start && s <= c->start_range->end
    && e >= c->end_range->start && e <= c->end_range->end && e - s + 1 >= c->min_size && e - s + 1 <= c->max_size;
}
static const char *cstr (const C *c)
{
  static char b[200];
  snprintf (b, sizeof b, "{start %d-%d at %lld+X*%lld, end %d-%d at %lld+X*%lld, size %d-%d}", c->sf, c->se, (L) c->sa.o, (L) c->sa.g, c->ef, c->ee, (L) c->ea.o, (L) c->ea.g, c->mn, c->mx);
  return b;
}
static void solve_check (const C *c)
{
  PedConstraint *p = c_make (c);
  if (!p) BAD ("constraint-new", "%s", cstr (c));
  PedConstraint *d = ped_constraint_duplicate (p);
  bool feas[16]; bool any = false; int longest = 0;
  for (int s = 0; s < CL; s++) { feas[s] = false; for (int e = s; e < CL; e++) if (c_ok (c, s, e)) { feas[s] = any = true; if (e - s + 1 > longest) longest = e - s + 1; } }
  /* all ends within the permitted sizes can be missed when fewer sizes are
     permitted than the grain of the end */
  bool narrow = c->ea.g > 1 && c->mx - c->mn + 1 < c->ea.g;
  long x = mc_nexc;
  for (int s = 0; s < CL; s++) for (int e = s; e < CL; e++) {
    PedGeometry g; ped_geometry_init (&g, dev, BS + s, e - s + 1);
    if (!!ped_constraint_is_solution (p, &g) != c_ok (c, s, e) || !!ped_constraint_is_solution (d, &g) != c_ok (c, s, e))
      BAD ("is-solution", "%d-%d and %s", s, e, cstr (c));
    PedGeometry *r = ped_constraint_solve_nearest (p, &g); if (r) { r->start -= BS; r->end -= BS; }
    if (r && !c_ok (c, r->start, r->end)) BAD ("solve-wrong", "nearest to %d-%d in %s is %lld-%lld", s, e, cstr (c), (L) r->start, (L) r->end);
    if (!r && any && narrow) LATE ("solve-narrow-sizes", "nothing nearest to %d-%d in %s", s, e, cstr (c));
    else if (!r && any) BAD ("solve-none", "nothing nearest to %d-%d in %s", s, e, cstr (c));
    if (r) {
      int bs = 99, be = 99;
      for (int k = 0; k < CL; k++) if (feas[k] && abs (k - s) < bs) bs = abs (k - s);
      for (int k = r->start; k < CL; k++) if (c_ok (c, r->start, k) && abs (k - e) < be) be = abs (k - e);
      if (llabs (r->start - s) != bs || llabs (r->end - e) != be) BAD ("solve-not-nearest", "nearest to %d-%d in %s is %lld-%lld", s, e, cstr (c), (L) r->start, (L) r->end);
      ped_geometry_destroy (r);
    }
    ev ("nearest solutions", 1);
  }
  PedGeometry *r = ped_constraint_solve_max (p); if (r) { r->start -= BS; r->end -= BS; }
  if (r && !c_ok (c, r->start, r->end)) BAD ("solve-max-wrong", "%s: %lld-%lld", cstr (c), (L) r->start, (L) r->end);
  if (!r && any && narrow) LATE ("solve-narrow-sizes", "no largest solution of %s", cstr (c));
  else if (!r && any) BAD ("solve-none", "no largest solution of %s", cstr (c));
  bool binding = c->ea.g > 1 && c->mx < CL;
  if (r && r->length != longest && binding) LATE ("solve-max-binding-size", "the largest solution of %s is %lld-%lld, although one of length %d exists", cstr (c), (L) r->start, (L) r->end, longest);
  else if (r && r->length != longest) BAD ("solve-max", "the largest solution of %s is %lld-%lld, although one of length %d exists", cstr (c), (L) r->start, (L) r->end, longest);
  if (r) ped_geometry_destroy (r);
  if (mc_nexc != x) BAD ("solve-exception", "solving %s throws '%s'", cstr (c), mc_exc_msg);
  ped_constraint_destroy (p); ped_constraint_destroy (d);
  if (any) mc_nontrivial (mc_hash (c, sizeof *c, 5));
}
/* tasks: one per start range and end range */
static int cranges (int L, int k, int *f, int *e) { for (int s = 0; s < L; s++) for (int t = s; t < L; t++) if (!k--) { *f = s; *e = t; return 1; } return 0; }
static void sec_solve (int i)
{
  CL = 9; C c; memset (&c, 0, sizeof c); NA = mc_thorough ? N (als) : 9;
  cranges (CL, i / 45, &c.sf, &c.se); cranges (CL, i % 45, &c.ef, &c.ee);
  for (int b = 0; b < 2; b++) {
    if (b && !mc_thorough && i % 4) continue;
    BS = b ? (PedSector) 12 << 32 : 0; dev->length = BS + CL;
    for (int x = 0; x < NA; x++) for (int y = 0; y < NA; y++) for (int z = 0; z < N (szs); z++) {
      c.sa = als[x]; c.ea = als[y]; c.mn = szs[z][0]; c.mx = szs[z][1];
      solve_check (&c);
    }
  }
  BS = 0; dev->length = CL;
}
#define N_SO (45 * 45)
/* a family of constraints, all pairs */
#define FAM (8 * 8 * 5 * 5)
static void fam (int k, C *c)
{
  static const int rg[][2] = { {0, 8}, {0, 3}, {2, 6}, {3, 3}, {4, 8}, {6, 8}, {1, 7}, {0, 0} };
  static const int ap[][2] = { {0, 0}, {1, 2}, {3, 0}, {4, 5}, {7, 8} };
  static const int zz[][2] = { {1, 9}, {2, 5}, {3, 3}, {4, 8}, {1, 2} };
  memset (c, 0, sizeof *c);
  c->sf = rg[k % 8][0]; c->se = rg[k % 8][1]; k /= 8; c->ef = rg[k % 8][0]; c->ee = rg[k % 8][1]; k /= 8;
  c->sa = als[ap[k % 5][0]]; c->ea = als[ap[k % 5][1]]; k /= 5; c->mn = zz[k][0]; c->mx = zz[k][1];
}
static void sec_cisect (int i)
{
  CL = 9;
  C a, b; fam (i, &a); PedConstraint *p = c_make (&a);
  static unsigned char m[FAM][81]; static int have;
  if (!have) { have = 1; for (int k = 0; k < FAM; k++) { C c; fam (k, &c); for (int s = 0; s < 9; s++) for (int e = 0; e < 9; e++) m[k][s * 9 + e] = e >= s && c_ok (&c, s, e); } }
  if (ped_constraint_intersect (p, NULL) || ped_constraint_intersect (NULL, p)) BAD ("constraint-intersect", "with the empty constraint");
  for (int k = 0; k < FAM; k++) {
    fam (k, &b); PedConstraint *q = c_make (&b), *r = ped_constraint_intersect (p, q);
    for (int s = 0; s < 9; s++) for (int e = s; e < 9; e++)
      if (pc_ok (r, s, e) != (m[i][s * 9 + e] && m[k][s * 9 + e])) {
        char t[200]; snprintf (t, sizeof t, "%s", cstr (&a));
        BAD ("constraint-intersect", "%s and %s: %d-%d", t, cstr (&b), s, e); }
    ped_constraint_destroy (q); ped_constraint_destroy (r);
    ev ("intersections of constraints", 1);
  }
  ped_constraint_destroy (p);
}
#define N_CI FAM
static void same_set (const char *what, PedConstraint *c, bool (*want) (int, int, const int *), const int *v)
{
  if (!c) BAD ("constraint-make", "%s failed", what);
  for (int s = 0; s < CL; s++) for (int e = s; e < CL; e++) {
    PedGeometry g; ped_geometry_init (&g, dev, s, e - s + 1);
    if (!!ped_constraint_is_solution (c, &g) != want (s, e, v)) BAD ("constraint-make", "%s (%d-%d, %d-%d): %d-%d", what, v[0], v[1], v[2], v[3], s, e);
    if (want (s, e, v)) { PedGeometry *r = ped_constraint_solve_nearest (c, &g); if (!r || r->start != s || r->end != e) BAD ("constraint-make-solve", "%s (%d-%d): nearest to the solution %d-%d is %lld-%lld", what, v[0], v[1], s, e, r ? (L) r->start : -1, r ? (L) r->end : -1); ped_geometry_destroy (r); }
  }
  ped_constraint_destroy (c);
  ev ("constraints made from geometries", 1);
}
static bool w_any (int s, int e, const int *v) { return true; }
static bool w_exact (int s, int e, const int *v) { return s == v[0] && e == v[1]; }
static bool w_max (int s, int e, const int *v) { return s >= v[0] && e <= v[1]; }
static bool w_min (int s, int e, const int *v) { return s <= v[0] && e >= v[1]; }
static bool w_minmax (int s, int e, const int *v) { return s <= v[0] && e >= v[1] && s >= v[2] && e <= v[3]; }
static bool w_align (int s, int e, const int *v) { return imod (s - v[0], v[1]) == 0 && imod (e + 1 - v[0], v[1]) == 0; }
static void sec_make (int i)
{
  CL = 9; dev->length = CL;
  int v[4]; PedGeometry a, b; cranges (CL, i, &v[0], &v[1]); ped_geometry_init (&a, dev, v[0], v[1] - v[0] + 1);
  v[2] = v[3] = -1;
  same_set ("ped_constraint_any", ped_constraint_any (dev), w_any, v);
  same_set ("ped_device_get_constraint", ped_device_get_constraint (dev), w_any, v);
  same_set ("ped_constraint_exact", ped_constraint_exact (&a), w_exact, v);
  same_set ("ped_constraint_new_from_max", ped_constraint_new_from_max (&a), w_max, v);
  same_set ("ped_constraint_new_from_min", ped_constraint_new_from_min (&a), w_min, v);
  for (int k = 0; k < 45; k++) {
    cranges (CL, k, &v[2], &v[3]); ped_geometry_init (&b, dev, v[2], v[3] - v[2] + 1);
    if (v[2] <= v[0] && v[3] >= v[1]) same_set ("ped_constraint_new_from_min_max", ped_constraint_new_from_min_max (&a, &b), w_minmax, v);
  }
  CL = 14; dev->length = CL;
  int off = i % 7, mi = 1 + i / 7 % 4;
  for (int op = 0; op < 3; op++) {
    ((McGeom *) dev->arch_specific)->align_min = mi; ((McGeom *) dev->arch_specific)->align_opt = op * mi; ((McGeom *) dev->arch_specific)->align_off = off % mi; dev->phys_sector_size = 512 * (1 + i % 3);
    if (!op) ((McGeom *) dev->arch_specific)->align_min = ((McGeom *) dev->arch_specific)->align_off = 0;
    PedAlignment *x = ped_device_get_minimum_alignment (dev), *y = ped_device_get_optimum_alignment (dev);
    Al wm = op ? (Al) { off % mi, mi } : (Al) { 0, 1 + i % 3 }, wo = op ? (Al) { off % mi, op * mi } : (Al) { 0, 2048 };
    for (int s = 0; s < 5000; s += s < 64 ? 1 : 31) if (pal_has (x, s) != al_has (wm, s) || pal_has (y, s) != al_has (wo, s)) BAD ("device-alignment", "minimum %d optimum %d offset %d: sector %d", mi, op * mi, off, s);
    int w[4] = { wm.o, wm.g, -1, -1 }; same_set ("ped_device_get_minimal_aligned_constraint", ped_device_get_minimal_aligned_constraint (dev), w_align, w);
    int u[4] = { wo.o, wo.g, -1, -1 }; same_set ("ped_device_get_optimal_aligned_constraint", ped_device_get_optimal_aligned_constraint (dev), w_align, u);
    ped_alignment_destroy (x); ped_alignment_destroy (y);
  }
}
#define N_MK 45

static const struct { const char *name; int n; void (*f) (int); PedSector len; } sec[] = {
  { "numbers", N_NUM, sec_numbers, 64 }, { "alignment", N_AL, sec_align, 64 }, { "alignment intersection", N_IS, sec_isect, 64 },
  { "geometry", N_GE, sec_geom, 20 }, { "bad sector check", N_CK, sec_check, 64 }, { "constraint", N_SO, sec_solve, 9 },
  { "constraint intersection", N_CI, sec_cisect, 9 }, { "constraint from geometry", N_MK, sec_make, 9 } };
static void run (long i)
{
  unsigned k = 0; for (; k < N (sec); k++) { if (i < sec[k].n) break; i -= sec[k].n; }
  McGeom g = { .length = sec[k].len, .ss = 512, .phys = 512, .heads = 4, .sects = 8 };
  mc_bg = 1; dev = mc_device (&g); ops = ped_architecture->dev_ops; mc_ans = ANS_CANCEL;
  ped_device_open (dev);
  *late_key = 0;
  sec[k].f (i);
  if (*late_key) mc_fail (late_key, "%s", late_msg);
  mc_nontrivial (mc_hash (&i, sizeof i, k + 100));
  if (i % 37 == 5) mc_sample ("%s case %ld of %d", sec[k].name, i, sec[k].n);
}
static void describe (long i, FILE *f)
{
  unsigned k = 0; for (; k < N (sec); k++) { if (i < sec[k].n) break; i -= sec[k].n; }
  fprintf (f, "%s, case %ld", sec[k].name, i);
}
int main (int argc, char **argv)
{
  McSweep s = { "P11", 0, run, describe };
  for (unsigned k = 0; k < N (sec); k++) s.n += sec[k].n;
  return mc_sweep (&s, argc, argv);
}
