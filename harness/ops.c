/* Explicit-state exploration of operation sequences on the real libparted
   partition-table code, one oracle per property (--prop). */
#include <config.h>
#include "world.h"
#include <malloc.h>
#include "decode.h"
#include <string.h>
#include <stdlib.h>
#include <limits.h>

#define MAXOPS 1200
static WOp tab[64][MAXOPS]; static int ntab[64], cfgidx[64], depthv[64], freshv[64]; static int ncfg;
static bool deep;             /* --deep: few operations, long sequences */
static int P;                 /* property number */

static void push (int c, WOp o) { if (ntab[c] < MAXOPS) tab[c][ntab[c]++] = o; else { fprintf (stderr, "op table full\n"); exit (3); } }

/* ------------------------------------------------------------------ */
#define FAIL(key, ...) mc_fail (key, __VA_ARGS__)
static const char *L;         /* label name of the current configuration */
static char keyb[160];
static const char *K (const char *what) { snprintf (keyb, sizeof keyb, "%s:%s", L, what); return keyb; }

static void check_list (PedDisk *d, PedPartition *first, PedPartition *parent, PedSector lo, PedSector hi)
{
  PedSector at = lo; PedPartition *prev = NULL;
  for (PedPartition *p = first; p; prev = p, p = p->next) {
    if (p->prev != prev) FAIL (K ("list-links"), "prev link of partition at %lld is wrong", p->geom.start);
    if (p->disk != d) FAIL (K ("list-owner"), "partition at %lld belongs to another disk", p->geom.start);
    if (p->geom.dev != d->dev) FAIL (K ("list-dev"), "partition at %lld has another device", p->geom.start);
    if (p->geom.length != p->geom.end - p->geom.start + 1 || p->geom.length <= 0) FAIL (K ("geom-length"), "partition geometry %lld-%lld length %lld", p->geom.start, p->geom.end, p->geom.length);
    if (p->geom.start < 0 || p->geom.end >= d->dev->length) FAIL (K ("outside-device"), "partition %lld-%lld lies outside the device (%lld sectors)", p->geom.start, p->geom.end, (long long) d->dev->length);
    if (p->geom.start < lo || p->geom.end > hi) FAIL (K ("outside-parent"), "partition %lld-%lld lies outside %lld-%lld", p->geom.start, p->geom.end, lo, hi);
    if (p->geom.start < at) FAIL (K ("overlap"), "partition %lld-%lld overlaps or precedes its predecessor (expected start >= %lld)", p->geom.start, p->geom.end, at);
    if (p->geom.start > at) FAIL (K ("gap"), "sectors %lld-%lld belong to no partition, free region or metadata", at, p->geom.start - 1);
    at = p->geom.end + 1;
    bool logical = p->type & PED_PARTITION_LOGICAL, ext = p->type & PED_PARTITION_EXTENDED;
    if ((parent != NULL) != logical) FAIL (K ("logical-level"), "partition at %lld type %d is on the wrong level", p->geom.start, p->type);
    if (ext && parent) FAIL (K ("nested-extended"), "extended inside extended");
    if (p->part_list && !ext) FAIL (K ("children"), "non-extended partition with children");
    if (p->next && (p->type & PED_PARTITION_FREESPACE) && (p->next->type & PED_PARTITION_FREESPACE)) FAIL (K ("free-split"), "adjacent free regions at %lld", p->next->geom.start);
    if (ext) check_list (d, p->part_list, p, p->geom.start, p->geom.end);
  }
  if (at != hi + 1) FAIL (K ("tail-gap"), "sectors %lld-%lld belong to no partition, free region or metadata", at, hi);
}

static void check_wellformed (PedDisk *d)
{
  check_list (d, d->part_list, NULL, 0, d->dev->length - 1);
  PedPartition *all[256]; int n = 0, next = 0, ext = 0, last = -1, prim = 0;
  for (PedPartition *p = d->part_list; p && n < 250; p = p->next) {
    all[n++] = p;
    if (p->type & PED_PARTITION_EXTENDED) ext++;
    for (PedPartition *q = p->part_list; q && n < 250; q = q->next) all[n++] = q;
  }
  if (ext > 1) FAIL (K ("two-extended"), "%d extended partitions", ext);
  PedPartition *w = NULL;
  while ((w = ped_disk_next_partition (d, w))) { if (next >= n || all[next] != w) FAIL (K ("iteration"), "iteration does not visit partition %d of %d", next, n); next++; }
  if (next != n) FAIL (K ("iteration"), "iteration stops after %d of %d", next, n);
  bool seen[1024] = { 0 };
  int maxp = ped_disk_get_max_primary_partition_count (d);
  for (int i = 0; i < n; i++) {
    PedPartition *p = all[i];
    if (ped_partition_is_active (p)) {
      if (p->num < 0) FAIL (K ("number"), "active partition at %lld has number %d", p->geom.start, p->num);
      if (p->num < 1024) { if (seen[p->num]) FAIL (K ("number-dup"), "two partitions have number %d", p->num); seen[p->num] = true; }
      if (p->num > last) last = p->num;
      if (!(p->type & PED_PARTITION_LOGICAL)) prim++;
      if (ped_disk_get_partition (d, p->num) != p) FAIL (K ("get-partition"), "lookup by number %d finds another partition", p->num);
      if (!strcmp (L, "msdos")) {
        bool log = p->type & PED_PARTITION_LOGICAL;
        if (log != (p->num > 4) || p->num < 1) FAIL (K ("number-class"), "%s partition has number %d", log ? "logical" : "primary", p->num);
      }
    }
    PedSector probe[4] = { p->geom.start, p->geom.end, (p->geom.start + p->geom.end) / 2, p->geom.start };
    for (int k = 0; k < 3; k++) {
      PedPartition *x = ped_disk_get_partition_by_sector (d, probe[k]);
      PedPartition *want = NULL;
      for (int j = 0; j < n; j++) if (all[j]->geom.start <= probe[k] && probe[k] <= all[j]->geom.end) {
        if (all[j]->type & PED_PARTITION_EXTENDED) continue;
        want = all[j]; }
      if (x != want) FAIL (K ("by-sector"), "lookup of sector %lld finds %lld-%lld instead of %lld-%lld", probe[k], x ? x->geom.start : -1, x ? x->geom.end : -1, want ? want->geom.start : -1, want ? want->geom.end : -1);
    }
  }
  if (!strcmp (L, "msdos")) for (int k = 5; k <= last; k++) if (!seen[k]) FAIL (K ("logical-numbering"), "logical numbers are not consecutive: %d missing, last %d", k, last);
  if (ped_disk_get_last_partition_num (d) != last) FAIL (K ("last-num"), "last partition number is %d, reported %d", last, ped_disk_get_last_partition_num (d));
  if (ped_disk_get_primary_partition_count (d) != prim) FAIL (K ("prim-count"), "primary count is %d, reported %d", prim, ped_disk_get_primary_partition_count (d));
  if (prim > maxp) FAIL (K ("too-many"), "%d primary partitions, label maximum %d", prim, maxp);
  PedPartition *e = ped_disk_type_check_feature (d->type, PED_DISK_TYPE_EXTENDED) ? ped_disk_extended_partition (d) : NULL;
  if ((e != NULL) != (ext == 1) || (e && !(e->type & PED_PARTITION_EXTENDED))) FAIL (K ("extended-lookup"), "extended partition lookup is wrong");
  if (ped_disk_get_partition_by_sector (d, d->dev->length)) FAIL (K ("by-sector-end"), "a partition is found past the end");
}

/* sectors a commit must not touch: data of active, non-extended partitions */
static PedPartition *data_owner (PedDisk *d, PedSector s)
{
  for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p))
    if (ped_partition_is_active (p) && !(p->type & PED_PARTITION_EXTENDED) && p->geom.start <= s && s <= p->geom.end) return p;
  return NULL;
}

static McStr s1, s2, s3, s4;
static World W;

/* re-reads the device's table into a new PedDisk with the given answers */
static PedDisk *reread (World *w, int ans)
{
  int o = mc_ans; mc_ans = ans; long n = mc_nexc;
  PedDisk *d = ped_disk_new (w->dev);
  mc_ans = o; (void) n;
  return d;
}

static void diff_fail (const char *key, const char *what, const char *a, const char *b)
{
  FAIL (K (key), "%s\n--- expected\n%.1500s--- actual\n%.1500s", what, a, b);
}

/* P03 */
/* tables that by design are not written as they are: the user has removed
   the entry that describes the table itself (parted asks about it), or the
   label has no stored partition entries at all */
static bool representable (PedDisk *d)
{
  if (!strcmp (L, "mac")) { PedPartition *p = ped_disk_get_partition_by_sector (d, 1); return p && ped_partition_is_active (p) && ped_partition_get_name (p); }
  if (!strcmp (L, "dvh")) {
    /* the bootable file is identified by its name */
    for (int i = 0; w_nth (d, i); i++) { PedPartition *p = w_nth (d, i); if ((p->type & PED_PARTITION_LOGICAL) && ped_partition_get_flag (p, PED_PARTITION_BOOT) && !*ped_partition_get_name (p)) return false; }
    return ped_disk_extended_partition (d) != NULL; }
  if (!strcmp (L, "loop")) { PedPartition *p = w_nth (d, 0); return p && !p->fs_type; }
  return true;
}
/* pc98 stores the file system's name for a partition without a name */
static void pc98_names (PedDisk *d, McStr *b)
{
  static char o[20000]; int n = 0, k = 0;
  for (char *q = b->s; *q; ) {
    char *e = strchr (q, '\n'); int len = e ? e - q + 1 : (int) strlen (q);
    char *nm = strstr (q, "name=[]");
    if (n && nm && nm < q + len) {
      PedPartition *p = w_nth (d, k);
      n += sprintf (o + n, "%.*sname=[%s]%.*s", (int) (nm - q), q, p && p->fs_type ? p->fs_type->name : "", (int) (q + len - nm - 7), nm + 7);
    } else { memcpy (o + n, q, len); n += len; }
    if (q != b->s) k++;
    q += len;
  }
  o[n] = 0;
  mc_sreset (b); mc_sprintf (b, "%s", o);
}
/* an amiga partition's number is its place in a list, which has no gaps */
static void amiga_ranks (McStr *b)
{
  static char o[20000]; int n = 0, nums[130], k = 0;
  for (char *q = b->s; (q = strchr (q, '\n')) && q[1]; q++) if (k < 130) nums[k++] = atoi (q + 1);
  char *q = strchr (b->s, '\n') + 1; n = q - b->s; memcpy (o, b->s, n);
  for (int i = 0; i < k; i++) {
    int r = 1; for (int j = 0; j < k; j++) r += nums[j] < nums[i];
    char *e = strchr (q, '\n') + 1, *sp = strchr (q, ' ');
    n += sprintf (o + n, "%d%.*s", r, (int) (e - sp), sp); q = e;
  }
  o[n] = 0; mc_sreset (b); mc_sprintf (b, "%s", o);
}
static void norm_written (PedDisk *d, McStr *b)
{
  if (!strcmp (L, "pc98")) pc98_names (d, b);
  if (!strcmp (L, "amiga")) amiga_ranks (b);
}
static void check_roundtrip (World *w, const char *key)
{
  if (!representable (w->disk)) { mc_count ("not_representable", 1); return; }
  PedDisk *d = reread (w, ANS_CANCEL);
  if (!d) FAIL (K ("reread-failed"), "the table just written cannot be read back: %s", mc_exc_msg);
  mc_snap (w->disk, &s1, SNAP_NOFS | SNAP_NOEXT);
  mc_snap (d, &s2, SNAP_NOFS | SNAP_NOEXT);
  norm_written (w->disk, &s1);
  if (strcmp (s1.s, s2.s)) {
    mc_snap (w->disk, &s3, SNAP_NOFS | SNAP_NOEXT | SNAP_NOFLAGS); norm_written (w->disk, &s3);
    mc_snap (d, &s4, SNAP_NOFS | SNAP_NOEXT | SNAP_NOFLAGS);
    if (!strcmp (s3.s, s4.s)) diff_fail ("roundtrip-flags", "the re-read table differs from the committed one in partition flags", s1.s, s2.s);
  }
  if (strcmp (s1.s, s2.s)) diff_fail (key, "the re-read table differs from the committed one", s1.s, s2.s);
  if (mc_nexc) FAIL (K ("reread-complains"), "re-reading the table just written complains: %s", mc_exc_msg);
  /* a second commit of the re-read table is byte-identical */
  ped_disk_destroy (d);
}

/* P13 */
static PedPartition *same_part (PedDisk *d, PedPartition *p)
{
  for (PedPartition *q = ped_disk_next_partition (d, NULL); q; q = ped_disk_next_partition (d, q)) if (q->num == p->num && ped_partition_is_active (q)) return q;
  return NULL;
}
static bool can_set (PedDisk *d0, PedPartition *p0, const PedConstraint *extra, PedSector s, PedSector e)
{
  PedGeometry g; if (s < 0 || e >= d0->dev->length || e < s || !ped_geometry_init (&g, d0->dev, s, e - s + 1)) return false;
  if (extra && !ped_constraint_is_solution (extra, &g)) return false;
  PedDisk *d = ped_disk_duplicate (d0);
  if (!d) FAIL (K ("dup-failed"), "duplicating a disk failed: %s", mc_exc_msg);
  PedPartition *p = same_part (d, p0);
  if (!p) FAIL (K ("dup-lost"), "partition %d is missing in a duplicate", p0->num);
  PedConstraint *c = ped_constraint_exact (&g);
  int r = ped_disk_set_partition_geom (d, p, c, s, e);
  bool ok = r && p->geom.start == s && p->geom.end == e;
  ped_constraint_destroy (c);
  ped_disk_destroy (d);
  return ok;
}
static void check_max (World *w)
{
  for (int i = 0; i < 6; i++) {
    PedPartition *p = w_nth (w->disk, i); if (!p) break;
    for (int ck = 0; ck < 2; ck++) {
      PedConstraint *c = w_constraint (w, ck ? CK_OPT : CK_ANY, 0, 0);
      mc_snap (w->disk, &s1, SNAP_PLACEHOLDERS);
      PedGeometry old = p->geom;
      PedGeometry *g = ped_disk_get_max_partition_geometry (w->disk, p, c);
      mc_snap (w->disk, &s2, SNAP_PLACEHOLDERS);
      if (strcmp (s1.s, s2.s)) diff_fail ("max-query-changes", "asking for the maximum geometry changed the table", s1.s, s2.s);
      mc_count ("max_queries", 1);
      if (!g) {
        /* where the label's own rules allow the place it has now, there is a largest one */
        if (ck == 0 && can_set (w->disk, p, NULL, old.start, old.end)) FAIL (K ("max-none"), "no maximum geometry for partition %d at %lld-%lld: %s", p->num, old.start, old.end, mc_exc_msg);
        ped_constraint_destroy (c); continue; }
      if (ck == 0 && (g->start > old.start || g->end < old.end)) FAIL (K ("max-smaller"), "maximum geometry %lld-%lld does not contain partition %d at %lld-%lld", g->start, g->end, p->num, old.start, old.end);
      if (!ped_constraint_is_solution (c, g)) FAIL (K ("max-constraint"), "maximum geometry %lld-%lld breaks the constraint", g->start, g->end);
      /* the bounds: neighbours */
      PedSector lo = 0, hi = w->dev->length - 1;
      PedPartition *lst = p->type & PED_PARTITION_LOGICAL ? ped_disk_extended_partition (w->disk)->part_list : w->disk->part_list;
      if (p->type & PED_PARTITION_LOGICAL) { PedPartition *e = ped_disk_extended_partition (w->disk); lo = e->geom.start; hi = e->geom.end; }
      for (PedPartition *q = lst; q; q = q->next) {
        if (q == p || !ped_partition_is_active (q)) continue;
        if (q->geom.end < old.start && q->geom.end + 1 > lo) lo = q->geom.end + 1;
        if (q->geom.start > old.end && q->geom.start - 1 < hi) hi = q->geom.start - 1;
      }
      if (g->start < lo || g->end > hi) FAIL (K ("max-overlap"), "maximum geometry %lld-%lld of partition %d leaves its free region %lld-%lld", g->start, g->end, p->num, lo, hi);
      if (ck == 0 && !can_set (w->disk, p, c, g->start, g->end)) FAIL (K ("max-unreachable"), "partition %d cannot be set to its maximum geometry %lld-%lld: %s", p->num, g->start, g->end, mc_exc_msg);
      /* nothing larger is possible */
      PedSector from = g->start - 40 > lo ? g->start - 40 : lo, to = g->end + 40 < hi ? g->end + 40 : hi;
      for (PedSector s = from; s < g->start; s++) if (can_set (w->disk, p, c, s, g->end)) FAIL (K ("max-not-maximal"), "partition %d can start at %lld, maximum geometry says %lld-%lld", p->num, s, g->start, g->end);
      for (PedSector e = to; e > g->end; e--) if (can_set (w->disk, p, c, g->start, e)) FAIL (K ("max-not-maximal"), "partition %d can end at %lld, maximum geometry says %lld-%lld", p->num, e, g->start, g->end);
      mc_count ("larger_geometries_tried", g->start - from + to - g->end);
      mc_snap (w->disk, &s2, SNAP_PLACEHOLDERS);
      if (strcmp (s1.s, s2.s)) diff_fail ("geom-roundtrip", "moving a partition and moving it back changed the table", s1.s, s2.s);
      ped_geometry_destroy (g); ped_constraint_destroy (c);
    }
  }
}

/* what a constraint means, told independently of the library */
static bool satisfies (const PedConstraint *c, const PedGeometry *g)
{
  PedSector v[2] = { g->start, g->end };
  const PedAlignment *al[2] = { c->start_align, c->end_align }; const PedGeometry *rg[2] = { c->start_range, c->end_range };
  for (int i = 0; i < 2; i++) {
    if (!al[i]) return false;
    if (al[i]->grain_size ? ((v[i] - al[i]->offset) % al[i]->grain_size) != 0 : v[i] != al[i]->offset) return false;
    if (v[i] < rg[i]->start || v[i] > rg[i]->start + rg[i]->length - 1) return false;
  }
  return g->end - g->start + 1 >= c->min_size && g->end - g->start + 1 <= c->max_size;
}

/* P05: crash points */
static McImage *img_old;
static void parts_of (PedDisk *d, char out[][200], int *n)
{
  *n = 0;
  for (PedPartition *p = ped_disk_next_partition (d, NULL); p && *n < 40; p = ped_disk_next_partition (d, p))
    if (ped_partition_is_active (p)) snprintf (out[(*n)++], 200, "%s %lld-%lld", p->type & PED_PARTITION_LOGICAL ? "L" : p->type & PED_PARTITION_EXTENDED ? "X" : "P", (long long) p->geom.start, (long long) p->geom.end);
}
static void crash_points (World *w, const char *old_snap, char oldp[][200], int oldn)
{
  McImage *now = mc_image_save ();
  McLog *log = malloc (mc_nlog * sizeof *log); int nlog = mc_nlog; memcpy (log, mc_log, nlog * sizeof *log);
  size_t tot = 0; for (int i = 0; i < nlog; i++) if (log[i].kind == 0) tot += log[i].count * w->c->g.ss;
  uint8_t *data = malloc (tot + 1); memcpy (data, mc_logdata, tot);
  static char newsnap[20000]; snprintf (newsnap, sizeof newsnap, "%s", w->csnap.s);
  char newp[40][200]; int newn; parts_of (w->disk, newp, &newn);
  mc_image_load (img_old);
  int point = 0;
  long long ss = w->c->g.ss;
  for (int i = 0; i < nlog; i++) {
    if (log[i].kind) continue;
    for (PedSector k = 0; k < log[i].count; k++, point++) {
      /* crash just before this sector is written */
      for (int torn = 0; torn < (log[i].count == 1 && 0 ? 2 : 1); torn++) {
        McImage *save = mc_image_save ();
        mc_count ("crash_points", 1);
        long e0 = mc_nexc; (void) e0;
        PedDisk *d = reread (w, ANS_FIX);
        if (!strcmp (L, "gpt")) {
          if (!d) { if (old_snap) FAIL (K ("crash-lost"), "crash before write %d (sector %lld): no table can be read: %s", point, log[i].start + k, mc_exc_msg); }
          else {
            mc_snap (d, &s1, SNAP_NOFS);
            if (old_snap && strcmp (s1.s, old_snap) && strcmp (s1.s, newsnap)) diff_fail ("crash-mixed", "after a crash the table is neither the old nor the new one (expected: old)", old_snap, s1.s);
            /* repairing writes it back completely */
            if (old_snap) {
              int o = mc_ans; mc_ans = ANS_FIX;
              if (!ped_disk_commit_to_dev (d)) FAIL (K ("crash-repair"), "the recovered table cannot be written: %s", mc_exc_msg);
              mc_ans = o;
              PedDisk *d2 = reread (w, ANS_CANCEL);
              if (!d2) FAIL (K ("crash-repair-unreadable"), "after repairing, the table cannot be read");
              mc_snap (d2, &s2, SNAP_NOFS);
              if (strcmp (s1.s, s2.s)) diff_fail ("crash-repair-differs", "after repairing the table differs", s1.s, s2.s);
              ped_disk_destroy (d2);
            }
          }
        } else {
          /* every partition the commit did not change is still there */
          if (old_snap) for (int x = 0; x < oldn; x++) for (int y = 0; y < newn; y++) if (!strcmp (oldp[x], newp[y])) {
            bool logical = oldp[x][0] == 'L';
            if (logical) continue;
            if (!d) FAIL (K ("crash-lost"), "crash before write %d (sector %lld): no table can be read: %s", point, log[i].start + k, mc_exc_msg);
            char curp[40][200]; int curn; parts_of (d, curp, &curn);
            bool found = false; for (int z = 0; z < curn; z++) if (!strcmp (curp[z], oldp[x])) found = true;
            if (!found) FAIL (K ("crash-partition-lost"), "crash before write %d (sector %lld): unchanged partition %s is gone", point, log[i].start + k, oldp[x]);
          }
        }
        if (d) ped_disk_destroy (d);
        mc_image_load (save); mc_image_free (save);
      }
      mc_store_write (log[i].start + k, data + log[i].off + k * ss);
    }
  }
  if (!mc_image_equal (now, now, NULL)) abort ();
  mc_image_load (now); mc_image_free (now); free (log); free (data);
}

/* P10 */
static void commit_image (PedDisk *d, McImage **im, int *ok)
{
  McImage *save = mc_image_save ();
  PedDisk *t = d;
  int nc = t->needs_clobber;
  *ok = ped_disk_commit_to_dev (t);
  t->needs_clobber = nc;
  *im = mc_image_save ();
  mc_image_load (save); mc_image_free (save);
}

/* ------------------------------------------------------------------ */
void mc_cleanup (void) { w_end (&W); }
static int run (int cfg, const uint16_t *ops, int n, bool check, uint64_t *sig);

static void start (World *w, int cfg)
{
  w_start (w, &w_cfgs[cfgidx[cfg]], !freshv[cfg]);
  /* "maximal" is only meaningful without the optional cylinder alignment,
     which libparted prefers but does not insist on */
  if (P == 13 && ped_disk_is_flag_available (w->disk, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag (w->disk, PED_DISK_CYLINDER_ALIGNMENT, 0);
}
static void replay_prefix (World *w, int cfg, const uint16_t *ops, int n)
{
  start (w, cfg);
  for (int i = 0; i < n; i++) w_apply (w, &tab[cfg][ops[i]]);
}

/* what a fresh allocation and a fresh stack frame contain */
static void __attribute__ ((noinline)) perturb (int v)
{
  volatile char junk[200000];
  memset ((char *) junk, v, sizeof junk);
  __asm__ volatile ("" : : "r" (junk) : "memory");
  mallopt (M_PERTURB, v);
}

/* P07: every I/O of the last operation fails in turn */
static void fault_points (int cfg, const uint16_t *ops, int n)
{
  const WOp *o = &tab[cfg][ops[n - 1]];
  World *w = &W;
  /* reference run */
  w_end (w);
  replay_prefix (w, cfg, ops, n - 1);
  mc_io_reset ();
  int r0 = w_apply (w, o);
  long total = mc_io;
  if (r0) return;
  mc_snap (w->disk, &s3, SNAP_NOFS | SNAP_NOUUID);
  static char ref[20000]; snprintf (ref, sizeof ref, "%s", s3.s);
  for (int sticky = 0; sticky < 2; sticky++)
    for (long k = 1; k <= total; k++) {
      w_end (w);
      replay_prefix (w, cfg, ops, n - 1);
      static char before[20000]; mc_snap (w->disk, &s1, SNAP_PLACEHOLDERS | SNAP_NOUUID); snprintf (before, sizeof before, "%s", s1.s);
      mc_io_reset (); mc_fail_io = k; mc_fail_sticky = sticky; mc_nexc = 0;
      int wr0 = mc_nlog;
      mc_fault_kind = 0;
      int r = w_apply (w, o);
      int kind = mc_fault_kind, fired = mc_fault_fired;
      mc_fail_io = 0; mc_fault_fired = 0;
      mc_count ("fault_points", 1);
      (void) wr0;
      if (!fired) FAIL (K ("fault-nondeterministic"), "fault %ld of %ld was not reached", k, total);
      if (mc_exc_bug) FAIL (K ("fault-bug"), "an I/O error is reported as a parted bug: %s", mc_exc_msg);
      if (o->kind == OP_COMMIT) {
        if (r && !mc_nexc) FAIL (K ("fault-silent"), "commit fails on I/O error %ld of %ld without saying why", k, total);
        if (r == 0 && kind >= 2) FAIL (K (kind == 2 ? "failed-write-reported-success" : "failed-sync-reported-success"), "commit reports success although %s %ld of %ld failed", kind == 2 ? "write" : "sync", k, total);
        mc_snap (w->disk, &s1, SNAP_PLACEHOLDERS | SNAP_NOUUID);
        if (r && strcmp (s1.s, before)) diff_fail ("fault-commit-changes-memory", "a failed commit changed the table in memory", before, s1.s);
        mc_nexc = 0;
        if (w_apply (w, o)) FAIL (K ("fault-retry"), "commit fails although the device works again (fault %ld of %ld): %s", k, total, mc_exc_msg);
        if (!representable (w->disk)) continue;
        PedDisk *d = reread (w, ANS_CANCEL);
        if (!d) FAIL (K ("fault-retry-unreadable"), "after a failed and a successful commit the table is unreadable");
        int sf = SNAP_NOFS | SNAP_NOUUID | (strcmp (L, "bsd") ? 0 : SNAP_NOFLAGS);   /* bsd flags: see P03 */
        mc_snap (d, &s1, sf); mc_snap (w->disk, &s2, sf);
        norm_written (w->disk, &s2);
        if (strcmp (s1.s, s2.s)) diff_fail ("fault-retry-differs", "after a failed and a repeated commit the table differs", s2.s, s1.s);
        ped_disk_destroy (d);
      } else if (o->kind == OP_REREAD) {
        if (r == 0) {
          mc_snap (w->disk, &s1, SNAP_NOFS | SNAP_NOUUID);
          if (strcmp (s1.s, ref)) { char kk[64]; snprintf (kk, 64, "fault-read-wrong-table"); diff_fail (kk, "reading with an I/O error yields a different table", ref, s1.s); }
        }
        if (mc_nwrite) FAIL (K ("fault-read-writes"), "reading with an I/O error wrote to the device");
      }
      if (r == 0 || o->kind != OP_REREAD) check_wellformed (w->disk);
    }
}

/* P04 */
static void check_writes (World *w, const WOp *o, const uint8_t *mbr0, bool old_valid)
{
  for (int i = 0; i < mc_nlog; i++) {
    if (mc_log[i].kind) continue;
    for (PedSector s = mc_log[i].start; s < mc_log[i].start + mc_log[i].count; s++) {
      PedPartition *p = data_owner (w->disk, s);
      if (!p) continue;
      if (!strcmp (L, "loop")) continue;   /* the label lives in sector 0 of its only partition */
      if (!strcmp (L, "sun") && s == 0) continue;   /* ditto: cylinder 0 holds the label */
      if (!strcmp (L, "bsd") && s <= 1 && p->geom.start == 0) continue;
      if (!strcmp (L, "mac") && p->geom.start == 1) continue; /* the map describes itself */
      /* a new label replaces whatever was at both ends of the device */
      PedSector clob = 9 * 1024 / w->c->g.ss + 2;
      if (!old_valid && (s < clob || s >= w->c->g.length - clob)) continue;
      /* unchanged bytes are harmless only if really unchanged */
      FAIL (K ("write-into-data"), "commit wrote sector %lld, which belongs to partition %d (%lld-%lld)", s, p->num, p->geom.start, p->geom.end);
    }
  }
  if (mc_oob) FAIL (K ("write-outside"), "commit accessed sectors outside the device");
  if (!old_valid) return;
  if (!strcmp (L, "msdos") || !strcmp (L, "gpt")) {
    uint8_t b[8192]; mc_store_read (0, b);
    if (memcmp (b, mbr0, 440)) FAIL (K ("boot-code"), "commit changed the boot code in sector 0");
  }
}

static void fill_boot (World *w)
{
  uint8_t b[8192]; mc_store_read (0, b);
  /* foreign boot code, with zero bytes among it */
  for (int i = 0; i < 440; i++) b[i] = i == 0 ? 0xfa : i % 3 == 1 ? 0 : 0x11 + i % 7;
  mc_store_write (0, b);
}

/* flags that libparted documents or implements as "at most one partition" */
static bool unique_flag (PedPartitionFlag f)
{
  if (f == PED_PARTITION_BOOT) return !strcmp (L, "msdos") || !strcmp (L, "dvh");
  if (f == PED_PARTITION_ROOT || f == PED_PARTITION_SWAP) return !strcmp (L, "dvh");
  return false;
}

/* Many flags stand for a partition type.  Clearing one gives the partition
   the default type of its file system, which may imply the flag again. */
static bool default_type (World *w, PedPartition *p)
{
  static McStr a, b;
  mc_snap (w->disk, &a, SNAP_PLACEHOLDERS);
  if (!ped_partition_set_system (p, p->fs_type)) return false;
  mc_snap (w->disk, &b, SNAP_PLACEHOLDERS);
  return !strcmp (a.s, b.s);
}
/* flags that are bits of their own, independent of the partition's type */
static bool own_bit (PedPartitionFlag f)
{
  if (!strcmp (L, "gpt")) return f == PED_PARTITION_HIDDEN || f == PED_PARTITION_LEGACY_BOOT || f == PED_PARTITION_NO_AUTOMOUNT;
  if (!strcmp (L, "msdos")) return f == PED_PARTITION_BOOT;
  if (!strcmp (L, "pc98")) return f == PED_PARTITION_HIDDEN;
  return !strcmp (L, "atari") ? f == PED_PARTITION_BOOT : !strcmp (L, "bsd") && f == PED_PARTITION_BOOT;
}
static bool keeps_type (PedPartitionFlag f) { return own_bit (f) || (!strcmp (L, "msdos") && (f == PED_PARTITION_LBA || f == PED_PARTITION_HIDDEN)); }
static void check_flags (World *w, const WOp *o, int r, char before[][32], PedPartition **bp, int nb)
{
  PedPartition *p = w->part;
  if (o->kind != OP_FLAG || !p) return;
  int pi = 0; while (pi < nb - 1 && bp[pi] != p) pi++;
  if (r == 0) {
    int v = ped_partition_get_flag (p, o->a);
    if (!!v != o->b && !(v && !own_bit (o->a) && default_type (w, p))) { char k[64]; snprintf (k, 64, "set-flag-%s", ped_partition_flag_get_name (o->a)); FAIL (K (k), "setting flag %s=%d on partition %d succeeded but it now reads %d", ped_partition_flag_get_name (o->a), o->b, p->num, v); }
  }
  for (int i = 0; i < nb; i++) {
    for (PedPartitionFlag f = ped_partition_flag_next (0); f; f = ped_partition_flag_next (f)) {
      int now = ped_partition_is_flag_available (bp[i], f) && ped_partition_get_flag (bp[i], f);
      int was = before[i][f];
      if (now == was) continue;
      if (!r && !o->b && !before[pi][o->a]) FAIL (K ("flag-clear-again"), "clearing flag %s, which partition %d does not have, changed flag %s of partition %d", ped_partition_flag_get_name (o->a), p->num, ped_partition_flag_get_name (f), bp[i]->num);
      if (!r && o->b && before[pi][o->a]) FAIL (K ("flag-set-again"), "setting flag %s, which partition %d has, changed flag %s of partition %d", ped_partition_flag_get_name (o->a), p->num, ped_partition_flag_get_name (f), bp[i]->num);
      if (r) { if (1) FAIL (K ("flag-failed-changes"), "setting flag %s failed but flag %s of partition %d changed", ped_partition_flag_get_name (o->a), ped_partition_flag_get_name (f), bp[i]->num); }
      if (bp[i] != p && !(f == o->a && was && unique_flag (f) && o->b)) FAIL (K ("flag-other"), "setting flag %s on partition %d changed flag %s of partition %d", ped_partition_flag_get_name (o->a), p->num, ped_partition_flag_get_name (f), bp[i]->num);
      if (bp[i] == p && f != o->a && now && o->b && (f != PED_PARTITION_BOOT && f != PED_PARTITION_ESP && f != PED_PARTITION_LBA && f != PED_PARTITION_MSFT_DATA)) FAIL (K ("flag-extra"), "setting flag %s also turned on flag %s", ped_partition_flag_get_name (o->a), ped_partition_flag_get_name (f));
      if (bp[i] == p && f != o->a && (own_bit (f) || keeps_type (o->a))) FAIL (K ("flag-unrelated"), "changing flag %s changed flag %s", ped_partition_flag_get_name (o->a), ped_partition_flag_get_name (f));
      if (bp[i] == p && f != o->a && now && !o->b && !default_type (w, p)) FAIL (K ("flag-extra-off"), "clearing flag %s turned on flag %s", ped_partition_flag_get_name (o->a), ped_partition_flag_get_name (f));
    }
  }
  if (r == 0 && o->b && unique_flag (o->a))
    for (int i = 0; i < nb; i++) if (bp[i] != p && ped_partition_get_flag (bp[i], o->a)) FAIL (K ("flag-not-unique"), "flag %s is set on two partitions", ped_partition_flag_get_name (o->a));
}

/* everything that is checked about one commit: used for commit operations of
   the trace, and after every other operation for a commit at that point */
static void prepare_commit (World *w, uint8_t *mbr0, bool *was_committed, char *oldc, char oldp[][200], int *oldn)
{
  *was_committed = w->committed; snprintf (oldc, 20000, "%s", w->csnap.s ? w->csnap.s : ""); *oldn = 0;
  if (P == 4) { fill_boot (w); mc_store_read (0, mbr0); }
  if (P == 5) {
    if (img_old) mc_image_free (img_old);
    img_old = mc_image_save ();
    if (w->committed) { PedDisk *d = reread (w, ANS_CANCEL); if (d) { parts_of (d, oldp, oldn); mc_snap (d, &s1, SNAP_NOFS); snprintf (oldc, 20000, "%s", s1.s); ped_disk_destroy (d); } else *was_committed = false; }
  }
  mc_io_reset (); mc_nexc = 0;
}
static void check_commit (World *w, int r, bool reused, const uint8_t *mbr0, bool was_committed, const char *oldc, char oldp[][200], int oldn)
{
  if (mc_exc_bug) FAIL (K ("bug-exception"), "parted reports a bug in itself: %s", mc_exc_msg);
  switch (P) {
  case 3:
    if (r == 0) { mc_nexc = 0; check_roundtrip (w, "roundtrip"); mc_count ("round_trips", 1); }
    if (r && representable (w->disk)) FAIL (K ("commit-refused"), "a valid table cannot be written: %s", mc_exc_msg);
    break;
  case 4: check_writes (w, NULL, mbr0, reused); break;
  case 5:
    if (r == 0 && mc_nlog && mc_log[mc_nlog - 1].kind == 0) FAIL (K ("not-synced"), "commit reports success without having synced its last write (sector %lld)", mc_log[mc_nlog - 1].start);
    if (r == 0) crash_points (w, was_committed ? oldc : NULL, oldp, oldn);
    break;
  case 6: if (r == 0 && representable (w->disk)) dec_check (w->disk, K); break;
  case 15: if (r == 0) { mc_nexc = 0; check_roundtrip (w, "roundtrip-big"); dec_check (w->disk, K); } break;
  }
}

static int run (int cfg, const uint16_t *ops, int n, bool check, uint64_t *sig)
{
  World *w = &W;
  const WCfg *c = &w_cfgs[cfgidx[cfg]];
  L = c->label;
  w_end (w);
  start (w, cfg);
  for (int i = 0; i < n - 1; i++) {
    int r = w_apply (w, &tab[cfg][ops[i]]);
    if (r) { FAIL (K ("nondeterministic"), "step %d of a trace that worked before now returns %d", i, r); }
  }
  const WOp *o = &tab[cfg][ops[n - 1]];
  static char before[20000], before_noph[20000];
  mc_snap (w->disk, &s1, SNAP_PLACEHOLDERS); snprintf (before, sizeof before, "%s", s1.s);
  mc_snap (w->disk, &s1, SNAP_NOFS); snprintf (before_noph, sizeof before_noph, "%s", s1.s);
  static char oldc[20000]; bool was_committed = w->committed; snprintf (oldc, sizeof oldc, "%s", w->csnap.s ? w->csnap.s : "");
  char oldp[40][200]; int oldn = 0;
  uint8_t mbr0[8192];
  char fb[12][32]; PedPartition *bp[12]; int nb = 0;
  bool reused = !w->disk->needs_clobber;
  if (P == 14 && o->kind == OP_FLAG) for (; nb < 12 && (bp[nb] = w_nth (w->disk, nb)); nb++)
    for (PedPartitionFlag f = ped_partition_flag_next (0); f; f = ped_partition_flag_next (f)) fb[nb][f] = ped_partition_is_flag_available (bp[nb], f) && ped_partition_get_flag (bp[nb], f);
  PedGeometry want = { 0 }; PedConstraint *wc = NULL;
  if (P == 13 && o->kind == OP_MAX && w_nth (w->disk, o->sel)) {
    PedPartition *p = w_nth (w->disk, o->sel);
    wc = w_constraint (w, o->ck, p->geom.start, p->geom.end);
    if (wc) { PedGeometry *g = ped_disk_get_max_partition_geometry (w->disk, p, wc); if (g) { want = *g; ped_geometry_destroy (g); } ped_constraint_destroy (wc); }
  }
  mc_io_reset (); mc_nexc = 0;
  if (o->kind == OP_COMMIT) prepare_commit (w, mbr0, &was_committed, oldc, oldp, &oldn);
  int r = w_apply (w, o);
  if (mc_verbose) { mc_snap (w->disk, &s1, SNAP_PLACEHOLDERS); fprintf (stderr, "before:\n%safter (result %d):\n%s", before, r, s1.s); }
  if (r == 1) return 1;
  if (check) {
    if (mc_exc_bug) FAIL (K ("bug-exception"), "parted reports a bug in itself: %s", mc_exc_msg);
    if (r == 2) mc_count ("refused_ops", 1);
    switch (P) {
    case 1: check_wellformed (w->disk); break;
    case 2:
      mc_snap (w->disk, &s1, SNAP_PLACEHOLDERS);
      if (r == 2 && strcmp (s1.s, before)) diff_fail ("failed-op-changes", "a refused operation changed the table", before, s1.s);
      if (r == 2 && !mc_nexc && o->kind != OP_MINEXT) FAIL (K ("silent-refusal"), "the operation was refused without saying why");
      break;
    case 9:
      if (o->kind != OP_COMMIT && mc_nwrite) FAIL (K ("write-without-commit"), "an operation other than commit wrote to the device");
      break;
    case 7: if ((o->kind == OP_COMMIT || o->kind == OP_REREAD) && r == 0) { fault_points (cfg, ops, n); w_end (w); replay_prefix (w, cfg, ops, n); } break;
    case 10:
      if (o->kind == OP_DUP) {
        if (r) FAIL (K ("dup-failed"), "duplicating a disk failed: %s", mc_exc_msg);
        mc_snap (w->disk, &s1, SNAP_PLACEHOLDERS);
        if (strcmp (s1.s, before)) diff_fail ("dup-differs", "the duplicate differs from the original", before, s1.s);
        check_wellformed (w->disk);
        McImage *a, *b; int oka, okb; PedSector at = -1;
        commit_image (w->orig[w->norig - 1], &a, &oka); commit_image (w->disk, &b, &okb);
        if (oka != okb) FAIL (K ("dup-commit"), "original %s, duplicate %s be written", oka ? "can" : "cannot", okb ? "can" : "cannot");
        if (oka && !mc_image_equal (a, b, &at)) FAIL (K ("dup-bytes"), "original and duplicate write different contents to sector %lld", at);
        mc_image_free (a); mc_image_free (b);
        mc_count ("duplicates_compared", 1);
      }
      for (int i = 0; i < w->norig; i++) {
        mc_snap (w->orig[i], &s1, SNAP_PLACEHOLDERS);
        if (strcmp (s1.s, w->origsnap[i].s)) diff_fail ("dup-linked", "changing the duplicate changed the original", w->origsnap[i].s, s1.s);
      }
      break;
    case 12:
      if (r == 0 && w->con && w->part && !satisfies (w->con, &w->part->geom)) FAIL (K ("constraint"), "partition was placed at %lld-%lld, outside the requested constraint", w->part->geom.start, w->part->geom.end);
      if (r == 0 && w->part && (o->kind == OP_ADD || o->kind == OP_GEOM) && o->ck == CK_EXACT) {
        PedSector a = c->grid[o->a], b = c->grid[o->b] - (o->kind == OP_ADD && o->sel ? 1 : 0);
        if (w->part->geom.start != a || w->part->geom.end != b) FAIL (K ("exact"), "asked for exactly %lld-%lld, got %lld-%lld", a, b, w->part->geom.start, w->part->geom.end);
      }
      if (r == 0 && o->ck == CK_OPT && w->part && c->g.align_opt && (o->kind == OP_ADD || o->kind == OP_GEOM || o->kind == OP_MAX)) {
        if ((w->part->geom.start - c->g.align_off) % c->g.align_opt) FAIL (K ("aligned-start"), "start %lld is not optimally aligned", w->part->geom.start);
      }
      break;
    case 13:
      if (o->kind == OP_MAX && r == 0) {
        if (want.length == 0) FAIL (K ("maximize-inconsistent"), "maximize succeeded where no maximum geometry was reported");
        if (w->part->geom.start != want.start || w->part->geom.end != want.end) FAIL (K ("maximize-differs"), "maximize gave %lld-%lld, the maximum geometry was %lld-%lld", w->part->geom.start, w->part->geom.end, want.start, want.end);
      }
      if (o->kind == OP_MAX && r && want.length) FAIL (K ("maximize-refused"), "maximize failed although %lld-%lld is available: %s", want.start, want.end, mc_exc_msg);
      if (o->kind == OP_MINEXT && r) {
        /* the label's rules for extended partitions may not allow even its
           present place; but when a smaller one is accepted, so is the smallest */
        PedPartition *e = ped_disk_extended_partition (w->disk);
        if (e) for (int k = 1; k <= 40; k++)
          if (can_set (w->disk, e, NULL, e->geom.start, e->geom.end - k) || can_set (w->disk, e, NULL, e->geom.start + k, e->geom.end)) FAIL (K ("minimize-refused"), "minimizing the extended partition %lld-%lld failed although it can be smaller", e->geom.start, e->geom.end);
      }
      if (o->kind == OP_MINEXT && r == 0) {
        PedPartition *e = ped_disk_extended_partition (w->disk);
        if (e) {
          bool any = false;
          for (PedPartition *q = e->part_list; q; q = q->next) if (ped_partition_is_active (q)) any = true;
          if (!any) FAIL (K ("minimize-empty"), "an empty extended partition was kept");
          /* nothing smaller works */
          for (int k = 1; k <= 40; k++) {
            if (can_set (w->disk, e, NULL, e->geom.start, e->geom.end - k)) FAIL (K ("minimize-not-minimal"), "extended partition %lld-%lld could end at %lld", e->geom.start, e->geom.end, e->geom.end - k);
            if (can_set (w->disk, e, NULL, e->geom.start + k, e->geom.end)) FAIL (K ("minimize-not-minimal"), "extended partition %lld-%lld could start at %lld", e->geom.start, e->geom.end, e->geom.start + k);
          }
        }
      }
      check_max (w);
      break;
    case 14: check_flags (w, o, r, fb, bp, nb); break;
    case 29:
      if (r == 0) {
        /* what is written depends on the table alone: the same history with
           other garbage in fresh memory gives the same bytes */
        McImage *a, *b; int oka, okb; PedSector at = -1;
        w_end (w); perturb (0xa5); replay_prefix (w, cfg, ops, n); perturb (0xa5); commit_image (w->disk, &a, &oka);
        w_end (w); perturb (0x3c); replay_prefix (w, cfg, ops, n); perturb (0x3c); commit_image (w->disk, &b, &okb);
        perturb (0);
        if (oka != okb) FAIL (K ("garbage-result"), "the result of a commit depends on uninitialised memory");
        if (oka && !mc_image_equal (a, b, &at)) FAIL (K ("garbage-bytes"), "the contents written to sector %lld depend on uninitialised memory", at);
        mc_image_free (a); mc_image_free (b);
        mc_count ("commits_compared", 1);
      }
      break;
    case 15:
      for (PedPartition *p = ped_disk_next_partition (w->disk, NULL); p; p = ped_disk_next_partition (w->disk, p)) {
        if (!ped_partition_is_active (p)) continue;
        PedSector ml = ped_disk_max_partition_length (w->disk), ms = ped_disk_max_partition_start_sector (w->disk);
        if ((uint64_t) p->geom.length > (uint64_t) ml || (uint64_t) p->geom.start > (uint64_t) ms) FAIL (K ("limit"), "partition %lld-%lld exceeds the label's limits (start %lld, length %lld)", p->geom.start, p->geom.end, ms, ml);
      }
      check_wellformed (w->disk);
      break;
    }
    if (o->kind == OP_COMMIT) check_commit (w, r, reused, mbr0, was_committed, oldc, oldp, oldn);
    if (r == 0) { mc_count ("successful_ops", 1); mc_nontrivial (w_sig (w)); }
  }
  if (r == 2) return 2;
  if (check && n >= 2 && (o->kind == OP_COMMIT || o->kind == OP_GEOM)) {
    static int done;
    if (done < 1) { done++; char *b = NULL; size_t bn; FILE *f = open_memstream (&b, &bn);
      fprintf (f, "%s:", c->name); for (int i = 0; i < n; i++) { fputs (" ; ", f); w_opname (c, &tab[cfg][ops[i]], f); } fclose (f); mc_sample ("%s", b); free (b); }
  }
  *sig = w_sig (w);
  if (check && o->kind != OP_COMMIT && (P == 3 || P == 4 || P == 5 || P == 6 || P == 15)) {
    /* what if the table were written now? */
    static const WOp co = { .kind = OP_COMMIT };
    reused = !w->disk->needs_clobber;
    prepare_commit (w, mbr0, &was_committed, oldc, oldp, &oldn);
    r = w_apply (w, &co);
    mc_count ("commits_from_reached_states", 1);
    check_commit (w, r, reused, mbr0, was_committed, oldc, oldp, oldn);
  }
  return 0;
}

static void describe (int cfg, const uint16_t *ops, int n, FILE *f)
{
  const WCfg *c = &w_cfgs[cfgidx[cfg]];
  fprintf (f, "%s (%lld sectors of %lld bytes, %d heads, %d sectors/track): fresh %s label%s", c->name, c->g.length, c->g.ss, c->g.heads, c->g.sects, c->label, freshv[cfg] ? "" : "; commit");
  for (int i = 0; i < n; i++) { fprintf (f, "; "); w_opname (c, &tab[cfg][ops[i]], f); }
}

/* ---------- op alphabets ---------- */
static void adds (int ci, const WCfg *c, int step, unsigned types, unsigned cks, int fs, int endm1)
{
  for (int a = 0; a < c->ng; a++) for (int b = a + 1; b < c->ng; b++) {
    if (step > 1 && (a * 3 + b) % step) continue;
    for (int t = 0; t < 3; t++) if (types & (1 << t)) {
      if (t && strcmp (c->label, "msdos") && strcmp (c->label, "dvh") && strcmp (c->label, "atari") && strcmp (c->label, "bsd")) continue;
      for (int k = 0; k < CK_N; k++) if (cks & (1 << k)) push (ci, (WOp) { .kind = OP_ADD, .type = t, .ck = k, .fs = fs, .a = a, .b = b, .sel = endm1 });
    }
  }
}
static void add1 (int ci, int t, int a, int b, int ck, int fs, int em) { push (ci, (WOp) { .kind = OP_ADD, .type = t, .ck = ck, .fs = fs, .a = a, .b = b, .sel = em }); }
static void simple (int ci, int kind) { push (ci, (WOp) { .kind = kind }); }
static void sels (int ci, int kind, int n, unsigned cks) { for (int i = 0; i < n; i++) for (int k = 0; k < CK_N; k++) if (cks & (1 << k)) push (ci, (WOp) { .kind = kind, .sel = i, .ck = k }); }

static bool exten (const WCfg *c) { return !strcmp (c->label, "msdos") || !strcmp (c->label, "dvh") || !strcmp (c->label, "atari"); }

/* a compact set of partitions, for the properties about contents */
static void small_adds (int ci, const WCfg *c)
{
  int n = c->ng;
  if (n < 4) { add1 (ci, 0, 0, n - 1, CK_EXACT, 0, 0); add1 (ci, 0, 0, n - 1, CK_ANY, 1, 0); return; }
  add1 (ci, 0, n > 5 ? 1 : 0, 2, CK_ANY, 1, 1);
  add1 (ci, 0, 2, 3, CK_ANY, 0, 1);
  add1 (ci, 0, 3, n - 1, CK_ANY, 2, 1);
  if (exten (c)) {
    add1 (ci, 2, 2, n - 1, CK_ANY, 0, 0);
    add1 (ci, 1, 2, 3, CK_ANY, 1, 1);
    add1 (ci, 1, 3, 4, CK_ANY, 0, 1);
    if (n > 5) add1 (ci, 1, 4, 5, CK_ANY, 3, 1);
  }
}
static void setup (int prop)
{
  P = prop;
  int T = mc_thorough;
  for (int kk = 0; kk < 2 * w_ncfgs; kk++) {
    int k = kk / 2, fresh = kk % 2;
    const WCfg *c = &w_cfgs[k];
    if (fresh && !(P == 1 || P == 2 || P == 12 || P == 3 || P == 10)) continue;
    bool big = c->g.length > 100000;
    if (*mc_opt && !strstr (mc_opt, c->label)) continue;
    int ci = ncfg, d = 3;
    /* what is asked when such a table is read, and what an own decoder expects */
    if (c->made && (fresh || !(P == 10 || P == 29 || (c->made == 1 && (P == 3 || P == 4 || P == 5 || P == 7 || P == 9))))) continue;
    if (big != (P == 15) && !(big && P == 2)) continue;
    if (deep) {
      if (fresh || big) continue;
      bool x = exten (c);
      small_adds (ci, c);
      if (c->ng > 4) for (int q = 0; q < 3; q++) { push (ci, (WOp) { .kind = OP_GEOM, .sel = q, .a = 2, .b = 4, .ck = CK_ANY }); push (ci, (WOp) { .kind = OP_GEOM, .sel = q, .a = 3, .b = 4, .ck = CK_EXACT }); push (ci, (WOp) { .kind = OP_GEOM, .sel = q, .a = 1, .b = 3, .ck = CK_ANY }); }
      sels (ci, OP_DEL, 4, 1); sels (ci, OP_MAX, 3, 1 << CK_ANY);
      if (x) simple (ci, OP_MINEXT);
      if (P == 1) { simple (ci, OP_COMMIT); simple (ci, OP_REREAD); simple (ci, OP_DUP); }
      depthv[ci] = 4; cfgidx[ci] = k; freshv[ci] = 0; ncfg++;
      continue;
    }
    bool ext = exten (c);
    switch (P) {
    case 1: case 2: case 12: case 13:
      if (big) {
        adds (ci, c, 3, ext ? 7 : 1, 1 << CK_ANY | 1 << CK_EXACT, 0, 0);
        for (int s = 0; s < 2; s++) for (int a = 0; a < c->ng; a++) for (int b = a + 1; b < c->ng; b++) push (ci, (WOp) { .kind = OP_GEOM, .sel = s, .a = a, .b = b, .ck = (a + b) % 2 ? CK_EXACT : CK_ANY });
        break;
      }
      adds (ci, c, 1, ext ? 7 : 1, P == 13 ? 1 << CK_ANY | 1 << CK_OPT : P == 12 ? (1 << CK_N) - 1 : 1 << CK_ANY | 1 << CK_EXACT | 1 << CK_OPT, 0, 0);
      if (P != 12) adds (ci, c, 1, ext ? 3 : 1, 1 << CK_EXACT, 0, 1);
      if (P != 13) for (int s = 0; s < (T ? 4 : 3); s++) for (int a = 0; a < c->ng; a++) for (int b = a + 1; b < c->ng; b++) for (int q = 0; q < CK_N; q++)
        if ((P == 12 && (q == CK_ANY || q == CK_WIN || q == CK_OPT || q == CK_EXACT || q == CK_MAXSZ)) || q == CK_EXACT || (T && q == CK_ANY)) push (ci, (WOp) { .kind = OP_GEOM, .sel = s, .a = a, .b = b, .ck = q });
      sels (ci, OP_DEL, 4, 1); sels (ci, OP_MAX, 4, 1 << CK_ANY | 1 << CK_OPT);
      if (ext) simple (ci, OP_MINEXT);
      if (P == 1) { simple (ci, OP_DELALL); simple (ci, OP_COMMIT); simple (ci, OP_REREAD); simple (ci, OP_DUP); sels (ci, OP_REMOVE, 4, 1); }
      if (P != 13) push (ci, (WOp) { .kind = OP_DFLAG, .a = PED_DISK_CYLINDER_ALIGNMENT, .b = 0 });
      d = T ? 4 : 3;
      break;
    case 3: case 4: case 6: case 9: case 10: case 14: case 29:
      small_adds (ci, c);
      if (P != 14) push (ci, (WOp) { .kind = OP_DFLAG, .a = PED_DISK_CYLINDER_ALIGNMENT, .b = 0 });
      if (P != 14) push (ci, (WOp) { .kind = OP_DFLAG, .a = PED_DISK_GPT_PMBR_BOOT, .b = 1 });
      sels (ci, OP_DEL, P == 14 ? 2 : 4, 1);
      if (P != 14 && c->ng > 4) for (int q = 0; q < 2; q++) { push (ci, (WOp) { .kind = OP_GEOM, .sel = q, .a = 2, .b = 4, .ck = CK_ANY }); push (ci, (WOp) { .kind = OP_GEOM, .sel = q, .a = 3, .b = 4, .ck = CK_ANY }); }
      for (int s = 0; s < 3; s++) {
        for (int f = PED_PARTITION_FIRST_FLAG; f <= PED_PARTITION_LAST_FLAG; f++) for (int v = 1; v >= 0; v--) if (v || P == 14 || (P == 3 && s < 2)) push (ci, (WOp) { .kind = OP_FLAG, .sel = s, .a = f, .b = v });
        if (P != 14) for (int i = 0; i < w_nnames; i++) push (ci, (WOp) { .kind = OP_NAME, .sel = s, .a = i });
        if ((P != 14 && (P != 3 || strcmp (c->name, "msdos-512"))) || s) for (int i = 0; i < w_ntypeids; i++) push (ci, (WOp) { .kind = OP_TYPEID, .sel = s, .a = i });
        else for (int i = 0; i < 256; i++) push (ci, (WOp) { .kind = OP_TYPEID, .sel = s, .a = 1000 + i });
        for (int i = 0; i < w_nuuids; i++) push (ci, (WOp) { .kind = OP_TYPEUUID, .sel = s, .a = i });
        for (int i = 0; i < w_nfs; i++) push (ci, (WOp) { .kind = OP_SYS, .sel = s, .a = i });
      }
      if (P == 10 || P == 9) simple (ci, OP_DUP);
      if (P == 4 || P == 9) { sels (ci, OP_MAX, 3, 1); simple (ci, OP_MINEXT); simple (ci, OP_DELALL); simple (ci, OP_FRESH); }
      simple (ci, OP_COMMIT);
      if (P != 14) simple (ci, OP_REREAD);
      d = T ? 5 : 4;
      break;
    case 5: case 7:
      small_adds (ci, c);
      sels (ci, OP_DEL, 4, 1);
      push (ci, (WOp) { .kind = OP_FLAG, .sel = 0, .a = PED_PARTITION_BOOT, .b = 1 });
      push (ci, (WOp) { .kind = OP_NAME, .sel = 0, .a = 0 });
      simple (ci, OP_COMMIT); if (P == 7) simple (ci, OP_REREAD);
      simple (ci, OP_DELALL);
      if (ext) simple (ci, OP_MINEXT);
      d = T ? 7 : 5;
      break;
    case 15:
      adds (ci, c, 1, ext ? 7 : 1, 1 << CK_ANY | 1 << CK_EXACT, 0, 0);
      for (int s = 0; s < 2; s++) for (int a = 0; a < c->ng; a++) for (int b = a + 1; b < c->ng; b++) push (ci, (WOp) { .kind = OP_GEOM, .sel = s, .a = a, .b = b, .ck = CK_EXACT });
      /* the mac map describes itself: growing it is asking for a table of that size */
      for (int i = !strcmp (c->label, "mac"); i < 3; i++) push (ci, (WOp) { .kind = OP_MAX, .sel = i, .ck = CK_ANY });
      sels (ci, OP_DEL, 2, 1);
      simple (ci, OP_COMMIT);
      d = T ? 4 : 3;
      break;
    }
    cfgidx[ci] = k; freshv[ci] = fresh; depthv[ci] = fresh ? d - 1 : d; ncfg++;
  }
}
static const char *cfg_name (int c) { return w_cfgs[cfgidx[c]].name; }
static int cfg_depth (int c) { return depthv[c]; }
static int nops (int c) { return ntab[c]; }

int main (int argc, char **argv)
{
  int prop = 0;
  for (int i = 1; i < argc; i++) { if (!strcmp (argv[i], "--prop")) prop = atoi (argv[i + 1] + 1); if (!strcmp (argv[i], "--thorough")) mc_thorough = 1; if (!strcmp (argv[i], "--opt")) mc_opt = argv[i + 1]; if (!strcmp (argv[i], "--deep")) deep = true; }
  setup (prop);
  for (int i = 1; i < argc; i++) if (!strcmp (argv[i], "--depth")) for (int c = 0; c < ncfg; c++) depthv[c] = atoi (argv[i + 1]);
  McModel m = { .ncfg = ncfg, .cfg_name = cfg_name, .cfg_depth = cfg_depth, .nops = nops, .run = run, .describe = describe };
  return mc_explore (&m, argc, argv);
}
