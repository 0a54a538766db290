/* P08: label readers on damaged and hostile label contents.  Every image is a
   committed table; every byte, 16-, 32- and 64-bit field of it is replaced by
   boundary values (checksums repaired or not), and the result is probed, read,
   walked, duplicated, edited and written back by the library. */
#include <config.h>
#include "world.h"
#include "architecture.h"
#include <stdlib.h>
#include <string.h>

#define MAXIMG 64
#define MAXPTS 120000
static struct { const WCfg *c; McImage *im; char name[60]; int variant; } img[MAXIMG]; static int nimg;
static struct { short img; short idx; PedSector sec; int off; short width; short sec2i; int off2; } *pt; static long npt;
static int ss;

static uint32_t crc (const uint8_t *p, size_t n) { uint32_t c = ~0u; while (n--) { c ^= *p++; for (int i = 0; i < 8; i++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0); } return ~c; }
static uint32_t l32 (const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t) p[3] << 24; }
static uint64_t l64 (const uint8_t *p) { return l32 (p) | (uint64_t) l32 (p + 4) << 32; }
static void s32 (uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = v >> 8 * i; }
static uint32_t b32 (const uint8_t *p) { return (uint32_t) p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static void sb32 (uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++) p[3 - i] = v >> 8 * i; }

/* make the checksums of the label match its (damaged) contents */
static void repair (const WCfg *c)
{
  static uint8_t b[8192], e[70000];
  long long len = c->g.length;
  if (!strcmp (c->label, "gpt")) {
    for (int k = 0; k < 2; k++) {
      long long at = k ? len - 1 : 1; mc_store_read (at, b);
      uint64_t pe = l64 (b + 72); uint32_t n = l32 (b + 80), es = l32 (b + 84), hs = l32 (b + 12);
      if ((uint64_t) n * es <= 65536 && es && n) {
        size_t sz = (size_t) n * es, secs = (sz + ss - 1) / ss; bool in = true;
        for (size_t i = 0; i < secs; i++) { if (pe + i >= (uint64_t) len) { in = false; break; } mc_store_read (pe + i, e + i * ss); }
        if (in) s32 (b + 88, crc (e, sz));
      }
      s32 (b + 16, 0); if (hs <= (uint32_t) ss) s32 (b + 16, crc (b, hs));
      mc_store_write (at, b);
    }
  } else if (!strcmp (c->label, "sun")) {
    mc_store_read (0, b); b[510] = b[511] = 0; for (int i = 0; i < 510; i += 2) { b[510] ^= b[i]; b[511] ^= b[i + 1]; } mc_store_write (0, b);
  } else if (!strcmp (c->label, "bsd")) {
    int o = 64; mc_store_read (0, b); unsigned n = b[o + 138] | b[o + 139] << 8; if (n > 16) n = 16;
    b[o + 136] = b[o + 137] = 0; uint8_t x = 0, y = 0; for (unsigned i = 0; i < 148 + n * 16; i += 2) { x ^= b[o + i]; y ^= b[o + i + 1]; }
    b[o + 136] = x; b[o + 137] = y; mc_store_write (0, b);
  } else if (!strcmp (c->label, "dvh")) {
    mc_store_read (0, b); sb32 (b + 504, 0); uint32_t t = 0; for (int i = 0; i < 512; i += 4) t += b32 (b + i); sb32 (b + 504, -t); mc_store_write (0, b);
  } else if (!strcmp (c->label, "amiga")) {
    for (int s = 0; s < 32; s++) {
      mc_store_read (s, b);
      if (memcmp (b, "RDSK", 4) && memcmp (b, "PART", 4) && memcmp (b, "BADB", 4) && memcmp (b, "FSHD", 4) && memcmp (b, "LSEG", 4) && memcmp (b, "BOOT", 4)) continue;
      uint32_t n = b32 (b + 4), t = 0; if (n > 128) n = 128;
      sb32 (b + 8, 0); for (uint32_t i = 0; i < n; i++) t += b32 (b + 4 * i); sb32 (b + 8, -t); mc_store_write (s, b);
    }
  }
}

static bool lenient; static int curk;
static void walk (PedDisk *d)
{
  static McStr s; mc_snap (d, &s, SNAP_PLACEHOLDERS);
  PedSector at; int nums[512], nn = 0, primaries = 0;
  if (!lenient) for (int l = 0; l < 2; l++) {
    PedPartition *ext = ped_disk_extended_partition (d);
    if (l && !ext) break;
    at = l ? ext->geom.start : 0; PedSector end = l ? ext->geom.end : d->dev->length - 1;
    /* a foreign table may claim the sectors of the label itself */
    for (PedPartition *p = l ? ext->part_list : d->part_list; p; p = p->next) if (ped_partition_is_active (p)) {
      if (p->geom.start < at || p->geom.end < p->geom.start || p->geom.end > end || p->geom.length != p->geom.end - p->geom.start + 1)
        mc_fail ("read-malformed-list", "%s: %lld-%lld comes after %lld, before the end %lld", d->type->name, p->geom.start, p->geom.end, at - 1, end);
      at = p->geom.end + 1;
      if (p->num < 0 || (p->num == 0 && strcmp (d->type->name, "loop") && !(p->type == PED_PARTITION_EXTENDED && !strcmp (d->type->name, "atari")))) mc_fail ("read-number", "%s: a partition at %lld has number %d", d->type->name, p->geom.start, p->num);
      for (int i = 0; i < nn; i++) if (nums[i] == p->num) mc_fail ("read-number-twice", "%s: two partitions have number %d", d->type->name, p->num);
      if (nn < 512) nums[nn++] = p->num;
      if (!l) primaries++;
      if (ped_disk_get_partition (d, p->num) != p) mc_fail ("read-by-number", "%s: partition %d is not found by its number", d->type->name, p->num);
    }
  }
  mc_count ("tables that can be read", 1);
  ped_disk_get_last_partition_num (d); ped_disk_get_primary_partition_count (d); ped_disk_get_max_primary_partition_count (d);
  int mx; ped_disk_get_max_supported_partition_count (d, &mx);
  for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) if (ped_partition_is_active (p)) {
    char *q = ped_partition_get_path (p); free (q);
    PedConstraint *c = ped_constraint_any (d->dev); PedGeometry *g = ped_disk_get_max_partition_geometry (d, p, c);
    if (g) ped_geometry_destroy (g);
    ped_constraint_destroy (c);
  }
}
static void use (const WCfg *c, int ans)
{
  mc_ans = ans; lenient = ans == ANS_IGNORE;
  if (mc_verbose) fprintf (stderr, "  answer %d, value %d\n", ans, curk);
  PedDevice *dev = mc_device_keep (&c->g);
  mc_io_reset ();
  mc_exc_bug = 0;
  PedDiskType *t = ped_disk_probe (dev);
  if (mc_nwrite) mc_fail ("probe-writes", "probing wrote to the device");
  PedDisk *d = ped_disk_new (dev);
  if (mc_nwrite && ans == ANS_DECLINE) mc_fail ("read-writes", "reading a %s table wrote to the device without asking", t ? t->name : "?");
  if (mc_exc_bug) mc_fail ("read-bug", "%s", mc_exc_msg);
  mc_count ("evaluations", 1);
  if (!d) { if (t && ans == ANS_DECLINE && !mc_nexc) mc_fail ("read-silent", "the %s table cannot be read and nobody says why", t->name); return; }
  if (mc_nexc) mc_count ("readable after an answer", 1);
  if (!t) mc_fail ("read-unprobed", "a table was read although no label was found");
  walk (d);
  bool opened = ped_device_open (dev);
  PedDisk *e = ped_disk_duplicate (d);
  if (e) { walk (e); if (ans != ANS_IGNORE) ped_disk_commit_to_dev (e); ped_disk_destroy (e); }
  /* edit the table and write it */
  mc_ans = ANS_DECLINE; lenient = true;
  PedPartition *p = w_nth (d, 0);
  if (p && !ped_partition_is_busy (p)) ped_disk_delete_partition (d, p);
  ped_disk_commit_to_dev (d);
  walk (d);
  ped_disk_delete_all (d); ped_disk_commit_to_dev (d);
  ped_disk_destroy (d);
  if (opened) ped_device_close (dev);
}
static void prep (const WCfg *c, const McImage *im)
{
  static long long last; if (last != c->g.ss) { mc_device (&c->g); last = c->g.ss; }
  mc_image_load (im); ss = c->g.ss;
}
static void all_ways (const WCfg *c, const McImage *im, void (*damage) (const WCfg *, int), int k, uint64_t *seen, int *nseen, int max)
{
  static const char *sums[] = { "gpt", "sun", "bsd", "dvh", "amiga", NULL };
  bool has = false; for (int i = 0; sums[i]; i++) has |= !strcmp (sums[i], c->label);
  curk = k;
  for (int fix = has ? 0 : 1; fix < 2; fix++) {
    prep (c, im);
    damage (c, k);
    if (fix && has) repair (c);
    uint64_t h = mc_store_hash (); bool dup = false;
    for (int i = 0; i < *nseen; i++) if (seen[i] == h) { dup = true; break; }
    if (dup) continue;
    if (*nseen < max) seen[(*nseen)++] = h;
    mc_nontrivial (h);
    McImage *dm = mc_image_save ();
    for (int a = 0; a < 3; a++) {
      static const int as[] = { ANS_DECLINE, ANS_IGNORE, ANS_REPAIR };
      mc_nexc = 0;
      if (a) { prep (c, dm); }
      int n0 = mc_nexc;
      use (c, as[a]);
      if (a == 0 && mc_nexc == n0) break;     /* nobody asked anything: the other answers change nothing */
    }
    mc_image_free (dm);
  }
}

static long cur;
/* the fields of a label have one byte order: 0 little-endian, 1 big-endian */
static int order (const char *l)
{ return strcmp (l, "sun") && strcmp (l, "mac") && strcmp (l, "dvh") && strcmp (l, "amiga") && strcmp (l, "atari") && strcmp (l, "aix") ? 0 : 1;
}
static int be;
static int nvals (int w) { return mc_thorough ? w == 1 ? 10 : w == 2 ? 6 : w == 4 ? 18 : 6 : w == 1 ? 4 : w == 2 ? 3 : w == 4 ? 11 : 4; }
static void set_val (uint8_t *p, int w, int k, long long len)
{
  static const uint8_t v1[] = { 0, 0xff, 1, 0x7f, 2, 0x80 };
  if (w == 1) { if (k == 2) *p ^= 0x80; else if (k == 3) (*p)++; else if (k < 2) *p = v1[k]; else if (k < 8) *p = v1[k - 2]; else if (k == 8) (*p)--; else *p ^= 0x55; return; }
  uint64_t old = 0, v = 0;
  for (int i = 0; i < w; i++) old |= (uint64_t) p[be ? w - 1 - i : i] << 8 * i;
  if (w == 2) { uint64_t t[] = { 0, 0xffff, 0x8000, 1, 0x7fff, old + 1 }; v = t[k]; }
  else if (w == 4) { uint64_t t[] = { 0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, len, old + 1, old - 1, 0x10000, 0x8000000, len - 1, len + 1, old * 2, 0x7f, 0xfffffffe, 256, old / 2 }; v = t[k]; }
  else { uint64_t t[] = { 0, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 1ull << 32, old + 1 }; v = t[k]; }
  for (int i = 0; i < w; i++) p[be ? w - 1 - i : i] = v >> 8 * i;
}
static const int pv[] = { 0, 2, 3, 5, 6, 7, 10 };   /* 4-byte values for the second field of a pair */
static int npv (void) { return mc_thorough ? 7 : 3; }
static void damage (const WCfg *c, int k)
{
  static uint8_t b[8192];
  int nv = nvals (pt[cur].width), k2 = k / nv;
  mc_store_read (pt[cur].sec, b); set_val (b + pt[cur].off, pt[cur].width, k % nv, c->g.length); 
  mc_store_write (pt[cur].sec, b);
  if (pt[cur].sec2i >= 0) {
    PedSector s2 = pt[cur].sec2i; mc_store_read (s2, b); set_val (b + pt[cur].off2, 4, pv[k2], c->g.length); mc_store_write (s2, b);
  }
}
static void run (long i)
{
  cur = i; static uint64_t seen[600]; int nseen = 0;
  const WCfg *c = img[pt[i].img].c;
  int nk = nvals (pt[i].width); if (pt[i].sec2i >= 0) nk *= npv ();
  be = order (c->label);
  for (int k = 0; k < nk; k++) all_ways (c, img[pt[i].img].im, damage, k, seen, &nseen, 600);
  if (i % 997 == 3) mc_sample ("%s: sector %lld, %d bytes at %d", img[pt[i].img].name, pt[i].sec, pt[i].width, pt[i].off);
}
static void describe (long i, FILE *f)
{
  fprintf (f, "%s, values of %d bytes at offset %d of sector %lld", img[pt[i].img].name, pt[i].width, pt[i].off, pt[i].sec);
  if (pt[i].sec2i >= 0) fprintf (f, " together with 4 bytes at offset %d of sector %d", pt[i].off2, pt[i].sec2i);
}

/* ---------- images ---------- */
static void add (PedDisk *d, int type, PedSector s, PedSector e, const char *fs, const char *name)
{
  PedPartition *p = ped_partition_new (d, type, fs ? ped_file_system_type_get (fs) : NULL, s, e); if (!p) return;
  PedConstraint *c = ped_constraint_any (d->dev);
  if (!ped_disk_add_partition (d, p, c)) { ped_partition_destroy (p); ped_constraint_destroy (c); return; }
  ped_constraint_destroy (c);
  ped_partition_set_system (p, p->fs_type);
  if (name && ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_NAME)) ped_partition_set_name (p, name);
}
static void make_image (const WCfg *c, int variant)
{
  PedDevice *dev = mc_device (&c->g); mc_ans = ANS_IGNORE;
  PedDisk *d;
  if (c->made) { w_made (c->made, &c->g); d = ped_disk_new (dev); }
  else d = ped_disk_new_fresh (dev, ped_disk_type_get (c->label));
  if (!d) { fprintf (stderr, "no %s\n", c->name); exit (3); }
  if (ped_disk_is_flag_available (d, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag (d, PED_DISK_CYLINDER_ALIGNMENT, 0);
  const long long *g = c->grid; bool ext = ped_disk_type_check_feature (d->type, PED_DISK_TYPE_EXTENDED);
  if (variant && c->ng >= 5) {
    int n = c->ng;
    if (!strcmp (c->label, "dvh")) { add (d, 0, 4096, 5000, "ext2", NULL); add (d, 0, 6001, 7000, "xfs", NULL); add (d, 1, 100, 300, NULL, "boot"); add (d, 1, 400, 700, NULL, "sash"); }
    else if (ext) {
      add (d, 0, g[0], g[1] - 1, "fat16", NULL); add (d, 2, g[1], g[n - 2] - 1, NULL, NULL);
      if (variant == 1) { add (d, 1, g[1] + 3, g[2] + 10, "ext2", NULL); add (d, 1, g[3], g[n - 3] - 2, "linux-swap(v1)", NULL); add (d, 1, g[n - 3] + 3, g[n - 2] - 1, NULL, NULL); }
      add (d, 0, g[n - 2], g[n - 1], NULL, NULL);
    } else { add (d, 0, g[0], g[1] - 1, "ext2", "one"); add (d, 0, g[2], g[3] - 1, "fat32", "two"); if (variant == 1) add (d, 0, g[n - 2], g[n - 1], "linux-swap(v1)", "three"); }
    PedPartition *p = w_nth (d, 0);
    if (p) for (PedPartitionFlag f = 1; f < 20; f++) if (ped_partition_is_flag_available (p, f) && (f == PED_PARTITION_BOOT || f == PED_PARTITION_RAID)) ped_partition_set_flag (p, f, 1);
  }
  if (!ped_disk_commit_to_dev (d)) { fprintf (stderr, "no %s: %s\n", c->name, mc_exc_msg); exit (3); }
  ped_disk_destroy (d);
  img[nimg].c = c; img[nimg].im = mc_image_save (); img[nimg].variant = variant;
  snprintf (img[nimg].name, 60, "%s %s", c->name, variant == 0 ? "(empty)" : variant == 1 ? "(full)" : "(half)");
  nimg++;
}
static void point (int im, PedSector s, int off, int w) { if (npt < MAXPTS) { pt[npt].img = im; pt[npt].sec = s; pt[npt].off = off; pt[npt].width = w; pt[npt].sec2i = -1; npt++; } else { fprintf (stderr, "too many\n"); exit (3); } }
static void points (int im)
{
  McImage *m = img[im].im; const char *l = img[im].c->label; long long sz = img[im].c->g.ss;
  bool gpt = !strcmp (l, "gpt"); be = order (l);
  PedSector hot[40]; int hoff[40], nh = 0;
  for (int i = 0; i < m->n; i++) {
    uint8_t *d = m->data + i * sz; PedSector s = m->sec[i]; int last = -1; bool any = false;
    for (int k = 0; k < sz; k++) if (d[k]) any = true;
    long long len = img[im].c->g.length;
    bool hdr = gpt && (s == 1 || s == len - 1), array = gpt && s > 1 && !hdr;
    if (!any && s) continue;
    if (array && s != 2 && s >= len / 2 && !mc_thorough) continue;     /* backup array: thorough only */
    (void) last;
    if (!mc_thorough) {
      if (!strcmp (l, "mac") && s > (sz > 512 ? 2 : 4)) continue;
      if (gpt && (array || s == 0) && strcmp (img[im].name, "gpt-512 (full)")) continue;                  /* the entries and the pmbr of one image */
    }
    for (int k = 0; k < sz; k++) {
      /* where a field can be: near contents, or in the first 512 bytes */
      bool near = k < 512; if (sz > 512) { near = false; for (int x = k - 16; x < k + 16; x++) if (x >= 0 && x < sz && d[x]) near = true; }
      if (hdr && k >= 96) near = false;
      if (array && k >= 384 + 128) near = false;
      if (!strcmp (l, "msdos") && k < 440 && !mc_thorough) near = k < 8 || (k >= 54 && k < 62) || (k >= 82 && k < 90);
      if (!strcmp (l, "atari") && s == 0 && k < 440) near = k < 4;
      if (!strcmp (l, "loop") && k >= 16) near = false;
      if (!near) continue;
      if (!mc_thorough && sz == 512 && (!strcmp (l, "mac") || !strcmp (l, "amiga") || !strcmp (l, "atari") || !strcmp (l, "pc98") || !strcmp (l, "dvh"))) {
        near = false; for (int x = k - 8; x < k + 8; x++) if (x >= 0 && x < sz && d[x]) near = true;
        if (!near) continue;
      }
      point (im, s, k, 1);
      if (k % 2 == 0 && k + 2 <= sz) point (im, s, k, 2);
      bool natural = be || gpt || !strcmp (l, "bsd") || !strcmp (l, "pc98");
      if (k % (natural && !mc_thorough ? 4 : 2) == 0 && k + 4 <= sz) { point (im, s, k, 4);
        if (k % 4 == 0 && nh < 40 && s < 2 && (d[k] || d[k + 1] || d[k + 2] || d[k + 3]) ) { hot[nh] = s; hoff[nh++] = k; } }
      if (gpt && k % 8 == 0 && k + 8 <= sz) point (im, s, k, 8);
    }
  }
  /* pairs of fields that hold something */
  if (mc_thorough || img[im].variant == 1) for (int a = 0; a < nh; a++) for (int b = 0; b < nh; b++) if (a != b) {
    if (!mc_thorough && (a + b) % 3) continue;
    point (im, hot[a], hoff[a], 4); pt[npt - 1].sec2i = hot[b]; pt[npt - 1].off2 = hoff[b]; }
}
void mc_setup (int, char **);
int main (int argc, char **argv)
{
  mc_setup (argc, argv);
  pt = calloc (MAXPTS, sizeof *pt);
  for (int i = 0; i < w_ncfgs; i++) {
    const WCfg *c = &w_cfgs[i];
    if (c->g.length > 10000) continue;
    if (*mc_opt && strcmp (mc_opt, c->label)) continue;
    if (strcmp (c->label, "loop") == 0) { make_image (c, 0); continue; }
    make_image (c, 1);
    if (c->g.ss == 512 && !c->made && (mc_thorough || !strcmp (c->label, "amiga") || !strcmp (c->label, "dvh"))) make_image (c, 0);
    if (mc_thorough) make_image (c, 2);
  }
  for (int i = 0; i < nimg; i++) { long n = npt; points (i); if (getenv ("MC_PROGRESS")) fprintf (stderr, "%s: %d sectors, %ld points\n", img[i].name, img[i].im->n, npt - n); }
  McSweep s = { "P08", npt, run, describe };
  return mc_sweep (&s, argc, argv);
}
