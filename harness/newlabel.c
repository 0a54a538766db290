/* P16: a new label takes the place of whatever was there.  Prior contents of
   every kind; every label made over them; every crash and failing operation on
   the way; clobbering. */
#include <config.h>
#include "mc.h"
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#define L long long
#include "fsimg.h"
#define N(a) ((int) (sizeof (a) / sizeof *(a)))
static char late_key[60], late_msg[1200], known_key[60];
static void late (const char *k, const char *f, ...) { if (mc_is_known (k)) { snprintf (known_key, sizeof known_key, "%s", k); return; } if (*late_key) return; va_list a; va_start (a, f); snprintf (late_key, sizeof late_key, "%s", k); vsnprintf (late_msg, sizeof late_msg, f, a); va_end (a); }

static const McGeom geoms[] = {
  { .length = 8192, .ss = 512, .phys = 512, .heads = 4, .sects = 8 },
  { .length = 8192, .ss = 512, .phys = 4096, .heads = 16, .sects = 63, .align_min = 8, .align_opt = 2048 },
  { .length = 4096, .ss = 2048, .phys = 2048, .heads = 4, .sects = 8 },
  { .length = 3000, .ss = 4096, .phys = 4096, .heads = 4, .sects = 8 },
  { .length = 6000, .ss = 1024, .phys = 1024, .heads = 4, .sects = 8 },
  { .length = 0x280000000LL, .ss = 512, .phys = 512, .heads = 255, .sects = 63 },
  { .length = 300, .ss = 512, .phys = 512, .heads = 4, .sects = 8 },
  { .length = 40, .ss = 512, .phys = 512, .heads = 1, .sects = 4 },
};
#define NG N (geoms)
static const char *const labels[] = { "amiga", "bsd", "dvh", "gpt", "mac", "msdos", "pc98", "sun", "atari", "loop" };
#define NL N (labels)
static int gi; static McGeom G;
static PedDevice *dev;
static void on (int g) { gi = g; G = mc_geom = geoms[g]; dev = mc_device (&G); }
static void quiet_io (void) { mc_fail_io = 0; mc_fail_sticky = 0; mc_fail_mask = 7; mc_io_reset (); }

/* ---- prior contents ---- */
typedef struct { char name[90]; McImage *im; int g, label, parts; uint64_t h; } Old;
static Old *old; static int nold;
static void keep (int label, int parts, const char *f, ...)
{
  uint64_t h = mc_store_hash (); for (int i = 0; i < nold; i++) if (old[i].g == gi && old[i].h == h) return;
  if (!old) old = calloc (8192, sizeof *old);
  if (nold == 8192) return;
  Old *o = &old[nold++]; va_list a; va_start (a, f); vsnprintf (o->name, sizeof o->name, f, a); va_end (a); o->im = mc_image_save (); o->g = gi; o->label = label; o->parts = parts; o->h = h;
}
static void put (PedDisk *d, int type, PedSector s, PedSector e)
{
  PedPartition *p = ped_partition_new (d, type, NULL, s, e); if (!p) return;
  PedConstraint *c = ped_constraint_any (d->dev); if (!ped_disk_add_partition (d, p, c)) ped_partition_destroy (p); ped_constraint_destroy (c);
}
/* a label made by the library on an otherwise blank device */
static int lib (int l, int parts)
{
  mc_ans = ANS_IGNORE; quiet_io ();
  PedDisk *d = ped_disk_new_fresh (dev, ped_disk_type_get (labels[l])); if (!d) return 0;
  if (ped_disk_is_flag_available (d, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag (d, PED_DISK_CYLINDER_ALIGNMENT, 0);
  if (parts) {
    L n = dev->length; bool x = ped_disk_type_check_feature (d->type, PED_DISK_TYPE_EXTENDED); L a = n / 8 > 4096 && !strcmp (labels[l], "dvh") ? 4100 : n / 8;
    put (d, 0, a, n / 4 - 1);
    if (x && strcmp (labels[l], "dvh")) { put (d, 2, n / 2, n / 4 * 3); put (d, 1, n / 2 + n / 16, n / 2 + n / 8 - 1); put (d, 1, n / 8 * 5 + 3, n / 4 * 3); }
    else put (d, 0, n / 2, n / 4 * 3);
  }
  int k = 0; for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) k += ped_partition_is_active (p);
  int r = ped_disk_commit_to_dev (d); ped_disk_destroy (d); return r ? 1 + k : 0;
}
static void be32 (uint8_t *p, uint32_t v) { be (p, 4, v); }
static void rdb (L block)
{
  uint8_t b[16384]; memset (b, 0, sizeof b); memcpy (b, "RDSK", 4); be32 (b + 4, 64); be32 (b + 12, 7); be32 (b + 16, 512); for (int i = 6; i < 16; i++) be32 (b + i * 4, ~0u);
  be32 (b + 64, G.length / G.heads / G.sects); be32 (b + 68, G.sects); be32 (b + 72, G.heads); be32 (b + 132, G.sects * G.heads * 2); be32 (b + 128 + 8, 2); be32 (b + 128 + 12, G.length / G.heads / G.sects - 1); be32 (b + 144, G.sects * G.heads);
  uint32_t t = 0; for (int i = 0; i < 64; i++) t += (uint32_t) b[i * 4] << 24 | b[i * 4 + 1] << 16 | b[i * 4 + 2] << 8 | b[i * 4 + 3]; be32 (b + 8, -t);
  mc_store_write (block, b);
}
static void overlay (const McImage *a) { for (int i = 0; i < a->n; i++) { const uint8_t *d = a->data + (size_t) i * a->ss; bool any = false; for (int k = 0; k < a->ss; k++) any |= d[k] != 0; if (any) mc_store_write (a->sec[i], d); } }
static void contents (int g)
{
  on (g); int first = nold; uint8_t *b = malloc (G.ss);
  mc_store_clear (); keep (-1, 0, "blank");
  for (int l = 0; l < NL; l++) for (int p = 0; p < 2; p++) { dev = mc_device (&G); int r = lib (l, p); if (r) keep (l, r - 1, "%s%s", labels[l], p ? " with partitions" : ""); }
  int nlib = nold;
  /* every byte set */
  static const uint8_t fill[] = { 0xff, 0x55, 0xaa, 0x01 };
  for (int f = 0; f < 4; f++) { mc_device (&G); memset (b, fill[f], G.ss); for (L s = 0; s < 80 && s < G.length / 2; s++) { mc_store_write (s, b); mc_store_write (G.length - 1 - s, b); } keep (-1, 0, "%02x everywhere", fill[f]); }
  /* an Amiga disk whose first block is elsewhere */
  for (L k = 0; k < 16 && k < G.length; k++) { mc_device (&G); rdb (k); keep (-1, 0, "amiga block at %lld", k); }
  mc_device (&G); for (L k = 0; k < 16 && k < G.length; k++) rdb (k); keep (-1, 0, "amiga blocks in all places");
  /* AIX */
  mc_device (&G); memset (b, 0, G.ss); be32 (b, 0xc9c2d4c1); mc_store_write (0, b); keep (-1, 0, "aix");
  /* partial, moved and mixed GPTs */
  int gp = -1; for (int i = first; i < nlib; i++) if (old[i].label == 3 && old[i].parts) gp = i;
  if (gp >= 0) {
    McImage *im = old[gp].im;
    for (int v = 0; v < 5; v++) {
      mc_device (&G); for (int i = 0; i < im->n; i++) { L s = im->sec[i]; bool in = v == 0 ? s < G.length / 2 : v == 1 ? s >= G.length / 2 : v == 2 ? s > 0 : v == 3 ? s >= G.length / 2 || s == 0 : s == 1 || s == G.length - 1; if (in) mc_store_write (s, im->data + (size_t) i * im->ss); }
      static const char *const nm[] = { "gpt without its backup", "backup of a gpt alone", "gpt without its protective mbr", "backup of a gpt and protective mbr", "gpt headers alone" }; keep (-1, 0, "%s", nm[v]);
    }
    mc_image_load (im); memset (b, 0, G.ss); le (b + 446 + 8, 4, 2); le (b + 446 + 12, 4, 20); b[446 + 4] = 0x83; b[510] = 0x55; b[511] = 0xaa; mc_store_write (0, b); keep (-1, 0, "gpt with an msdos table in front");
  }
  /* another device's label, copied: shorter devices, other sector sizes */
  static const int oss[] = { 512, 1024, 2048, 4096 };
  for (int l = 0; l < NL; l++) for (int v = 0; v < 6; v++) {
    McGeom h = G; int s2 = v < 4 ? oss[v] : G.ss; if (v < 4 && s2 == G.ss) continue; if (G.length > 100000 && v < 4) continue;
    h.ss = h.phys = s2; h.length = v == 4 ? G.length - G.length / 7 : v == 5 ? G.length / 2 : G.length * G.ss / s2; h.align_min = h.align_opt = 0; if (h.length < 4) continue;
    mc_geom = G = h; dev = mc_device (&h); int r = lib (l, 1); McImage *im = mc_image_save (); G = mc_geom = geoms[g]; dev = mc_device (&G); if (!r) { mc_image_free (im); continue; }
    for (int i = 0; i < im->n; i++) pb (im->sec[i] * s2, im->data + (size_t) i * s2, s2);
    keep (-1, 0, "%s of a device of %lld sectors of %d bytes", labels[l], h.length, s2); mc_image_free (im);
  }
  /* two labels, one over the other */
  for (int i = first; i < nlib; i++) for (int j = first; j < nlib; j++) if (i != j && old[i].label >= 0 && old[j].label >= 0 && old[i].label != old[j].label && old[i].parts && old[j].parts) { mc_device (&G); overlay (old[i].im); overlay (old[j].im); keep (-1, 0, "%s, over it %s", old[i].name, old[j].name); }
  /* file systems */
  for (int k = 0; k < NFSIMG; k++) { mc_device (&G); if (fsi_put (k, 0, G.length)) keep (-1, 0, "%s", fsimg[k].name); }
  for (int i = first; i < nlib; i++) if (old[i].parts && old[i].label != 9) { static const int ks[] = { 4, 10, 20, 26, 22, 39 }; for (int k = 0; k < N (ks); k++) { mc_device (&G); if (!fsi_put (ks[k], 0, G.length)) continue; overlay (old[i].im); keep (-1, 0, "%s, over %s", old[i].name, fsimg[ks[k]].name); } }
  free (b);
}
/* ---- what the device is now ---- */
static const char *seen (void) { PedDiskType *t = ped_disk_probe (dev); return t ? t->name : "nothing"; }
static bool claims (const char *l) { PedDiskType *t = ped_disk_type_get (l); if (!t) return false; if (!ped_device_open (dev)) return false; bool r = t->ops->probe (dev); ped_device_close (dev); return r; }
#define W "%s, then a new %s label on %lld sectors of %lld bytes%s: "
#define WA(o, l, x) old[o].name, labels[l], (L) G.length, (L) G.ss, x
/* the device holds a complete and empty label L */
static void is_new (int o, int l, const char *when)
{
  mc_ans = ANS_CANCEL; mc_io_reset (); mc_nexc = 0; mc_exc_bug = 0;
  dev = mc_device_keep (&G);
  const char *s = seen (); if (strcmp (s, labels[l])) { char k[50]; snprintf (k, 50, "identity:%s:%s%s", labels[l], s, G.ss == 512 ? "" : ":large-sectors"); late (k, W "it identifies as %s", WA (o, l, when), s); return; }
  mc_nexc = 0; PedDisk *d = ped_disk_new (dev);
  if (!d) { late ("unreadable", W "it cannot be read: %s", WA (o, l, when), mc_exc_msg); return; }
  if (mc_nexc && (strcmp (labels[l], "amiga") || G.length > 275)) late ("complaint", W "reading it reports: %s", WA (o, l, when), mc_exc_msg);
  int k = 0; for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) k += ped_partition_is_active (p);
  int own = !strcmp (labels[l], "mac") || !strcmp (labels[l], "dvh") || !strcmp (labels[l], "loop");
  if (!strcmp (labels[l], "loop") ? k > 1 : k != own) late ("partitions", W "it has %d partitions", WA (o, l, when), k);
  if (strcmp (labels[l], "loop") || old[o].label >= 0) for (PedDiskType *t = NULL; (t = ped_disk_type_get_next (t)); ) if (strcmp (t->name, labels[l]) && claims (t->name) && strcmp (t->name, "loop")) { char key[50]; snprintf (key, 50, "also:%s:%s", labels[l], t->name); late (key, W "the %s reader finds its label too", WA (o, l, when), t->name); }
  if (mc_nwrite) late ("probe-writes", W "reading it writes", WA (o, l, when));
  ped_disk_destroy (d);
}
/* something acceptable while the new label is not complete: nothing, the old label with no more than it had, or the new one, empty */
static void is_partial (int o, int l, const char *before, int nbefore, const char *when)
{
  mc_ans = ANS_CANCEL; mc_io_reset ();
  dev = mc_device_keep (&G);
  const char *s = seen (); bool isnew = !strcmp (s, labels[l]) || (!strcmp (labels[l], "pc98") && G.ss != 512 && !strcmp (s, "msdos")), isold = !strcmp (s, before);
  if (!isnew && !isold && strcmp (s, "nothing") && strcmp (s, "loop")) { char k[50]; snprintf (k, 50, "partial:%s:%s", labels[l], s); late (k, W "it identifies as %s, and was %s before", WA (o, l, when), s, before); return; }
  PedDisk *d = ped_disk_new (dev); if (!d) return;
  int k = 0; for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) k += ped_partition_is_active (p);
  if (isold ? nbefore >= 0 && k > nbefore && !isnew : isnew && k > (!strcmp (labels[l], "mac") || !strcmp (labels[l], "dvh") || !strcmp (labels[l], "loop"))) late ("partial-partitions", W "it has %d partitions, and had %d before", WA (o, l, when), k, nbefore);
  ped_disk_destroy (d);
}
static int commit_new (int l)
{
  mc_ans = ANS_CANCEL; PedDisk *d = ped_disk_new_fresh (dev, ped_disk_type_get (labels[l])); if (!d) return -1;
  int r = ped_disk_commit_to_dev (d); ped_disk_destroy (d); return r;
}
/* what is recognised before */
static const char *was (int *n)
{
  mc_ans = ANS_CANCEL; dev = mc_device_keep (&G); const char *s = seen (); *n = -1; PedDisk *d = ped_disk_new (dev);
  if (d) { *n = 0; for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) *n += ped_partition_is_active (p); ped_disk_destroy (d); }
  return s;
}
static void run (long i)
{
  int o = i / (NL + 1), l = i % (NL + 1); *late_key = *known_key = 0;
  G = mc_geom = geoms[gi = old[o].g]; quiet_io (); dev = mc_device (&G); mc_image_load (old[o].im);
  mc_count ("devices", 1);
  if (l == NL) {                                               /* clobbering */
    mc_ans = ANS_CANCEL; mc_nexc = 0; if (!ped_disk_clobber (dev)) late ("clobber", "%s on %lld sectors of %lld bytes: clobbering fails: %s", old[o].name, (L) G.length, (L) G.ss, mc_exc_msg);
    dev = mc_device_keep (&G);
    for (PedDiskType *t = NULL; (t = ped_disk_type_get_next (t)); ) if (strcmp (t->name, "loop") && claims (t->name)) { char k[50]; snprintf (k, 50, "clobbered:%s", t->name); late (k, "%s on %lld sectors of %lld bytes, clobbered: the %s reader still finds a label", old[o].name, (L) G.length, (L) G.ss, t->name); }
    mc_nontrivial (mc_store_hash () * 31 + o);
  } else {
    int nb; const char *b = was (&nb);
    mc_io_reset (); int r = commit_new (l);
    if (r < 0) { if (mc_nexc == 0) late ("silent", W "refused without a word", WA (o, l, "")); mc_count ("labels this device cannot have", 1); goto out; }
    if (!r) { late ("fails", W "writing it fails: %s", WA (o, l, ""), mc_exc_msg); goto out; }
    long io = mc_io; int nl = mc_nlog; McLog *lg = malloc ((nl + 1) * sizeof *lg); memcpy (lg, mc_log, nl * sizeof *lg); size_t bytes = nl ? 0 : 0; for (int k = 0; k < nl; k++) if (lg[k].kind == 0 && lg[k].off + lg[k].count * G.ss > bytes) bytes = lg[k].off + lg[k].count * G.ss;
    uint8_t *ld = malloc (bytes + 1); memcpy (ld, mc_logdata, bytes);
    mc_nontrivial (mc_store_hash () * 131 + o * 16 + l);
    is_new (o, l, "");
    /* once more, and another one over it, and back */
    McImage *after = mc_image_save ();
    if (!*late_key && (mc_thorough || o % 3 == 0)) for (int m = 0; m < NL && !*late_key; m++) { mc_image_load (after); dev = mc_device_keep (&G); if (commit_new (m) > 0) { char w[60]; snprintf (w, 60, " (over another new label, %s)", labels[l]); is_new (o, m, w); } mc_count ("labels over labels", 1); }
    /* the machine stops after any number of sectors were written */
    if (!*late_key && (mc_thorough || nl < 60 || o % 2 == 0)) {
      mc_image_load (old[o].im); int done = 0;
      for (int k = 0; k < nl && !*late_key; k++) if (lg[k].kind == 0) for (PedSector s = 0; s < lg[k].count && !*late_key; s++) {
        mc_store_write (lg[k].start + s, ld + lg[k].off + s * G.ss); done++;
        if (lg[k].count > 40 && s > 20 && s + 5 < lg[k].count) continue;
        McImage *im = mc_image_save (); char w[60]; snprintf (w, 60, ", stopped after %d sectors", done); is_partial (o, l, b, nb, w); mc_count ("crashes", 1); mc_image_load (im); mc_image_free (im);
      }
    }
    /* every operation fails, once or from then on; then it is tried again */
    if (!*late_key && (mc_thorough || o % 5 == 0)) for (int st = 0; st < 2 && !*late_key; st++) for (long k = 1; k <= io && !*late_key; k += io > 40 && !mc_thorough ? io / 20 : 1) {
      mc_image_load (old[o].im); dev = mc_device_keep (&G); mc_io_reset (); mc_nexc = 0; mc_fail_io = k; mc_fail_sticky = st; int q = commit_new (l); bool fired = mc_fault_fired; quiet_io (); mc_count ("failing operations", 1);
      char w[80]; snprintf (w, 80, ", operation %ld%s fails", k, st ? " and all later" : "");
      if (q > 0) { if (!fired || !st) is_new (o, l, w); }
      else { if (!mc_nexc) late ("silent-failure", W "fails without a word", WA (o, l, w)); is_partial (o, l, b, nb, w); mc_image_load (old[o].im); }
      if (q <= 0 && !*late_key) { mc_io_reset (); mc_fail_io = k; mc_fail_sticky = st; mc_image_load (old[o].im); dev = mc_device_keep (&G); commit_new (l); quiet_io (); dev = mc_device_keep (&G); if (commit_new (l) > 0) { snprintf (w, 80, ", operation %ld failed, tried again", k); is_new (o, l, w); } else late ("retry", W "trying again fails", WA (o, l, w)); }
    }
    mc_image_free (after); free (lg); free (ld);
  }
out:
  quiet_io ();
  if (i % 499 == 7) mc_sample ("%s; %s", old[o].name, l == NL ? "clobbered" : labels[l]);
  if (*late_key) mc_fail (late_key, "%s", late_msg);
  if (*known_key && !strcmp (old[o].name, "blank")) mc_fail (known_key, "%lld sectors of %lld bytes, new pc98 label", (L) G.length, (L) G.ss);
}
static void describe (long i, FILE *f) { int o = i / (NL + 1), l = i % (NL + 1); fprintf (f, "%lld sectors of %lld bytes with %s; %s%s", (L) geoms[old[o].g].length, (L) geoms[old[o].g].ss, old[o].name, l == NL ? "clobbered" : "new label ", l == NL ? "" : labels[l]); }
void mc_setup (int, char **);
int main (int argc, char **argv)
{
  mc_setup (argc, argv);
  for (int g = 0; g < NG; g++) contents (g);
  if (getenv ("MC_PROGRESS")) fprintf (stderr, "%d contents\n", nold);
  McSweep s = { .prop = "P16", .n = (long) nold * (NL + 1), .run = run, .describe = describe };
  return mc_sweep (&s, argc, argv);
}
