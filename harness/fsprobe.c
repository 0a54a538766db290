/* P23: what file system a region holds.  File systems laid out by fsimg.h at
   every place, size and sector size; leftovers of one under another; every
   field of every superblock damaged; regions cut short; failing reads. */
#include <config.h>
#include "mc.h"
#include <stdarg.h>
#include <stdio.h>
#define L long long
#include "fsimg.h"
#define N(a) ((int) (sizeof (a) / sizeof *(a)))
static const char *cur; static char late_key[40], late_msg[700];
static void late (const char *k, const char *f, ...) { char kk[40]; snprintf (kk, 40, "%s%s%s", k, cur ? ":" : "", cur ? cur : ""); if (mc_is_known (kk) || *late_key) return; va_list a; va_start (a, f); snprintf (late_key, 40, "%s%s%s", k, cur ? ":" : "", cur ? cur : ""); vsnprintf (late_msg, 700, f, a); va_end (a); }
static const int SS[] = { 512, 1024, 2048, 4096, 8192, 16384 };
static const L LEN[] = { 1, 5, 40, 129, 2048, 4200, 8200, 20480, 66000, 70017, 262144, 531441, 1000007, 8388611, 0x7fffffffLL, 0x80000005LL, 0x100000009LL, 0x200000001LL, 0x1000000000LL };
static const L START[] = { 0, 1, 63, 2048, 0x80000001LL, 0x100000fffLL };
static PedDevice *dev;
static void device (int ss, L length) { McGeom g = { .length = length, .ss = ss, .phys = ss, .heads = 255, .sects = 63 }; mc_geom = g; dev = mc_device (&g); if (!dev || !ped_device_open (dev)) mc_fail ("open", "cannot open the device"); }
static void done (void) { if (dev) { ped_device_close (dev); ped_device_destroy (dev); dev = NULL; } mc_fail_io = 0; mc_fail_sticky = 0; mc_fail_mask = 7; }
static PedFileSystemType *ty (const char *n) { PedFileSystemType *t = n ? ped_file_system_type_get (n) : NULL; if (n && !t) mc_fail ("type", "file system type %s is gone", n); return t; }
static const char *nm (const PedFileSystemType *t) { return t ? t->name : "(none)"; }
static L claim (PedFileSystemType *t, PedGeometry *g, L *start)
{
  ped_exception_fetch_all (); PedGeometry *r = ped_file_system_probe_specific (t, g); if (!r) ped_exception_catch (); ped_exception_leave_all ();
  if (!r) return -1;
  L n = r->length; *start = r->start; if (r->dev != dev || r->start < 0 || r->end != r->start + r->length - 1 || r->length < 1) late ("outside", "%s is said to be at %lld-%lld of a device of %lld sectors", t->name, (L) r->start, (L) r->end, (L) dev->length);
  ped_geometry_destroy (r); return n;
}
static void nowrite (const char *w) { if (mc_nwrite) late ("write", "probing %s wrote to the device", w); }
static bool fills (int k) { int q = fsimg[k].kind; return q == F_ASFS || q == F_AFFS || q == F_NILFS || (q == F_UDF && fsimg[k].b < 0); }
/* ---- detection ---- */
static void detect (int k, int ss, L start, L n)
{
  static const L CUT[] = { 0, 1, 3, 8, 100, -2, -3 };
  for (int c = 0; c < N (CUT); c++) for (int room = 0; room < 2; room++) {
    L m = CUT[c] >= 0 ? n - CUT[c] : CUT[c] == -2 ? n / 2 : n / 10 * 9; if (m < 1 || (room && c > 1)) continue;
    device (ss, start + n + (room ? 1000 : 0)); mc_io_reset ();
    L cov = fsi_put (k, start, m); if (!cov || cov > m) { if (cov > m) abort (); done (); continue; }
    mc_io_reset (); PedGeometry g; ped_geometry_init (&g, dev, start, n); PedFileSystemType *want = ty (fsimg[k].type), *got = ped_file_system_probe (&g); mc_count ("probes", 1);
#define W "%s of %lld sectors of %d bytes at %lld of %lld sectors: "
#define WA fsimg[k].name, m, ss, start, n
    if (fills (k) && m != n) want = got;                           /* parts of it are found from the end of the region */
    if (got != want) late ("detect", W "recognised as %s", WA, nm (got));
    for (PedFileSystemType *t = NULL; (t = ped_file_system_type_get_next (t)); ) {
      L st = -1, l = claim (t, &g, &st);
      if (t == want && l < 0 && want != NULL && got == want && fsimg[k].type && want == ty (fsimg[k].type)) late ("detect", W "not recognised", WA);
      if (t == ty (fsimg[k].type) && l >= 0) {
        bool whole = fsimg[k].kind == F_SWAP ? fsimg[k].a != 1 : fsimg[k].kind == F_UDF || fsimg[k].kind == F_BTRFS || fsimg[k].kind == F_F2FS || fsimg[k].kind >= F_AFFS;
        if (fsimg[k].kind == F_SWAP && fsimg[k].a == 2 && l == n / (4096 / ss) * (4096 / ss)) l = n;
        if (st != start || l != (whole ? n : cov)) late ("extent", W "said to cover %lld sectors at %lld, not %lld", WA, l, st, whole ? n : cov);
      }
      if (t != ty (fsimg[k].type) && l >= 0) late ("other", W "%s claims it too", WA, t->name);
    }
    nowrite (fsimg[k].name); mc_nontrivial (((uint64_t) k << 40) ^ ((uint64_t) ss << 24) ^ ((uint64_t) start * 31 + n * 7 + c * 2 + room));
    done ();
  }
}
/* ---- a leftover A below B ---- */
static void pair (int a, int b, int ss, L n)
{
  static const L start = 2048;
  for (int c = 0; c < 4; c++) {
    L ma = c == 0 ? n / 2 : c == 1 ? n - n / 100 - 5000 : c == 2 ? n / 10 : n; if (ma < 1) continue;
    for (int d = 0; d < 2; d++) {
      L mb = d ? n - 9 : n; device (ss, start + n + 5); L ca = fsi_put (a, start, ma), cb = ca ? fsi_put (b, start, mb) : 0; if (!ca || !cb) { done (); continue; }
      mc_io_reset (); PedGeometry g; ped_geometry_init (&g, dev, start, n); PedFileSystemType *got = ped_file_system_probe (&g), *A = ty (fsimg[a].type), *B = ty (fsimg[b].type); mc_count ("probes", 1);
      L s1, la = A ? claim (A, &g, &s1) : -1, lb = B ? claim (B, &g, &s1) : -1, ea = la < 0 ? -1 : llabs (n - la), eb = lb < 0 ? -1 : llabs (n - lb), min = n / 100 > 4096 ? n / 100 : 4096;
      bool first = fsimg[b].kind == F_FAT || fsimg[b].kind == F_NTFS;
#define PW "%s (%lld sectors) made over %s (%lld sectors) in a region of %lld sectors of %d bytes: "
#define PWA fsimg[b].name, cb, fsimg[a].name, ca, n, ss
      (void) first;
      if (B && lb < 0) { if (!fills (b)) late ("pair-lost", PW "%s is not recognised", PWA, nm (B)); }
      else if (!B) { if (got && got != A) late ("pair-other", PW "recognised as %s", PWA, nm (got)); }
      else if (A == B || la < 0) { if (got != B) late ("pair", PW "recognised as %s", PWA, nm (got)); }
      else if (ea - eb >= min) { if (got != B) late ("pair", PW "recognised as %s although %s fits much better (%lld sectors off, %lld the other)", PWA, nm (got), nm (B), eb, ea); }
      else if (eb - ea >= min) { if (got != A) late ("pair", PW "recognised as %s although %s fits much better", PWA, nm (got), nm (A)); }
      else if (got) late ("pair-guess", PW "recognised as %s although both fit equally well", PWA, nm (got));
      nowrite ("two file systems"); mc_nontrivial (0x5000000000ull + (((uint64_t) a * 64 + b) << 20) + ((uint64_t) ss << 4) + c * 2 + d + (n << 44)); done ();
    }
  }
}
/* ---- damaged superblocks ---- */
static const uint64_t VAL[] = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x00010000, 0x01000000 };
static void probe_all (const char *what, PedGeometry *g)
{
  mc_io_reset (); mc_nexc = 0; mc_exc_bug = 0;
  PedFileSystemType *t = ped_file_system_probe (g); mc_count ("probes", 1);
  if (mc_exc_bug) late ("assert", "probing %s: %s", what, mc_exc_msg);
  if (t) { L s; claim (t, g, &s); }
  nowrite (what); mc_nontrivial (mc_hash (nm (t), strlen (nm (t)), mc_hash (what, strlen (what), 9)));
}
static void damage (int k, int ss, int part)
{
  static const L start = 64, n = 40000; device (ss, start + n + 3);
  if (!fsi_put (k, start, n)) { if (fsimg[k].kind != F_FAT || !fsi_put (k, start, n)) { done (); return; } }
  PedGeometry g; ped_geometry_init (&g, dev, start, n); L o = start * ss + fsimg[k].at; uint8_t old[8], b[8]; char w[120];
  int step = mc_thorough ? 1 : 2; L end = fsimg[k].n; if (end > 512 && !mc_thorough && fsimg[k].kind == F_UDF) end = 4200;
  for (L x = 0; x < end; x += step) {
    if (x % 8 / 2 != part) continue;
    if (fsimg[k].kind == F_UDF && x % 2048 > 8) continue;
    if (fsimg[k].kind == F_UFS && x > 64 && x < 1368) continue;
    gb (o + x, old, 8);
    for (int wd = 1; wd <= 8; wd *= 2) for (int v = 0; v < N (VAL); v++) for (int e = 0; e < (wd > 1 ? 2 : 1); e++) {
      if (wd == 1 && v > 5) continue;
      if (wd == 2 && v > 8) continue;
      if (wd == 8 && (v == 3 || v == 4 || v == 5)) continue;
      uint64_t y = VAL[v]; if (wd == 8 && v >= 6) y = v == 6 ? 0x7fffffffffffffffull : v == 7 ? 0x8000000000000000ull : v == 8 ? ~0ull : VAL[v] << 20 | VAL[v];
      if (e) be (b, wd, y); else le (b, wd, y);
      if (!memcmp (b, old, wd)) continue;
      pb (o + x, b, wd); snprintf (w, sizeof w, "%s, sectors of %d bytes, bytes %lld-%lld of its superblock set to %#llx%s", fsimg[k].name, ss, x, x + wd - 1, (L) y, e ? " (big endian)" : ""); probe_all (w, &g);
      pb (o + x, old, wd);
    }
  }
  done ();
}
/* ---- regions cut short, at the end of the device, and failing reads ---- */
static void cut (int k, int ss)
{
  L full = 40000; char w[120];
  for (L n = 1; n <= 700; n += n < 270 ? 1 : 17) for (int at = 0; at < 2; at++) {
    device (ss, at ? 64 + n : 64 + full); if (!fsi_put (k, 64, at ? n : full) && at == 0) { done (); break; }
    PedGeometry g; ped_geometry_init (&g, dev, 64, n); snprintf (w, sizeof w, "%s, sectors of %d bytes, in a region of %lld sectors%s", fsimg[k].name, ss, n, at ? " at the end of the device" : ""); probe_all (w, &g); done ();
  }
}
static void faults (int k, int ss)
{
  device (ss, 64 + 40000); if (!fsi_put (k, 64, 40000)) { done (); return; }
  PedGeometry g; ped_geometry_init (&g, dev, 64, 40000); mc_io_reset (); PedFileSystemType *t0 = ped_file_system_probe (&g); long n = mc_nread; char w[120];
  for (long i = 1; i <= n; i++) for (int sticky = 0; sticky < 2; sticky++) for (mc_ans = 0; mc_ans <= ANS_UNHANDLED; mc_ans += ANS_UNHANDLED) {
    mc_io_reset (); mc_fail_mask = 1; mc_fail_io = i; mc_fail_sticky = sticky; mc_exc_bug = 0; PedFileSystemType *t = ped_file_system_probe (&g); mc_fail_io = 0; mc_fail_sticky = 0; mc_count ("probes", 1);
    if (t && t != t0) late ("fault", "%s: with failing read %ld it is recognised as %s", fsimg[k].name, i, t->name);
    if (mc_exc_bug) late ("assert", "%s: with failing read %ld: %s", fsimg[k].name, i, mc_exc_msg);
    snprintf (w, sizeof w, "%s with failing read %ld", fsimg[k].name, i); nowrite (w); mc_nontrivial (0x7000000000ull + k * 100000 + ss * 1000 + i * 2 + sticky);
  }
  mc_fail_mask = 7; mc_ans = 0; done ();
}
/* ---- amiga file systems with other block sizes, in a partition of an amiga label ---- */
static void amiga (int k, int spb, int res, int which)
{
  device (512, 63 * 255 * 3); PedDisk *d = ped_disk_new_fresh (dev, ped_disk_type_get ("amiga")); if (!d) mc_fail ("fresh", "no amiga label");
  L cyl = 63 * 255; PedPartition *p[2]; int n = 2;
  for (int i = 0; i < n; i++) { p[i] = ped_partition_new (d, 0, NULL, cyl * (1 + i), cyl * (2 + i) - 1); PedConstraint *c = ped_device_get_constraint (dev); if (!p[i] || !ped_disk_add_partition (d, p[i], c)) mc_fail ("add", "cannot make an amiga partition"); ped_constraint_destroy (c); }
  if (!ped_disk_commit_to_dev (d)) mc_fail ("commit", "cannot commit");
  for (L b = 0; b < 64; b++) {                                   /* other tools' block size and reserved blocks */
    uint8_t s[512]; gb (b * 512, s, 512); if (memcmp (s, "PART", 4)) continue;
    be (s + 0x80 + 4, 4, 128); be (s + 0x80 + 16, 4, spb); be (s + 0x80 + 24, 4, res); be (s + 8, 4, 0); uint32_t sum = 0; for (int i = 0; i < 64; i++) sum += (uint32_t) s[4 * i] << 24 | s[4 * i + 1] << 16 | s[4 * i + 2] << 8 | s[4 * i + 3]; be (s + 8, 4, -sum); pb (b * 512, s, 512);
  }
  PedGeometry g = p[which]->geom; g.dev = dev; fsi_amiga_spb = spb; fsi_amiga_res = res ? res : fsimg[k].kind == F_AFFS ? 1 : 0; L cov = spb > 0 && spb <= 8 ? fsi_put (k, g.start, g.length) : 0; fsi_amiga_spb = 1; fsi_amiga_res = 2; 
  char w[100]; snprintf (w, 100, "%s, %d sectors per block, %d reserved, amiga partition %d", fsimg[k].name, spb, res, which + 1);
  mc_io_reset (); mc_exc_bug = 0; PedFileSystemType *t = ped_file_system_probe (&g); mc_count ("probes", 1); if (cov && t != ty (fsimg[k].type)) late ("amiga", "%s: recognised as %s", w, nm (t)); if (mc_exc_bug) late ("assert", "%s: %s", w, mc_exc_msg); nowrite (w);
  mc_nontrivial (0x8000000000ull + k * 100000 + spb * 100 + res * 2 + which);
  /* every field of the partition block */
  if (which == 0) for (L b = 0; b < 32; b++) { uint8_t s[512], z[512]; gb (b * 512, s, 512); if (memcmp (s, "PART", 4) && memcmp (s, "RDSK", 4)) continue;
    for (int x = 0; x < 256; x += 4) for (int v = 0; v < 12; v++) for (int sz = 0; sz < 2; sz++) { memcpy (z, s, 512); be (z + x, 4, VAL[v]); if (sz && s[0] == 'P') be (z + 0x84, 4, v & 1 ? 0x40000000 : 0); be (z + 8, 4, 0); uint32_t sum = 0; int lg = z[7] < 128 ? z[7] : 127; for (int i = 0; i < lg; i++) sum += (uint32_t) z[4 * i] << 24 | z[4 * i + 1] << 16 | z[4 * i + 2] << 8 | z[4 * i + 3]; be (z + 8, 4, -sum); pb (b * 512, z, 512); char ww[160]; snprintf (ww, 160, "%s; word %d of block %lld set to %#llx", w, x / 4, b, (L) VAL[v]); probe_all (ww, &g); }
    pb (b * 512, s, 512); }
  ped_disk_destroy (d); done ();
}
/* ---- an ext file system found from a copy of its superblock ---- */
static void backup (int bs, int grp, int ss, int bad)
{
  L start = 5000 * 1024 / ss, blocks = (L) bs * 8 * 5 + 100, first = bs == 1024; device (ss, start + blocks * bs / ss + 4096);
  int k = bs == 1024 ? 8 : bs == 2048 ? 10 : 13; L cov = fsi_put (k, start, blocks * bs / ss); if (!cov) { done (); return; }
  uint8_t b[1024]; gb (start * ss + 1024, b, 1024); le (b + 90, 2, grp); if (bad == 2) { le (b + 32, 4, 0); le (b + 20, 4, 0); } if (bad == 3) le (b + 32, 4, 0xffffffff);
  L pos = start * ss + (first + (L) bs * 8 * grp) * bs; pb (pos, b, 1024); if (bad == 1) { uint8_t z[1024] = { 0 }; pb (start * ss + 1024, z, 1024); }
  if ((pos - 1024) % ss) { done (); return; }
  PedGeometry g; L gs = (pos - 1024) / ss; ped_geometry_init (&g, dev, gs, dev->length - gs); mc_io_reset (); mc_exc_bug = 0; L st = -1, l = claim (ty (fsimg[k].type), &g, &st); mc_count ("probes", 1);
#define BW "%s with the superblock copy of group %d (%s): "
#define BWA fsimg[k].name, grp, bad == 0 ? "intact" : bad == 1 ? "primary superblock gone" : bad == 2 ? "group size 0" : "group size 0xffffffff"
  if (!bad && (l != cov || st != start)) late ("backup", BW "found %lld sectors at %lld, not %lld at %lld", BWA, l, st, cov, start);
  if (bad && l >= 0) late ("backup-bad", BW "found %lld sectors at %lld", BWA, l, st);
  if (mc_exc_bug) late ("assert", BW "%s", BWA, mc_exc_msg);
  nowrite ("a superblock copy"); mc_nontrivial (0x9000000000ull + bs * 100 + grp * 8 + bad + ss); done ();
}
enum { I_DETECT, I_PAIR, I_DAMAGE, I_CUT, I_FAULT, I_AMIGA, I_BACKUP }; static const char *const iname[] = { "detect", "pair", "damage", "cut", "faults", "amiga", "backup" };
typedef struct { int what, a, b, c; L d; } Item; static Item *it; static long nit;
static void add (int w, int a, int b, int c, L d) { if (!(nit & 1023)) it = realloc (it, (nit + 1024) * sizeof *it); it[nit++] = (Item) { w, a, b, c, d }; }
static void run (long i)
{
  Item *x = &it[i]; *late_key = 0; mc_ans = ANS_CANCEL; cur = x->what == I_BACKUP ? NULL : x->what == I_PAIR ? fsimg[x->b].name : fsimg[x->a].name;
  switch (x->what) {
  case I_DETECT: detect (x->a, SS[x->b], START[x->c], x->d); break;
  case I_PAIR: pair (x->a, x->b, SS[x->c], x->d); break;
  case I_DAMAGE: damage (x->a, SS[x->b], x->c); break;
  case I_CUT: cut (x->a, SS[x->b]); break;
  case I_FAULT: faults (x->a, SS[x->b]); break;
  case I_AMIGA: amiga (x->a, x->b, x->c, x->d); break;
  case I_BACKUP: backup (x->a, x->b, SS[x->c], x->d); break;
  }
  if (*late_key) mc_fail (late_key, "%s", late_msg);
}
static void describe (long i, FILE *f) { Item *x = &it[i]; if (x->what == I_DETECT || x->what == I_DAMAGE || x->what == I_CUT || x->what == I_FAULT) fprintf (f, "%s %s, sectors of %d bytes, %d %lld", iname[x->what], fsimg[x->a].name, SS[x->b], x->c, x->d); else fprintf (f, "%s %d %d %d %lld", iname[x->what], x->a, x->b, x->c, x->d); }
int main (int argc, char **argv)
{
  for (int i = 1; i < argc; i++) { if (!strcmp (argv[i], "--thorough")) mc_thorough = 1; if (!strcmp (argv[i], "--opt") && i + 1 < argc) mc_opt = argv[i + 1]; }
  mc_init ();
  bool few = !strcmp (mc_opt, "few");
  for (int k = 0; k < NFSIMG; k++) for (int s = 0; s < N (SS); s++) {
    if (SS[s] != 512 && (fsimg[k].kind >= F_AFFS)) continue;
    for (int l = 0; l < N (LEN); l++) for (int b = 0; b < N (START); b++) if (few ? b == 0 && l < 12 && l % 2 == 0 : mc_thorough || b == 0 || b == 3 || b == 5 || s == 0) add (I_DETECT, k, s, b, LEN[l]);
    if (mc_thorough || s == 0 || s >= 3) for (int p = 0; p < 4; p++) add (I_DAMAGE, k, s, p, 0);
    add (I_CUT, k, s, 0, 0); add (I_FAULT, k, s, 0, 0);
  }
  static const L PL[] = { 40000, 700000, 0x200000001LL };
  for (int a = 0; a < NFSIMG; a++) for (int b = 0; b < NFSIMG; b++) for (int l = 0; l < 3; l++) { if (few && l) continue; add (I_PAIR, a, b, 0, PL[l]); if (mc_thorough || l == 1) add (I_PAIR, a, b, 3, PL[l]); }
  static const int spb[] = { 1, 2, 4, 8, 0, -1 }; static const int res[] = { 2, 0, 1, 7 };
  for (int k = 0; k < NFSIMG; k++) if (fsimg[k].kind >= F_AFFS) for (int s = 0; s < 6; s++) for (int r = 0; r < 4; r++) for (int w = 0; w < 2; w++) add (I_AMIGA, k, spb[s], res[r], w);
  for (int bs = 1024; bs <= 4096; bs *= 2) for (int gr = 1; gr < 5; gr++) for (int s = 0; s < 2; s++) for (int bad = 0; bad < 4; bad++) add (I_BACKUP, bs, gr, s, bad);
  McSweep s = { .prop = "P23", .n = nit, .run = run, .describe = describe };
  return mc_sweep (&s, argc, argv);
}
