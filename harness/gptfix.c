/* P30: GPTs of devices that have grown or shrunk, or that have lost a copy.
   Every combination of damage, change of size, layout, answers to the questions
   and a following edit; the outcome is judged by a decoder of its own. */
#include <config.h>
#include "mc.h"
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#define L long long
#include "fsimg.h"
#define N(a) ((int) (sizeof (a) / sizeof *(a)))
static char late_key[60], late_msg[1500], what[400];
static void late (const char *k, const char *f, ...) { if (*late_key) return; va_list a; va_start (a, f); snprintf (late_key, sizeof late_key, "%s", k); int n = snprintf (late_msg, sizeof late_msg, "%s: ", what); vsnprintf (late_msg + n, sizeof late_msg - n, f, a); va_end (a); }
static PedDevice *dev; static McGeom G;

/* ---- the question and answer log ---- */
static int nopt[64], tq; static int script, nq, nneg, nfix, nign, nother; static char qlog[700]; static char lastmsg[300];
static PedExceptionOption answer (PedException *e)
{
  int o = e->options, nb = __builtin_popcount (o), k = 0; snprintf (lastmsg, sizeof lastmsg, "%s", e->message);
  if (nb > 1) { int s = script; for (int i = 0; i < nq; i++) s /= 3; k = s % 3 % nb; nq++; if (tq < 60) nopt[tq++] = nb; }
  PedExceptionOption r = 0; for (int b = 0; b < 8; b++) if (o & (1 << b)) { if (k-- == 0) { r = 1 << b; break; } }
  if (mc_verbose) fprintf (stderr, "    %s [%x] -> %x\n", e->message, o, r);
  if (nb > 1) { if (r == PED_EXCEPTION_FIX) nfix++; else if (r == PED_EXCEPTION_CANCEL || r == PED_EXCEPTION_NO) nneg++; else if (r == PED_EXCEPTION_IGNORE) nign++; } else nother++;
  if (e->type == PED_EXCEPTION_BUG) late ("bug", "%s", e->message);
  int n = strlen (qlog); snprintf (qlog + n, sizeof qlog - n, " [%.60s: %s]", e->message, nb < 2 ? "told" : r == PED_EXCEPTION_FIX ? "fix" : r == PED_EXCEPTION_IGNORE ? "ignore" : r == PED_EXCEPTION_CANCEL ? "cancel" : r == PED_EXCEPTION_NO ? "no" : "yes");
  return r;
}

/* ---- making and reading tables ---- */
static uint32_t crc (const uint8_t *p, size_t n) { uint32_t c = ~0u; while (n--) { c ^= *p++; for (int i = 0; i < 8; i++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0); } return ~c; }
static uint64_t g (const uint8_t *p, int n) { uint64_t v = 0; while (n--) v = v << 8 | p[n]; return v; }
static void fill (uint8_t *b, int n, int seed) { for (int i = 0; i < n; i++) b[i] = (i * 37 + seed * 11 + 5) % 250 + 1; }
typedef struct { L s, e; int slot; uint8_t ent[128]; } Pt;
static Pt pt[4]; static int npt, ss, cnt, esz; static uint8_t guid[16];
typedef struct { bool ok; L my, alt, fu, lu, pe, ns; int cnt, esz; uint8_t guid[16]; uint8_t *ent; const char *why; } Hd;
static Hd decode (L at)
{
  Hd h = { .why = "is not inside the device" }; uint8_t b[4096]; if (at < 0 || at >= G.length) return h; gb (at * ss, b, ss); h.why = "has no signature"; if (memcmp (b, "EFI PART", 8)) return h;
  int n = g (b + 12, 4); h.why = "has an odd size"; if (n < 92 || n > ss) return h; uint32_t c = g (b + 16, 4); memset (b + 16, 0, 4); h.why = "has a wrong checksum"; if (crc (b, n) != c) return h;
  h.my = g (b + 24, 8); h.alt = g (b + 32, 8); h.fu = g (b + 40, 8); h.lu = g (b + 48, 8); memcpy (h.guid, b + 56, 16); h.pe = g (b + 72, 8); h.cnt = g (b + 80, 4); h.esz = g (b + 84, 4);
  h.why = "gives another place for itself"; if (h.my != at) return h; h.why = "has odd entries"; if (h.cnt < 1 || h.cnt > 8192 || h.esz < 128 || h.esz > 4096) return h; h.ns = ((L) h.cnt * h.esz + ss - 1) / ss; h.why = "has entries outside the device"; if (h.pe < 2 || h.pe + h.ns > G.length) return h;
  h.ent = malloc (h.ns * ss); gb (h.pe * ss, h.ent, h.ns * ss); h.why = "has entries with a wrong checksum"; if (crc (h.ent, (size_t) h.cnt * h.esz) != g (b + 88, 4)) { free (h.ent); h.ent = NULL; return h; }
  h.ok = true; return h;
}
static int nps (int k) { L n = pt[k].e - pt[k].s + 1; return n < 16 ? n : 16; }
static L ps (int k, int j) { return j < 8 ? pt[k].s + j : pt[k].e - (nps (k) - 1 - j); }
static void mark (void) { for (int k = 0; k < npt; k++) for (int j = 0; j < nps (k); j++) { L s = ps (k, j); if (s >= G.length) continue; uint8_t b[4096]; fill (b, ss, s); mc_store_write (s, b); } }
static void data (const char *when) { uint8_t b[4096], c[4096]; for (int k = 0; k < npt; k++) for (int j = 0; j < nps (k); j++) { L s = ps (k, j); if (s >= G.length) continue; mc_store_read (s, b); fill (c, ss, s); if (memcmp (b, c, ss)) late ("data", "%s, sector %lld inside partition %d was overwritten", when, s, pt[k].slot + 1); } }

static void put_copy (int backup, L at, L alt, L pe, L fu, L lu, const uint8_t *e, L ns)
{
  uint8_t b[4096]; memset (b, 0, ss); memcpy (b, "EFI PART", 8); le (b + 8, 4, 0x10000); le (b + 12, 4, 92); le (b + 24, 8, at); le (b + 32, 8, alt); le (b + 40, 8, fu); le (b + 48, 8, lu); memcpy (b + 56, guid, 16);
  le (b + 72, 8, pe); le (b + 80, 4, cnt); le (b + 84, 4, esz); le (b + 88, 4, crc (e, (size_t) cnt * esz)); le (b + 16, 4, crc (b, 92)); pb (at * ss, b, ss); pb (pe * ss, e, ns * ss);
}
static const int SZ[] = { 512, 4096, 2048 }, CN[] = { 128, 4, 1, 130, 200 }, ES[] = { 128, 256 };
/* how far the device grew; negative: shrunk */
static const int GR[] = { 0, 1, 2, 7, 32, 33, 34, 35, 100, 300, -1, -3, -33, -40, -120 };
enum { D_NONE, D_H1, D_E1, D_H2, D_E2, D_MBR, D_H1H2, D_E1E2, D_H1E2, D_ALL, D_Z1, D_Z2, D_ZZ, D_N };
static const char *const dn[] = { "nothing", "the first header", "the first entries", "the second header", "the second entries", "the protective MBR", "both headers", "both arrays of entries", "the first header and the second entries", "everything", "the first header is gone", "the second header is gone", "both headers are gone" };
enum { E_NONE, E_ADD, E_DEL, E_N };
static const char *const en[] = { "nothing changed", "a partition added in the last free region", "the first partition deleted" };
#define NCASE ((long) N (SZ) * N (CN) * N (ES) * N (GR) * D_N * 3 * 4 * E_N)
static int take (long *i, int n) { int r = *i % n; *i /= n; return r; }

static bool validP, validB, shrunk, moved, dmgE1only; static L Lo, fu, lu, need;
static int edit;
static void build (long i)
{
  ss = SZ[take (&i, N (SZ))]; cnt = CN[take (&i, N (CN))]; esz = ES[take (&i, N (ES))]; int gr = GR[take (&i, N (GR))], dmg = take (&i, D_N), lay = take (&i, 3), parts = take (&i, 4); edit = take (&i, E_N);
  L ns = ((L) cnt * esz + ss - 1) / ss; need = ns > (16384 + ss - 1) / ss ? ns : (16384 + ss - 1) / ss; Lo = 4 * need + 300; G = (McGeom) { .length = Lo + (gr > 0 ? gr : 0), .ss = ss, .phys = ss, .heads = 4, .sects = 8 };
  mc_geom = G; mc_device (&G);   /* the larger one, cut afterwards */
  fu = lay == 2 ? 2 + ns < 3 ? 3 : 2 + ns : 2 + need; lu = lay == 2 ? Lo - 2 - ns : Lo - 2 - need; if (lay == 1) fu += 40, lu -= 20;
  if (fu < 3) fu = 3;
  npt = 0; L w = (lu - fu + 1) / 3; fill (guid, 16, 3);
  if (parts == 1) pt[npt++] = (Pt) { fu, fu + w, 0 }; else if (parts == 2) { pt[npt++] = (Pt) { lu - w, lu, cnt - 1 }; if (cnt > 1) pt[npt++] = (Pt) { fu, fu + w - 3, 0 }; } else if (parts == 3) { pt[npt++] = (Pt) { fu, lu, cnt / 2 }; }
  uint8_t *e = calloc (1, ns * ss + ss);
  for (int k = 0; k < npt; k++) { uint8_t *p = pt[k].ent; static const uint8_t ty[2][17] = { "\xaf\x3d\xc6\x0f\x83\x84\x72\x47\x8e\x79\x3d\x69\xd8\x47\x7d\xe4", "\x28\x73\x2a\xc1\x1f\xf8\xd2\x11\xba\x4b\x00\xa0\xc9\x3e\xc9\x3b" }; memcpy (p, ty[k], 16); fill (p + 16, 16, k + 7); le (p + 32, 8, pt[k].s); le (p + 40, 8, pt[k].e); le (p + 48, 8, k ? 1 : 0x4000000000000001ULL); memcpy (p + 56, k ? "b\0o\0o\0t" : "d\0a\0t\0a", 7); memcpy (e + (L) pt[k].slot * esz, p, 128); }
  uint8_t b[4096]; memset (b, 0, ss); b[446 + 4] = 0xee; b[448] = 2; b[451] = b[452] = b[453] = 0xff; le (b + 454, 4, 1); le (b + 458, 4, Lo - 1); b[510] = 0x55; b[511] = 0xaa; pb (0, b, ss);
  put_copy (0, 1, Lo - 1, 2, fu, lu, e, ns); put_copy (1, Lo - 1, 1, Lo - 1 - ns, fu, lu, e, ns); free (e); mark ();
  bool h1 = dmg == D_H1 || dmg == D_H1H2 || dmg == D_H1E2 || dmg == D_ALL, h2 = dmg == D_H2 || dmg == D_H1H2 || dmg == D_ALL, e1 = dmg == D_E1 || dmg == D_E1E2 || dmg == D_ALL, e2 = dmg == D_E2 || dmg == D_E1E2 || dmg == D_H1E2 || dmg == D_ALL;
  bool z1 = dmg == D_Z1 || dmg == D_ZZ, z2 = dmg == D_Z2 || dmg == D_ZZ; memset (b, 0, ss); if (z1) pb (ss, b, ss); if (z2) pb ((Lo - 1) * ss, b, ss);
  uint8_t x = 0xa5; if (h1) pb (ss + 57, &x, 1); if (h2) pb ((Lo - 1) * ss + 57, &x, 1); if (e1) pb (2 * ss + 1, &x, 1); if (e2) pb ((Lo - 1 - ns) * ss + 1, &x, 1);
  if (dmg == D_MBR) { memset (b, 0, ss); pb (0, b, ss); }
  if (gr < 0) { McImage *im = mc_image_save (); mc_image_free (im); G.length = Lo + gr; mc_geom = G; }
  validP = !h1 && !e1 && !z1 && dmg != D_MBR; validB = !h2 && !e2 && !z2 && dmg != D_MBR; shrunk = gr < 0; moved = gr > 0; dmgE1only = dmg == D_E1;
  snprintf (what, sizeof what, "%d sectors of %d bytes, made for %lld, %d entries of %d bytes, usable %lld-%lld, %d partitions (%d), damaged: %s", (int) G.length, ss, Lo, cnt, esz, fu, lu, npt, parts, dn[dmg]);
}
/* the device has a proper table; FIXED: it uses the device as it is now */
static L last_lu;
static void proper (const char *when, int skip, int more, L want_alt)
{
  Hd a = decode (1); if (!a.ok) { late ("header", "%s, the first copy %s", when, a.why); return; }
  Hd b = decode (a.alt); if (!b.ok) { late ("backup", "%s, the second copy at %lld %s", when, a.alt, b.why); free (a.ent); return; }
  uint8_t m[4096]; gb (0, m, ss); if (m[510] != 0x55 || m[511] != 0xaa || m[450] != 0xee) late ("mbr", "%s, there is no protective MBR", when);
  if (want_alt >= 0 && a.alt != want_alt) late ("place", "%s, the second copy is at %lld, not %lld", when, a.alt, want_alt);
  if (b.alt != 1 || b.fu != a.fu || b.lu != a.lu || b.cnt != a.cnt || memcmp (a.guid, b.guid, 16) || a.esz != b.esz || memcmp (a.ent, b.ent, (size_t) a.cnt * a.esz)) late ("copies", "%s, the two copies differ", when);
  if (memcmp (a.guid, guid, 16)) late ("guid", "%s, the disk has another identifier", when);
  if (a.cnt != cnt) late ("count", "%s, there are %d entries, not %d", when, a.cnt, cnt);
  if (a.pe <= 1 || a.pe + a.ns > a.fu) late ("layout", "%s, the entries at %lld, %lld sectors, lie inside the usable area from %lld", when, a.pe, a.ns, a.fu);
  if (b.pe <= a.lu || (b.pe + b.ns > b.my && b.pe <= b.my) || a.alt <= a.lu) late ("layout", "%s, the second copy (%lld, entries at %lld, %lld sectors) lies inside the usable area up to %lld", when, b.my, b.pe, b.ns, a.lu);
  if (a.lu >= G.length || a.fu > a.lu) late ("usable", "%s, the usable area is %lld-%lld", when, a.fu, a.lu);
  int used = 0; static const uint8_t z[16];
  for (int k = 0; k < a.cnt; k++) {
    uint8_t *p = a.ent + (L) k * a.esz; if (!memcmp (p, z, 16)) continue; used++; Pt *q = NULL; for (int j = 0; j < npt; j++) if (j != skip && pt[j].slot == k) q = &pt[j];
    if (q ? memcmp (p, q->ent, 128) != 0 : used > npt + more) late ("entry", "%s, entry %d changed", when, k + 1);
    L s = g (p + 32, 8), e = g (p + 40, 8); if (s < a.fu || e > a.lu || s > e) late ("outside", "%s, partition %d at %lld-%lld is outside the usable area %lld-%lld", when, k + 1, s, e, a.fu, a.lu);
  }
  if (used != npt - (skip >= 0) + more) late ("lost", "%s, there are %d partitions, not %d", when, used, npt - (skip >= 0) + more);
  last_lu = a.lu; free (a.ent); free (b.ent);
}
static PedDisk *read_ (void) { nq = nneg = nfix = nign = nother = 0; *qlog = *lastmsg = 0; ped_exception_set_handler (answer); dev = mc_device_keep (&G); ped_exception_set_handler (answer); mc_io_reset (); return ped_disk_new (dev); }
static void list (PedDisk *d, const char *when)
{
  int n = 0; for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) if (ped_partition_is_active (p)) { n++; bool f = false; for (int k = 0; k < npt; k++) if (pt[k].slot + 1 == p->num && pt[k].s == p->geom.start && pt[k].e == p->geom.end) f = true; if (!f) late ("list", "%s, there is a partition %d at %lld-%lld", when, p->num, (L) p->geom.start, (L) p->geom.end); }
  if (n != npt) late ("list", "%s, %d of %d partitions are found", when, n, npt);
}
static int fq;
/* the machine stops after any number of the sectors that a repair writes */
static McLog *clog; static uint8_t *clogd; static int nclog; static char cw[760]; static McImage *cim; static bool cedit;
static void capture (const char *w, McImage *im, bool ed)
{
  cim = im; cedit = ed;  nclog = mc_nlog; clog = malloc ((nclog + 1) * sizeof *clog); memcpy (clog, mc_log, nclog * sizeof *clog); L bytes = 0; for (int k = 0; k < nclog; k++) if (clog[k].kind == 0 && clog[k].off + clog[k].count * ss > bytes) bytes = clog[k].off + clog[k].count * ss;
  clogd = malloc (bytes + 1); memcpy (clogd, mc_logdata, bytes); snprintf (cw, sizeof cw, "%s", w);
}
static void crashes (void)
{
  int b = tq, tot = 0, done = 0; char w2[900]; for (int k = 0; k < nclog; k++) if (clog[k].kind == 0) tot += clog[k].count;
  mc_image_load (cim); script = 0;
  for (int k = 0; k < nclog && !*late_key; k++) if (clog[k].kind == 0) for (PedSector s = 0; s < clog[k].count && !*late_key; s++) {
    mc_store_write (clog[k].start + s, clogd + clog[k].off + s * ss); done++;
    if (mc_verbose) fprintf (stderr, "  writes sector %lld\n", (L) (clog[k].start + s));
    if (clog[k].count > 8 && s > 1 && s + 2 < clog[k].count && s % 13) continue;
    McImage *m = mc_image_save (); snprintf (w2, sizeof w2, "%s, stopped after %d of %d sectors, read again", cw, done, tot); data (w2); PedDisk *d = read_ (); mc_count ("crashes", 1);
    if (!d || strcmp (d->type->name, "gpt")) late ("crash-lost", "%s, the table is gone: %s", w2, d ? d->type->name : lastmsg);
    else if (!cedit) list (d, w2);
    else for (int j = edit == E_DEL; j < npt; j++) { PedPartition *p = ped_disk_get_partition (d, pt[j].slot + 1); if (!p || p->geom.start != pt[j].s || p->geom.end != pt[j].e) late ("crash-list", "%s, partition %d is gone", w2, pt[j].slot + 1); }
    if (d) ped_disk_destroy (d);
    if (!cedit) data (w2); mc_image_load (m); mc_image_free (m);
  }
  tq = b; free (clog); free (clogd); clog = NULL; clogd = NULL;
}
static void one (McImage *im, int sc)
{
  char w[760]; mc_image_load (im); fq = -1; script = sc; uint64_t h0 = mc_store_hash (); PedDisk *d = read_ (); bool wrote = mc_nwrite != 0; int fixes = nfix, q1 = nq; uint64_t h1 = mc_store_hash ();
  mc_count ("readings", 1); mc_nontrivial (h1 * 31 + nq * 7 + nfix + (d != NULL) * 1000);
  char asked[700]; snprintf (asked, sizeof asked, "%s", qlog); snprintf (w, sizeof w, "read with%s", *asked ? asked : " no question"); data (w);
  if (wrote && fixes && !shrunk && (validB || esz == 128)) capture (w, im, false);
  if (!fixes && (wrote || h0 != h1)) late ("consent", "%s, the device was written although nobody agreed", w);
  if (d && !strcmp (d->type->name, "gpt")) {
    if (!validP && !validB) late ("accepted", "%s, it is read although neither copy is valid", w);
    if (nneg) late ("refusal-ignored", "%s, it is read although the user declined", w);
    list (d, w);
    if (fixes) { proper (w, -1, 0, G.length - 1); if (moved && Lo < G.length) { uint8_t b[4096]; gb ((Lo - 1) * ss, b, ss); if (!memcmp (b, "EFI PART", 8)) { L pe = G.length - 1 - ((L) cnt * 128 + ss - 1) / ss; if (Lo - 1 < pe) late ("stale", "%s, the old second copy is still at %lld", w, Lo - 1); } } }
    if (fixes && !nign && moved && validP && last_lu < G.length - 2 - need) late ("space", "%s, the usable area ends at %lld, not %lld", w, last_lu, G.length - 2 - need);
    /* edit and write */
    int skip = -1, more = 0; script = sc; for (int k = 0; k < q1; k++) script /= 3; nq = nneg = 0; L ns_ = 0, ne_ = 0;
    if (edit == E_DEL && npt) { PedPartition *p = ped_disk_get_partition (d, pt[0].slot + 1); skip = 0; if (!p || !ped_disk_delete_partition (d, p)) late ("delete", "%s, partition %d cannot be deleted", w, pt[0].slot + 1); }
    if (edit == E_ADD) {
      PedPartition *p = NULL, *q = NULL; while ((q = ped_disk_next_partition (d, q))) if (q->type == PED_PARTITION_FREESPACE && q->geom.start <= (fixes ? last_lu : lu) && q->geom.end >= fu) p = q;
      if (p) { PedConstraint *any = ped_constraint_any (dev); PedPartition *n = ped_partition_new (d, 0, NULL, p->geom.start, p->geom.end); if (n && ped_disk_add_partition (d, n, any)) { more = 1; ns_ = n->geom.start; ne_ = n->geom.end; } else { if (n) ped_partition_destroy (n); if (npt < cnt) late ("add", "%s, no partition can be added: %s", w, lastmsg); } ped_constraint_destroy (any); }
    }
    Pt save = pt[0]; int snpt = npt; if (skip == 0) { pt[0] = pt[npt - 1]; npt--; if (npt == 0) pt[0] = save; }
    qlog[0] = 0; McImage *ci = NULL; if (!clog && !shrunk && validB && edit != E_NONE) { ci = mc_image_save (); mc_io_reset (); } int ok = ped_disk_commit_to_dev (d); L alt = fixes ? G.length - 1 : validP || dmgE1only ? Lo - 1 : G.length - 1; int l = strlen (w); snprintf (w + l, sizeof w - l, ", %s, written", en[edit]); mc_count ("commits", 1); if (ci) { if (ok) capture (w, ci, true); else mc_image_free (ci); }
    if (shrunk && (!ok || nign)) ;
    else if (!ok) { if (!nneg) late ("commit", "%s: it fails: %s", w, lastmsg); }
    else {
      data (w); proper (w, -1, more, alt); (void) ns_;
      if (more && ne_ > last_lu) late ("outside", "%s, the new partition ends at %lld, the usable area at %lld", w, ne_, last_lu);
      ped_disk_destroy (d); d = NULL; fq = tq; script = 0; for (int k = 0; k < 12; k++) script = script * 3 + 1; uint64_t h2 = mc_store_hash ();
      d = read_ (); if (!d) late ("reread", "%s, it cannot be read again: %s", w, lastmsg);
      else { if (h2 != mc_store_hash ()) late ("consent", "%s, reading again writes", w); if (fixes && !nign && nq) late ("asked-again", "%s, reading again asks%s", w, qlog); if (!more) { list (d, w); } else if (!ped_disk_get_partition_by_sector (d, ns_)) late ("lost", "%s, the new partition is gone", w); }
    }
    pt[0] = save; npt = snpt; if (fq < 0) fq = tq; if (d) ped_disk_destroy (d);
  } else {
    if (d) { if (validP && !shrunk && !nneg) late ("other", "%s, it is taken for %s", w, d->type->name); ped_disk_destroy (d); }
    fq = tq;
    if (!d && nq == 0 && nother == 0) late ("silent", "%s, it is refused without a reason", w);
    if (!d && !nneg && (validP || validB && (!moved || dmgE1only)) && !shrunk) late ("refused", "%s, it is refused although a copy is valid: %s", w, lastmsg);
    if (h1 != h0) late ("refused-written", "%s, the device was written", w);
  }
  if (clog) { McImage *c = cim; crashes (); if (c != im) mc_image_free (c); }
}
static void run (long i)
{
  *late_key = 0; build (i); McImage *im = mc_image_save ();
  char done[27] = { 0 }; int maxq = 0;
  /* scripts: every answer to each of the first three questions; stop when fewer are asked */
  for (int sc = 0; sc < 27 && !*late_key; sc++) {
    if (done[sc]) continue; tq = 0; one (im, sc); if (mc_verbose) fprintf (stderr, "  answers %d:%s\n", sc, qlog); if (fq > maxq) maxq = fq;
    for (int o = 0; o < 27; o++) { bool same = true; int a = sc, b = o; for (int j = 0; j < 3 && j < fq; j++, a /= 3, b /= 3) if (a % 3 % nopt[j] != b % 3 % nopt[j]) same = false; if (same) done[o] = 1; }
  }
  if (maxq > 3) mc_count ("cases with more than three questions", 1);
  mc_image_free (im); ped_exception_set_handler (answer);
  if (i % 2003 == 5) mc_sample ("%s, %s", what, en[edit]);
  if (*late_key) mc_fail (late_key, "%s", late_msg);
}
static void describe (long i, FILE *o) { build (i); fprintf (o, "%s, %s", what, en[edit]); }
void mc_setup (int, char **);
int main (int argc, char **argv)
{
  mc_setup (argc, argv);
  McSweep s = { .prop = "P30", .n = NCASE, .run = run, .describe = describe };
  return mc_sweep (&s, argc, argv);
}
