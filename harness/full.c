/* P31: tables are filled to the brim and emptied again, in every order of a
   family of orders; every partition (thorough: every pair) is removed from the
   full table and its place taken again. */
#include <config.h>
#include "mc.h"
#include "decode.h"
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#define L long long
#define N(a) ((int) (sizeof (a) / sizeof *(a)))
static char late_key[60], late_msg[1200], what[300];
static void late (const char *k, const char *f, ...) { if (*late_key) return; va_list a; va_start (a, f); snprintf (late_key, sizeof late_key, "%s", k); int n = snprintf (late_msg, sizeof late_msg, "%s: ", what); vsnprintf (late_msg + n, sizeof late_msg - n, f, a); va_end (a); }
/* MAX: partitions of the table that a user can make; OWN: those a fresh one has */
typedef struct { const char *name, *label; int ss, heads, sects; L base, unit; int max, own, slots; int ext; int logmax; } Cf;
static const Cf cf[] = {
  { "msdos", "msdos", 512, 4, 8, 64, 64, 4, 0, 6, 0 },
  { "msdos", "msdos", 4096, 4, 8, 64, 64, 4, 0, 6, 0 },
  { "msdos with an extended partition", "msdos", 512, 4, 8, 64, 64, 3, 0, 24, 1, 40 },
  { "msdos with an extended partition", "msdos", 512, 4, 8, 64, 64, 3, 0, 64, 1, 60 },
  { "msdos with an extended partition", "msdos", 2048, 4, 8, 64, 64, 3, 0, 12, 1, 12 },
  { "gpt", "gpt", 512, 4, 8, 64, 16, 128, 0, 130, 0 },
  { "gpt", "gpt", 4096, 4, 8, 64, 16, 128, 0, 130, 0 },
  { "mac", "mac", 512, 4, 8, 128, 16, 57, 1, 57, 0 },
  { "mac", "mac", 2048, 4, 8, 128, 16, 57, 1, 57, 0 },
  { "sun", "sun", 512, 4, 8, 0, 64, 7, 0, 10, 0 },
  { "sun", "sun", 2048, 4, 8, 0, 64, 7, 0, 10, 0 },
  { "sun, with the whole disk entry", "sun", 512, 4, 8, 0, 64, 8, 0, 10, 0 },
  { "bsd", "bsd", 512, 4, 8, 64, 16, 8, 0, 10, 0 },
  { "bsd", "bsd", 4096, 4, 8, 64, 16, 8, 0, 10, 0 },
  { "dvh", "dvh", 512, 4, 8, 4096, 64, 14, 1, 18, 0 },
  { "amiga", "amiga", 512, 4, 8, 128, 64, 0, 0, 20, 0 },
  { "pc98", "pc98", 512, 4, 8, 64, 64, 16, 0, 18, 0 },
  { "atari", "atari", 512, 4, 8, 64, 64, 12, 0, 14, 0 },
  { "atari with an extended partition", "atari", 512, 4, 8, 64, 64, 3, 0, 12, 1, 12 },
};
enum { UP, DOWN, ENDS, MIDDLE, STRIDE, NORD };
static const char *const on[] = { "from the start", "from the end", "from both ends", "from the middle", "every third place" };
static const Cf *C;
static char bugmsg[300]; static int nq;
static PedExceptionOption answer (PedException *e)
{
  if (mc_verbose) fprintf (stderr, "    %s [%x]\n", e->message, e->options);
  snprintf (bugmsg, sizeof bugmsg, "%s", e->message); nq++;
  if (e->type == PED_EXCEPTION_BUG) { late ("bug", "%s", e->message); }
  if (strstr (e->message, "invalidate the ICD") && e->options & PED_EXCEPTION_YES) { nq--; return PED_EXCEPTION_YES; }
  if (strstr (e->message, "Whole Disk") && C->max == 8) { nq--; return PED_EXCEPTION_IGNORE; }
  return e->options & PED_EXCEPTION_CANCEL ? PED_EXCEPTION_CANCEL : e->options & PED_EXCEPTION_NO ? PED_EXCEPTION_NO : e->options & -e->options;
}
 static PedDevice *dev; static McGeom G;
/* Atari partitions are numbered by their order */
#define NONUM (!strcmp (C->label, "atari"))
#define XGM (NONUM && C->ext)
typedef struct { bool used; int num, type; L s, e; } Sl;
static Sl sl[140], es; static int order[140];
static void mkorder (int o, int n)
{
  for (int i = 0; i < n; i++) order[i] = o == UP ? i : o == DOWN ? n - 1 - i : o == ENDS ? (i & 1 ? n - 1 - i / 2 : i / 2) : o == MIDDLE ? (n / 2 + (i & 1 ? -(i + 1) / 2 : i / 2) + n) % n : i;
  if (o == STRIDE) { int k = 0; for (int r = 0; r < 3; r++) for (int i = r; i < n; i += 3) order[k++] = i; }
}
static const char *K_ (const char *k) { return k; }
static PedPartition *at (PedDisk *d, const Sl *x) { for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) if (ped_partition_is_active (p) && p->geom.start == x->s && p->geom.end == x->e && (p->type & PED_PARTITION_EXTENDED) == (x->type & PED_PARTITION_EXTENDED)) return p; return NULL; }
/* the table holds what the slots say */
static void check (PedDisk *d, const char *when)
{
  int n = 0, m = 0;
  if (*late_key) return;
  for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) if (ped_partition_is_active (p)) { n++; for (PedPartition *q = ped_disk_next_partition (d, p); q; q = ped_disk_next_partition (d, q)) if (ped_partition_is_active (q) && q->num == p->num) late ("same-number", "%s, two partitions have number %d", when, p->num); if (ped_disk_get_partition (d, p->num) != p) late ("number", "%s, partition %d is not found by its number", when, p->num); }
  for (int i = 0; i < C->slots; i++) if (sl[i].used) { m++; PedPartition *p = at (d, &sl[i]); if (!p) late ("lost", "%s, the partition at %lld-%lld is gone", when, sl[i].s, sl[i].e); else if (NONUM) sl[i].num = p->num; else if (p->num != sl[i].num) late ("renumbered", "%s, partition %d at %lld-%lld is number %d", when, sl[i].num, sl[i].s, sl[i].e, p->num); else if ((p->type & 3) != sl[i].type) late ("kind", "%s, partition %d has another kind", when, p->num); }
  if (es.used) { m++; if (!at (d, &es)) late ("lost", "%s, the extended partition is gone", when); }
  if (n != m + (strcmp (C->label, "loop") ? C->own : 0)) late ("number-of", "%s, there are %d partitions, not %d", when, n, m + C->own);
}
static bool place (int i, L *s, L *e) { *s = C->base + i * C->unit; *e = *s + C->unit - 1; if (C->ext && i >= C->max) *s += C->label[0] == 'a' ? 2 : 2; return *e < G.length; }
static bool put (PedDisk *d, int i, int type)
{
  L s, e; if (!place (i, &s, &e)) return false; nq = 0; *bugmsg = 0;
  PedPartition *p = ped_partition_new (d, type, NULL, s, e); if (!p) return false;
  PedGeometry *g = ped_geometry_new (dev, s, e - s + 1); PedConstraint *c = ped_constraint_exact (g); ped_geometry_destroy (g);
  bool r = ped_disk_add_partition (d, p, c); ped_constraint_destroy (c);
  if (!r) { ped_partition_destroy (p); return false; }
  ped_partition_set_system (p, NULL);   /* as every client does */
  if (p->geom.start != s || p->geom.end != e) late ("moved", "the partition asked for at %lld-%lld is at %lld-%lld", s, e, (L) p->geom.start, (L) p->geom.end);
  sl[i] = (Sl) { true, p->num, type, s, e }; return true;
}
/* the number of an Amiga partition is its place in a list */
static void ranks (void)
{
  if (strcmp (C->label, "amiga")) return;
  int r[140]; for (int i = 0; i < C->slots; i++) { r[i] = 1; for (int j = 0; j < C->slots; j++) if (sl[j].used && sl[j].num < sl[i].num) r[i]++; }
  for (int i = 0; i < C->slots; i++) if (sl[i].used) sl[i].num = r[i];
}
static PedDisk *again (PedDisk *d, const char *when)
{
  char w[200];
  check (d, when); nq = 0; if (*late_key) return d;
  if (!ped_disk_commit_to_dev (d)) { late ("commit", "%s, writing fails: %s", when, bugmsg); return d; }
  mc_count ("commits", 1); mc_nontrivial (mc_store_hash ()); dec_check (d, K_); ped_disk_destroy (d);
  dev = mc_device_keep (&G); ped_exception_set_handler (answer); nq = 0; d = ped_disk_new (dev); snprintf (w, sizeof w, "%s, written and read", when);
  if (!d) late ("reread", "%s, it cannot be read: %s", when, bugmsg); else { if (nq) late ("complaint", "%s: %s", w, bugmsg); ranks (); check (d, w); }
  return d;
}
static int seq[140], nseq;
/* the lowest free number of those the table can use */
static int lowest (void) { for (int k = 0; k < nseq; k++) { bool u = false; for (int i = 0; i < C->slots; i++) if (sl[i].used && sl[i].type != PED_PARTITION_LOGICAL && sl[i].num == seq[k]) u = true; if (!u) return seq[k]; } return -1; }
static void drop (PedDisk *d, int i)
{
  PedPartition *p = at (d, &sl[i]); if (!p) { late ("lost", "the partition at %lld is gone", sl[i].s); return; }
  if (!ped_disk_delete_partition (d, p)) { late ("delete", "partition %d cannot be deleted: %s", sl[i].num, bugmsg); return; }
  int num = sl[i].num; bool lg = sl[i].type == PED_PARTITION_LOGICAL && !NONUM; sl[i].used = false;
  if (lg) for (int j = 0; j < C->slots; j++) if (sl[j].used && sl[j].type == PED_PARTITION_LOGICAL && sl[j].num > num) sl[j].num--;   /* logical partitions are numbered without gaps */
}
static int nlog (void) { int n = 0; for (int i = 0; i < C->slots; i++) n += sl[i].used && sl[i].type == PED_PARTITION_LOGICAL; return n; }
/* fill as ORDER says; returns how many partitions went in */
static int fill (PedDisk *d, bool learn)
{
  int n = 0, last = 0;
  if (C->ext) {
    L s = C->base + C->max * C->unit, e = C->base + C->slots * C->unit - 1; PedPartition *p = ped_partition_new (d, PED_PARTITION_EXTENDED, NULL, s, e); PedGeometry *g = ped_geometry_new (dev, s, e - s + 1); PedConstraint *c = ped_constraint_exact (g); ped_geometry_destroy (g);
    if (!ped_disk_add_partition (d, p, c)) { late ("extended", "no extended partition: %s", bugmsg); ped_partition_destroy (p); } ped_constraint_destroy (c); es = (Sl) { true, p->num, PED_PARTITION_EXTENDED, s, e };
  }
  for (int k = 0; k < C->slots && !*late_key; k++) {
    int i = order[k]; int type = C->ext && i >= C->max ? PED_PARTITION_LOGICAL : 0; int want = learn || type ? -1 : lowest ();
    if (!put (d, i, type)) {
      if (type ? nlog () < C->logmax && i < C->max + C->logmax : C->max && n < C->max - XGM) late ("refused", "after %d partitions, another at place %d is refused: %s", n, i, bugmsg);
      if (!nq) late ("silent", "after %d partitions, another is refused without a reason", n);
      continue;
    }
    if (type) { if (!NONUM && sl[i].num != 5 + nlog () - 1) late ("logical-number", "logical partition number %d among %d", sl[i].num, nlog ()); continue; }
    n++; if (learn) { seq[nseq++] = sl[i].num; if (!NONUM && (strcmp (C->label, "sun") || sl[i].num != 3) && sl[i].num <= last && last != 0 && !es.used) late ("sequence", "number %d is given after %d", sl[i].num, last); last = sl[i].num; }
    else if (want > 0 && !NONUM && sl[i].num != want) late ("number-order", "partition number %d is given, %d is free", sl[i].num, want);
  }
  if (C->max && n != C->max && !(XGM && n == C->max - 1)) late ("maximum", "%d partitions fit, not %d", n, C->max);
  int mx = ped_disk_get_max_primary_partition_count (d), k = ped_disk_get_primary_partition_count (d); if (k > mx && !C->ext) late ("maximum", "%d partitions, at most %d are said to fit", k, mx);
  return n;
}
#define PER 140
static long ncase (void) { return (long) N (cf) * NORD * PER; }
/* which partition of the full table is removed first; the last case: all of them, one by one */
static void run (long i)
{
  int victim = i % PER, o = i / PER % NORD; C = &cf[i / PER / NORD]; *late_key = 0; memset (sl, 0, sizeof sl); memset (&es, 0, sizeof es); nseq = 0;
  if (victim > C->slots + 2) return;
  if (!mc_thorough && C->slots > 40 && victim % 8 && victim < C->slots - 6 && o > 1) return;
  snprintf (what, sizeof what, "%s, %d-byte sectors, filled %s", C->name, C->ss, on[o]);
  G = (McGeom) { .length = C->base + C->slots * C->unit + 64, .ss = C->ss, .phys = C->ss, .heads = C->heads, .sects = C->sects }; mc_geom = G; dev = mc_device (&G); mc_io_reset (); ped_exception_set_handler (answer); nq = 0;
  PedDisk *d = ped_disk_new_fresh (dev, ped_disk_type_get (C->label)); if (!d) { late ("fresh", "no new table: %s", bugmsg); goto out; }
  if (ped_disk_is_flag_available (d, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag (d, PED_DISK_CYLINDER_ALIGNMENT, 0);
  mkorder (o, C->slots);
  int n = fill (d, true); if (mc_verbose) { fprintf (stderr, "%s: %d partitions, max %d, numbers", what, n, ped_disk_get_max_primary_partition_count (d)); for (int k = 0; k < nseq; k++) fprintf (stderr, " %d", seq[k]); fprintf (stderr, "\n"); }
  mc_count ("tables filled", 1);
  if (!*late_key) d = again (d, "full"); if (*late_key || !d) goto out;
  if (victim == C->slots) {                     /* emptied one by one, in the order of filling, and filled again */
    for (int k = 0; k < C->slots && !*late_key; k++) if (sl[order[k]].used) { drop (d, order[k]); check (d, "emptying"); if (k % 5 == 0 && !*late_key) d = again (d, "emptying"); if (!d) goto out; }
    int q = nseq; if (!*late_key && es.used) { PedPartition *p = at (d, &es); if (!ped_disk_delete_partition (d, p)) late ("delete", "the extended partition cannot be deleted"); es.used = false; }
    if (!*late_key) d = again (d, "emptied"); if (!*late_key && d) { (void) q; int m = fill (d, C->ext); if (m != n && !XGM) late ("refill", "%d partitions fit, %d did before", m, n); if (!*late_key) d = again (d, "filled again"); }
  } else if (victim == C->slots + 1) {          /* all at once */
    memset (sl, 0, sizeof sl); es.used = false; if (!ped_disk_delete_all (d)) late ("delete-all", "deleting all fails"); 
    if (C->own && strcmp (C->label, "loop")) { ped_disk_destroy (d); dev = mc_device_keep (&G); ped_exception_set_handler (answer); d = NULL; goto out; }
    if (!strcmp (C->label, "loop")) goto out;
    d = again (d, "all deleted"); if (!*late_key && d) { int m = fill (d, C->ext); if (m != n && !XGM) late ("refill", "%d partitions fit, %d did before", m, n); if (!*late_key) d = again (d, "filled again"); }
  } else if (victim == C->slots + 2) {          /* backwards */
    for (int k = C->slots - 1; k >= 0 && !*late_key; k--) if (sl[order[k]].used) { drop (d, order[k]); check (d, "emptying backwards"); if (k % 3 == 0 && !*late_key) d = again (d, "emptying backwards"); if (!d) goto out; }
  } else if (sl[victim].used) {
    bool lg = sl[victim].type != 0; char w[100]; int old = sl[victim].num; drop (d, victim); snprintf (w, sizeof w, "partition %d deleted", old); check (d, w);
    if (!*late_key) d = again (d, w); if (*late_key || !d) goto out;
    int second = mc_thorough ? C->slots : C->slots <= 24 ? C->slots : 0;
    /* another one, and both back */
    Sl save[140]; McImage *im = mc_image_save (); memcpy (save, sl, sizeof sl);
    for (int j = -1; j < second && !*late_key; j++) {
      if (j >= 0 && (!save[j].used || j <= victim)) continue;
      if (j > victim + 1 && C->slots > 24 && j % 11) continue;
      if (j >= 0) { memcpy (sl, save, sizeof sl); ped_disk_destroy (d); mc_image_load (im); dev = mc_device_keep (&G); ped_exception_set_handler (answer); d = ped_disk_new (dev); if (!d) { late ("reread", "%s, it cannot be read: %s", w, bugmsg); break; } drop (d, j); snprintf (w, sizeof w, "partitions %d and %d deleted", old, save[j].num); check (d, w); }
      int want = lg ? -1 : lowest (); bool two = j >= 0 && (C->ext && j >= C->max);
      if (!put (d, victim, lg ? PED_PARTITION_LOGICAL : 0)) { if (XGM) continue; late ("again", "%s, no partition can be added: %s", w, bugmsg); break; }
      if (want > 0 && !NONUM && sl[victim].num != want) late ("number-order", "%s, the new partition has number %d, %d is free", w, sl[victim].num, want);
      if (lg && !NONUM && sl[victim].num != 4 + nlog ()) late ("logical-number", "%s, the new logical partition has number %d among %d", w, sl[victim].num, nlog ());
      if (j >= 0 && !put (d, j, two ? PED_PARTITION_LOGICAL : 0)) { if (XGM) continue; late ("again", "%s, no second partition can be added: %s", w, bugmsg); break; }
      if (!*late_key) d = again (d, "added again"); if (!d) break;
      mc_count ("replaced", 1);
    }
    mc_image_free (im);
  }
out:
  if (d) ped_disk_destroy (d);
  if (i % 997 == 3) mc_sample ("%s; removed: place %d", what, victim);
  if (*late_key) mc_fail (late_key, "%s", late_msg);
}
static void describe (long i, FILE *f) { const Cf *c = &cf[i / PER / NORD]; fprintf (f, "%s, %d-byte sectors, filled %s, removed: place %d of %d", c->name, c->ss, on[i / PER % NORD], (int) (i % PER), c->slots); }
void mc_setup (int, char **);
int main (int argc, char **argv)
{
  mc_setup (argc, argv);
  McSweep s = { .prop = "P31", .n = ncase (), .run = run, .describe = describe };
  return mc_sweep (&s, argc, argv);
}
