/* P17: the kernel's view of the partitions after ped_disk_commit_to_os.
   Every pair (partitions the kernel knows, table to be made known) over a
   small grid, every set of partitions in use, and every single failing kernel
   call is run through the real Linux back end on a stand-in kernel. */
#include "fakekernel.h"
#include "mc.h"
#include "architecture.h"
extern PedArchitecture ped_linux_arch;
#define MAXP 4
typedef struct { int num, type; L s, l; } TP;               /* sectors of the device */
typedef struct { int n; TP p[MAXP]; } Tab;
#define BASE 64
#define CS 4
static Tab *gtab[4]; static int ngtab[4];                   /* 0: gpt 5 cells <=3; 1: gpt 4 cells <=2; 2: msdos with logicals; 3: bsd, numbers 1 and 8 */
static int capg[4];
static void addtab (int f, const Tab *t) { if (ngtab[f] == capg[f]) gtab[f] = realloc (gtab[f], (capg[f] = capg[f] * 2 + 64) * sizeof (Tab)); gtab[f][ngtab[f]++] = *t; }
static void gen_gpt (int f, int cells, int maxn, int nnum, Tab t, int from)
{
  addtab (f, &t);
  if (t.n == maxn) return;
  for (int a = from; a < cells; a++) for (int b = a; b < cells; b++) for (int k0 = 1; k0 <= nnum; k0++) { int k = f == 3 && k0 == 2 ? 8 : k0;
    bool dup = false; for (int i = 0; i < t.n; i++) dup |= t.p[i].num == k; if (dup) continue;
    Tab u = t; u.p[u.n++] = (TP) { k, 0, BASE + a * CS, (b - a + 1) * CS }; gen_gpt (f, cells, maxn, nnum, u, b + 1);
  }
}
static void gen_log (Tab t, int ext, int from, int last)
{
  addtab (2, &t);
  int nl = t.n - ext - 1; if (nl == 2) return;
  for (int a = from; a <= last; a++) for (int b = a; b <= last; b++) for (int room = 1; room <= (nl == 0 && a == from ? 2 : 1); room++) for (int k = 5; k <= 6; k++) {
    bool dup = false; for (int i = 0; i < t.n; i++) dup |= t.p[i].num == k; if (dup) continue;
    if (nl == 0 && k == 6 && room == 2) continue;
    Tab u = t; u.p[u.n++] = (TP) { k, PED_PARTITION_LOGICAL, BASE + a * CS + room, (b - a + 1) * CS - room }; gen_log (u, ext, b + 1, last);
  }
}
static void gen_msdos (int cells)
{
  Tab t = { 0 }; addtab (2, &t);
  for (int a = 0; a < cells; a++) for (int b = a; b < cells; b++) for (int k = 1; k <= 2; k++) {
    Tab u = { 1, { { k, 0, BASE + a * CS, (b - a + 1) * CS } } }; addtab (2, &u);        /* one primary */
    u.p[0].type = PED_PARTITION_EXTENDED; gen_log (u, 0, a, b);                          /* one extended with logicals */
    for (int c = 0; c < cells; c++) for (int d = c; d < cells; d++) if (d < a || c > b) {
      if (d - c > 1) continue;
      Tab v = { 2, { { 3 - k, 0, BASE + c * CS, (d - c + 1) * CS }, u.p[0] } }; gen_log (v, 1, a, b);
    }
  }
}
/* the kernel's view of a table */
static void kview (const Tab *t, KPart *v)
{
  memset (v, 0, (FK_MAXP + 1) * sizeof *v); int u = fk.ss / 512;
  for (int i = 0; i < t->n; i++) {
    const TP *p = &t->p[i]; L len = p->l;
    if (p->type == PED_PARTITION_EXTENDED && !fk.dm) {
      len = 1; if (fk.ss == 512) { len = 2; for (int j = 0; j < t->n; j++) if (t->p[j].type == PED_PARTITION_LOGICAL && t->p[j].s == p->s + 1) len = 1; }
    }
    v[p->num] = (KPart) { .present = true, .start = p->s * u, .len = len * u };
  }
}
static void tabstr (const Tab *t, char *o) { *o = 0; for (int i = 0; i < t->n; i++) o += sprintf (o, "%s%d%s:%lld+%lld", i ? " " : "", t->p[i].num, t->p[i].type == PED_PARTITION_EXTENDED ? "(extended)" : "", t->p[i].s, t->p[i].l); if (!t->n) strcpy (o, "(none)"); }
static void kstr (const KPart *v, char *o) { *o = 0; char *q = o; for (int i = 1; i <= FK_MAXP; i++) if (v[i].present) q += sprintf (q, "%s%d:%lld+%lld%s", q > o ? " " : "", i, v[i].start, v[i].len, v[i].busy ? "(in use)" : ""); if (q == o) strcpy (o, "(none)"); }
/* ---- deferred failure ---- */
static char lkey[40], lmsg[1500];
static void late (const char *k, const char *f, ...) { if (mc_is_known (k) || *lkey) return; va_list a; va_start (a, f); snprintf (lkey, 40, "%s", k); vsnprintf (lmsg, 1500, f, a); va_end (a); }
static int answer; static int ans_fixed (PedException *e) { return (e->options & answer) ? answer : (e->options & PED_EXCEPTION_OK) ? PED_EXCEPTION_OK : PED_EXCEPTION_UNHANDLED; }
static void named_numbers (bool *named)
{
  for (int i = 0; i < nfexc; i++) {
    const char *m = fexc[i].msg; size_t n = strlen (fk.path), s = strlen (fk.sep);
    while (*m) {
      if (!strncmp (m, fk.path, n)) { m += n; if (!strncmp (m, fk.sep, s) && m[s] >= '0' && m[s] <= '9') m += s; else continue; }
      if (*m >= '0' && *m <= '9') { long v = strtol (m, (char **) &m, 10); if (v <= FK_MAXP) named[v] = true; } else m++;
    }
  }
}
static PedDisk *build (PedDevice *dev, const Tab *t, int fam)
{
  bool msdos = fam == 2;
  PedDisk *d = ped_disk_new_fresh (dev, ped_disk_type_get (msdos ? "msdos" : fam == 3 ? "bsd" : "gpt")); if (!d) return NULL;
  if (msdos) ped_disk_set_flag (d, PED_DISK_CYLINDER_ALIGNMENT, 0);
  PedPartition *made[MAXP];
  for (int pass = 0; pass < 2; pass++) for (int i = 0; i < t->n; i++) {
    const TP *p = &t->p[i]; if ((p->type == PED_PARTITION_LOGICAL) != pass) continue;
    PedPartition *x = ped_partition_new (d, p->type, NULL, p->s, p->s + p->l - 1); PedGeometry g; ped_geometry_init (&g, dev, p->s, p->l); PedConstraint *c = ped_constraint_exact (&g);
    if (!x || !ped_disk_add_partition (d, x, c)) { ped_constraint_destroy (c); return NULL; }
    ped_constraint_destroy (c); made[i] = x;
  }
  for (int i = 0; i < t->n; i++) made[i]->num = t->p[i].num;
  return d;
}
static PedDevice *dev; static PedDisk *disk; static int KIND; static const Tab *TB; static KPart want[FK_MAXP + 1], before[FK_MAXP + 1];
static long n_commits, n_faults, n_stuck;
/* one commit on the kernel state in BEFORE; FAULT: oracle for a failing call */
static void commit (const Tab *ta, bool faulty, bool transient)
{
  memcpy (kp, before, sizeof kp); memset (dm_reload_pending, 0, sizeof dm_reload_pending);
  nkop = 0; nfexc = 0; fk_calls = 0; fk_fired = false; fk_badfd = 0; fk_slept = 0;
  fk_answer = ans_fixed;
  int ret = ped_disk_commit_to_os (disk); n_commits++;
  bool wrong[FK_MAXP + 1], stuck[FK_MAXP + 1], named[FK_MAXP + 1] = { 0 }; bool anywrong = false, ach = true, ign = false;
  for (int n = 0; n <= FK_MAXP; n++) {
    wrong[n] = kp[n].present != want[n].present || (kp[n].present && (kp[n].start != want[n].start || kp[n].len != want[n].len)); anywrong |= wrong[n];
    stuck[n] = before[n].present && before[n].busy && !(want[n].present && want[n].start == before[n].start); if (stuck[n]) ach = false;
  }
  named_numbers (named); for (int i = 0; i < nfexc; i++) ign |= fexc[i].ans == PED_EXCEPTION_IGNORE;
  char a[200], b[200], k[300], w[100] = "", nm[100] = ""; if (0) { (void) ta; }
#define CTX "kernel had %s; table %s; in the end the kernel has %s%s%s: "
#define CTXA (kstr (before, a), a), (tabstr (TB, b), b), (kstr (kp, k), k), fk_fired ? "; failing call: " : "", fk_fired ? fk_what : ""
  for (int n = 1; n <= FK_MAXP; n++) { if (wrong[n]) sprintf (w + strlen (w), "%d ", n); if (named[n]) sprintf (nm + strlen (nm), "%d ", n); }
  if (fk_badfd) late ("bad-descriptor", CTX "a closed descriptor was used", CTXA);
  char why[60]; if (fk_leaks (why)) { late ("leak", CTX "%s left open", CTXA, why); fk_kernel_clear (); }
  for (int n = 1; n <= FK_MAXP; n++) if (before[n].present && before[n].busy && !kp[n].present) late ("busy-removed", CTX "partition %d, which is in use, was removed", CTXA, n);
  if (anywrong) {
    if (!nfexc) late (ret ? "silent" : "silent-failure", CTX "partition(s) %sdiffer and nothing was reported (returned %d)", CTXA, w, ret);
    else for (int n = 1; n <= FK_MAXP; n++) if (wrong[n] && !named[n] && !(fk_fired && !ret && n)) late ("not-named", CTX "partition %d differs but only %s were reported: %s", CTXA, n, nm, fexc[0].msg);
    if (ret && !ign) late ("success", CTX "returned success although partition(s) %sdiffer", CTXA, w);
  } else if (!nfexc && !ret) late ("silent-failure", CTX "returned failure without a report", CTXA);
  if (!faulty) {
    if (ach && (anywrong || nfexc || !ret)) late ("not-synced", CTX "nothing in use is in the way, but partition(s) %sare wrong, returned %d, %d report(s)%s%s", CTXA, w, ret, nfexc, nfexc ? ": " : "", nfexc ? fexc[0].msg : "");
    if (!ach) {
      n_stuck++;
      if (ret != ign) late ("answer", CTX "returned %d after the answer %s", CTXA, ret, ign ? "Ignore" : "Cancel");
      for (int n = 1; n <= FK_MAXP; n++) {
        bool may = stuck[n]; if (!fk.dm) for (int m = 1; m <= FK_MAXP; m++) if (stuck[m] && want[n].present && want[n].start < before[m].start + before[m].len && before[m].start < want[n].start + want[n].len) may = true;
        if (wrong[n] && !may) late ("not-best-effort", CTX "partition %d is wrong though no partition in use is in its way", CTXA, n);
        if (named[n] && !wrong[n]) late ("named-in-vain", CTX "partition %d is reported but right: %s", CTXA, n, fexc[0].msg);
      }
    }
    for (int n = 1; n <= FK_MAXP; n++) if (want[n].present && before[n].present && want[n].start == before[n].start && want[n].len == before[n].len)
      for (int i = 0; i < nkop; i++) if (kop[i].num == n && (kop[i].what == 'A' || kop[i].what == 'D')) { late ("unchanged-touched", CTX "partition %d is unchanged but was %s", CTXA, n, kop[i].what == 'D' ? "removed" : "added"); break; }
  } else {
    n_faults += fk_fired;
    if (transient && ach && fk_fired && !strncmp (fk_what, "BLKPG D", 7) && (anywrong || !ret || nfexc)) late ("transient-busy", CTX "the kernel was busy once only, but partition(s) %sare wrong or something was reported", CTXA, w);
  }
}
enum { M_PAIRS, M_FAULTS, M_BUSY, M_LOOP };
typedef struct { int mode, kind, fam; } Run; static Run runs[40]; static int nruns; static long first[41];
static void begin (int kind) { KIND = kind; *lkey = 0; fk_setup (kind); ped_architecture = &ped_linux_arch; ped_exception_set_handler (fk_handler); fk_answer = ans_fixed; answer = PED_EXCEPTION_CANCEL; dev = ped_device_get (fk.path); if (!dev) mc_fail ("open", "the device %s cannot be used: %s", fk.path, nfexc ? fexc[0].msg : ""); }
static void loop_label (void)
{
  /* a table that takes the whole device: no partition may remain; those that cannot be removed are reported */
  static const int nums[] = { 1, 2, 3, 5, 15 };
  for (int mask = 0; mask < 32; mask++) for (int busy = 0; busy < 32; busy++) if (!(busy & ~mask)) for (int a = 0; a < 2; a++) {
    answer = a ? PED_EXCEPTION_IGNORE : PED_EXCEPTION_CANCEL; memset (before, 0, sizeof before); memset (want, 0, sizeof want);
    for (int i = 0; i < 5; i++) if (mask >> i & 1) before[nums[i]] = (KPart) { .present = true, .busy = busy >> i & 1, .start = (BASE + i * CS) * fk.ss / 512, .len = CS * fk.ss / 512 };
    static const Tab none; TB = &none; commit (&none, false, false);
  }
}
static void busy_detection (long i)
{
  /* which partitions are in use: every number, alone and in pairs; and paths */
  bool msdos = i & 1; int max = msdos ? 15 : fk.sysfs ? FK_MAXP : 64; fk.ext_range = 256; L size = msdos ? 8 : 4;
  PedDisk *d = ped_disk_new_fresh (dev, ped_disk_type_get (msdos ? "msdos" : "gpt")); if (!d) mc_fail ("setup", "no disk");
  if (msdos) ped_disk_set_flag (d, PED_DISK_CYLINDER_ALIGNMENT, 0);
  PedPartition *q[FK_MAXP + 1] = { 0 };
  for (int n = 1; n <= max; n++) {
    int type = msdos && n == 4 ? PED_PARTITION_EXTENDED : msdos && n > 4 ? PED_PARTITION_LOGICAL : 0; L s = 64 + n * size + (type == PED_PARTITION_LOGICAL), e = type == PED_PARTITION_EXTENDED ? 64 + (max + 1) * size - 1 : 64 + (n + 1) * size - 1;
    PedGeometry g; q[n] = ped_partition_new (d, type, NULL, s, e); ped_geometry_init (&g, dev, s, e - s + 1); PedConstraint *c = ped_constraint_exact (&g);
    if (!q[n] || !ped_disk_add_partition (d, q[n], c)) mc_fail ("setup", "partition %d: %s", n, nfexc ? fexc[nfexc - 1].msg : ""); ped_constraint_destroy (c);
    kp[n] = (KPart) { .present = true, .start = s * fk.ss / 512, .len = (type == PED_PARTITION_EXTENDED ? 1 : e - s + 1) * fk.ss / 512 };
    char path[80]; snprintf (path, 80, "%s%s%d", fk.path, fk.sep, n); char *got = ped_partition_get_path (q[n]);
    if (q[n]->num != n) mc_fail ("setup", "number"); if (!got || strcmp (got, path)) late ("path", "partition %d is %s, not %s", n, path, got ? got : "(null)"); free (got);
  }
  for (int a = 0; a <= max; a++) for (int b = a; b <= max; b++) {
    if (msdos && (a == 4 || b == 4)) continue;
    for (int n = 1; n <= max; n++) kp[n].mounted = n == a || n == b;
    for (int n = 1; n <= max; n++) { bool exp = n == a || n == b || (msdos && n == 4 && (a > 4 || b > 4)); if (!!ped_partition_is_busy (q[n]) != exp) late ("busy-partition", "with %d and %d mounted, partition %d is%s reported as in use", a, b, n, exp ? " not" : ""); }
    if (!!ped_device_is_busy (dev) != (a || b)) late ("busy-device", "with %d and %d mounted, the device is%s reported as in use", a, b, a || b ? " not" : "");
    mc_count ("busy_queries", max + 1);
  }
  ped_disk_destroy (d); char why[60]; if (fk_leaks (why)) late ("leak", "%s left open", why);
}
static void run (long i)
{
  int r = 0; while (first[r + 1] <= i) r++;
  const Run *R = &runs[r]; i -= first[r]; begin (R->kind); n_commits = n_faults = n_stuck = 0;
  if (R->mode == M_BUSY) { busy_detection (i); ped_device_destroy (dev); if (*lkey) mc_fail (lkey, "%s: %s", fk_kname[KIND], lmsg); return; }
  if (R->mode == M_LOOP) { disk = ped_disk_new_fresh (dev, ped_disk_type_get ("loop")); loop_label (); }
  else {
    TB = &gtab[R->fam][i]; disk = build (dev, TB, R->fam);
    if (!disk) mc_fail ("setup", "cannot build the table: %s", nfexc ? fexc[nfexc - 1].msg : "");
    kview (TB, want);
    for (int a = 0; a < ngtab[R->fam]; a++) {
      const Tab *ta = &gtab[R->fam][a]; KPart v[FK_MAXP + 1]; kview (ta, v);
      if (!mc_thorough && (a + i) % (R->mode == M_FAULTS ? (R->kind == K_SD ? 17 : 29) : R->fam == 1 || R->fam == 3 ? 1 : R->fam == 0 ? 5 : R->kind == K_SD ? 13 : 29)) continue;
      for (int busy = 0; busy < 1 << ta->n; busy++) {
        for (int ai = 0; ai < 2; ai++) {
          answer = ai ? PED_EXCEPTION_IGNORE : PED_EXCEPTION_CANCEL;
          memcpy (before, v, sizeof v); for (int j = 0; j < ta->n; j++) if (busy >> j & 1) before[ta->p[j].num].busy = true;
          fk_fail_at = 0; fk_mask = R->mode == M_FAULTS ? -1 & ~C_CLOSE & ~C_FSYNC : 0; commit (ta, false, false);
          if (!ai) mc_nontrivial (mc_hash (before, sizeof (KPart) * 8, (uint64_t) (uintptr_t) (i * 64 + r)));
          if (R->mode == M_FAULTS) {
            long c = fk_calls; for (long k = 1; k <= c; k++) for (int e = 0; e < (mc_thorough ? 3 : 2); e++) { fk_fail_at = k; fk_fail_errno = e == 0 ? EBUSY : e == 1 ? EIO : ENXIO; fk_sticky = false; commit (ta, true, e == 0); }
            fk_fail_at = 0;
          } else if (!nfexc || (!mc_thorough && (a + busy) % 4)) break;
        }
      }
    }
  }
  mc_count ("commits", n_commits); mc_count ("commits_with_a_failing_call", n_faults); mc_count ("commits_blocked_by_use", n_stuck);
  ped_disk_destroy (disk); ped_device_destroy (dev);
  if (fk_nprobes) late ("leak", "a blkid probe is left");
  if (*lkey) mc_fail (lkey, "%s: %s", fk_kname[KIND], lmsg);
}
static void describe (long i, FILE *f) { int r = 0; while (first[r + 1] <= i) r++; fprintf (f, "%s, mode %d, family %d, table %ld", fk_kname[runs[r].kind], runs[r].mode, runs[r].fam, i - first[r]); }
static void add (int mode, int kind, int fam, long n) { runs[nruns] = (Run) { mode, kind, fam }; first[nruns + 1] = first[nruns] + n; nruns++; }
int main (int argc, char **argv)
{
  for (int i = 1; i < argc; i++) if (!strcmp (argv[i], "--thorough")) mc_thorough = 1;
  Tab t = { 0 }; gen_gpt (0, 5, 3, 3, t, 0); gen_gpt (1, 4, 2, 2, t, 0); gen_gpt (3, 4, 2, 2, t, 0); gen_msdos (mc_thorough ? 5 : 4);
  add (M_PAIRS, K_SD, 0, ngtab[0]); add (M_PAIRS, K_SD, 2, ngtab[2]); add (M_PAIRS, K_SD, 3, ngtab[3]); add (M_PAIRS, K_CCISS, 3, ngtab[3]);
  for (int k = K_SD4; k < NKIND; k++) { add (M_PAIRS, k, 1, ngtab[1]); if (mc_thorough || k == K_SD4 || k == K_DM) add (M_PAIRS, k, 2, ngtab[2]); }
  for (int k = 0; k < NKIND; k++) { if (mc_thorough || k == K_SD || k == K_CCISS || k == K_DM) add (M_FAULTS, k, 1, ngtab[1]); add (M_BUSY, k, 0, 2); add (M_LOOP, k, 0, 1); }
  if (getenv ("FK_SIZES")) for (int r = 0; r < nruns; r++) fprintf (stderr, "%d %s fam %d: %ld\n", runs[r].mode, fk_kname[runs[r].kind], runs[r].fam, first[r + 1] - first[r]);
  mc_init ();
  McSweep s = { .prop = "P17", .n = first[nruns], .run = run, .describe = describe };
  return mc_sweep (&s, argc, argv);
}
