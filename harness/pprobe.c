/* P25: the partprobe program, run in a child process on in-memory disks: what
   it tells the system, what it prints and how it exits, for tables of every
   label, all options, and every failing access. */
#include <config.h>
#define _GNU_SOURCE
#include "mc.h"
#include "architecture.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

void mc_setup (int, char **);
extern int optind;
extern int (*mc_tell) (PedDisk *);
int partprobe_main (int argc, char **argv);

/* ---------- tables ---------- */
#define NT 80
typedef struct { int num, type; PedSector s, e; } Pt;
static struct { char name[60]; McGeom g; McImage *im; char sum[900]; int n; Pt p[140]; bool strange; } tab[NT]; static int ntab;
static bool add (PedDisk *d, int type, const char *fs, PedSector s, PedSector e)
{
  PedPartition *p = ped_partition_new (d, type, fs ? ped_file_system_type_get (fs) : NULL, s, e); if (!p) return false;
  PedConstraint *c = ped_constraint_any (d->dev); bool ok = ped_disk_add_partition (d, p, c); ped_constraint_destroy (c); if (!ok) ped_partition_destroy (p); return ok;
}
static int list (PedDisk *d, Pt *o, int max)
{
  int n = 0;
  for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) if (ped_partition_is_active (p) && n < max) o[n++] = (Pt) { p->num, p->type, p->geom.start, p->geom.end };
  return n;
}
static void expect (int t, PedDisk *d)
{
  tab[t].n = list (d, tab[t].p, 140);
  char *o = tab[t].sum; o += sprintf (o, "%s partitions", d->type->name);
  bool in = false, first = false;
  for (int i = 0; i < tab[t].n; i++) {
    Pt *p = &tab[t].p[i];
    if (in && !(p->type & PED_PARTITION_LOGICAL)) { *o++ = '>'; in = first = false; }
    o += sprintf (o, first ? "%d" : " %d", p->num);
    if (p->type & PED_PARTITION_EXTENDED) { o += sprintf (o, " <"); in = first = true; } else first = false;
  }
  if (in) *o++ = '>';
  *o = 0;
}
static void mk (const char *nm, const char *label, McGeom g, int what)
{
  PedDevice *dev = mc_device (&g); mc_ans = ANS_IGNORE; PedDisk *d;
  int t = ntab; snprintf (tab[t].name, 60, "%s", nm); tab[t].g = g;
  if (label) {
    d = ped_disk_new_fresh (dev, ped_disk_type_get (label)); if (!d) { fprintf (stderr, "setup %s\n", nm); exit (3); }
    if (ped_disk_is_flag_available (d, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag (d, PED_DISK_CYLINDER_ALIGNMENT, 0);
    PedSector L = g.length, c = g.heads * g.sects, b = !strcmp (label, "dvh") ? 5 * c : 2 * c;
    bool ext = !strcmp (label, "msdos") || !strcmp (label, "atari");
    if (what == 1) { add (d, 0, "ext2", b, b + c - 1); if (ext) { add (d, 2, NULL, b + 2 * c, L - 2 * c - 1); add (d, 1, "ext2", b + 2 * c + 32, b + 3 * c - 1); add (d, 1, NULL, b + 4 * c, b + 5 * c - 3); add (d, 0, NULL, L - 2 * c, L - c - 1); } else add (d, 0, "fat32", b + 2 * c, b + 3 * c - 1); if (!strcmp (label, "dvh")) add (d, 1, NULL, 100, 300); }
    if (what == 2) { add (d, 0, NULL, b + 2 * c, b + 3 * c - 1); add (d, 0, NULL, b, b + c - 1); }     /* numbers not in order */
    if (what == 3) add (d, 2, NULL, b, L - 100);            /* nothing in it */
    int q = 0; if (what == 4) for (PedSector s = b; s + 20 < L && q < (*label == 0x6d ? 28 : 128) && add (d, 0, NULL, s, s + 19); s += 100, q++) ;
    if (!ped_disk_commit_to_dev (d)) { fprintf (stderr, "setup %s: %s\n", nm, mc_exc_msg); exit (3); }
    ped_disk_destroy (d);
    dev = mc_device_keep (&g); d = ped_disk_new (dev); if (!d) { fprintf (stderr, "setup %s: %s\n", nm, mc_exc_msg); exit (3); } expect (t, d); ped_disk_destroy (d);
  } else strcpy (tab[t].sum, "msdos partitions");
  if (what < 0) {                       /* damage */
    uint8_t b[4096]; tab[t].strange = true;
    PedSector at = what == -1 ? 1 : what == -2 ? g.length - 1 : what == -3 ? 2 : 0; mc_store_read (at, b); b[what == -3 ? 40 : what == -4 ? 454 : 24] ^= 0x41; mc_store_write (at, b);
  }
  tab[t].im = mc_image_save (); ntab++;
}

/* ---------- the program ---------- */
typedef struct { int done, status, ncommit; char path[2][16]; int n[2]; Pt p[2][140]; long nwrite, io; int fired; } Shm;
static Shm *shm; static int out_fd = -1, err_fd; static char outb[20000], errb[20000];
static int commit_fails;
static void at_exit (int status, void *arg) { fflush (stdout); fflush (stderr); shm->nwrite = mc_nwrite; shm->io = mc_io; shm->fired = mc_fault_fired; shm->status = status; shm->done = 1; _exit (status & 0xff); }
static void probe_two (void) { _ped_device_probe ("/mc/a"); _ped_device_probe ("/mc/b"); }
static int tell (PedDisk *d)
{
  if (commit_fails) { ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL, "cannot tell the kernel about %s", d->dev->path); return 0; }
  int k = shm->ncommit++; if (k < 2) { snprintf (shm->path[k], 16, "%s", d->dev->path); shm->n[k] = list (d, shm->p[k], 140); }
  return 1;
}
static void slurp (int fd, char *b, int max) { off_t n = lseek (fd, 0, SEEK_END); if (n > max - 1) n = max - 1; int r = pread (fd, b, n, 0); b[r < 0 ? 0 : r] = 0; }
static const char *const opt[] = { "", "-s", "-d", "-ds", "--summary", "--dry-run --summary" };
enum { NOPT = 6, NWHO = 3 };
static const char *const who[] = { "/mc/a", "/mc/a /mc/b", "" };
static long fault_at; static int sticky;
static bool run_it (int o, int w)
{
  static char buf[200]; char *argv[12]; int argc = 0; argv[argc++] = "partprobe";
  snprintf (buf, sizeof buf, "%s %s", opt[o], who[w]); for (char *q = strtok (buf, " "); q; q = strtok (NULL, " ")) argv[argc++] = q; argv[argc] = NULL;
  if (out_fd < 0) { out_fd = memfd_create ("out", 0); err_fd = memfd_create ("err", 0); shm = mmap (NULL, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  if (ftruncate (out_fd, 0) || ftruncate (err_fd, 0)) abort ();
  lseek (out_fd, 0, SEEK_SET); lseek (err_fd, 0, SEEK_SET);
  memset (shm, 0, sizeof *shm); fflush (stdout); fflush (stderr); mc_count ("evaluations", 1);
  pid_t pid = fork ();
  if (pid == 0) {
    for (int s = 1; s < 32; s++) if (s != SIGKILL && s != SIGSTOP) signal (s, SIG_DFL);
    alarm (60); struct rlimit rl = { 0, 0 }; setrlimit (RLIMIT_CORE, &rl);
    dup2 (out_fd, 1); dup2 (err_fd, 2); on_exit (at_exit, NULL);
    ped_device_free_all (); mc_io_reset (); mc_fail_io = fault_at; mc_fail_sticky = sticky; ped_exception_set_handler (NULL);
    ((PedDeviceArchOps *) ped_architecture->dev_ops)->probe_all = probe_two; mc_tell = tell;
    optind = 0; exit (partprobe_main (argc, argv));
  }
  int st; while (waitpid (pid, &st, 0) < 0 && errno == EINTR) ;
  slurp (out_fd, outb, sizeof outb); slurp (err_fd, errb, sizeof errb);
  if (mc_verbose) fprintf (stderr, "$ partprobe %s %s (fault %ld%s) -> %x\n%s%s", opt[o], who[w], fault_at, sticky ? " on" : "", st, outb, errb);
  return WIFEXITED (st) && shm->done;
}
static char what_[200]; static long once; static PedSector bad, oncebad;
#define BAD(k, ...) do { char m_[900]; snprintf (m_, 900, __VA_ARGS__); mc_fail (k, "partprobe %s %s%s: %s; it prints '%.200s' and '%.200s'", opt[o], who[w], what_, m_, outb, errb); } while (0)
/* everything it did to each device is right, or it failed there and said so */
static void judge (int t, int o, int w)
{
  bool s = strchr (opt[o], 's'), dry = strchr (opt[o], 'd'); int nd = w ? 2 : 1; bool may_fail = tab[t].strange || shm->fired || commit_fails;
  char exp[2000]; int okay = 0; char *line = outb; int told = 0;
  if (o == 5) s = dry = true; if (o == 4) { s = true; dry = false; }
  if (shm->nwrite) BAD ("writes", "it writes to the device");
  for (int k = 0; k < nd; k++) {
    const char *path = k ? "/mc/b" : "/mc/a"; bool done_s = false, done_c = false;
    if (shm->fired && tab[t].n && told < shm->ncommit && told < 2 && !strcmp (shm->path[told], path) && !shm->n[told]) { if (bad && !strncmp (tab[t].sum, "pc98", 4)) { oncebad = bad; return; } if (sticky || bad) BAD ("unread-as-empty", "the device can't be read and is said to have no partitions"); once = fault_at; return; }
    snprintf (exp, sizeof exp, "%s: msdos partitions\n", path); if (shm->fired && strcmp (tab[t].sum, "msdos partitions") && !strncmp (line, exp, strlen (exp))) { if (!tab[t].n && (bad || !sticky)) return;    /* an empty table of one kind looks like one of another */ if (sticky || bad) BAD ("unread-as-empty", "the device can't be read and is said to have no partitions"); once = fault_at; return; }
    snprintf (exp, sizeof exp, "%s: %s\n", path, tab[t].sum);
    if (!strncmp (line, path, 5)) { if (!s) BAD ("unasked-summary", "a summary nobody asked for"); if (strncmp (line, exp, strlen (exp))) BAD (shm->fired ? "unread-summary" : "summary", "the summary is not '%s'", exp); line += strlen (exp); done_s = true; }
    if (told < shm->ncommit && told < 2 && !strcmp (shm->path[told], path)) {
      if (dry) BAD ("dry", "it informs the system in a dry run");
      if (shm->n[told] != tab[t].n || memcmp (shm->p[told], tab[t].p, tab[t].n * sizeof (Pt))) BAD (shm->fired ? "unread-told" : "told", "the system is told of %d partitions, %d are there", shm->n[told], tab[t].n);
      told++; done_c = true; }
    if ((s && !dry && done_s != done_c)) BAD ("half", "%s: told %d, shown %d", path, done_c, done_s);
    if ((done_s || !s) && (done_c || dry)) okay++;
  }
  if (*line) BAD ("output", "more output than lines for each device"); if (told != shm->ncommit) BAD ("told-twice", "the system is told %d times", shm->ncommit);
  bool all = okay == nd;
  if (dry && !s) { if (!may_fail && shm->status) BAD ("status", "exit status %d", shm->status); if (shm->status && !*errb) BAD ("silent", "it fails without a reason"); return; }
  if (!shm->status != all) BAD ("status", "exit status %d, %d of %d devices done", shm->status, okay, nd);
  if (!all && !may_fail) BAD ("failed", "only %d of %d devices done", okay, nd);
  if (!all && !*errb) BAD ("silent", "it fails without a reason");
  if (shm->fired && !sticky && !bad && nd == 2 && !okay) BAD ("gave-up", "one failing access, and neither device is done");
}
static void run (long i)
{
  int w = i % NWHO, o = i / NWHO % NOPT, t = i / NWHO / NOPT; *what_ = 0;
  mc_device (&tab[t].g); mc_image_load (tab[t].im); commit_fails = 0; fault_at = 0; sticky = 0; bad = oncebad = 0; mc_bad_sector = -1; ped_device_free_all ();
  if (!run_it (o, w)) BAD ("crash", "it crashes"); judge (t, o, w); long n = shm->io; mc_nontrivial (mc_hash (outb, strlen (outb), mc_hash (shm->p, sizeof shm->p, i)));
  if (o != 2 && o != 3 && o != 5) { commit_fails = 1; strcpy (what_, ", the kernel refuses"); if (!run_it (o, w)) BAD ("crash", "it crashes"); judge (t, o, w); commit_fails = 0; }
  if (o > (mc_thorough ? 3 : 1) || (w == 2 && o != 1)) return;
  /* a sector that can't be read */
  mc_bad_mask = 1; fault_at = 0;
  for (bad = 1; bad <= 40 && w == 0; bad++) { PedSector s = bad < 36 ? bad - 1 : tab[t].g.length - 41 + bad; if (s < 0) continue; mc_bad_sector = s; snprintf (what_, 200, ", sector %lld is bad", (long long) s); if (!run_it (o, w)) BAD ("crash", "it crashes"); shm->fired = 1; judge (t, o, w); mc_count ("bad sectors", 1); mc_nontrivial (mc_hash (outb, strlen (outb), mc_hash (errb, strlen (errb), i))); }
  mc_bad_sector = -1; bad = 0; once = 0;
  for (sticky = 0; sticky < 2; sticky++) for (fault_at = 1; fault_at <= n + 2; fault_at++) {
    if (n > 100 && fault_at > 100 && fault_at % 29) continue;
    snprintf (what_, 200, ", access %ld%s fails", fault_at, sticky ? " and all after it" : ""); if (!run_it (o, w)) BAD ("crash", "it crashes"); judge (t, o, w);
    mc_count ("failing accesses", 1); mc_nontrivial (mc_hash (outb, strlen (outb), mc_hash (errb, strlen (errb), i)));
    if (fault_at > shm->io) break;
  }
  fault_at = 0; sticky = 0; sprintf (what_, ", sector %lld is bad", (long long) oncebad - 1); if (oncebad) BAD ("pc98:unread-as-empty", "the device can't be read and is said to have no partitions");
  fault_at = once; sprintf (what_, ", access %ld fails, but not when tried again", once); if (once) BAD ("unread-once-as-empty", "the device could not be read and is said to have no partitions");
  if (i % 37 == 3) mc_sample ("%s: partprobe %s %s", tab[t].name, opt[o], who[w]);
}
static void describe (long i, FILE *f) { fprintf (f, "%s: partprobe %s %s", tab[i / NWHO / NOPT].name, opt[i / NWHO % NOPT], who[i % NWHO]); }
int main (int argc, char **argv)
{
  mc_setup (argc, argv);
  static const char *const ls[] = { "msdos", "gpt", "mac", "sun", "bsd", "dvh", "amiga", "pc98", "atari", "loop" };
  McGeom g = { .length = 20160, .ss = 512, .phys = 512, .heads = 16, .sects = 63 }, g4 = { .length = 20160, .ss = 4096, .phys = 4096, .heads = 16, .sects = 63 }; char nm[60];
  mk ("blank", NULL, g, 0); mk ("blank 4k", NULL, g4, 0);
  McGeom g1 = { .length = 1, .ss = 512, .phys = 512, .heads = 1, .sects = 1 }, gh = { .length = 1ll << 40, .ss = 512, .phys = 512, .heads = 255, .sects = 63 }; mk ("blank, one sector", NULL, g1, 0); g1.length = 9; mk ("blank, nine sectors", NULL, g1, 0); mk ("blank and huge", NULL, gh, 0);
  for (int i = 0; i < 10; i++) for (int k = 0; k < 3; k++) { if (k && !strcmp (ls[i], "loop")) continue; snprintf (nm, 60, "%s, kind %d", ls[i], k); mk (nm, ls[i], g, k); }
  mk ("msdos 4k", "msdos", g4, 1); mk ("gpt 4k", "gpt", g4, 1); mk ("msdos, empty extended", "msdos", g, 3); mk ("gpt full", "gpt", g, 4); mk ("mac full", "mac", g, 4);
  mk ("gpt, primary damaged", "gpt", g, -1); mk ("gpt, backup damaged", "gpt", g, -2); mk ("gpt, entries damaged", "gpt", g, -3); mk ("gpt, protective entry damaged", "gpt", g, -4);
  McSweep s = { "P25", (long) ntab * NWHO * NOPT, run, describe };
  return mc_sweep (&s, argc, argv);
}
