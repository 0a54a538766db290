/* P21, P22: the parted command line, run in a child process on an in-memory
   disk.  Every sequence of commands up to a depth; what each command did to
   the disk is compared with what it was asked to do. */
#include <config.h>
#define _GNU_SOURCE
#include "mc.h"
#include "architecture.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <ctype.h>
#include <locale.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <uuid/uuid.h>

void mc_setup (int, char **);
extern int optind;
int parted_main (int argc, char **argv);
extern unsigned mc_uuid_ctr;

/* ---------- the program ---------- */
#define SHM (24 << 20)
typedef struct { int done, status, n; long nwrite, io, fired; PedSector sec[12000]; uint8_t data[]; } Shm;
static Shm *shm; static int out_fd = -1, err_fd, in_fd;
static McGeom geom;
static void at_exit (int status, void *arg)
{
  fflush (stdout); fflush (stderr);
  shm->nwrite = mc_nwrite; shm->io = mc_io; shm->fired = mc_fault_fired;
  McImage *im = mc_image_save ();
  if (im->n > 12000 || (long) im->n * im->ss > SHM - (long) sizeof *shm) { shm->done = -1; _exit (99); }
  shm->n = im->n; memcpy (shm->sec, im->sec, im->n * sizeof *im->sec); memcpy (shm->data, im->data, (size_t) im->n * im->ss);
  shm->status = status; shm->done = 1;
  _exit (status & 0xff);
}
typedef struct { int status; bool crashed, hung; long nwrite, io, fired; } Res;
static char outb[200000], errb[200000];
static long fault_at; static int fault_sticky;
static int slurp (int fd, char *b, int max) { off_t n = lseek (fd, 0, SEEK_END); if (n > max - 1) n = max - 1; int r = pread (fd, b, n, 0); if (r < 0) r = 0; b[r] = 0; return r; }
/* run parted on the current store; words separated by 0x1f in ARGS; INPUT goes to stdin */
static Res parted (const char *opts, const char *const *cmds, int nc, const char *input)
{
  Res r = { 0 };
  static char buf[8192]; char *argv[200]; int argc = 0; char *q = buf;
  argv[argc++] = "parted";
  q += sprintf (q, "%s", opts) + 1; for (char *w = strtok (buf, " "); w; w = strtok (NULL, " ")) argv[argc++] = w;
  argv[argc++] = "/mc/disk";
  for (int i = 0; i < nc; i++) { argv[argc++] = q; q += sprintf (q, "%s", cmds[i]) + 1; }
  argv[argc] = NULL;
  if (out_fd < 0) { out_fd = memfd_create ("out", 0); err_fd = memfd_create ("err", 0); in_fd = memfd_create ("in", 0); shm = mmap (NULL, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  if (ftruncate (out_fd, 0) || ftruncate (err_fd, 0) || ftruncate (in_fd, 0)) abort ();
  lseek (out_fd, 0, SEEK_SET); lseek (err_fd, 0, SEEK_SET);
  if (input) { if (pwrite (in_fd, input, strlen (input), 0) < 0) abort (); }
  lseek (in_fd, 0, SEEK_SET);
  shm->done = 0; fflush (stdout); fflush (stderr);
  mc_count ("runs of the program", 1);
  pid_t pid = fork ();
  if (pid == 0) {
    for (int s = 1; s < 32; s++) if (s != SIGKILL && s != SIGSTOP) signal (s, SIG_DFL);
    alarm (60); struct rlimit rl = { 0, 0 }; setrlimit (RLIMIT_CORE, &rl);
    dup2 (in_fd, 0); dup2 (out_fd, 1); dup2 (err_fd, 2);
    on_exit (at_exit, NULL);
    ped_device_free_all ();
    mc_io_reset ();
    mc_fail_io = fault_at; mc_fail_sticky = fault_sticky;
    optind = 0;
    exit (parted_main (argc, argv));
  }
  int st; while (waitpid (pid, &st, 0) < 0 && errno == EINTR) ;
  slurp (out_fd, outb, sizeof outb); slurp (err_fd, errb, sizeof errb);
  if (mc_verbose) { fprintf (stderr, "$ parted %s", opts); for (int i = 0; i < nc; i++) fprintf (stderr, " '%s'", cmds[i]); fprintf (stderr, " -> %x\n%s%s", st, outb, errb); }
  if (WIFSIGNALED (st) && WTERMSIG (st) == SIGALRM) r.hung = true;
  if (!WIFEXITED (st) || shm->done != 1) { r.crashed = true; return r; }
  r.status = WEXITSTATUS (st); r.nwrite = shm->nwrite; r.io = shm->io; r.fired = shm->fired;
  mc_store_clear ();
  for (int i = 0; i < shm->n; i++) mc_store_write (shm->sec[i], shm->data + (size_t) i * geom.ss);
  return r;
}

/* ---------- the table, as the library reads it ---------- */
typedef struct { int num, type; PedSector s, e; char fs[24], name[160]; uint64_t flags; int tid; uint8_t tu[16]; } Part;
typedef struct { bool ok; char label[16]; int n; Part p[80]; uint64_t dflags; } Tab;
static void load (Tab *t)
{
  memset (t, 0, sizeof *t);
  mc_ans = ANS_DECLINE; int v = mc_verbose; mc_verbose = 0;
  PedDevice *dev = mc_device_keep (&geom);
  PedDisk *d = ped_disk_new (dev);
  mc_verbose = v;
  if (!d) return;
  t->ok = true; snprintf (t->label, 16, "%s", d->type->name);
  for (PedDiskFlag f = ped_disk_flag_next (0); f; f = ped_disk_flag_next (f)) if (f != PED_DISK_CYLINDER_ALIGNMENT && ped_disk_is_flag_available (d, f) && ped_disk_get_flag (d, f)) t->dflags |= 1ull << f;
  for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) {
    if (!ped_partition_is_active (p) || t->n == 80) continue;
    Part *q = &t->p[t->n++];
    q->num = p->num; q->type = p->type; q->s = p->geom.start; q->e = p->geom.end;
    snprintf (q->fs, 24, "%s", p->fs_type ? p->fs_type->name : "");
    if (ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_NAME)) { const char *n = ped_partition_get_name (p); snprintf (q->name, 160, "%s", n ? n : ""); }
    for (PedPartitionFlag f = ped_partition_flag_next (0); f; f = ped_partition_flag_next (f)) if (ped_partition_is_flag_available (p, f) && ped_partition_get_flag (p, f)) q->flags |= 1ull << f;
    if (ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_TYPE_ID)) q->tid = ped_partition_get_type_id (p);
    if (ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) { uint8_t *u = ped_partition_get_type_uuid (p); if (u) { memcpy (q->tu, u, 16); free (u); } }
  }
  ped_disk_destroy (d);
}
static Part *find (Tab *t, int num) { for (int i = 0; i < t->n; i++) if (t->p[i].num == num) return &t->p[i]; return NULL; }
static Part *at (Tab *t, PedSector s, bool ext) { for (int i = 0; i < t->n; i++) if (t->p[i].s == s && !(t->p[i].type & 2) == !ext) return &t->p[i]; return NULL; }
static void show (Tab *t, McStr *o) { mc_sreset (o); mc_sprintf (o, "%s:", t->ok ? t->label : "none"); for (int i = 0; i < t->n; i++) mc_sprintf (o, " %d/%d=%lld-%lld(%s,%s,%llx,%02x)", t->p[i].num, t->p[i].type, t->p[i].s, t->p[i].e, t->p[i].fs, t->p[i].name, (unsigned long long) t->p[i].flags, t->p[i].tid); }

/* ---------- commands ---------- */
enum { K_READ, K_LABEL, K_MKPART, K_RM, K_RESIZE, K_SET, K_NAME, K_TYPE, K_DSET, K_BAD };
typedef struct { int kind; const char *text; int num; const char *a, *b; int type; const char *fs; int val; unsigned labels; } Cmd;
/* a, b: locations; fs: file system; val: flag state (-1 toggle) */
enum { L_MSDOS = 1, L_GPT = 2, L_SUN = 4, L_MAC = 8, L_ANY = 0xffff, L_OTHER = 0x100, L_LOOP = 0x10000 };
static const Cmd cmds[] = {
  { K_LABEL, "mklabel msdos", .a = "msdos", .labels = L_ANY },
  { K_LABEL, "mklabel gpt", .a = "gpt", .labels = L_ANY },
  { K_LABEL, "mklabel sun", .a = "sun", .labels = L_MSDOS | L_GPT },
  { K_LABEL, "mktable loop", .a = "loop", .labels = L_MSDOS },
  { K_BAD, "mklabel nonsense", .labels = L_ANY },
  { K_BAD, "mklabel", .labels = L_ANY },
  { K_MKPART, "mkpart primary ext2 1MiB 3MiB", .type = 0, .fs = "ext2", .a = "1MiB", .b = "3MiB", .labels = L_ANY },
  { K_MKPART, "mkpart primary fat32 3MiB 6MiB", .type = 0, .fs = "fat32", .a = "3MiB", .b = "6MiB", .labels = L_ANY },
  { K_MKPART, "mkpart primary 2048s 4095s", .type = 0, .a = "2048s", .b = "4095s", .labels = L_MSDOS | L_GPT },
  { K_MKPART, "mkpart primary linux-swap 4099s 9001s", .type = 0, .fs = "linux-swap(v1)", .a = "4099s", .b = "9001s", .labels = L_ANY },
  { K_MKPART, "mkpart primary 8MB 9MB", .type = 0, .a = "8MB", .b = "9MB", .labels = L_ANY },
  { K_MKPART, "mkpart primary 50% 75%", .type = 0, .a = "50%", .b = "75%", .labels = L_ANY },
  { K_MKPART, "mkpart primary -4MiB -1s", .type = 0, .a = "-4MiB", .b = "-1s", .labels = L_ANY },
  { K_MKPART, "mkpart primary -3MiB -1MiB", .type = 0, .a = "-3MiB", .b = "-1MiB", .labels = L_MSDOS | L_GPT },
  { K_MKPART, "mkpart primary 16MiB 100%", .type = 0, .a = "16MiB", .b = "100%", .labels = L_ANY },
  { K_MKPART, "unit s mkpart primary 10240 12287", .type = 0, .a = "10240s", .b = "12287s", .labels = L_MSDOS | L_GPT },
  { K_MKPART, "unit MiB mkpart primary 5 7", .type = 0, .a = "5MiB", .b = "7MiB", .labels = L_MSDOS | L_GPT },
  { K_MKPART, "mkpart extended 6MiB 15MiB", .type = 2, .a = "6MiB", .b = "15MiB", .labels = L_MSDOS },
  { K_MKPART, "mkpart extended 1MiB 100%", .type = 2, .a = "1MiB", .b = "100%", .labels = L_MSDOS },
  { K_MKPART, "mkpart logical ntfs 7MiB 9MiB", .type = 1, .fs = "ntfs", .a = "7MiB", .b = "9MiB", .labels = L_MSDOS },
  { K_MKPART, "mkpart logical 10MiB 12MiB", .type = 1, .a = "10MiB", .b = "12MiB", .labels = L_MSDOS },
  { K_MKPART, "mkpart logical 6MiB 15MiB", .type = 1, .a = "6MiB", .b = "15MiB", .labels = L_MSDOS },
  { K_MKPART, "mkpart primary 2MiB 2MiB", .type = 0, .a = "2MiB", .b = "2MiB", .labels = L_MSDOS | L_GPT },
  { K_BAD, "mkpart primary 5MiB 4MiB", .labels = L_ANY },
  { K_BAD, "mkpart primary 1MiB 30MiB", .labels = L_ANY },
  { K_BAD, "mkpart primary nofs 1MiB 3MiB", .labels = L_ANY },
  { K_BAD, "mkpart primary ext2 1MiB", .labels = L_ANY },
  { K_BAD, "mkpart primary 1MiB x", .labels = L_ANY },
  { K_BAD, "mkpart primary ext2", .labels = L_ANY },
  { K_BAD, "mkpart", .labels = L_ANY },
  { K_RM, "rm 1", .num = 1, .labels = L_ANY },
  { K_RM, "rm 2", .num = 2, .labels = L_ANY },
  { K_RM, "rm 3", .num = 3, .labels = L_ANY },
  { K_RM, "rm 5", .num = 5, .labels = L_MSDOS },
  { K_BAD, "rm 40", .labels = L_ANY },
  { K_BAD, "rm", .labels = L_ANY },
  { K_BAD, "rm 1x", .labels = L_ANY },
  { K_BAD, "rm x", .labels = L_ANY },
  { K_BAD, "rm -1", .labels = L_ANY },
  { K_BAD, "rm 4294967297", .labels = L_ANY },
  { K_RESIZE, "resizepart 1 4MiB", .num = 1, .b = "4MiB", .labels = L_ANY },
  { K_RESIZE, "resizepart 1 2MiB", .num = 1, .b = "2MiB", .labels = L_ANY },
  { K_RESIZE, "resizepart 1 100%", .num = 1, .b = "100%", .labels = L_ANY },
  { K_RESIZE, "resizepart 2 -1s", .num = 2, .b = "-1s", .labels = L_ANY },
  { K_RESIZE, "resizepart 2 11001s", .num = 2, .b = "11001s", .labels = L_ANY },
  { K_RESIZE, "resizepart 5 9.5MiB", .num = 5, .b = "9.5MiB", .labels = L_MSDOS },
  { K_RESIZE, "resizepart 5 8MB", .num = 5, .b = "8MB", .labels = L_MSDOS },
  { K_RESIZE, "unit MiB resizepart 1 3.00MiB", .num = 1, .b = "3MiB", .labels = L_MSDOS | L_GPT },
  { K_RESIZE, "unit s resizepart 1 6143s", .num = 1, .b = "6143s", .labels = L_MSDOS | L_GPT },
  { K_BAD, "resizepart 1 1s", .labels = L_ANY },
  { K_BAD, "resizepart 40 4MiB", .labels = L_ANY },
  { K_BAD, "resizepart 1 x", .labels = L_ANY },
  { K_SET, "set 1 boot on", .num = 1, .a = "boot", .val = 1, .labels = L_ANY },
  { K_SET, "set 2 boot on", .num = 2, .a = "boot", .val = 1, .labels = L_ANY },
  { K_SET, "set 1 boot off", .num = 1, .a = "boot", .val = 0, .labels = L_MSDOS | L_GPT },
  { K_SET, "toggle 1 boot", .num = 1, .a = "boot", .val = -1, .labels = L_MSDOS | L_GPT | L_MAC },
  { K_SET, "set 1 lvm on", .num = 1, .a = "lvm", .val = 1, .labels = L_ANY },
  { K_SET, "set 5 raid on", .num = 5, .a = "raid", .val = 1, .labels = L_MSDOS },
  { K_SET, "toggle 2 hidden", .num = 2, .a = "hidden", .val = -1, .labels = L_MSDOS | L_GPT },
  { K_BAD, "set 1 nonsense on", .labels = L_ANY },
  { K_BAD, "set 1 boot maybe", .labels = L_ANY },
  { K_BAD, "set 40 boot on", .labels = L_ANY },
  { K_BAD, "toggle 1 nonsense", .labels = L_ANY },
  { K_BAD, "toggle 40 boot", .labels = L_ANY },
  { K_NAME, "name 1 fred", .num = 1, .a = "fred", .labels = L_ANY },
  { K_NAME, "name 1 'two words'", .num = 1, .a = "two words", .labels = L_GPT | L_MAC },
  { K_NAME, "name 2 ''", .num = 2, .a = "", .labels = L_GPT | L_MAC },
  { K_BAD, "name 40 x", .labels = L_ANY },
  { K_TYPE, "type 1 0x83", .num = 1, .val = 0x83, .labels = L_MSDOS | L_OTHER },
  { K_TYPE, "type 1 7", .num = 1, .val = 7, .labels = L_MSDOS | L_SUN },
  { K_TYPE, "type 1 0fc63daf-8483-4772-8e79-3d69d8477de4", .num = 1, .val = -1, .labels = L_GPT },
  { K_BAD, "type 1 0x100", .labels = L_MSDOS | L_SUN },
  { K_BAD, "type 1 0x100000083", .labels = L_MSDOS | L_SUN },
  { K_BAD, "type 1 0", .labels = L_MSDOS | L_SUN },
  { K_BAD, "type 1 8z", .labels = L_MSDOS | L_SUN },
  { K_BAD, "type 1 -1", .labels = L_MSDOS | L_SUN },
  { K_BAD, "type 1 0fc63daf-8483-4772-8e79", .labels = L_GPT },
  { K_BAD, "type 1 00000000-0000-0000-0000-000000000000", .labels = L_GPT },
  { K_BAD, "type 40 0x83", .labels = L_ANY },
  { K_DSET, "disk_set pmbr_boot on", .a = "pmbr_boot", .val = 1, .labels = L_GPT | L_MSDOS },
  { K_DSET, "disk_toggle pmbr_boot", .a = "pmbr_boot", .val = -1, .labels = L_GPT },
  { K_BAD, "disk_set nonsense on", .labels = L_GPT | L_MSDOS },
  { K_BAD, "disk_toggle nonsense", .labels = L_GPT },
  { K_READ, "print", .labels = L_ANY },
  { K_READ, "unit s print free", .labels = L_ANY },
  { K_READ, "unit chs print", .labels = L_ANY },
  { K_READ, "print 1", .labels = L_ANY, .num = 1 },
  { K_READ, "print devices print", .labels = L_ANY },
  { K_READ, "print print devices print", .labels = L_ANY },
  { K_READ, "print list", .labels = L_ANY },
  { K_READ, "align-check opt 1", .labels = L_ANY, .num = 1 },
  { K_READ, "align-check min 2", .labels = L_ANY, .num = 2 },
  { K_READ, "help", .labels = L_MSDOS },
  { K_READ, "help mkpart", .labels = L_MSDOS },
  { K_READ, "version", .labels = L_MSDOS },
  { K_READ, "unit MiB", .labels = L_MSDOS },
  { K_READ, "select /mc/disk print", .labels = L_MSDOS | L_GPT },
  { K_READ, "quit", .labels = L_MSDOS },
  { K_BAD, "resize 1 2MiB 3MiB", .labels = L_ANY },
  { K_BAD, "unit furlong", .labels = L_MSDOS },
  { K_BAD, "frobnicate", .labels = L_MSDOS },
  { K_BAD, "p", .labels = 0 },
};
#define NCMD ((int) (sizeof cmds / sizeof *cmds))

typedef struct { const char *name, *label; McGeom g; unsigned lm; const char *opts; int start; int alph; } Cfg;
#define D20 .length = 40960, .ss = 512, .phys = 512, .heads = 16, .sects = 63
#define D20A D20, .align_min = 8, .align_opt = 2048
static const Cfg cfgs[] = {
  { "blank disk", NULL, { D20A }, L_MSDOS, "-s", 0 },
  { "msdos", "msdos", { D20A }, L_MSDOS, "-s", 0 },
  { "gpt", "gpt", { D20A }, L_GPT, "-s", 0 },
  { "msdos with partitions", "msdos", { D20A }, L_MSDOS, "-s", 1 },
  { "gpt with partitions", "gpt", { D20A }, L_GPT, "-s", 1 },
  { "msdos, no topology, minimal alignment", "msdos", { D20 }, L_MSDOS, "-s -a minimal", 1 },
  { "gpt, no alignment", "gpt", { D20 }, L_GPT, "-s -a none", 1 },
  { "msdos, cylinder alignment", "msdos", { D20A }, L_MSDOS, "-s -a cylinder", 1 },
  { "gpt, 4k sectors", "gpt", { .length = 5120, .ss = 4096, .phys = 4096, .heads = 16, .sects = 63, .align_min = 1, .align_opt = 256 }, L_GPT, "-s", 1 },
  { "mac with partitions", "mac", { D20A }, L_MAC, "-s", 1 },
  { "sun with partitions", "sun", { D20A }, L_SUN, "-s", 1 },
  { "bsd with partitions", "bsd", { D20 }, L_OTHER, "-s", 1 },
  { "dvh with partitions", "dvh", { D20 }, L_OTHER, "-s -a none", 1 },
  { "amiga with partitions", "amiga", { D20 }, L_OTHER, "-s -a none", 1 },
  { "pc98 with partitions", "pc98", { D20 }, L_OTHER, "-s -a none", 1 },
  { "atari with partitions", "atari", { D20 }, L_OTHER, "-s -a none", 1 },
  { "loop", "loop", { D20 }, L_LOOP, "-s -a none", 0 },
};
#define NCFG ((int) (sizeof cfgs / sizeof *cfgs))
static McImage *start_im[NCFG];
static int alph[NCFG][NCMD], nalph[NCFG];

static void add (PedDisk *d, int type, const char *fs, PedSector s, PedSector e, const char *name)
{
  PedPartition *p = ped_partition_new (d, type, fs ? ped_file_system_type_get (fs) : NULL, s, e);
  PedConstraint *c = ped_constraint_any (d->dev);
  if (!p || !ped_disk_add_partition (d, p, c)) { fprintf (stderr, "setup %s: %s\n", d->type->name, mc_exc_msg); exit (3); }
  ped_constraint_destroy (c);
  ped_partition_set_system (p, p->fs_type);
  if (name && ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_NAME) && (strcmp (d->type->name, "dvh") || type)) ped_partition_set_name (p, name);
}
static void setup (int k)
{
  geom = cfgs[k].g; PedDevice *dev = mc_device (&geom); mc_ans = ANS_IGNORE;
  if (cfgs[k].label) {
    PedDisk *d = ped_disk_new_fresh (dev, ped_disk_type_get (cfgs[k].label));
    if (ped_disk_is_flag_available (d, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag (d, PED_DISK_CYLINDER_ALIGNMENT, 0);
    long long m = (1 << 20) / geom.ss;
    if (cfgs[k].start) {
      if (!strcmp (cfgs[k].label, "dvh")) { add (d, 0, "xfs", 5000, 9999, NULL); add (d, 0, "ext2", 20000, 30000, NULL); add (d, 1, NULL, 100, 300, "boot"); }
      else {
      add (d, 0, "ext2", m, 3 * m - 1, "one");
      if (cfgs[k].lm == L_MSDOS) { add (d, 2, NULL, 6 * m, 15 * m - 1, NULL); add (d, 1, "ext2", 7 * m, 9 * m - 1, NULL); add (d, 1, "fat16", 10 * m + 5, 11 * m, NULL); }
      else add (d, 0, "fat32", 8 * m, 10 * m - 1, "two");
      }
    }
    if (!ped_disk_commit_to_dev (d)) { fprintf (stderr, "setup %s: %s\n", cfgs[k].name, mc_exc_msg); exit (3); }
    ped_disk_destroy (d);
  }
  /* data, to see what is overwritten */
  start_im[k] = mc_image_save ();
  for (int i = 0; i < NCMD; i++) if (cmds[i].labels & cfgs[k].lm || (cmds[i].labels == L_ANY && !(cfgs[k].lm == L_LOOP && (cmds[i].kind == K_RM || cmds[i].kind == K_MKPART)))) alph[k][nalph[k]++] = i;
}

/* ---------- locations, computed independently ---------- */
static bool loc (const char *s, PedSector *v, PedSector *lo, PedSector *hi)
{
  double x = strtod (s, NULL); const char *u = s + strspn (s, "-.0123456789"); double unit; bool exact;
  if (!strcmp (u, "s")) { unit = geom.ss; exact = true; }
  else if (!strcmp (u, "MiB")) { unit = 1 << 20; exact = true; }
  else if (!strcmp (u, "MB")) { unit = 1000000; exact = false; }
  else if (!strcmp (u, "%")) { unit = geom.length * geom.ss / 100; exact = false; }
  else return false;
  *v = x * unit / geom.ss; if (*s == '-') *v += geom.length;
  PedSector r = exact ? 0 : (PedSector) (unit / geom.ss / 2) + 1;
  *lo = *v - r < 0 ? 0 : *v - r; *hi = *v + r > geom.length - 1 ? geom.length - 1 : *v + r;
  return true;
}
static bool iec (const char *s) { return strstr (s, "iB"); }

/* ---------- what a command may have done ---------- */
static McStr sa, sb;
#define BAD(key, ...) do { char _m[600]; snprintf (_m, 600, __VA_ARGS__); show (t0, &sa); show (t1, &sb); mc_fail (key, "%s: '%s': %s\nbefore %.700s\nafter  %.700s\n%.300s%.300s", cfgs[cfg].name, c->text, _m, sa.s, sb.s, outb, errb); } while (0)
static bool same (const Part *a, const Part *b, int ignore)
{ /* 1 flags, 2 name, 4 type id and fs, 8 end, 16 number */
  return a->s == b->s && a->type == b->type && ((ignore & 8) || a->e == b->e) && ((ignore & 16) || a->num == b->num) && ((ignore & 1) || a->flags == b->flags)
    && ((ignore & 2) || !strcmp (a->name, b->name)) && ((ignore & 4) || (a->tid == b->tid && !memcmp (a->tu, b->tu, 16) && !strcmp (a->fs, b->fs)));
}
static bool renumbers (const char *l) { return !strcmp (l, "amiga") || !strcmp (l, "mac") || !strcmp (l, "atari"); }
static void effect (int cfg, const Cmd *c, Tab *t0, Tab *t1, bool agreed)
{
  Part *p;
  if (c->kind == K_BAD) BAD ("bad-accepted", "an invalid command exits with success");
  if (c->kind == K_LABEL) {
    if (!t1->ok || strcmp (t1->label, c->a)) BAD ("mklabel", "the disk has no %s label", c->a);
    if (t1->n && strcmp (c->a, "loop") && strcmp (c->a, "mac")) BAD ("mklabel", "a new label has partitions");
    return;
  }
  if (!t0->ok) BAD ("no-label", "succeeds on a disk without a label");
  if (!t1->ok || strcmp (t0->label, t1->label)) BAD ("label-lost", "the label is gone");
  const char *l = t0->label;
  if (t0->dflags != t1->dflags && c->kind != K_DSET) BAD ("disk-flags", "disk flags changed");
  Part *tgt0 = NULL, *tgt1 = NULL;
  if (!strcmp (l, "loop") && (c->kind == K_RM || c->kind == K_MKPART)) return;      /* its one partition is always there */
  if (c->num) { tgt0 = find (t0, c->num); if (!tgt0) BAD ("no-such", "partition %d does not exist", c->num); }
  /* partitions that were there before */
  for (int i = 0; i < t0->n; i++) {
    Part *a = &t0->p[i], *b = at (t1, a->s, a->type & 2);
    bool gone = c->kind == K_RM && (a == tgt0 || ((tgt0->type & 2) && (a->type & 1)));
    if (gone) { if (b) BAD ("rm", "partition %d is still there", a->num); continue; }
    if (!b) BAD ("partition-lost", "partition %d is gone", a->num);
    bool fl = c->kind == K_SET || c->kind == K_TYPE;
    int ign = 0;
    if (a == tgt0) { tgt1 = b; ign = c->kind == K_RESIZE ? 8 : c->kind == K_SET ? 5 : c->kind == K_NAME ? 2 : c->kind == K_TYPE ? 5 : 0; if (c->kind == K_NAME && !strcmp (l, "pc98")) ign |= 4; }
    else if (c->kind == K_SET) ign = 1;                     /* boot, root, swap may move: checked below */
    (void) fl;
    if (renumbers (l) || (a->type & 1)) ign |= 16;
    if (!same (a, b, ign)) BAD ("other-changed", "partition %d (%lld-%lld) changed", a->num, a->s, a->e);
  }
  /* and that are there now */
  Part *fresh = NULL; int nf = 0;
  for (int i = 0; i < t1->n; i++) if (!at (t0, t1->p[i].s, t1->p[i].type & 2)) { fresh = &t1->p[i]; nf++; }
  if (nf != (c->kind == K_MKPART ? 1 : 0)) BAD ("count", "%d new partitions", nf);
  PedSector v, lo, hi;
  switch (c->kind) {
  case K_MKPART: {
    PedSector sv, slo, shi, ev, elo, ehi;
    loc (c->a, &sv, &slo, &shi); loc (c->b, &ev, &elo, &ehi);
    if (iec (c->b) && sv != ev) ev--, elo--, ehi--;
    if (agreed) ; else
    if (fresh->s < slo || fresh->s > shi) BAD ("mkpart-start", "starts at %lld, not in %lld-%lld", fresh->s, slo, shi);
    if (agreed) ; else
    if (fresh->e < elo || fresh->e > ehi) BAD ("mkpart-end", "ends at %lld, not in %lld-%lld", fresh->e, elo, ehi);
    if (fresh->type != (ped_disk_type_check_feature (ped_disk_type_get (l), PED_DISK_TYPE_EXTENDED) ? c->type : 0)) BAD ("mkpart-type", "type is %d", fresh->type);
    if (!(fresh->type & 2) && (ped_disk_type_check_feature (ped_disk_type_get (l), PED_DISK_TYPE_PARTITION_NAME)) && !strcmp (l, "gpt") && strncmp (strstr (c->text, "mkpart ") + 7, fresh->name, strlen (fresh->name))) BAD ("mkpart-name", "name is '%s'", fresh->name);
    if (!strcmp (l, "msdos") && c->fs && !(fresh->type & 2)) {
      int want = !strcmp (c->fs, "ext2") ? 0x83 : !strcmp (c->fs, "fat32") ? 0x0c : !strcmp (c->fs, "linux-swap(v1)") ? 0x82 : !strcmp (c->fs, "ntfs") ? 7 : 0;
      if (want && fresh->tid != want) BAD ("mkpart-fs", "type id is %02x", fresh->tid);
    }
    break; }
  case K_RESIZE:
    loc (c->b, &v, &lo, &hi); if (iec (c->b) && v != tgt0->s) lo--, hi--;
    if (!(tgt1->e >= lo && tgt1->e <= hi)) BAD ("resize-end", "ends at %lld, not in %lld-%lld", tgt1->e, lo, hi);
    break;
  case K_SET: case K_DSET: {
    int f = c->kind == K_SET ? ped_partition_flag_get_by_name (c->a) : ped_disk_flag_get_by_name (c->a);
    uint64_t m = 1ull << f; bool was = (c->kind == K_SET ? tgt0->flags : t0->dflags) & m, is = (c->kind == K_SET ? tgt1->flags : t1->dflags) & m;
    bool want = c->val < 0 ? !was : c->val;
    if (is != want && !(!want && !strcmp (l, "bsd")) && !(!strcmp (l, "bsd"))) BAD ("flag", "flag %s is %d", c->a, is);
    if (c->kind == K_SET) for (int i = 0; i < t0->n; i++) if (&t0->p[i] != tgt0) {
      Part *b = at (t1, t0->p[i].s, t0->p[i].type & 2);
      if (b->flags != t0->p[i].flags && !(want && (t0->p[i].flags & ~m) == b->flags)) BAD ("flag-other", "flags of partition %d changed", t0->p[i].num);
    }
    break; }
  case K_NAME: if (strcmp (tgt1->name, c->a) && strcmp (l, "pc98")) BAD ("name", "the name is '%s'", tgt1->name); break;
  case K_TYPE:
    if (c->val >= 0 && tgt1->tid != c->val) BAD ("type", "type id is %02x", tgt1->tid);
    if (c->val < 0) { uuid_t u; uuid_parse (strchr (c->text + 5, ' ') + 1, u); if (memcmp (u, tgt1->tu, 16)) BAD ("type", "type UUID differs"); }
    break;
  }
}

static int split (const char *t, const char **out, char *buf) { strcpy (buf, t); out[0] = buf; return 1; }
static const char *arg1[16];
static uint64_t store_sig (void) { return mc_store_hash (); }
static bool script_only;

static void p22 (int cfg);
static int run (int cfg, const uint16_t *ops, int n, bool check, uint64_t *sig)
{
  geom = cfgs[cfg].g; mc_device (&geom); mc_image_load (start_im[cfg]);
  fault_at = 0; fault_sticky = 0;
  mc_uuid_ctr = 0x1000;
  const char *cs[16]; for (int i = 0; i < n; i++) cs[i] = cmds[alph[cfg][ops[i]]].text;
  /* amiga and atari number partitions anew when they are read */
  if (n > 1 && (!strncmp (cfgs[cfg].name, "amiga", 5) || !strncmp (cfgs[cfg].name, "atari", 5))) for (int i = 0; i < n - 1; i++) parted (cfgs[cfg].opts, cs + i, 1, NULL);
  else
  if (n > 1) { Res r = parted (cfgs[cfg].opts, cs, n - 1, NULL); if (r.crashed || r.status) mc_fail ("prefix", "%s: the commands succeed one by one but not together (status %d)\n%s%s", cfgs[cfg].name, r.status, outb, errb); }
  if (n == 0) { *sig = store_sig (); if (check && !strcmp (mc_prop, "P22")) p22 (cfg); return 0; }
  const Cmd *c = &cmds[alph[cfg][ops[n - 1]]];
  static Tab T0, T1; Tab *t0 = &T0, *t1 = &T1;
  McImage *before = mc_image_save (); uint64_t h0 = store_sig ();
  mc_uuid_ctr = 0x2000;
  Res r = parted (cfgs[cfg].opts, &c->text, 1, NULL);
  if (r.crashed) { mc_image_free (before); mc_fail (r.hung ? "hang" : "crash", "%s: '%s' crashes\n%.600s\n%.2500s", cfgs[cfg].name, c->text, outb, errb); }
  *sig = store_sig ();
  if (!strcmp (mc_prop, "P22")) { if (r.status || *sig == h0) { mc_image_free (before); return 1; } mc_image_free (before); if (check) p22 (cfg); return 0; }
  if (check) {
    static char so[2000], se[2000]; snprintf (so, 2000, "%s", outb); snprintf (se, 2000, "%s", errb);
    McImage *after = mc_image_save (); PedSector where = -1;
    load (t1); mc_image_load (before); load (t0); mc_image_load (after);
    mc_count ("commands checked", 1);
    if (strstr (se, "bug") || strstr (so, "bug in GNU")) BAD ("bug", "an internal error is reported");
    if (r.status) {
      if (*sig != h0) BAD ("failed-but-changed", "exit status %d but the disk has changed", r.status);
      if (!*so && !*se && c->kind != K_BAD && strncmp (c->text, "align-check", 11)) BAD ("silent", "exit status %d without a word", r.status);
    } else {
      mc_count ("commands that succeed", 1);
      if (c->kind == K_READ && (*sig != h0 || r.nwrite)) BAD ("read-writes", "a command that only reads wrote to the disk");
      if (c->kind != K_READ) effect (cfg, c, t0, t1, false);
      if (c->kind != K_READ) mc_nontrivial (*sig ^ mc_hash (c->text, strlen (c->text), 77));
    }
    /* the exit status of a command that could not do its work */
    if (!r.status && c->kind != K_READ && (n == 1 || mc_thorough)) {
      for (int st = 0; st < 2; st++) for (long k = 1; k <= r.io; k += (r.io > 60 && !mc_thorough ? r.io / 30 : 1)) {
        mc_image_load (before); fault_at = k; fault_sticky = st; mc_uuid_ctr = 0x2000;
        Res f = parted (cfgs[cfg].opts, &c->text, 1, NULL);
        fault_at = 0;
        mc_count ("commands with an I/O error", 1);
        if (f.crashed) mc_fail ("fault-crash", "%s: '%s' crashes when I/O %ld fails\n%.600s\n%.2500s", cfgs[cfg].name, c->text, k, outb, errb);
        if (f.status == 0 && f.fired && store_sig () != *sig) {
          static Tab T2; load (&T2); show (t1, &sa); show (&T2, &sb);
          if (strcmp (sa.s, sb.s)) mc_fail ("fault-success", "%s: '%s' exits 0 although I/O %ld failed and the disk is not as asked\nwant %.900s\nhave %.900s\n%.300s%.300s", cfgs[cfg].name, c->text, k, sa.s, sb.s, outb, errb);
        }
      }
    }
    /* the same command typed at the prompt; questions are answered no, or yes */
    if ((n == 1 || mc_thorough) && strcmp (c->text, "quit") && strncmp (c->text, "help", 4) && strncmp (c->text, "version", 7)) for (int yes = 0; yes < 2; yes++) {
      static char in[600]; snprintf (in, 600, "%s\n%s", c->text, c->kind == K_BAD ? "" : yes ? "yes\nyes\nIgnore\n" : "no\nno\nCancel\n");
      mc_image_load (before); mc_uuid_ctr = 0x2000; bool unsafe = c->kind == K_BAD;
      static char o[100]; snprintf (o, 100, "---pretend-input-tty %s", strcmp (cfgs[cfg].opts, "-s") ? cfgs[cfg].opts + 3 : "");
      Res f = parted (o, NULL, 0, in);
      mc_count ("commands typed", 1);
      if (f.crashed) mc_fail (f.hung ? "hang" : "crash", "%s: typing '%s' crashes\n%.600s\n%.2500s", cfgs[cfg].name, in, outb, errb);
      uint64_t h = store_sig (); static Tab T2;
      if (c->kind == K_READ && h != h0) BAD ("typed-read-writes", "typed: a command that only reads wrote to the disk");
      if (unsafe) { if (h != h0) BAD ("typed-bad", "typed: an invalid command changed the disk"); continue; }
      load (&T2);
      if (!r.status && c->kind != K_READ && (c->kind != K_LABEL || yes)) {    /* done by the script: done here, unless there was a question */
        show (t1, &sa); show (&T2, &sb);
        bool asked = strstr (outb, "/") && (strstr (outb, "Yes/No") || strstr (outb, "Ignore/Cancel"));
        if (strcmp (sa.s, sb.s) && !(asked && !yes)) { outb[600] = 0; mc_fail ("typed-differs", "%s: '%s' typed at the prompt gives another result than in a script\nscript %.600s\ntyped  %.600s\n%s%.300s", cfgs[cfg].name, c->text, sa.s, sb.s, outb, errb); }
        if (asked && !yes && h != h0) BAD ("declined", "typed: a declined command changed the disk");
      } else if (r.status && h != h0) {
        if (!yes) BAD ("declined", "typed: a command that was not agreed to changed the disk");
        effect (cfg, c, t0, &T2, true);
      }
    }
    mc_image_load (after); mc_image_free (after);
    (void) where;
  }
  mc_image_free (before);
  if (r.status || *sig == h0) return 1;
  return 0;
}

static int op_n (int cfg) { return nalph[cfg]; }
static const char *cname (int cfg) { return cfgs[cfg].name; }
static int depth = 2;
static int depth_of (int cfg) { return depth; }
static void describe (int cfg, const uint16_t *ops, int n, FILE *f)
{
  fprintf (f, "%s: parted %s disk", cfgs[cfg].name, cfgs[cfg].opts);
  for (int i = 0; i < n; i++) fprintf (f, " %s;", cmds[alph[cfg][ops[i]]].text);
}
/* ---------- several commands at one prompt ---------- */
/* What the first command was must not matter to the second, beyond what it did
   to the disk. */
static const char *const answers[] = { "", "no\n", "Cancel\n", "yes\n", "Ignore\n", "\n" };
static int prompts (const char *o) { int n = 0; while ((o = strstr (o, "(parted)"))) n++, o++; return n; }
static const char *typed_opts (int cfg) { static char o[100]; snprintf (o, 100, "---pretend-input-tty %s", strcmp (cfgs[cfg].opts, "-s") ? cfgs[cfg].opts + 3 : ""); return o; }
static void typed_line (char *o, const Cmd *c) { snprintf (o, 600, "%s\n%s", c->text, c->kind == K_BAD ? "" : "yes\nyes\nIgnore\n"); }
static void result (McStr *o) { static Tab T; load (&T); show (&T, o); mc_sprintf (o, " disk flags %llx", (unsigned long long) T.dflags); }
static void pairs (long i)
{
  int cfg = i / NCMD, k1 = i % NCMD; const Cmd *c1 = &cmds[k1]; geom = cfgs[cfg].g; fault_at = 0;
  bool in = false; for (int k = 0; k < nalph[cfg]; k++) in |= alph[cfg][k] == k1;
  if (!mc_thorough && cfg != 0 && cfg != 3 && cfg != 4 && cfg != 9) return;
  if (!in || !strncmp (c1->text, "unit", 4) || !strcmp (c1->text, "quit")) return;
  static McStr want, got; static char t1[700], t2[700], all[1500]; char *memo[NCMD] = { 0 };
  for (int a = 0; a < (int) (sizeof answers / sizeof *answers); a++) {
    mc_device (&geom); mc_image_load (start_im[cfg]); uint64_t h0 = store_sig (); mc_uuid_ctr = 0x2000;
    snprintf (t1, 700, "%s\n%s", c1->text, answers[a]); Res r = parted (typed_opts (cfg), NULL, 0, t1);
    if (r.crashed || prompts (outb) != 2) continue;     /* asks for more, or the answer is one too many */
    uint64_t h1 = store_sig (); mc_image_load (start_im[cfg]); mc_uuid_ctr = 0x2000; snprintf (all, 1500, "%sversion\n", t1); parted (typed_opts (cfg), NULL, 0, all);
    if (prompts (outb) != 3) continue;                           /* a question took it */
    mc_image_load (start_im[cfg]); mc_uuid_ctr = 0x2000; parted (typed_opts (cfg), NULL, 0, t1);
    if (store_sig () != h1) mc_fail ("session-repeat", "%s: '%s' gives different results", cfgs[cfg].name, t1);
    bool changed = h1 != h0; McImage *mid = mc_image_save ();
    if (changed && (!mc_thorough || !strncmp (cfgs[cfg].name, "amiga", 5) || !strncmp (cfgs[cfg].name, "atari", 5))) { mc_image_free (mid); continue; }
    mc_count ("commands after which another is typed", 1); mc_nontrivial (mc_hash (t1, strlen (t1), cfg));
    for (int k = 0; k < nalph[cfg]; k++) {
      const Cmd *c2 = &cmds[alph[cfg][k]]; typed_line (t2, c2);
      if (!memo[k] || changed) {
        mc_image_load (mid); mc_uuid_ctr = 0x3000; parted (typed_opts (cfg), NULL, 0, t2); result (&want);
        free (memo[k]); memo[k] = changed ? NULL : strdup (want.s);
      }
      const char *w = changed ? want.s : memo[k];
      mc_image_load (start_im[cfg]); mc_uuid_ctr = 0x2000; snprintf (all, 1500, "%s%s", t1, t2); r = parted (typed_opts (cfg), NULL, 0, all);
      mc_count ("pairs of commands", 1);
      if (r.crashed) mc_fail (r.hung ? "session-hang" : "session-crash", "%s: typing '%s' crashes\n%.600s\n%.2500s", cfgs[cfg].name, all, outb, errb);
      result (&got);
      if (strcmp (w, got.s)) mc_fail ("session", "%s: '%s', typed after '%s', gives another result than on its own\nalone %.900s\nafter %.900s\n%.600s", cfgs[cfg].name, c2->text, t1, w, got.s, outb);
    }
    mc_image_free (mid); if (changed) for (int k = 0; k < NCMD; k++) { free (memo[k]); memo[k] = NULL; }
  }
  for (int k = 0; k < NCMD; k++) free (memo[k]);
}
static void pairs_describe (long i, FILE *f) { fprintf (f, "%s: at the prompt, '%s' and then another", cfgs[i / NCMD].name, cmds[i % NCMD].text); }
#include "cli_print.h"
int main (int argc, char **argv)
{
  setlocale (LC_ALL, "");
  mc_setup (argc, argv);
  for (int i = 1; i + 1 < argc; i++) if (!strcmp (argv[i], "--depth")) depth = atoi (argv[i + 1]);
  for (int i = 0; i < NCFG; i++) setup (i);
  if (!strcmp (mc_prop ? mc_prop : "", "P22")) return p22_main (argc, argv);
  for (int i = 1; i < argc; i++) { if (!strcmp (argv[i], "--thorough")) mc_thorough = 1; if (!strcmp (argv[i], "--pairs")) { McSweep w = { .prop = "P21", .n = (long) NCFG * NCMD, .run = pairs, .describe = pairs_describe }; return mc_sweep (&w, argc, argv); } }
  McModel m = { "P21", NCFG, cname, depth_of, op_n, run, describe };
  return mc_explore (&m, argc, argv);
}
