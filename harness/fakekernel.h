/* A stand-in for the Linux kernel and libdevmapper/libblkid, as seen by
   libparted/arch/linux.c.  The linker's --wrap sends every kernel entry point
   here; names and descriptors that are not the fake device's go to the real
   one.  No real device is ever opened. */
#include <config.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <unistd.h>
#include <linux/blkpg.h>
#include <linux/fs.h>
#include <linux/hdreg.h>
#include <parted/parted.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <libdevmapper.h>
#include <blkid/blkid.h>
typedef long long L;
#ifndef SCSI_IOCTL_GET_IDLUN
#define SCSI_IOCTL_GET_IDLUN 0x5382
#endif
#define FK_MAXP 80
#define FD0 10000
typedef struct { bool present, busy, mounted; L start, len; } KPart;      /* 512-byte units */
typedef struct {
  const char *path, *base, *sep;   /* "/dev/sdx", "sdx", "" */
  int major, minor, ss, phys; bool sysfs, dm; int ext_range;  /* ext_range<0: no such file */
  L bytes; const char *dmtype, *dmuuid, *model, *vendor, *sdtype, *name; bool idlun_fails, blksszget_fails, getsize64_fails;
  bool file; unsigned long io_min, io_opt, io_off; bool topo;
  int ident; bool hdgeo;
} FDev;
static FDev fk; static KPart kp[FK_MAXP + 1];
/* descriptors */
#define FK_NFD 32
static struct { bool used; int num; int mode; L pos; } ffd[FK_NFD];
static int fk_nfiles, fk_ntasks, fk_nprobes, fk_ndirs; static long fk_badfd;
static FILE *fk_fp[16];
/* history of what was asked of the kernel */
typedef struct { char what; int num; int err; } KOp;        /* A add D del R resize F flush f fsync o open-for-write */
static KOp kop[4096]; static int nkop;
static void klog (char w, int n, int e) { if (nkop < 4096) kop[nkop++] = (KOp) { w, n, e }; }
/* faults: the call numbered fk_fail_at (1-based) among those counted fails */
static long fk_calls, fk_fail_at; static int fk_fail_errno; static bool fk_sticky, fk_fired; static int fk_mask = -1; static char fk_what[40];
enum { C_BLKPG = 1, C_QUERY = 2, C_DM = 4, C_OPEN = 8, C_FSYNC = 16, C_CLOSE = 32, C_PROBE = 64 };
static bool fault (int cls, const char *what)
{
  if (!(cls & fk_mask)) return false;
  fk_calls++;
  if (fk_fail_at && (fk_calls == fk_fail_at || (fk_sticky && fk_calls > fk_fail_at))) { if (!fk_fired) snprintf (fk_what, 40, "%s", what); fk_fired = true; errno = fk_fail_errno; return true; }
  return false;
}
/* content model for whole-device I/O; set by the I/O harness */
static ssize_t (*fk_read) (int fd, void *buf, size_t n);
static ssize_t (*fk_write) (int fd, const void *buf, size_t n);
static int (*fk_seek) (int fd, L pos);                     /* 0 ok, else -1 */
static int (*fk_openhook) (int num, int flags);            /* errno to fail with, or 0 */
static int (*fk_fsynchook) (int num), (*fk_closehook) (int num);

int __real_open (const char *, int, ...); int __real_close (int); ssize_t __real_read (int, void *, size_t); ssize_t __real_write (int, const void *, size_t);
off_t __real_lseek (int, off_t, int); int __real_fsync (int); int __real_fdatasync (int); int __real_ioctl (int, unsigned long, ...);
FILE *__real_fopen (const char *, const char *); int __real_fclose (FILE *); int __real_stat (const char *, struct stat *); int __real_fstat (int, struct stat *); int __real_lstat (const char *, struct stat *);
int __real_access (const char *, int); DIR *__real_opendir (const char *); struct dirent *__real_readdir (DIR *); int __real_closedir (DIR *);
ssize_t __real_pread (int, void *, size_t, off_t); ssize_t __real_pwrite (int, const void *, size_t, off_t);

/* number of the device a path names: 0 whole, n partition, -1 no such file, -2 not ours */
static int fk_lookup (const char *p)
{
  if (fk.path && !strcmp (p, fk.path)) return 0;
  size_t n = fk.path ? strlen (fk.path) : 0;
  if (n && !strncmp (p, fk.path, n) && !strncmp (p + n, fk.sep, strlen (fk.sep))) {
    const char *q = p + n + strlen (fk.sep); char *e; if (*q >= '1' && *q <= '9') { long v = strtol (q, &e, 10); if (!*e && v <= FK_MAXP) return kp[v].present ? (int) v : -1; }
  }
  if (!strncmp (p, "/dev/", 5) || !strncmp (p, "/sys/", 5)) return -1;
  return -2;
}
static int newfd (int num, int mode) { for (int i = 0; i < FK_NFD; i++) if (!ffd[i].used) { ffd[i].used = true; ffd[i].num = num; ffd[i].mode = mode; ffd[i].pos = 0; return FD0 + i; } errno = EMFILE; return -1; }
static bool isfake (int fd) { return fd >= FD0 && fd < FD0 + FK_NFD; }
static bool live (int fd) { if (isfake (fd) && ffd[fd - FD0].used) return true; fk_badfd++; errno = EBADF; return false; }
static int fk_openfds (int num) { int c = 0; for (int i = 0; i < FK_NFD; i++) c += ffd[i].used && (num < 0 || ffd[i].num == num); return c; }
#define NFD_PROC 1000
static char procdev[300];
static int fk_open (const char *p, int flags)
{
  if (!strcmp (p, "/proc/devices")) return newfd (NFD_PROC, flags);
  int n = fk_lookup (p);
  if (n == -1) { errno = ENOENT; return -1; }
  int e = fk_openhook ? fk_openhook (n, flags) : 0;
  if (e) { errno = e; return -1; }
  if (fault (C_OPEN, "open")) return -1;
  if (n > 0 && (flags & O_EXCL) && kp[n].busy) { errno = EBUSY; return -1; }
  int acc = flags & O_ACCMODE; if (acc != O_RDONLY && n >= 0) klog ('o', n, 0);
  return newfd (n, flags);
}
int __wrap_open (const char *p, int flags, ...)
{
  va_list a; va_start (a, flags); int mode = va_arg (a, int); va_end (a);
  if (strcmp (p, "/proc/devices") && fk_lookup (p) == -2) return __real_open (p, flags, mode);
  return fk_open (p, flags);
}
int __wrap_open64 (const char *p, int flags, ...) { va_list a; va_start (a, flags); int mode = va_arg (a, int); va_end (a); return __wrap_open (p, flags, mode); }
int __wrap___open_2 (const char *p, int flags) { return __wrap_open (p, flags, 0); }
int __wrap___open64_2 (const char *p, int flags) { return __wrap_open (p, flags, 0); }
int __wrap_close (int fd)
{
  if (!isfake (fd) && fd != -1) return __real_close (fd);
  if (!live (fd)) return -1;
  int num = ffd[fd - FD0].num; ffd[fd - FD0].used = false;        /* Linux frees the descriptor whatever close returns */
  if (num < NFD_PROC) { int e = fk_closehook ? fk_closehook (num) : 0; if (e) { errno = e; return -1; } if (fault (C_CLOSE, "close")) return -1; }
  return 0;
}
static ssize_t fk_doread (int fd, void *b, size_t n)
{
  if (!live (fd)) return -1;
  int i = fd - FD0;
  if (ffd[i].num == NFD_PROC) { size_t l = strlen (procdev), o = ffd[i].pos; if (o >= l) return 0; if (n > l - o) n = l - o; if (n > 40) n = 40; memcpy (b, procdev + o, n); ffd[i].pos += n; return n; }
  ssize_t r = fk_read ? fk_read (i, b, n) : (memset (b, 0, n), (ssize_t) n);
  if (r > 0) ffd[i].pos += r;
  return r;
}
static ssize_t fk_dowrite (int fd, const void *b, size_t n)
{
  if (!live (fd)) return -1;
  int i = fd - FD0; if ((ffd[i].mode & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  ssize_t r = fk_write ? fk_write (i, b, n) : (ssize_t) n;
  if (r > 0) ffd[i].pos += r;
  return r;
}
ssize_t __wrap_read (int fd, void *b, size_t n) { return isfake (fd) || fd == -1 ? fk_doread (fd, b, n) : __real_read (fd, b, n); }
ssize_t __wrap___read_chk (int fd, void *b, size_t n, size_t bl) { if (n > bl) abort (); return __wrap_read (fd, b, n); }
ssize_t __wrap_write (int fd, const void *b, size_t n) { return isfake (fd) || fd == -1 ? fk_dowrite (fd, b, n) : __real_write (fd, b, n); }
off_t __wrap_lseek (int fd, off_t o, int w)
{
  if (!isfake (fd) && fd != -1) return __real_lseek (fd, o, w);
  if (!live (fd)) return -1;
  int i = fd - FD0; L p = w == SEEK_SET ? o : w == SEEK_CUR ? ffd[i].pos + o : fk.bytes + o;
  if (fk_seek && fk_seek (i, p)) return -1;
  if (p < 0) { errno = EINVAL; return -1; }
  return ffd[i].pos = p;
}
off_t __wrap_lseek64 (int fd, off_t o, int w) { return __wrap_lseek (fd, o, w); }
ssize_t __wrap_pread (int fd, void *b, size_t n, off_t o)
{
  if (!isfake (fd) && fd != -1) return __real_pread (fd, b, n, o);
  if (!live (fd)) return -1;
  L s = ffd[fd - FD0].pos; if (fk_seek && fk_seek (fd - FD0, o)) return -1;
  ffd[fd - FD0].pos = o; ssize_t r = fk_doread (fd, b, n); ffd[fd - FD0].pos = s; return r;
}
ssize_t __wrap_pwrite (int fd, const void *b, size_t n, off_t o)
{
  if (!isfake (fd) && fd != -1) return __real_pwrite (fd, b, n, o);
  if (!live (fd)) return -1;
  L s = ffd[fd - FD0].pos; if (fk_seek && fk_seek (fd - FD0, o)) return -1;
  ffd[fd - FD0].pos = o; ssize_t r = fk_dowrite (fd, b, n); ffd[fd - FD0].pos = s; return r;
}
ssize_t __wrap_pread64 (int fd, void *b, size_t n, off_t o) { return __wrap_pread (fd, b, n, o); }
ssize_t __wrap_pwrite64 (int fd, const void *b, size_t n, off_t o) { return __wrap_pwrite (fd, b, n, o); }
ssize_t __wrap___pread_chk (int fd, void *b, size_t n, off_t o, size_t bl) { if (n > bl) abort (); return __wrap_pread (fd, b, n, o); }
ssize_t __wrap___pread64_chk (int fd, void *b, size_t n, off_t o, size_t bl) { if (n > bl) abort (); return __wrap_pread (fd, b, n, o); }
int __wrap_fsync (int fd)
{
  if (!isfake (fd) && fd != -1) return __real_fsync (fd);
  if (!live (fd)) return -1;
  int num = ffd[fd - FD0].num, e = fk_fsynchook ? fk_fsynchook (num) : 0; if (e) { errno = e; return -1; }
  if (fault (C_FSYNC, "fsync")) return -1;
  klog ('f', num, 0);
  return 0;
}
int __wrap_fdatasync (int fd) { return isfake (fd) || fd == -1 ? __wrap_fsync (fd) : __real_fdatasync (fd); }
static bool kp_overlap (int self, L s, L l) { for (int i = 1; i <= FK_MAXP; i++) if (i != self && kp[i].present && s < kp[i].start + kp[i].len && kp[i].start < s + l) return true; return false; }
static int fk_blkpg (struct blkpg_ioctl_arg *a)
{
  struct blkpg_partition *p = a->data; int n = p->pno; L s = p->start / 512, l = p->length / 512; int e = 0;
  char op = a->op == BLKPG_ADD_PARTITION ? 'A' : a->op == BLKPG_DEL_PARTITION ? 'D' : a->op == BLKPG_RESIZE_PARTITION ? 'R' : '?';
  if (a->datalen < (int) sizeof *p) { errno = EINVAL; return -1; }
  if (n <= 0) e = EINVAL;
  else if (op == 'D') e = n > FK_MAXP || !kp[n].present ? ENXIO : kp[n].busy ? EBUSY : 0;
  else if (op == 'A' || op == 'R') {
    if (p->start < 0 || p->length <= 0 || p->start % fk.ss || p->length % fk.ss || p->start + p->length > fk.bytes) e = EINVAL;
    else if (op == 'A') e = n > FK_MAXP || (fk.ext_range > 0 && n >= fk.ext_range) ? ENXIO : kp[n].present ? EBUSY : kp_overlap (n, s, l) ? EBUSY : 0;
    else e = n > FK_MAXP || !kp[n].present ? ENXIO : kp[n].start != s ? EINVAL : kp_overlap (n, s, l) ? EBUSY : 0;
  } else e = EINVAL;
  char w[40]; snprintf (w, 40, "BLKPG %c %d", op, n);
  if (fault (C_BLKPG, w)) { e = errno; klog (op, n, e); errno = e; return -1; }
  klog (op, n, e);
  if (e) { errno = e; return -1; }
  if (op == 'D') kp[n].present = false;
  else { if (op == 'A') kp[n] = (KPart) { true }; kp[n].start = s; kp[n].len = l; }
  return 0;
}
int __wrap_ioctl (int fd, unsigned long req, ...)
{
  va_list va; va_start (va, req); void *arg = va_arg (va, void *); va_end (va);
  if (!isfake (fd) && fd != -1) return __real_ioctl (fd, req, arg);
  if (!live (fd)) return -1;
  int num = ffd[fd - FD0].num;
  if (num < 0 || num >= NFD_PROC) { errno = ENOTTY; return -1; }
  switch (req) {
  case BLKFLSBUF: klog ('F', num, 0); return 0;
  case BLKPG: if (num) { errno = EINVAL; return -1; } return fk_blkpg (arg);
  case BLKSSZGET: if (fk.blksszget_fails || fault (C_PROBE, "BLKSSZGET")) { errno = EIO; return -1; } *(int *) arg = fk.ss; return 0;
  case BLKGETSIZE64: if (fk.getsize64_fails) { errno = ENOTTY; return -1; } if (fault (num ? C_QUERY : C_PROBE, "BLKGETSIZE64")) return -1; *(uint64_t *) arg = num ? (uint64_t) kp[num].len * 512 : (uint64_t) fk.bytes; return 0;
  case BLKGETSIZE: if (fault (num ? C_QUERY : C_PROBE, "BLKGETSIZE")) return -1; *(unsigned long *) arg = num ? kp[num].len : fk.bytes / 512; return 0;
  case HDIO_GETGEO: {
    if (fault (num ? C_QUERY : C_PROBE, "HDIO_GETGEO")) return -1;
    if (!fk.hdgeo) { errno = ENOTTY; return -1; }
    struct hd_geometry *g = arg; memset (g, 0, sizeof *g); g->heads = 255; g->sectors = 63; g->cylinders = fk.bytes / 512 / 255 / 63; g->start = num ? kp[num].start : 0; return 0; }
  case HDIO_GET_IDENTITY: if (fk.ident == 0) { errno = EINVAL; return -1; } if (fk.ident == 1) { errno = EIO; return -1; } { struct hd_driveid *h = arg; memset (h, 0, sizeof *h); memcpy (h->model, "WDC  WD1234 Some Model Of A Disk        ", 40); ((uint16_t *) arg)[106] = fk.ident == 3 ? 0x6003 : 0; return 0; }
  case SCSI_IOCTL_GET_IDLUN: if (fk.idlun_fails || fault (C_PROBE, "SCSI_IOCTL_GET_IDLUN")) { errno = EIO; return -1; } ((uint32_t *) arg)[0] = 0x20000; ((uint32_t *) arg)[1] = 7; return 0;
  }
  errno = ENOTTY; return -1;
}
static FILE *fk_file (const char *text)
{
  if (fault (C_QUERY, "sysfs")) return NULL;
  FILE *f = *text ? fmemopen ((void *) text, strlen (text), "r") : __real_fopen ("/dev/null", "r");
  for (int i = 0; f && i < 16; i++) if (!fk_fp[i]) { fk_fp[i] = f; fk_nfiles++; break; }
  return f;
}
FILE *__wrap_fopen (const char *p, const char *m)
{
  static char buf[FK_MAXP * 40 + 100]; *buf = 0;
  if (!strcmp (p, "/proc/mounts")) {
    int k = 0; for (int i = 1; i <= FK_MAXP; i++) if (kp[i].present && kp[i].mounted) k += sprintf (buf + k, "%s%s%d /mnt/%d ext4 rw 0 0\n", fk.path, fk.sep, i, i);
    return fk_file (buf);
  }
  if (!strcmp (p, "/proc/swaps")) return fk_file ("Filename Type Size Used Priority\n");
  if (!strcmp (p, "/etc/mtab") || !strcmp (p, "/proc/partitions")) { errno = ENOENT; return NULL; }
  if (!strncmp (p, "/sys/block/", 11)) {
    const char *q = p + 11; size_t n = fk.base ? strlen (fk.base) : 0; errno = ENOENT;
    if (!n || !fk.sysfs || strncmp (q, fk.base, n) || q[n] != '/') return NULL;
    q += n + 1;
    const char *v = NULL;
    if (!strcmp (q, "ext_range")) { if (fk.ext_range < 0) return NULL; sprintf (buf, "%d\n", fk.ext_range); return fk_file (buf); }
    if (!strcmp (q, "device/vendor")) v = fk.vendor; else if (!strcmp (q, "device/model")) v = fk.model; else if (!strcmp (q, "device/type")) v = fk.sdtype; else if (!strcmp (q, "device/name")) v = fk.name;
    if (v) { sprintf (buf, "%s\n", v); return fk_file (buf); }
    size_t sn = strlen (fk.sep);
    if (!strncmp (q, fk.base, n) && !strncmp (q + n, fk.sep, sn)) {
      char *e; long num = strtol (q + n + sn, &e, 10);
      if (num > 0 && num <= FK_MAXP && kp[num].present) {
        if (!strcmp (e, "/start")) { sprintf (buf, "%lld\n", kp[num].start); return fk_file (buf); }
        if (!strcmp (e, "/size")) { sprintf (buf, "%lld\n", kp[num].len); return fk_file (buf); }
      }
    }
    return NULL;
  }
  return __real_fopen (p, m);
}
FILE *__wrap_fopen64 (const char *p, const char *m) { return __wrap_fopen (p, m); }
int __wrap_fclose (FILE *f) { for (int i = 0; i < 16; i++) if (fk_fp[i] == f) { fk_fp[i] = NULL; fk_nfiles--; break; } return __real_fclose (f); }
static int fk_stat (int n, struct stat *st)
{
  memset (st, 0, sizeof *st);
  if (fk.file && n == 0) { st->st_mode = S_IFREG | 0644; st->st_size = fk.bytes; return 0; }
  st->st_mode = S_IFBLK | 0660; st->st_rdev = makedev (fk.major, fk.minor + n); return 0;
}
int __wrap_stat (const char *p, struct stat *st)
{
  int n = fk_lookup (p); if (n == -2) return __real_stat (p, st);
  if (n == -1) { errno = ENOENT; return -1; }
  if (n == 0 && fault (C_PROBE, "stat")) return -1;
  return fk_stat (n, st);
}
int __wrap_stat64 (const char *p, struct stat *st) { return __wrap_stat (p, st); }
int __wrap_lstat (const char *p, struct stat *st) { return fk_lookup (p) == -2 ? __real_lstat (p, st) : __wrap_stat (p, st); }
int __wrap_fstat (int fd, struct stat *st) { if (!isfake (fd)) return __real_fstat (fd, st); if (!live (fd)) return -1; return fk_stat (ffd[fd - FD0].num, st); }
int __wrap_access (const char *p, int m) { int n = fk_lookup (p); if (n == -2) return __real_access (p, m); if (n == -1) { errno = ENOENT; return -1; } return 0; }
/* directories: fk_dirs is a NULL-terminated list of (directory, entry) pairs */
static const char *fk_dirs[64][2];
static struct { bool used; int pos; char name[32]; struct dirent de; } fk_dir[4];
DIR *__wrap_opendir (const char *p)
{
  if (strcmp (p, "/dev/mapper") && strcmp (p, "/sys/block")) return __real_opendir (p);
  bool any = false; for (int i = 0; fk_dirs[i][0]; i++) any |= !strcmp (fk_dirs[i][0], p);
  if (!any) { errno = ENOENT; return NULL; }
  for (int i = 0; i < 4; i++) if (!fk_dir[i].used) { fk_dir[i].used = true; fk_dir[i].pos = 0; snprintf (fk_dir[i].name, 32, "%s", p); fk_ndirs++; return (DIR *) &fk_dir[i]; }
  errno = EMFILE; return NULL;
}
#define ISDIR(d) ((char *) (d) >= (char *) fk_dir && (char *) (d) < (char *) (fk_dir + 4))
struct dirent *__wrap_readdir (DIR *d)
{
  if (!ISDIR (d)) return __real_readdir (d);
  int i = ((char *) d - (char *) fk_dir) / sizeof fk_dir[0];
  while (fk_dirs[fk_dir[i].pos][0]) { int k = fk_dir[i].pos++; if (!strcmp (fk_dirs[k][0], fk_dir[i].name)) { strcpy (fk_dir[i].de.d_name, fk_dirs[k][1]); return &fk_dir[i].de; } }
  return NULL;
}
struct dirent *__wrap_readdir64 (DIR *d) { return __wrap_readdir (d); }
int __wrap_closedir (DIR *d) { if (!ISDIR (d)) return __real_closedir (d); fk_dir[((char *) d - (char *) fk_dir) / sizeof fk_dir[0]].used = false; fk_ndirs--; return 0; }
static long fk_slept; int __wrap_usleep (useconds_t u) { fk_slept += u; return 0; }
int __wrap_nanosleep (const struct timespec *a, struct timespec *b) { (void) a; (void) b; fk_slept++; return 0; }

/* ---- device mapper ---- */
typedef struct { int type, num; bool known; char name[64], uuid[64]; L tlen, tstart; char ttype[16], params[64]; uint64_t s; struct { struct dm_deps d; uint64_t x[1]; } deps; } Task;
static bool dm_reload_pending[FK_MAXP + 1]; static L dm_rs[FK_MAXP + 1], dm_rl[FK_MAXP + 1];
static const char *dmbase (void) { return strrchr (fk.path, '/') + 1; }
static void t_resolve (Task *t, const char *name)
{
  const char *b = strrchr (name, '/'); b = b ? b + 1 : name; snprintf (t->name, 64, "%s", b);
  size_t n = strlen (dmbase ()); char *e;
  t->known = false; t->num = -1;
  if (strncmp (b, dmbase (), n)) return;
  if (!b[n]) { t->num = 0; t->known = true; return; }
  if (strncmp (b + n, fk.sep, strlen (fk.sep))) return;
  long v = strtol (b + n + strlen (fk.sep), &e, 10); if (*e || v < 1 || v > FK_MAXP) return;
  t->num = v; t->known = true;
}
struct dm_task *__wrap_dm_task_create (int type) { if (fault (C_DM, "dm_task_create")) return NULL; Task *t = calloc (1, sizeof *t); t->type = type; t->num = -1; fk_ntasks++; return (struct dm_task *) t; }
void __wrap_dm_task_destroy (struct dm_task *x) { fk_ntasks--; free (x); }
int __wrap_dm_task_set_name (struct dm_task *x, const char *n) { t_resolve ((Task *) x, n); return 1; }
int __wrap_dm_task_set_uuid (struct dm_task *x, const char *n) { snprintf (((Task *) x)->uuid, 64, "%s", n); return 1; }
int __wrap_dm_task_set_major_minor (struct dm_task *x, int ma, int mi, int fb) { (void) fb; Task *t = (Task *) x; if (ma == fk.major && mi >= fk.minor && mi <= fk.minor + FK_MAXP) { t->num = mi - fk.minor; t->known = true; if (t->num) snprintf (t->name, 64, "%s%s%d", dmbase (), fk.sep, t->num); else snprintf (t->name, 64, "%s", dmbase ()); } return 1; }
int __wrap_dm_task_add_target (struct dm_task *x, uint64_t s, uint64_t l, const char *ty, const char *pa) { Task *t = (Task *) x; t->s = s; t->tlen = l; snprintf (t->ttype, 16, "%s", ty); snprintf (t->params, 64, "%s", pa); int a, b; long long c; if (sscanf (pa, "%d:%d %lld", &a, &b, &c) != 3 || a != fk.major || b != fk.minor) return 0; t->tstart = c; return 1; }
int __wrap_dm_task_set_cookie (struct dm_task *x, uint32_t *c, uint16_t f) { (void) x; (void) f; *c = 77; return 1; }
int __wrap_dm_task_no_open_count (struct dm_task *x) { (void) x; return 1; }
int __wrap_dm_task_retry_remove (struct dm_task *x) { (void) x; return 1; }
int __wrap_dm_task_update_nodes (void) { return 1; }
int __wrap_dm_udev_wait (uint32_t c) { (void) c; return 1; }
void __wrap_dm_udev_set_sync_support (int s) { (void) s; }
int __wrap_dm_set_dev_dir (const char *d) { (void) d; return 1; }
int __wrap_dm_task_run (struct dm_task *x)
{
  Task *t = (Task *) x; char w[40]; int n = t->num, e = 0; char op = 0;
  snprintf (w, 40, "dm task %d on %s", t->type, t->name);
  switch (t->type) {
  case DM_DEVICE_CREATE: op = 'A'; e = n < 1 || kp[n].present ? EBUSY : t->tlen <= 0 || t->tstart < 0 || (t->tstart + t->tlen) * 512 > fk.bytes || t->tstart * 512 % fk.ss || t->tlen * 512 % fk.ss || t->s ? EINVAL : 0; break;
  case DM_DEVICE_REMOVE: op = 'D'; e = n < 1 || !kp[n].present ? ENXIO : kp[n].busy ? EBUSY : 0; break;
  case DM_DEVICE_RELOAD: op = 'r'; e = n < 1 || !kp[n].present ? ENXIO : t->tlen <= 0 || (t->tstart + t->tlen) * 512 > fk.bytes ? EINVAL : 0; break;
  case DM_DEVICE_RESUME: op = 'R'; e = n < 1 || !kp[n].present ? ENXIO : 0; break;
  default: e = n < 0 || (n > 0 && !kp[n].present) ? ENXIO : 0;
  }
  if (fault (C_DM, w)) { if (op) klog (op, n, errno); return 0; }
  if (op) klog (op, n, e);
  if (e) { errno = e; return 0; }
  switch (t->type) {
  case DM_DEVICE_CREATE: kp[n] = (KPart) { .present = true, .start = t->tstart, .len = t->tlen }; dm_reload_pending[n] = false; break;
  case DM_DEVICE_REMOVE: kp[n].present = false; break;
  case DM_DEVICE_RELOAD: dm_reload_pending[n] = true; dm_rs[n] = t->tstart; dm_rl[n] = t->tlen; break;
  case DM_DEVICE_RESUME: if (dm_reload_pending[n]) { kp[n].start = dm_rs[n]; kp[n].len = dm_rl[n]; dm_reload_pending[n] = false; } break;
  }
  return 1;
}
const char *__wrap_dm_task_get_name (const struct dm_task *x) { return ((Task *) x)->name; }
const char *__wrap_dm_task_get_uuid (const struct dm_task *x) { return ((Task *) x)->num == 0 && fk.dmuuid ? fk.dmuuid : ((Task *) x)->uuid; }
int __wrap_dm_task_get_info (struct dm_task *x, struct dm_info *i) { memset (i, 0, sizeof *i); i->exists = ((Task *) x)->num >= 0; return 1; }
int __wrap_dm_task_get_info_with_deferred_remove (struct dm_task *x, struct dm_info *i) { return __wrap_dm_task_get_info (x, i); }
struct dm_deps *__wrap_dm_task_get_deps (struct dm_task *x) { Task *t = (Task *) x; t->deps.d.count = 1; t->deps.x[0] = t->num > 0 ? makedev (fk.major, fk.minor) : makedev (8, 0); return &t->deps.d; }
void *__wrap_dm_get_next_target (struct dm_task *x, void *next, uint64_t *s, uint64_t *l, char **ty, char **pa)
{
  Task *t = (Task *) x; (void) next; *s = 0;
  if (t->num > 0) { *l = kp[t->num].len; strcpy (t->ttype, "linear"); snprintf (t->params, 64, "%d:%d %lld", fk.major, fk.minor, kp[t->num].start); }
  else { *l = fk.bytes / 512; snprintf (t->ttype, 16, "%s", fk.dmtype ? fk.dmtype : ""); snprintf (t->params, 64, "8:0 0"); }
  *ty = t->num == 0 && !fk.dmtype ? NULL : t->ttype; *pa = t->params; return NULL;
}
/* ---- blkid ---- */
static char fk_probe;
blkid_probe __wrap_blkid_new_probe (void) { if (fault (C_PROBE, "blkid_new_probe")) return NULL; fk_nprobes++; return (blkid_probe) malloc (1); }
int __wrap_blkid_probe_set_device (blkid_probe p, int fd, blkid_loff_t o, blkid_loff_t s) { (void) p; (void) o; (void) s; if (!live (fd)) return -1; return fault (C_PROBE, "blkid_probe_set_device") ? -1 : 0; }
blkid_topology __wrap_blkid_probe_get_topology (blkid_probe p) { (void) p; return fk.topo && !fault (C_PROBE, "blkid_probe_get_topology") ? (blkid_topology) &fk_probe : NULL; }
unsigned long __wrap_blkid_topology_get_alignment_offset (blkid_topology t) { (void) t; return fk.io_off; }
unsigned long __wrap_blkid_topology_get_minimum_io_size (blkid_topology t) { (void) t; return fk.io_min; }
unsigned long __wrap_blkid_topology_get_optimal_io_size (blkid_topology t) { (void) t; return fk.io_opt; }
unsigned long __wrap_blkid_topology_get_physical_sector_size (blkid_topology t) { (void) t; return fk.phys; }
void __wrap_blkid_free_probe (blkid_probe p) { fk_nprobes--; free (p); }

/* ---- exceptions ---- */
typedef struct { int type, opts, ans; char msg[400]; } FkExc;
static FkExc fexc[64]; static int nfexc; static int (*fk_answer) (PedException *);
static PedExceptionOption fk_handler (PedException *e)
{
  int a = fk_answer ? fk_answer (e) : (e->options & PED_EXCEPTION_CANCEL) ? PED_EXCEPTION_CANCEL : (e->options & PED_EXCEPTION_IGNORE) ? PED_EXCEPTION_IGNORE : (e->options & PED_EXCEPTION_OK) ? PED_EXCEPTION_OK : PED_EXCEPTION_UNHANDLED;
  if (nfexc < 64) { fexc[nfexc].type = e->type; fexc[nfexc].opts = e->options; fexc[nfexc].ans = a; snprintf (fexc[nfexc].msg, 400, "%s", e->message); nfexc++; }
  return a;
}
static void fk_reset_history (void) { nkop = 0; nfexc = 0; fk_calls = 0; fk_fired = false; fk_fail_at = 0; fk_slept = 0; fk_badfd = 0; *fk_what = 0; }
static int fk_leaks (char *why) { if (fk_openfds (-1)) { sprintf (why, "%d descriptors", fk_openfds (-1)); return 1; } if (fk_nfiles) { sprintf (why, "%d files", fk_nfiles); return 1; } if (fk_ntasks) { sprintf (why, "%d device-mapper tasks", fk_ntasks); return 1; } if (fk_ndirs) { sprintf (why, "%d directories", fk_ndirs); return 1; } return 0; }
static void fk_kernel_clear (void) { memset (kp, 0, sizeof kp); memset (dm_reload_pending, 0, sizeof dm_reload_pending); for (int i = 0; i < FK_NFD; i++) ffd[i].used = false; fk_nfiles = fk_ntasks = fk_nprobes = fk_ndirs = 0; memset (fk_fp, 0, sizeof fk_fp); for (int i = 0; i < 4; i++) fk_dir[i].used = false; }
enum { K_SD, K_SD4, K_CCISS, K_NVME, K_DM, K_DM0, K_DM4, NKIND };
static const char *fk_kname[NKIND] = { "SCSI disk, 512-byte sectors", "SCSI disk, 4096-byte sectors", "cciss array without sysfs", "NVMe disk", "device-mapper volume", "device-mapper volume ending in a digit", "device-mapper volume, 4096-byte sectors" };
static void fk_setup (int kind)
{
  memset (&fk, 0, sizeof fk); fk_kernel_clear (); fk_reset_history ();
  strcpy (procdev, "Character devices:\n  1 mem\n253 something\n\nBlock devices:\n  8 sd\n  9 md\n252 virtblk\n253 device-mapper\n259 blkext\n");
  fk.ss = fk.phys = 512; fk.sysfs = true; fk.ext_range = 16; fk.bytes = 4LL << 20; fk.sep = ""; fk.topo = true; fk.hdgeo = true; fk.vendor = "ACME    "; fk.model = "Disk  Model 1 "; fk.sdtype = "SD"; fk.name = "SC16G";
  switch (kind) {
  case K_SD4: fk.ss = fk.phys = 4096; fk.bytes = 32LL << 20; /* FALLTHROUGH */
  case K_SD: fk.path = "/dev/sdx"; fk.base = "sdx"; fk.major = 8; fk.minor = 0x20; break;
  case K_CCISS: fk.path = "/dev/cciss/c0d0"; fk.base = "c0d0"; fk.sep = "p"; fk.major = 104; fk.sysfs = false; fk.ext_range = -1; break;
  case K_NVME: fk.path = "/dev/nvme0n1"; fk.base = "nvme0n1"; fk.sep = "p"; fk.major = 259; break;
  case K_DM4: fk.ss = fk.phys = 4096; fk.bytes = 32LL << 20; /* FALLTHROUGH */
  case K_DM: fk.path = "/dev/mapper/vol"; fk.base = "vol"; fk.major = 253; fk.dm = true; fk.sysfs = false; fk.dmtype = "linear"; fk.dmuuid = "LVM-x"; break;
  case K_DM0: fk.path = "/dev/mapper/vol0"; fk.base = "vol0"; fk.sep = "p"; fk.major = 253; fk.dm = true; fk.sysfs = false; fk.dmtype = "multipath"; break;
  }
}
