#include <config.h>
#include "mc.h"
#include "architecture.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <stdatomic.h>
#include <uuid/uuid.h>

/* ------------------------------------------------------------------ */
McGeom mc_geom;
int mc_bg = -1;
McLog *mc_log; int mc_nlog; uint8_t *mc_logdata;
static size_t log_used, log_cap; static int log_ncap;
long mc_nread, mc_nwrite, mc_nsync, mc_io;
long mc_fail_io; int mc_fail_sticky; int mc_fail_mask = 7; long mc_oob; int mc_fault_fired, mc_fault_kind;
long mc_oscommits; int mc_busy_num;
long mc_opens, mc_closes, mc_ropens, mc_rcloses; int mc_open_fail, mc_close_fail;

/* sparse sector store: open addressing over sector numbers */
#define HB mc_store_bits
#define HSZ (1 << HB)
int mc_store_bits = 17;
static int32_t htab[1 << 20];        /* index into slots, -1 empty */
static PedSector *slot_sec; static uint8_t *slot_data; static int nslots, capslots;
static long long store_ss = 512;

static inline uint32_t hpos (PedSector s)
{ return (uint32_t) (((uint64_t) s * 0x9E3779B97F4A7C15ull) >> (64 - HB)); }

static int slot_find (PedSector s)
{
  uint32_t p = hpos (s);
  while (htab[p] >= 0) { if (slot_sec[htab[p]] == s) return htab[p]; p = (p + 1) & (HSZ - 1); }
  return -1;
}
void mc_store_clear (void)
{
  if (nslots > HSZ / 16) memset (htab, 0xff, sizeof htab);
  else for (int i = 0; i < nslots; i++) {
    uint32_t p = hpos (slot_sec[i]);
    /* clear the whole probe run */
    while (htab[p] >= 0) { htab[p] = -1; p = (p + 1) & (HSZ - 1); }
  }
  nslots = 0;
}
static int slot_new (PedSector s)
{
  if (nslots >= HSZ / 2) { fprintf (stderr, "mc: store full\n"); _exit (3); }
  if (nslots == capslots) {
    capslots = capslots ? capslots * 2 : 1024;
    slot_sec = realloc (slot_sec, capslots * sizeof *slot_sec);
    slot_data = realloc (slot_data, (size_t) capslots * store_ss);
  }
  uint32_t p = hpos (s);
  while (htab[p] >= 0) p = (p + 1) & (HSZ - 1);
  htab[p] = nslots; slot_sec[nslots] = s;
  return nslots++;
}
static void bg_fill (PedSector s, uint8_t *d)
{
  if (mc_bg < 0) { memset (d, 0, store_ss); return; }
  if (mc_bg >= 1000) {        /* every sector differs */
    for (int i = 0; i < store_ss / 8; i++) { uint64_t v = 0x9E3779B97F4A7C15ull * (uint64_t) (s + 1) + i; memcpy (d + i * 8, &v, 8); }
    return;
  }
  memset (d, (uint8_t) (0xA1 + mc_bg + s * 7), store_ss);
}
void mc_store_write (PedSector s, const void *data)
{
  int i = slot_find (s); if (i < 0) i = slot_new (s);
  memcpy (slot_data + (size_t) i * store_ss, data, store_ss);
}
void mc_store_read (PedSector s, void *data)
{
  int i = slot_find (s);
  if (i < 0) bg_fill (s, data); else memcpy (data, slot_data + (size_t) i * store_ss, store_ss);
}
bool mc_store_has (PedSector s) { return slot_find (s) >= 0; }
int mc_store_count (void) { return nslots; }
PedSector mc_store_sector (int i) { return slot_sec[i]; }
uint64_t mc_store_hash (void)
{
  uint64_t h = 0; uint8_t *b = alloca (store_ss);
  for (int i = 0; i < nslots; i++) {
    uint8_t *d = slot_data + (size_t) i * store_ss;
    bg_fill (slot_sec[i], b);
    if (!memcmp (b, d, store_ss)) continue;
    h += mc_hash (d, store_ss, 0x1234 + slot_sec[i]);
  }
  return h;
}
McImage *mc_image_save (void)
{
  McImage *m = malloc (sizeof *m);
  m->n = nslots; m->ss = store_ss;
  m->sec = malloc ((nslots + 1) * sizeof *m->sec); memcpy (m->sec, slot_sec, nslots * sizeof *m->sec);
  m->data = malloc ((size_t) nslots * store_ss + 1); memcpy (m->data, slot_data, (size_t) nslots * store_ss);
  return m;
}
void mc_image_load (const McImage *m)
{
  mc_store_clear ();
  for (int i = 0; i < m->n; i++) mc_store_write (m->sec[i], m->data + (size_t) i * m->ss);
}
void mc_image_free (McImage *m) { free (m->sec); free (m->data); free (m); }
bool mc_image_equal (const McImage *a, const McImage *b, PedSector *where)
{
  McImage *save = mc_image_save ();
  bool eq = true; uint8_t *x = alloca (a->ss), *y = alloca (a->ss);
  mc_image_load (b);
  for (int i = 0; i < a->n && eq; i++) {
    mc_store_read (a->sec[i], x);
    if (memcmp (x, a->data + (size_t) i * a->ss, a->ss)) { eq = false; if (where) *where = a->sec[i]; }
  }
  mc_image_load (a);
  for (int i = 0; i < b->n && eq; i++) {
    mc_store_read (b->sec[i], y);
    if (memcmp (y, b->data + (size_t) i * b->ss, b->ss)) { eq = false; if (where) *where = b->sec[i]; }
  }
  mc_image_load (save); mc_image_free (save);
  return eq;
}
static void log_add (int kind, PedSector s, PedSector n, const void *data)
{
  if (mc_nlog == log_ncap) { log_ncap = log_ncap ? log_ncap * 2 : 256; mc_log = realloc (mc_log, log_ncap * sizeof *mc_log); }
  McLog *l = &mc_log[mc_nlog++];
  l->kind = kind; l->start = s; l->count = n; l->off = log_used;
  if (data) {
    size_t need = (size_t) n * store_ss;
    if (log_used + need > log_cap) { log_cap = (log_used + need) * 2; mc_logdata = realloc (mc_logdata, log_cap); }
    memcpy (mc_logdata + log_used, data, need);
    log_used += need;
  }
}
void mc_io_reset (void)
{
  mc_nlog = 0; log_used = 0; mc_nread = mc_nwrite = mc_nsync = mc_io = 0; mc_oob = 0;
  mc_fail_io = 0; mc_fault_fired = 0;
}
static bool io_fault (int kind)
{
  if (!(mc_fail_mask & kind)) return false;
  mc_io++;
  if (mc_fail_io && (mc_io == mc_fail_io || (mc_fail_sticky && mc_io > mc_fail_io))) { mc_fault_fired++; if (!mc_fault_kind) mc_fault_kind = kind; return true; }
  return false;
}

PedSector mc_bad_sector = -1; int mc_bad_mask;
static bool bad_sector (int kind, PedSector s, PedSector n) { return (mc_bad_mask & kind) && s <= mc_bad_sector && mc_bad_sector < s + n; }
static PedDevice *a_new (const char *path)
{
  PedDevice *dev = calloc (1, sizeof *dev);
  dev->path = strdup (path); dev->model = strdup ("MC");
  dev->type = PED_DEVICE_FILE;
  dev->sector_size = mc_geom.ss; dev->phys_sector_size = mc_geom.phys; dev->length = mc_geom.length;
  PedCHSGeometry g = { .heads = mc_geom.heads, .sectors = mc_geom.sects };
  g.cylinders = mc_geom.length / (g.heads * g.sectors);
  dev->hw_geom = dev->bios_geom = g;
  dev->arch_specific = calloc (1, sizeof (McGeom)); *(McGeom *) dev->arch_specific = mc_geom;
  return dev;
}
static void a_destroy (PedDevice *dev) { free (dev->arch_specific); free (dev->path); free (dev->model); free (dev); }
static int a_busy (PedDevice *dev) { return 0; }
static int a_open (PedDevice *dev) { if (mc_open_fail) return 0; mc_opens++; return 1; }
static int a_ropen (PedDevice *dev) { mc_ropens++; return 1; }
static int a_close (PedDevice *dev) { mc_closes++; return !mc_close_fail; }
static int a_rclose (PedDevice *dev) { mc_rcloses++; return 1; }
static int ioerr (const char *what)
{
  PedExceptionOption o = ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_RETRY_IGNORE_CANCEL, "mc: I/O error during %s", what);
  if (o == PED_EXCEPTION_IGNORE) return 1;
  if (o == PED_EXCEPTION_UNHANDLED) ped_exception_catch ();
  return 0;
}
static int a_read (const PedDevice *dev, void *buf, PedSector s, PedSector n)
{
  long long ss = dev->sector_size, r = ss / store_ss;   /* a label may raise dev->sector_size */
  mc_nread++;
  if (mc_verbose > 1) fprintf (stderr, "    read %lld+%lld\n", s, n);
  if (io_fault (1) || bad_sector (1, s, n)) return ioerr ("read");
  s *= r; n *= r;
  if (s < 0 || n < 0 || s + n > mc_geom.length) { mc_oob++; return ioerr ("read past end"); }
  for (PedSector i = 0; i < n; i++) mc_store_read (s + i, (uint8_t *) buf + i * store_ss);
  return 1;
}
static int a_write (PedDevice *dev, const void *buf, PedSector s, PedSector n)
{
  long long ss = dev->sector_size, r = ss / store_ss;
  mc_nwrite++;
  if (mc_verbose > 1) fprintf (stderr, "    write %lld+%lld\n", s, n);
  if (io_fault (2) || bad_sector (2, s, n)) return ioerr ("write");
  s *= r; n *= r;
  if (s < 0 || n < 0 || s + n > mc_geom.length) { mc_oob++; return ioerr ("write past end"); }
  log_add (0, s, n, buf);
  for (PedSector i = 0; i < n; i++) mc_store_write (s + i, (const uint8_t *) buf + i * store_ss);
  return 1;
}
static PedSector a_check (PedDevice *dev, void *buf, PedSector s, PedSector n) { return n; }
static int a_sync (PedDevice *dev) { mc_nsync++; if (io_fault (4)) return ioerr ("sync"); log_add (1, 0, 0, NULL); return 1; }
static int a_syncf (PedDevice *dev) { mc_nsync++; if (io_fault (4)) return ioerr ("sync"); log_add (2, 0, 0, NULL); return 1; }
static void a_probe_all (void) {}
static PedAlignment *a_min (const PedDevice *dev)
{ McGeom *g = dev->arch_specific; return g->align_min ? ped_alignment_new (g->align_off, g->align_min) : NULL; }
static PedAlignment *a_opt (const PedDevice *dev)
{ McGeom *g = dev->arch_specific; return g->align_opt ? ped_alignment_new (g->align_off, g->align_opt) : NULL; }
static char *a_path (const PedPartition *p) { char b[64]; snprintf (b, 64, "%s%d", p->disk->dev->path, p->num); return strdup (b); }
static int a_pbusy (const PedPartition *p) { return mc_busy_num && p->num == mc_busy_num; }
int (*mc_tell) (PedDisk *);    /* stands for the kernel */
static int a_commit (PedDisk *d) { mc_oscommits++; return mc_tell ? mc_tell (d) : 1; }

static PedDeviceArchOps a_dev_ops = {
  ._new = a_new, .destroy = a_destroy, .is_busy = a_busy, .open = a_open, .refresh_open = a_ropen,
  .close = a_close, .refresh_close = a_rclose, .read = a_read, .write = a_write, .check = a_check,
  .sync = a_sync, .sync_fast = a_syncf, .probe_all = a_probe_all,
  .get_minimum_alignment = a_min, .get_optimum_alignment = a_opt };
static PedDiskArchOps a_disk_ops = { .partition_get_path = a_path, .partition_is_busy = a_pbusy, .disk_commit = a_commit };
static PedArchitecture a_arch = { .disk_ops = &a_disk_ops, .dev_ops = &a_dev_ops };

/* deterministic UUIDs */
unsigned mc_uuid_ctr;
void uuid_generate (uuid_t u) { memset (u, 0, 16); mc_uuid_ctr++; u[0] = 0xC0; u[6] = 0x40; u[8] = 0x80; u[12] = mc_uuid_ctr >> 24; u[13] = mc_uuid_ctr >> 16; u[14] = mc_uuid_ctr >> 8; u[15] = mc_uuid_ctr; }

PedDevice *mc_device_keep (const McGeom *g)
{
  ped_device_free_all ();
  mc_geom = *g;
  return ped_device_get ("/mc/disk");
}
PedDevice *mc_device (const McGeom *g)
{
  mc_store_clear ();
  if (g->ss != store_ss) { store_ss = g->ss; capslots = 0; free (slot_sec); free (slot_data); slot_sec = NULL; slot_data = NULL; }
  mc_io_reset ();
  mc_uuid_ctr = 0; mc_busy_num = 0;
  return mc_device_keep (g);
}

/* ------------------------------------------------------------------ */
int mc_ans = ANS_CANCEL, mc_ans_script[64], mc_ans_n, mc_ans_pos;
long mc_nexc; int mc_exc_type, mc_exc_opts, mc_exc_bug; char mc_exc_msg[512];
int mc_verbose;
static PedExceptionOption handler (PedException *e)
{
  mc_nexc++; mc_exc_type = e->type; mc_exc_opts = e->options;
  snprintf (mc_exc_msg, sizeof mc_exc_msg, "%s", e->message);
  if (e->type == PED_EXCEPTION_BUG) mc_exc_bug++;
  if (mc_verbose || e->type == PED_EXCEPTION_BUG) fprintf (stderr, "    exception type=%d opts=%x: %s\n", e->type, e->options, e->message);
  int o = e->options;
#define TRY(x) do { if (o & (x)) return (x); } while (0)
  switch (mc_ans) {
  case ANS_CANCEL: TRY (PED_EXCEPTION_CANCEL); TRY (PED_EXCEPTION_NO); break;
  case ANS_DECLINE: TRY (PED_EXCEPTION_CANCEL); TRY (PED_EXCEPTION_NO); TRY (PED_EXCEPTION_IGNORE); break;
  case ANS_NO: TRY (PED_EXCEPTION_NO); TRY (PED_EXCEPTION_CANCEL); break;
  case ANS_IGNORE: TRY (PED_EXCEPTION_IGNORE); TRY (PED_EXCEPTION_NO); TRY (PED_EXCEPTION_CANCEL); break;
  case ANS_FIX: TRY (PED_EXCEPTION_FIX); TRY (PED_EXCEPTION_YES); TRY (PED_EXCEPTION_OK); TRY (PED_EXCEPTION_IGNORE); break;
  case ANS_REPAIR: TRY (PED_EXCEPTION_FIX); TRY (PED_EXCEPTION_YES); TRY (PED_EXCEPTION_OK); TRY (PED_EXCEPTION_CANCEL); TRY (PED_EXCEPTION_NO); break;
  case ANS_UNHANDLED: return PED_EXCEPTION_UNHANDLED;
  case ANS_SCRIPT: {
    int k = mc_ans_pos < mc_ans_n ? mc_ans_script[mc_ans_pos] : 0; mc_ans_pos++;
    int nb = __builtin_popcount (o); k %= nb ? nb : 1;
    for (int b = 0; b < 8; b++) if (o & (1 << b)) { if (k-- == 0) return 1 << b; }
    return PED_EXCEPTION_UNHANDLED; }
  }
  for (int b = 0; b < 8; b++) if (o & (1 << b)) return 1 << b;
  return PED_EXCEPTION_UNHANDLED;
}

void mc_init (void)
{
  memset (htab, 0xff, sizeof htab);
  ped_architecture = &a_arch;
  ped_exception_set_handler (handler);
}

/* ------------------------------------------------------------------ */
uint64_t mc_hash (const void *p, size_t n, uint64_t seed)
{
  const uint8_t *b = p; uint64_t h = seed ^ 0xcbf29ce484222325ull;
  while (n >= 8) { uint64_t w; memcpy (&w, b, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; b += 8; n -= 8; }
  while (n--) { h = (h ^ *b++) * 0x100000001b3ull; }
  h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
  return h;
}
void mc_sreset (McStr *b) { b->n = 0; if (b->s) b->s[0] = 0; }
void mc_sprintf (McStr *b, const char *fmt, ...)
{
  va_list ap;
  for (;;) {
    va_start (ap, fmt);
    int r = b->cap ? vsnprintf (b->s + b->n, b->cap - b->n, fmt, ap) : -1;
    va_end (ap);
    if (r >= 0 && b->n + r < b->cap) { b->n += r; return; }
    b->cap = b->cap ? b->cap * 2 : 2048; b->s = realloc (b->s, b->cap);
  }
}

static void snap_part (const PedDisk *disk, PedPartition *p, McStr *o, int fl, int depth)
{
  const PedDiskType *t = disk->type;
  mc_sprintf (o, "%*s%d %s%s%s%s %lld-%lld", depth * 2, "", p->num,
      p->type & PED_PARTITION_LOGICAL ? "L" : "P", p->type & PED_PARTITION_EXTENDED ? "X" : "",
      p->type & PED_PARTITION_FREESPACE ? "free" : "", p->type & PED_PARTITION_METADATA ? "meta" : "",
      p->geom.start, p->geom.end);
  if (p->geom.length != p->geom.end - p->geom.start + 1) mc_sprintf (o, " len=%lld!", p->geom.length);
  if (ped_partition_is_active (p)) {
    if (!(fl & SNAP_NOFS)) mc_sprintf (o, " fs=%s", p->fs_type ? p->fs_type->name : "-");
    mc_sprintf (o, " fl=");
    for (PedPartitionFlag f = ped_partition_flag_next (0); f; f = ped_partition_flag_next (f))
      if (!(fl & SNAP_NOFLAGS) && ped_partition_is_flag_available (p, f) && ped_partition_get_flag (p, f))
        mc_sprintf (o, "%s,", ped_partition_flag_get_name (f));
    if (ped_disk_type_check_feature (t, PED_DISK_TYPE_PARTITION_NAME)) {
      const char *n = ped_partition_get_name (p);
      mc_sprintf (o, " name=[%s]", n ? n : "(null)");
    }
    if (ped_disk_type_check_feature (t, PED_DISK_TYPE_PARTITION_TYPE_ID))
      mc_sprintf (o, " id=%02x", ped_partition_get_type_id (p));
    if (ped_disk_type_check_feature (t, PED_DISK_TYPE_PARTITION_TYPE_UUID)) {
      uint8_t *u = ped_partition_get_type_uuid (p); char b[40];
      if (u) { uuid_unparse_lower (u, b); mc_sprintf (o, " tu=%s", b); free (u); }
    }
    if (!(fl & SNAP_NOUUID) && ped_disk_type_check_feature (t, PED_DISK_TYPE_PARTITION_UUID)) {
      uint8_t *u = ped_partition_get_uuid (p); char b[40];
      if (u) { uuid_unparse_lower (u, b); mc_sprintf (o, " uu=%s", b); free (u); }
    }
  }
  mc_sprintf (o, "\n");
}
void mc_snap (const PedDisk *disk, McStr *o, int fl)
{
  mc_sreset (o);
  mc_sprintf (o, "%s", disk->type->name);
  for (PedDiskFlag f = ped_disk_flag_next (0); f; f = ped_disk_flag_next (f))
    if (f != PED_DISK_CYLINDER_ALIGNMENT && ped_disk_is_flag_available (disk, f)) mc_sprintf (o, " %s=%d", ped_disk_flag_get_name (f), !!ped_disk_get_flag (disk, f));
  if (!(fl & SNAP_NOUUID) && ped_disk_type_check_feature (disk->type, PED_DISK_TYPE_DISK_UUID)) {
    uint8_t *u = ped_disk_get_uuid (disk); char b[40];
    if (u) { uuid_unparse_lower (u, b); mc_sprintf (o, " du=%s", b); free (u); }
  }
  mc_sprintf (o, "\n");
  for (PedPartition *p = disk->part_list; p; p = p->next) {
    if ((fl & SNAP_PLACEHOLDERS) || ped_partition_is_active (p)) snap_part (disk, p, o, fl, 0);
    for (PedPartition *q = p->part_list; q; q = q->next)
      if ((fl & SNAP_PLACEHOLDERS) || ped_partition_is_active (q)) snap_part (disk, q, o, fl, 1);
  }
}

/* ------------------------------------------------------------------ */
/* shared exploration state */
#define NCTR 48
#define NSAMP 12
#define NVIOL 64
typedef struct { char key[160]; char msg[4000]; McNode node; long idx; int crash; long hits; } Viol;
typedef struct {
  atomic_long next, frontier_n, out_n, states, transitions, execs, overflow;
  atomic_int lock;
  int nctr; char ctr_name[NCTR][48]; atomic_long ctr[NCTR];
  int nsamp; char samp[NSAMP][600];
  int nviol; Viol viol[NVIOL];
  int nkhit; char khit[NVIOL][160]; long khits[NVIOL]; char kmsg[NVIOL][600];
  atomic_long nontriv;
  McNode cur[64]; long curidx[64]; int curbusy[64]; struct timespec curt[64];
} Shared;
static Shared *S;
static uint64_t *visited; static size_t vmask;     /* shared hash set of state signatures */
static uint64_t *nontr; static size_t nmask;
static McNode *frontA, *frontB; static size_t front_cap;
static sigjmp_buf fail_jmp; static int in_run, in_worker; static int wid = -1;
static const McModel *M; static const McSweep *SW;
const char *mc_prop; int mc_thorough; const char *mc_opt = "";
static char known[256][160]; static int nknown;
static char *replay_file; static double time_limit = 0; static struct timespec t0;

static void lock (void) { int z = 0; while (!atomic_compare_exchange_weak (&S->lock, &z, 1)) { z = 0; usleep (50); } }
static void unlock (void) { atomic_store (&S->lock, 0); }

bool mc_is_known (const char *key) { for (int i = 0; i < nknown; i++) if (!strcmp (known[i], key)) return true; return false; }
void mc_count (const char *name, long n)
{
  for (int i = 0; i < S->nctr; i++) if (!strcmp (S->ctr_name[i], name)) { atomic_fetch_add (&S->ctr[i], n); return; }
  lock ();
  int i; for (i = 0; i < S->nctr; i++) if (!strcmp (S->ctr_name[i], name)) break;
  if (i == S->nctr && i < NCTR) { strncpy (S->ctr_name[i], name, 47); S->nctr++; }
  unlock ();
  if (i < NCTR) atomic_fetch_add (&S->ctr[i], n);
}
static bool set_add (uint64_t *tab, size_t mask, uint64_t h)
{
  if (!h) h = 1;
  size_t p = h & mask;
  for (size_t n = 0; n <= mask; n++) {
    uint64_t v = __atomic_load_n (&tab[p], __ATOMIC_RELAXED);
    if (v == h) return false;
    if (v == 0) { uint64_t z = 0; if (__atomic_compare_exchange_n (&tab[p], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true; if (z == h) return false; }
    p = (p + 1) & mask;
  }
  return true;
}
void mc_nontrivial (uint64_t h) { if (set_add (nontr, nmask, h)) atomic_fetch_add (&S->nontriv, 1); }
void mc_sample (const char *fmt, ...)
{
  if (S->nsamp >= NSAMP) return;
  lock ();
  if (S->nsamp < NSAMP) { va_list ap; va_start (ap, fmt); vsnprintf (S->samp[S->nsamp++], 600, fmt, ap); va_end (ap); }
  unlock ();
}
static int heaping, probing;   /* MC_PROBE: only whether exceptions still reach the handler is judged */
static void record_viol (const char *key, const char *msg, int crash)
{
  if (probing && !crash && strcmp (key, "exceptions-lost")) return;
  if (heaping && !crash && strncmp (key, "leak:", 5)) return;
  lock ();
  if (mc_is_known (key)) {
    int i; for (i = 0; i < S->nkhit; i++) if (!strcmp (S->khit[i], key)) break;
    if (i == S->nkhit && i < NVIOL) { snprintf (S->khit[i], 160, "%s", key); snprintf (S->kmsg[i], 600, "%s", msg); S->nkhit++; }
    if (i < NVIOL) S->khits[i]++;
  } else {
    int i; for (i = 0; i < S->nviol; i++) if (!strcmp (S->viol[i].key, key)) break;
    if (i == S->nviol && i < NVIOL) {
      Viol *v = &S->viol[i]; S->nviol++;
      snprintf (v->key, sizeof v->key, "%s", key); snprintf (v->msg, sizeof v->msg, "%s", msg);
      if (wid >= 0) { v->node = S->cur[wid]; v->idx = S->curidx[wid]; }
      v->crash = crash; v->hits = 1;
    } else if (i < NVIOL) S->viol[i].hits++;
  }
  unlock ();
}
static void mc_probe (void);
void mc_fail (const char *key, const char *fmt, ...)
{
  if (probing && in_run && strcmp (key, "exceptions-lost")) mc_probe ();
  static char b[4000]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap);
  record_viol (key, b, 0);
  if (!in_run) { fprintf (stderr, "mc_fail outside run: %s: %s\n", key, b); _exit (3); }
  if (in_worker) { if (!M) atomic_fetch_add (&S->execs, 1); fflush (NULL); _exit (98); }   /* library state is unknown from here on: restart the worker */
  siglongjmp (fail_jmp, 1);
}

static void reset_run (void)
{
  mc_ans = ANS_CANCEL; mc_ans_n = mc_ans_pos = 0; mc_fail_mask = 7; mc_fail_sticky = 0; mc_bg = -1;
  mc_open_fail = mc_close_fail = 0; mc_bad_sector = -1; mc_exc_bug = 0; mc_nexc = 0;
}
static bool out_of_time (void)
{
  if (time_limit <= 0) return false;
  struct timespec t; clock_gettime (CLOCK_MONOTONIC, &t);
  return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9 > time_limit;
}
/* MC_HEAP: only whether everything the library allocated is released is judged */
__attribute__ ((weak)) void mcl_begin (void); __attribute__ ((weak)) long mcl_end (char *, int, char *, int); __attribute__ ((weak)) long mcl_total (void);
__attribute__ ((weak)) void mc_cleanup (void);   /* a harness that keeps things from one run to the next */
static void heap_begin (void) { if (heaping && mcl_begin) { ped_device_free_all (); ped_exception_catch (); mcl_begin (); } }
static void heap_end (void)
{
  if (!heaping || !mcl_end) return;
  char k[150], msg[800], key[160]; if (mc_cleanup) mc_cleanup (); ped_device_free_all (); ped_exception_catch (); mc_count ("runs after which all is released", 1);
  long n = mcl_end (k, sizeof k, msg, sizeof msg); if (!n) return;
  snprintf (key, sizeof key, "leak:%s", k); mc_fail (key, "%ld blocks are not released; one of them was allocated by %s", n, msg);
}
static int probed; static PedExceptionOption probe_h (PedException *e) { probed++; return e->options; }
static void mc_probe (void)
{
  heap_end (); if (!probing) return;
  PedExceptionHandler *h = ped_exception_get_handler (); int pend = ped_exception; ped_exception_set_handler (probe_h); probed = 0;
  PedExceptionOption o = ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_OK, "probe"); ped_exception_set_handler (h);
  mc_count ("checks that exceptions are delivered", 1);
  if (!probed || o != PED_EXCEPTION_OK) mc_fail ("exceptions-lost", "exceptions do not reach the handler any more%s", pend ? " (one is pending)" : "");
}
#define RUN_SECS 120
static void onalarm (int s)
{
  static const char m[] = "mc: run did not terminate\n"; (void) !write (2, m, sizeof m - 1);
  _exit (97);
}
static void arm (void) { alarm (RUN_SECS); }

static void worker_model (long skip_node, int skip_op)
{
  long n = atomic_load (&S->frontier_n);
  bool resume = skip_node >= 0;
  for (;;) {
    long i; int op0 = 0;
    if (resume) { i = skip_node; op0 = skip_op + 1; resume = false; }
    else i = atomic_fetch_add (&S->next, 1);
    if (i >= n) return;
    McNode nd = frontA[i];
    int nops = M->nops (nd.cfg);
    for (int op = op0; op < nops; op++) {
      if (out_of_time ()) { atomic_store (&S->overflow, 2); return; }
      nd.op[nd.depth] = op;
      S->cur[wid] = nd; S->cur[wid].depth++; S->curidx[wid] = i; S->curbusy[wid] = 1;
      uint64_t sig = 0; int r;
      reset_run ();
      arm ();
      heap_begin (); in_run = 1;
      if (sigsetjmp (fail_jmp, 0) == 0) { r = M->run (nd.cfg, nd.op, nd.depth + 1, true, &sig); mc_probe (); }
      else { r = 1; atomic_fetch_add (&S->transitions, 1); }
      in_run = 0;
      S->curbusy[wid] = 0;
      atomic_fetch_add (&S->execs, 1);
      if (r == 0 || r == 2) atomic_fetch_add (&S->transitions, 1);
      if (r == 0 && set_add (visited, vmask, mc_hash (&sig, 8, nd.cfg + 77))) {
        atomic_fetch_add (&S->states, 1);
        if (nd.depth + 1 < M->cfg_depth (nd.cfg)) {
          long o = atomic_fetch_add (&S->out_n, 1);
          if ((size_t) o < front_cap) { McNode x = nd; x.depth++; frontB[o] = x; }
          else { atomic_fetch_sub (&S->out_n, 1); atomic_store (&S->overflow, 1); }
        }
      }
    }
  }
}
static void worker_sweep (long unused, int unused2)
{
  for (;;) {
    long i = atomic_fetch_add (&S->next, 1);
    if (i >= SW->n) return;
    if (out_of_time ()) { atomic_store (&S->overflow, 2); return; }
    S->curidx[wid] = i; S->curbusy[wid] = 1;
    reset_run ();
    arm ();
    heap_begin (); in_run = 1;
    if (sigsetjmp (fail_jmp, 0) == 0) { SW->run (i); mc_probe (); }
    in_run = 0;
    S->curbusy[wid] = 0;
    atomic_fetch_add (&S->execs, 1);
  }
}
static char errpath[64][64];
static void mk_err (int w) { snprintf (errpath[w], 64, "/tmp/mc_err.%d.%d", getpid (), w); }
static pid_t spawn (int w, void (*fn) (long, int), long a, int b)
{
  fflush (stdout); fflush (stderr);
  pid_t p = fork ();
  if (p == 0) {
    wid = w; in_worker = 1; signal (SIGALRM, onalarm);
    if (!freopen (errpath[w], "w", stderr)) _exit (3); setvbuf (stderr, NULL, _IONBF, 0);
    fn (a, b);
    alarm (0);
    _exit (0);
  }
  return p;
}
static void tail_of (const char *f, char *buf, size_t n)
{
  buf[0] = 0; FILE *fp = fopen (f, "r"); if (!fp) return;
  size_t r = fread (buf, 1, n - 1, fp); buf[r] = 0; fclose (fp);
}
/* classify a crash by its innermost frame / assertion so that the key is
   stable under code motion */
static void crash_key (const char *txt, int status, char *key, size_t n)
{
  const char *a;
  char fn[80] = "";
  const char *kind = WIFSIGNALED (status) ? "signal" : "exit";
  if (WIFEXITED (status) && WEXITSTATUS (status) == 97) kind = "hang";
  if ((a = strstr (txt, "Assertion ("))) { kind = "assert"; const char *f = strstr (a, "in function "); if (f) sscanf (f + 12, "%79[a-zA-Z0-9_]", fn); }
  else if ((a = strstr (txt, "AddressSanitizer: "))) {
    static char k[64]; sscanf (a + 18, "%63[a-zA-Z-]", k); kind = k;
    const char *f = a;
    while ((f = strstr (f, " in "))) { char t[80] = ""; sscanf (f + 4, "%79[a-zA-Z0-9_]", t); f += 4;
      if (!strncmp (t, "__", 2) || !strncmp (t, "str", 3) || !strncmp (t, "mem", 3) || !strcmp (t, "malloc") || !strcmp (t, "free") || !strncmp(t,"printf_common",13) || !strncmp(t,"vsn",3) || !strcmp(t,"raise") || !strcmp(t,"abort")) continue;
      snprintf (fn, sizeof fn, "%s", t); break; }
  }
  snprintf (key, n, "crash:%s:%s", kind, fn);
}
static void run_workers (void (*fn) (long, int))
{
  int nw = 8; char *e = getenv ("MC_WORKERS"); if (e) nw = atoi (e);
  if (nw > 64) nw = 64;
  pid_t pid[64]; int alive = 0, crashes[64] = {0};
  for (int w = 0; w < nw; w++) { S->curbusy[w] = 0; mk_err (w); pid[w] = spawn (w, fn, -1, 0); alive++; }
  while (alive) {
    int st; pid_t p = wait (&st); if (p < 0) break;
    int w; for (w = 0; w < nw; w++) if (pid[w] == p) break;
    if (w == nw) continue;
    if (WIFEXITED (st) && WEXITSTATUS (st) == 0) { alive--; unlink (errpath[w]); continue; }
    if (WIFEXITED (st) && WEXITSTATUS (st) == 98) {
      long a = S->curidx[w]; int b = M && fn == worker_model ? S->cur[w].op[S->cur[w].depth - 1] : 0;
      S->curbusy[w] = 0;
      if (M) { atomic_fetch_add (&S->transitions, 1); atomic_fetch_add (&S->execs, 1); }
      long bad = 0; for (int i = 0; i < S->nviol; i++) bad += S->viol[i].hits;
      if (bad > 300) { atomic_store (&S->overflow, 3); alive--; continue; }
      pid[w] = spawn (w, fn, a, b);
      continue;
    }
    /* crashed while executing the library */
    static char txt[60000]; tail_of (errpath[w], txt, sizeof txt);
    char key[160]; crash_key (txt, st, key, sizeof key);
    if (S->lock) atomic_store (&S->lock, 0);
    int busy = S->curbusy[w];
    wid = w; txt[1800] = 0; record_viol (key, txt, 1); wid = -1;
    if (!busy) { fprintf (stderr, "mc: worker died outside a run (status %x): %s\n", st, txt); alive--; continue; }
    atomic_fetch_add (&S->transitions, 1);
    if (++crashes[w] > 100) { atomic_store (&S->overflow, 3); alive--; continue; }
    long a = S->curidx[w]; int b = M && fn == worker_model ? S->cur[w].op[S->cur[w].depth - 1] : 0;
    S->curbusy[w] = 0;
    pid[w] = spawn (w, fn, a, b);
  }
}
static void json_str (FILE *f, const char *s)
{
  fputc ('"', f);
  for (; *s; s++) { unsigned char c = *s;
    if (c == '"' || c == '\\') fprintf (f, "\\%c", c); else if (c == '\n') fputs ("\\n", f);
    else if (c < 32 || c > 126) fprintf (f, "\\u%04x", c); else fputc (c, f); }
  fputc ('"', f);
}
static void report (const char *out)
{
  FILE *f = out ? fopen (out, "w") : stdout;
  fprintf (f, "{\"states\":%ld,\"transitions\":%ld,\"execs\":%ld,\"nontrivial\":%ld,\"truncated\":%ld,\"counters\":{",
    (long) S->states, (long) S->transitions, (long) S->execs, (long) S->nontriv, (long) S->overflow);
  for (int i = 0; i < S->nctr; i++) { if (i) fputc (',', f); json_str (f, S->ctr_name[i]); fprintf (f, ":%ld", (long) S->ctr[i]); }
  fprintf (f, "},\"samples\":[");
  for (int i = 0; i < S->nsamp; i++) { if (i) fputc (',', f); json_str (f, S->samp[i]); }
  fprintf (f, "],\"violations\":[");
  for (int i = 0; i < S->nviol; i++) {
    Viol *v = &S->viol[i]; char *d = NULL; size_t dn = 0; FILE *m = open_memstream (&d, &dn);
    if (M && M->describe) M->describe (v->node.cfg, v->node.op, v->node.depth, m);
    if (SW && SW->describe) SW->describe (v->idx, m);
    fclose (m);
    if (i) fputc (',', f);
    fprintf (f, "{\"key\":"); json_str (f, v->key); fprintf (f, ",\"msg\":"); json_str (f, v->msg);
    fprintf (f, ",\"hits\":%ld,\"crash\":%d,\"trace\":", v->hits, v->crash); json_str (f, d);
    fprintf (f, ",\"replay\":\"");
    if (M) { fprintf (f, "%d", v->node.cfg); for (int k = 0; k < v->node.depth; k++) fprintf (f, ":%d", v->node.op[k]); }
    else fprintf (f, "%ld", v->idx);
    fprintf (f, "\"}"); free (d);
  }
  fprintf (f, "],\"known\":[");
  for (int i = 0; i < S->nkhit; i++) { if (i) fputc (',', f); fprintf (f, "{\"key\":"); json_str (f, S->khit[i]); fprintf (f, ",\"hits\":%ld,\"msg\":", S->khits[i]); json_str (f, S->kmsg[i]); fputc ('}', f); }
  fprintf (f, "]}\n");
  if (out) fclose (f);
}
static void common_init (int argc, char **argv, const char **out)
{
  static char rl[8];
  signal (SIGPIPE, SIG_IGN);
  struct rlimit r = { 0, 0 }; setrlimit (RLIMIT_CORE, &r); (void) rl;
  clock_gettime (CLOCK_MONOTONIC, &t0); probing = getenv ("MC_PROBE") != NULL; heaping = getenv ("MC_HEAP") != NULL;
  for (int i = 1; i < argc; i++) {
    if (!strcmp (argv[i], "--thorough")) mc_thorough = 1;
    else if (!strcmp (argv[i], "--prop") && i + 1 < argc) mc_prop = argv[++i];
    else if (!strcmp (argv[i], "--out") && i + 1 < argc) *out = argv[++i];
    else if (!strcmp (argv[i], "--opt") && i + 1 < argc) mc_opt = argv[++i];
    else if (!strcmp (argv[i], "--time") && i + 1 < argc) time_limit = atof (argv[++i]);
    else if (!strcmp (argv[i], "--replay") && i + 1 < argc) replay_file = argv[++i];
    else if (!strcmp (argv[i], "-v")) mc_verbose++;
    else if (!strcmp (argv[i], "--known") && i + 1 < argc) {
      FILE *f = fopen (argv[++i], "r"); char l[400];
      while (f && fgets (l, sizeof l, f) && nknown < 256) { l[strcspn (l, "\n")] = 0; if (*l) snprintf (known[nknown++], 160, "%s", l); }
      if (f) fclose (f);
    }
  }
  size_t vb = (size_t) 1 << (mc_thorough ? 27 : 25);
  S = mmap (NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  visited = mmap (NULL, vb * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); vmask = vb - 1;
  nontr = mmap (NULL, vb * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); nmask = vb - 1;
  if (S == MAP_FAILED || visited == MAP_FAILED || nontr == MAP_FAILED) { perror ("mmap"); exit (3); }
  mc_init ();
}
int mc_explore (const McModel *m, int argc, char **argv)
{
  const char *out = NULL;
  M = m; if (!S) common_init (argc, argv, &out); 
  for (int i = 1; i + 1 < argc; i++) if (!strcmp (argv[i], "--out")) out = argv[i + 1];
  if (replay_file) {
    uint16_t ops[MC_MAXD]; int n = 0; char *p = strdup (replay_file); int cfg = strtol (p, &p, 10);
    while (*p == ':') ops[n++] = strtol (p + 1, &p, 10);
    if (mc_verbose) m->describe (cfg, ops, n, stderr);
    for (int k = 1; k <= n; k++) {
      uint64_t sig; wid = 0; reset_run (); heap_begin (); in_run = 1; if (!mc_verbose) mc_verbose = 0;
      S->cur[0].cfg = cfg; S->cur[0].depth = k; memcpy (S->cur[0].op, ops, sizeof ops);
      if (k < n) continue;
      arm (); signal (SIGALRM, onalarm);
      if (sigsetjmp (fail_jmp, 0) == 0) { m->run (cfg, ops, k, true, &sig); mc_probe (); }
      alarm (0);
    }
    report (out);
    return S->nviol ? 1 : 0;
  }
  front_cap = mc_thorough ? 40000000 : 8000000;
  frontA = mmap (NULL, front_cap * sizeof (McNode), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  frontB = mmap (NULL, front_cap * sizeof (McNode), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int c = 0; c < m->ncfg; c++) { McNode z = { .cfg = c }; frontA[c] = z; }
  atomic_store (&S->frontier_n, m->ncfg); atomic_store (&S->states, m->ncfg);
  int maxd = 0; for (int c = 0; c < m->ncfg; c++) if (m->cfg_depth (c) > maxd) maxd = m->cfg_depth (c);
  for (int d = 0; d < maxd && S->frontier_n; d++) {
    atomic_store (&S->next, 0); atomic_store (&S->out_n, 0);
    run_workers (worker_model);
    char nm[48]; snprintf (nm, 48, "frontier_depth_%d", d + 1);
    mc_count (nm, S->out_n);
    McNode *t = frontA; frontA = frontB; frontB = t;
    atomic_store (&S->frontier_n, (long) S->out_n);
    if (getenv ("MC_PROGRESS")) fprintf (stderr, "depth %d: states %ld transitions %ld frontier %ld viol %d\n", d + 1, (long) S->states, (long) S->transitions, (long) S->out_n, S->nviol);
    if (S->overflow == 2) break;
  }
  report (out);
  return S->nviol ? 1 : 0;
}
int mc_sweep (const McSweep *s, int argc, char **argv)
{
  const char *out = NULL; SW = s;
  if (!S) common_init (argc, argv, &out);
  for (int i = 1; i + 1 < argc; i++) if (!strcmp (argv[i], "--out")) out = argv[i + 1];
  if (replay_file) {
    wid = 0; S->curidx[0] = atol (replay_file); reset_run (); heap_begin (); in_run = 1;
    arm (); signal (SIGALRM, onalarm);
    if (sigsetjmp (fail_jmp, 0) == 0) { s->run (S->curidx[0]); mc_probe (); }
    alarm (0);
    report (out); return S->nviol ? 1 : 0;
  }
  atomic_store (&S->next, 0);
  run_workers (worker_sweep);
  report (out);
  return S->nviol ? 1 : 0;
}
void mc_setup (int argc, char **argv) { const char *o; common_init (argc, argv, &o); }
