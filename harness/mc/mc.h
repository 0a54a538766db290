/* Model-checking core: an in-memory PedArchitecture whose device contents,
   write history, faults and exception answers are under the explorer's
   control, plus an exhaustive explicit-state explorer over operation traces
   of the real libparted code. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdbool.h>
#include <parted/parted.h>

/* ---------- virtual block device ---------- */
typedef struct {
  PedSector length;
  long long ss, phys;
  int heads, sects;           /* CHS geometry reported by the device */
  long long align_off, align_min, align_opt; /* in sectors; 0 = no topology */
} McGeom;

typedef struct {
  int kind;                   /* 0 write, 1 sync (full), 2 sync_fast */
  PedSector start, count;
  size_t off;                 /* data offset in log arena */
} McLog;

typedef struct {              /* saved device contents */
  int n;
  PedSector *sec;
  uint8_t *data;
  long long ss;
} McImage;

extern McGeom mc_geom;
extern int mc_bg;             /* background: -1 zeros, else pattern seed */
extern McLog *mc_log; extern int mc_nlog; extern uint8_t *mc_logdata;
extern long mc_nread, mc_nwrite, mc_nsync, mc_io;      /* counters since mc_io_reset */
extern long mc_fail_io;       /* fail the io numbered this (1-based); 0 = none */
extern int mc_fail_sticky;    /* all I/O from then on fails */
extern int mc_fail_mask;      /* which kinds count/fail: 1 reads 2 writes 4 syncs */
extern PedSector mc_bad_sector; /* I/O touching it fails (-1 none); mc_bad_mask: 1 reads 2 writes */
extern int mc_bad_mask;
extern long mc_oob;           /* number of accesses outside the device */
extern int mc_fault_fired, mc_fault_kind;   /* kind: 1 read 2 write 4 sync */
extern long mc_oscommits;
extern int mc_busy_num;       /* partition number reported busy (0 none) */
extern long mc_opens, mc_closes, mc_ropens, mc_rcloses;
extern int mc_open_fail, mc_close_fail;

void mc_init (void);
PedDevice *mc_device (const McGeom *g);   /* (re)creates the device, empties it */
PedDevice *mc_device_keep (const McGeom *g);   /* new PedDevice on current contents */
void mc_store_clear (void);
extern int mc_store_bits;      /* set before anything is stored; at most 20 */
void mc_store_write (PedSector s, const void *data);
void mc_store_read (PedSector s, void *data);
bool mc_store_has (PedSector s);
void mc_io_reset (void);
McImage *mc_image_save (void);
void mc_image_load (const McImage *);
void mc_image_free (McImage *);
bool mc_image_equal (const McImage *a, const McImage *b, PedSector *where);
uint64_t mc_store_hash (void);
int mc_store_count (void);
PedSector mc_store_sector (int i);

/* ---------- exceptions ---------- */
enum { ANS_CANCEL, ANS_FIRST, ANS_IGNORE, ANS_FIX, ANS_UNHANDLED, ANS_NO, ANS_SCRIPT, ANS_REPAIR, ANS_DECLINE };
extern int mc_ans;
extern int mc_ans_script[64]; extern int mc_ans_n, mc_ans_pos; /* option bit index per throw */
extern long mc_nexc;
extern int mc_exc_type, mc_exc_opts;
extern char mc_exc_msg[512];
extern int mc_exc_bug;        /* a BUG exception was thrown */
extern int mc_verbose;

/* ---------- hashing / strings ---------- */
uint64_t mc_hash (const void *p, size_t n, uint64_t seed);
typedef struct { char *s; size_t n, cap; } McStr;
void mc_sprintf (McStr *b, const char *fmt, ...) __attribute__ ((format (printf, 2, 3)));
void mc_sreset (McStr *b);

/* ---------- disk snapshots ---------- */
enum { SNAP_PLACEHOLDERS = 1, SNAP_FS = 2, SNAP_NOUUID = 4, SNAP_NOEXT = 8, SNAP_NOFS=16, SNAP_NOFLAGS=32 };
void mc_snap (const PedDisk *disk, McStr *out, int flags);

/* ---------- explorer ---------- */
#define MC_MAXD 16
typedef struct { uint16_t cfg; uint8_t depth; uint8_t pad; uint16_t op[MC_MAXD]; } McNode;

typedef struct {
  const char *prop;
  int ncfg;
  const char *(*cfg_name) (int cfg);
  int (*cfg_depth) (int cfg);
  int (*nops) (int cfg);
  /* Execute TRACE from scratch; set *sig to the state signature reached.
     When CHECK is set the last step is checked against the oracle.
     Returns 0 = reached, 1 = step not applicable / does not lead to a new
     state (prune). */
  int (*run) (int cfg, const uint16_t *ops, int n, bool check, uint64_t *sig);
  void (*describe) (int cfg, const uint16_t *ops, int n, FILE *f);
} McModel;

/* a violation found by an oracle; KEY names the failing site */
void mc_fail (const char *key, const char *fmt, ...) __attribute__ ((format (printf, 2, 3), noreturn));
bool mc_is_known (const char *key);
void mc_count (const char *name, long n);   /* adds to a named measured counter */
void mc_nontrivial (uint64_t h);            /* records a distinct non-trivial evaluation */
void mc_sample (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
int mc_explore (const McModel *m, int argc, char **argv);

/* Runs FN(i) for every i in 0..n-1 over worker processes; same reporting. */
typedef struct {
  const char *prop;
  long n;
  void (*run) (long i);
  void (*describe) (long i, FILE *f);
} McSweep;
int mc_sweep (const McSweep *s, int argc, char **argv);
extern int mc_thorough;
extern const char *mc_prop;
extern const char *mc_opt;     /* free-form --opt */
#endif
