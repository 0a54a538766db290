/* The partition-table world: configurations, operations on the real
   libparted objects, state signatures. */
#ifndef WORLD_H
#define WORLD_H
#include "mc.h"

typedef struct {
  const char *name, *label;
  McGeom g;
  int ng; long long grid[14];
  int made;                   /* start from a table made by another tool (world.c:w_made) */
} WCfg;
extern const WCfg w_cfgs[]; extern const int w_ncfgs;

enum { OP_ADD, OP_DEL, OP_GEOM, OP_MAX, OP_MINEXT, OP_DELALL, OP_FLAG, OP_NAME, OP_SYS, OP_TYPEID,
       OP_TYPEUUID, OP_DFLAG, OP_COMMIT, OP_REREAD, OP_DUP, OP_FRESH, OP_REMOVE };
enum { CK_ANY, CK_EXACT, CK_OPT, CK_MIN, CK_WIN, CK_END, CK_MAXSZ, CK_N };

typedef struct { uint8_t kind, type, ck, sel, fs; int a, b; } WOp;

typedef struct {
  const WCfg *c;
  PedDevice *dev;
  PedDisk *disk;
  bool committed;             /* the device holds the table CSNAP */
  bool dirty;                 /* memory changed since the last commit/read */
  McStr csnap;                /* snapshot at last commit */
  uint64_t csig;              /* the same without UUIDs, hashed */
  PedDisk *orig[MC_MAXD]; McStr origsnap[MC_MAXD]; int norig;
  /* result of the last op */
  PedConstraint *con;         /* constraint used by the last op, or NULL */
  PedPartition *part;         /* partition the last op worked on */
  int ncommit;
} World;

void w_start (World *w, const WCfg *c, bool commit);   /* COMMIT: the fresh label is written first */
void w_made (int which, const McGeom *g);
void w_end (World *w);
/* 0 done, 1 not applicable, 2 the library refused */
int w_apply (World *w, const WOp *o);
PedPartition *w_nth (PedDisk *d, int n);
PedConstraint *w_constraint (World *w, int ck, PedSector s, PedSector e);
uint64_t w_sig (World *w);
void w_opname (const WCfg *c, const WOp *o, FILE *f);
extern const char *const w_fs[]; extern const int w_nfs;
extern const char *const w_names[]; extern const int w_nnames;
#define W_TYPEID(a) ((a) >= 1000 ? (a) - 1000 : w_typeids[a])
extern const int w_typeids[]; extern const int w_ntypeids;
extern const uint8_t w_uuids[][16]; extern const int w_nuuids;
#endif
