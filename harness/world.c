#include <config.h>
#include "world.h"
#include <string.h>
#include <stdlib.h>

/* CHS 4x8 => 32-sector cylinders on the small devices */
#define G(L,S,H,T) { .length = L, .ss = S, .phys = S, .heads = H, .sects = T }
#define GA(L,S,H,T,O,M,P) { .length = L, .ss = S, .phys = S, .heads = H, .sects = T, .align_off = O, .align_min = M, .align_opt = P }
const WCfg w_cfgs[] = {
  /* 0 */ { "msdos-512", "msdos", GA (512, 512, 4, 8, 0, 4, 16), 7, { 1, 32, 41, 100, 128, 256, 511 } },
  /* 1 */ { "msdos-4k", "msdos", GA (300, 4096, 4, 8, 3, 4, 8), 6, { 1, 8, 33, 96, 131, 299 } },
  /* 2 */ { "gpt-512", "gpt", GA (256, 512, 4, 8, 0, 4, 16), 7, { 20, 34, 48, 80, 127, 192, 222 } },
  /* 3 */ { "gpt-4k", "gpt", GA (128, 4096, 4, 8, 0, 1, 8), 6, { 6, 8, 40, 41, 96, 121 } },
  /* 4 */ { "mac-512", "mac", GA (512, 512, 4, 8, 0, 4, 16), 6, { 64, 80, 128, 129, 300, 511 } },
  /* 5 */ { "mac-2k", "mac", G (512, 2048, 4, 8), 5, { 64, 128, 129, 300, 511 } },
  /* 6 */ { "sun-512", "sun", G (512, 512, 4, 8), 7, { 0, 32, 64, 100, 128, 256, 511 } },
  /* 7 */ { "sun-4k", "sun", G (256, 4096, 4, 8), 5, { 0, 32, 64, 100, 255 } },
  /* 8 */ { "bsd-512", "bsd", GA (512, 512, 4, 8, 0, 4, 16), 7, { 1, 32, 41, 100, 128, 256, 511 } },
  /* 9 */ { "bsd-4k", "bsd", G (256, 4096, 4, 8), 5, { 1, 8, 33, 96, 255 } },
  /* 10 */ { "dvh-512", "dvh", G (8192, 512, 4, 8), 6, { 0, 40, 4096, 4128, 6001, 8191 } },
  /* 11 */ { "amiga-512", "amiga", G (1024, 512, 4, 8), 6, { 32, 64, 100, 128, 512, 1023 } },
  /* 12 */ { "pc98-512", "pc98", G (1024, 512, 4, 8), 6, { 32, 64, 100, 128, 512, 1023 } },
  /* 13 */ { "loop-512", "loop", G (256, 512, 4, 8), 3, { 0, 32, 255 } },
  /* 14 */ { "atari-512", "atari", GA (2048, 512, 4, 8, 0, 4, 16), 6, { 2, 32, 100, 128, 512, 1500 } },
  /* big devices: positions around the 2^31 and 2^32 sector limits */
  /* 15 */ { "msdos-big", "msdos", G (0x280000000LL, 512, 255, 63), 7, { 63, 2048, 0x7fffffffLL, 0x80000001LL, 0xfffffffeLL, 0x100000000LL, 0x1fffffff0LL } },
  /* 16 */ { "gpt-big", "gpt", G (0x280000000LL, 512, 255, 63), 6, { 34, 2048, 0x7fffffffLL, 0xffffffffLL, 0x100000001LL, 0x1fffffff0LL } },
  /* 17 */ { "mac-big", "mac", G (0x280000000LL, 512, 255, 63), 6, { 64, 2048, 0x7fffffffLL, 0x80000001LL, 0xffffffffLL, 0x100000005LL } },
  /* 18 */ { "bsd-big", "bsd", G (0x280000000LL, 512, 255, 63), 6, { 1, 2048, 0x7fffffffLL, 0x80000001LL, 0xffffffffLL, 0x100000005LL } },
  /* 19 */ { "dvh-big", "dvh", G (0x280000000LL, 512, 255, 63), 6, { 4096, 5000, 0x7fffffffLL, 0x80000001LL, 0xffffffffLL, 0x100000005LL } },
  /* 20 */ { "sun-big", "sun", G (0x280000000LL, 512, 255, 63), 6, { 0, 16065, 0x7fffffffLL, 0x80000001LL, 0xffffffffLL, 0x100000005LL } },
  /* 21 */ { "amiga-big", "amiga", G (0x280000000LL, 512, 255, 63), 6, { 16065, 32130, 0x7fffffffLL, 0x80000001LL, 0xffffffffLL, 0x100000005LL } },
  /* 22 */ { "pc98-big", "pc98", G (0x280000000LL, 512, 255, 63), 6, { 16065, 32130, 0x7fffffffLL, 0x80000001LL, 0xffffffffLL, 0x100000005LL } },
  /* 23 */ { "atari-big", "atari", G (0x7fffffffLL, 512, 255, 63), 6, { 2, 2048, 0x3fffffffLL, 0x40000000LL, 0x7ffffffdLL, 0x7ffffffeLL } },
  /* 24 */ { "msdos-4k-big", "msdos", G (0x180000000LL, 4096, 255, 63), 6, { 63, 2048, 0x7fffffffLL, 0x80000001LL, 0xfffffffeLL, 0x100000003LL } },
  /* tables with parameters that parted itself does not choose */
  /* 25 */ { "gpt-130-entries", "gpt", GA (256, 512, 4, 8, 0, 4, 16), 7, { 40, 48, 64, 80, 127, 192, 221 }, 1 },
  /* 26 */ { "gpt-grown-device", "gpt", GA (300, 512, 4, 8, 0, 4, 16), 7, { 40, 48, 64, 80, 127, 192, 221 }, 2 },
};
const int w_ncfgs = sizeof w_cfgs / sizeof *w_cfgs;

const char *const w_fs[] = { NULL, "ext2", "fat32", "linux-swap(v1)", "ntfs", "hfs", "fat16", "reiserfs", "hfs+" , "xfs", "ufs", "udf" };
const int w_nfs = 12;
const char *const w_names[] = { "alpha", "", "a name with spaces", "0123456789abcdef0123456789abcdef0123", "b" };
const int w_nnames = 5;
const int w_typeids[] = { 0x83, 0x07, 0x0b, 0x1b, 0x82, 0xef, 0x12, 0xea, 0x8e, 0x05, 0x85, 0xfd, 0, 0xee, 0x15 };
const int w_ntypeids = 15;
const uint8_t w_uuids[][16] = {
  { 0x12,0x34,0x56,0x78,0x9a,0xbc,0xde,0xf0,1,2,3,4,5,6,7,8 },
  { 0xC1,0x2A,0x73,0x28,0xF8,0x1F,0x11,0xD2,0xBA,0x4B,0x00,0xA0,0xC9,0x3E,0xC9,0x3B }, /* ESP */
  { 0x0F,0xC6,0x3D,0xAF,0x84,0x83,0x47,0x72,0x8E,0x79,0x3D,0x69,0xD8,0x47,0x7D,0xE4 }, /* Linux data */
  { 0 },      /* that of an unused entry */
};
const int w_nuuids = 4;

static const char *const kn[] = { "add", "delete", "set-geom", "maximize", "minimize-extended", "delete-all", "flag", "name", "system", "type-id",
  "type-uuid", "disk-flag", "commit", "reread", "duplicate", "fresh-label", "remove" };
static const char *const cn[] = { "any", "exact", "optimal", "minimal", "window", "endwin", "min-max-size" };

void w_opname (const WCfg *c, const WOp *o, FILE *f)
{
  fprintf (f, "%s", kn[o->kind]);
  switch (o->kind) {
  case OP_ADD: fprintf (f, " %s %lld-%lld %s %s", o->type == 0 ? "primary" : o->type == 1 ? "logical" : "extended", c->grid[o->a], c->grid[o->b] - (o->sel ? 1 : 0), cn[o->ck], w_fs[o->fs] ? w_fs[o->fs] : "-"); break;
  case OP_GEOM: fprintf (f, " [%d] %lld-%lld %s", o->sel, c->grid[o->a], c->grid[o->b], cn[o->ck]); break;
  case OP_DEL: case OP_REMOVE: fprintf (f, " [%d]", o->sel); break;
  case OP_MAX: fprintf (f, " [%d] %s", o->sel, cn[o->ck]); break;
  case OP_FLAG: fprintf (f, " [%d] %s=%d", o->sel, ped_partition_flag_get_name (o->a), o->b); break;
  case OP_NAME: fprintf (f, " [%d] '%s'", o->sel, w_names[o->a]); break;
  case OP_SYS: fprintf (f, " [%d] %s", o->sel, w_fs[o->a] ? w_fs[o->a] : "-"); break;
  case OP_TYPEID: fprintf (f, " [%d] %02x", o->sel, W_TYPEID (o->a)); break;
  case OP_TYPEUUID: fprintf (f, " [%d] #%d", o->sel, o->a); break;
  case OP_DFLAG: fprintf (f, " %s=%d", ped_disk_flag_get_name (o->a), o->b); break;
  }
}

PedPartition *w_nth (PedDisk *d, int n)
{
  for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p))
    if (ped_partition_is_active (p) && n-- == 0) return p;
  return NULL;
}

PedConstraint *w_constraint (World *w, int ck, PedSector s, PedSector e)
{
  PedDevice *dev = w->dev;
  switch (ck) {
  case CK_ANY: return ped_constraint_any (dev);
  case CK_EXACT: {
    PedGeometry g;
    if (!ped_geometry_init (&g, dev, s, e - s + 1)) return NULL;
    return ped_constraint_exact (&g); }
  case CK_OPT: return ped_device_get_optimal_aligned_constraint (dev);
  case CK_MIN: return ped_device_get_minimal_aligned_constraint (dev);
  case CK_MAXSZ: { PedConstraint *c = ped_constraint_any (dev); if (c) { c->max_size = (e - s + 1) / 2 + 1; c->min_size = c->max_size / 2 + 1; } return c; }
  case CK_WIN: case CK_END: {
    PedAlignment *a = ck == CK_WIN ? ped_alignment_new (1, 4) : ped_alignment_duplicate (ped_alignment_any);
    PedAlignment *b = ck == CK_WIN ? ped_alignment_new (2, 3) : ped_alignment_new (0, 8);
    PedSector s0 = s - 6 < 0 ? 0 : s - 6, e0 = e - 9 < 0 ? 0 : e - 9;
    PedSector s1 = s + 6 >= dev->length ? dev->length - 1 : s + 6, e1 = e + 9 >= dev->length ? dev->length - 1 : e + 9;
    PedGeometry *sg = ped_geometry_new (dev, s0, s1 - s0 + 1);
    PedGeometry *eg = ped_geometry_new (dev, e0, e1 - e0 + 1);
    PedConstraint *c = ped_constraint_new (a, b, sg, eg, ck == CK_WIN ? 5 : 1, dev->length);
    ped_geometry_destroy (sg); ped_geometry_destroy (eg); ped_alignment_destroy (a); ped_alignment_destroy (b);
    return c; }
  }
  return NULL;
}

static void p32 (uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = v >> 8 * i; }
static void p64 (uint8_t *p, uint64_t v) { p32 (p, v); p32 (p + 4, v >> 32); }
static uint32_t w_crc (const uint8_t *p, size_t n) { uint32_t c = ~0u; while (n--) { c ^= *p++; for (int i = 0; i < 8; i++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0); } return ~c; }
/* an empty GPT with NENT entries on the first LEN sectors of the device */
static void made_gpt (int ss, long long len, int nent)
{
  static uint8_t h[8192], e[65536], m[8192];
  int es = (nent * 128 + ss - 1) / ss, res = (16384 + ss - 1) / ss;
  if (es > res) res = es;
  memset (m, 0, sizeof m); memset (e, 0, sizeof e);
  m[447] = 0; m[448] = 2; m[450] = 0xee; m[451] = m[452] = m[453] = 0xff; p32 (m + 454, 1); p32 (m + 458, len - 1); m[510] = 0x55; m[511] = 0xaa;
  mc_store_write (0, m);
  for (int b = 0; b < 2; b++) {
    memset (h, 0, sizeof h); memcpy (h, "EFI PART", 8); p32 (h + 8, 0x10000); p32 (h + 12, 92);
    long long at = b ? len - 1 : 1, pe = b ? len - 1 - es : 2;
    p64 (h + 24, at); p64 (h + 32, b ? 1 : len - 1); p64 (h + 40, 2 + res); p64 (h + 48, len - 2 - res);
    memcpy (h + 56, "\x10\x32\x54\x76\x98\xba\xdc\xfe\x01\x23\x45\x67\x89\xab\xcd\xef", 16);
    p64 (h + 72, pe); p32 (h + 80, nent); p32 (h + 84, 128); p32 (h + 88, w_crc (e, nent * 128)); p32 (h + 16, w_crc (h, 92));
    mc_store_write (at, h);
    for (int i = 0; i < es; i++) mc_store_write (pe + i, e + i * ss);
  }
}
void w_made (int which, const McGeom *g)
{
  if (which == 1) made_gpt (g->ss, g->length, 130);
  if (which == 2) made_gpt (g->ss, g->length - 44, 128);
}

void w_start (World *w, const WCfg *c, bool commit)
{
  McStr k = w->csnap, os[MC_MAXD]; memcpy (os, w->origsnap, sizeof os);
  memset (w, 0, sizeof *w); w->csnap = k; memcpy (w->origsnap, os, sizeof os);
  w->c = c;
  w->dev = mc_device (&c->g);
  PedDiskType *t = ped_disk_type_get (c->label);
  if (!t) mc_fail ("label-missing", "disk label type %s is not registered", c->label);
  if (c->made) {
    w_made (c->made, &c->g); mc_io_reset ();
    int o = mc_ans; mc_ans = ANS_IGNORE; w->disk = ped_disk_new (w->dev); mc_ans = o;
    if (!w->disk) mc_fail ("foreign-refused", "%s: the table cannot be read: %s", c->name, mc_exc_msg);
    mc_sreset (&w->csnap); mc_snap (w->disk, &w->csnap, SNAP_NOFS); w->committed = true;
    return;
  }
  w->disk = ped_disk_new_fresh (w->dev, t);
  if (!w->disk) mc_fail ("fresh-label-refused", "cannot create a fresh %s label on %lld sectors of %lld bytes: %s", c->label, c->g.length, c->g.ss, mc_exc_msg);
  w->dirty = true;
  mc_sreset (&w->csnap);
  if (commit) { static const WOp o = { .kind = OP_COMMIT }; if (w_apply (w, &o)) mc_fail ("fresh-label-unwritable", "cannot write a fresh %s label: %s", c->label, mc_exc_msg); }
}
void w_end (World *w)
{
  if (w->con) { ped_constraint_destroy (w->con); w->con = NULL; }
  if (w->disk) ped_disk_destroy (w->disk);
  for (int i = 0; i < w->norig; i++) ped_disk_destroy (w->orig[i]);
  w->disk = NULL; w->norig = 0;
}

int w_apply (World *w, const WOp *o)
{
  const long long *g = w->c->grid;
  PedDisk *d = w->disk;
  if (w->con) { ped_constraint_destroy (w->con); w->con = NULL; }
  w->part = NULL;
  int r = 0;
  switch (o->kind) {
  case OP_ADD: {
    PedSector s = g[o->a], e = g[o->b] - (o->sel ? 1 : 0);
    if (o->type && !ped_disk_type_check_feature (d->type, PED_DISK_TYPE_EXTENDED)) return 1;
    const PedFileSystemType *fs = w_fs[o->fs] ? ped_file_system_type_get (w_fs[o->fs]) : NULL;
    PedPartition *p = ped_partition_new (d, o->type, fs, s, e);
    if (!p) return 2;
    PedConstraint *c = w_constraint (w, o->ck, s, e);
    if (!c) { ped_partition_destroy (p); return 1; }
    r = ped_disk_add_partition (d, p, c);
    if (r) ped_partition_set_system (p, fs);   /* as every client does */
    w->con = c;
    if (!r) { p->disk = d; ped_partition_destroy (p); return 2; }
    w->part = p; w->dirty = true;
    return 0; }
  case OP_DEL: case OP_REMOVE: {
    PedPartition *p = w_nth (d, o->sel); if (!p) return 1;
    if (o->kind == OP_DEL) r = ped_disk_delete_partition (d, p);
    else {
      for (PedPartition *q = p->part_list; q; q = q->next) if (ped_partition_is_active (q)) return 1;   /* documented precondition */
      r = ped_disk_remove_partition (d, p); if (r) ped_partition_destroy (p);
    }
    if (r) w->dirty = true;
    return r ? 0 : 2; }
  case OP_GEOM: {
    PedPartition *p = w_nth (d, o->sel); if (!p) return 1;
    PedConstraint *c = w_constraint (w, o->ck, g[o->a], g[o->b]); if (!c) return 1;
    r = ped_disk_set_partition_geom (d, p, c, g[o->a], g[o->b]);
    w->con = c; w->part = p; if (r) w->dirty = true;
    return r ? 0 : 2; }
  case OP_MAX: {
    PedPartition *p = w_nth (d, o->sel); if (!p) return 1;
    PedConstraint *c = w_constraint (w, o->ck, p->geom.start, p->geom.end); if (!c) return 1;
    r = ped_disk_maximize_partition (d, p, c);
    w->con = c; w->part = p; if (r) w->dirty = true;
    return r ? 0 : 2; }
  case OP_MINEXT:
    if (!ped_disk_type_check_feature (d->type, PED_DISK_TYPE_EXTENDED)) return 1;
    r = ped_disk_minimize_extended_partition (d); w->dirty = true; return r ? 0 : 2;
  case OP_DELALL: r = ped_disk_delete_all (d); if (r) w->dirty = true; return r ? 0 : 2;
  case OP_FLAG: {
    PedPartition *p = w_nth (d, o->sel); if (!p) return 1;
    w->part = p;
    if (!ped_partition_is_flag_available (p, o->a)) return 1;
    r = ped_partition_set_flag (p, o->a, o->b); if (r) w->dirty = true; return r ? 0 : 2; }
  case OP_NAME: {
    PedPartition *p = w_nth (d, o->sel); if (!p) return 1;
    if (!ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_NAME)) return 1;
    w->part = p; r = ped_partition_set_name (p, w_names[o->a]); w->dirty = true; return r ? 0 : 2; }
  case OP_SYS: {
    PedPartition *p = w_nth (d, o->sel); if (!p) return 1;
    const PedFileSystemType *fs = w_fs[o->a] ? ped_file_system_type_get (w_fs[o->a]) : NULL;
    w->part = p; r = ped_partition_set_system (p, fs); w->dirty = true; return r ? 0 : 2; }
  case OP_TYPEID: {
    PedPartition *p = w_nth (d, o->sel); if (!p) return 1;
    if (!ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_TYPE_ID)) return 1;
    w->part = p; r = ped_partition_set_type_id (p, W_TYPEID (o->a)); if (r) w->dirty = true; return r ? 0 : 2; }
  case OP_TYPEUUID: {
    PedPartition *p = w_nth (d, o->sel); if (!p) return 1;
    if (!ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) return 1;
    w->part = p; r = ped_partition_set_type_uuid (p, w_uuids[o->a]); if (r) w->dirty = true; return r ? 0 : 2; }
  case OP_DFLAG:
    if (!ped_disk_is_flag_available (d, o->a)) return 1;
    r = ped_disk_set_flag (d, o->a, o->b); w->dirty = true; return r ? 0 : 2;
  case OP_COMMIT:
    r = ped_disk_commit_to_dev (d);
    if (r) { w->committed = true; w->dirty = false; w->ncommit++; mc_snap (d, &w->csnap, SNAP_NOFS | SNAP_NOUUID); w->csig = mc_hash (w->csnap.s, w->csnap.n, 3); mc_snap (d, &w->csnap, SNAP_NOFS); }
    return r ? 0 : 2;
  case OP_REREAD: {
    if (!w->committed) return 1;
    PedDisk *n = ped_disk_new (w->dev);
    if (!n) return 2;
    ped_disk_destroy (d); w->disk = n; w->dirty = false;
    return 0; }
  case OP_DUP: {
    PedDisk *n = ped_disk_duplicate (d);
    if (!n) return 2;
    mc_snap (d, &w->origsnap[w->norig], SNAP_PLACEHOLDERS);
    w->orig[w->norig++] = d; w->disk = n;
    return 0; }
  case OP_FRESH: {
    PedDisk *n = ped_disk_new_fresh (w->dev, d->type);
    if (!n) return 2;
    ped_disk_destroy (d); w->disk = n; w->dirty = true;
    return 0; }
  }
  return 1;
}

uint64_t w_sig (World *w)
{
  static McStr b;
  mc_snap (w->disk, &b, SNAP_PLACEHOLDERS | SNAP_NOUUID);
  uint64_t h = mc_hash (b.s, b.n, 1);
  h = mc_hash (&w->csig, 8, h);
  int x[6] = { w->committed, w->dirty, w->norig, w->ncommit > 2 ? 2 : w->ncommit, w->disk->needs_clobber, ped_disk_is_flag_available (w->disk, PED_DISK_CYLINDER_ALIGNMENT) ? ped_disk_get_flag (w->disk, PED_DISK_CYLINDER_ALIGNMENT) : 0 };
  return mc_hash (x, sizeof x, h);
}
