/* P24: FAT file systems keep every file through every resize */
#include <config.h>
#include "mc.h"
#include <parted/filesys.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

typedef long long L;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
#define N(a) ((int) (sizeof (a) / sizeof *(a)))
#define LE16(p) ((u32) (p)[0] | (u32) (p)[1] << 8)
#define LE32(p) (LE16 (p) | LE16 ((p) + 2) << 16)
static void w16 (u8 *p, u32 v) { p[0] = v; p[1] = v >> 8; }
static void w32 (u8 *p, u32 v) { w16 (p, v); w16 (p + 2, v >> 16); }

/* ---------- file systems as another tool makes them ---------- */
typedef struct {
  const char *name;
  int type, cs, res, rde, nfats, info, backup, lss;
  u32 ncl; int slack;         /* clusters, and sectors after the last one */
  L start;
} Cfg;
static const Cfg cfgs[] = {
  { "fat16, 1k clusters", 16, 2, 1, 512, 2, 0, 0, 1, 33200, 1, 2048 },
  { "fat16, 2k clusters", 16, 4, 1, 512, 2, 0, 0, 1, 40000, 0, 63 },
  { "fat16, 8k clusters", 16, 16, 4, 512, 2, 0, 0, 1, 33500, 5, 4000 },
  { "fat32, 4k clusters", 32, 8, 32, 0, 2, 1, 6, 1, 66400, 3, 2048 },
  { "fat32, 8k clusters", 32, 16, 38, 0, 2, 1, 6, 1, 70000, 0, 9999 },
  { "fat16, one FAT, 1024 root entries", 16, 4, 8, 1024, 1, 0, 0, 1, 36000, 2, 2048 },
  { "fat32, information at 2, backup at 12", 32, 8, 64, 0, 2, 2, 12, 1, 66600, 1, 2048 },
  { "fat16, 32k clusters, 1k sectors", 16, 64, 2, 512, 2, 0, 0, 2, 34000, 0, 2048 },
  { "fat32, one FAT, 1100 reserved sectors", 32, 8, 1100, 0, 1, 1, 6, 1, 66600, 1, 2048 },
  { "fat32, 8k clusters, few", 32, 16, 32, 0, 2, 1, 6, 1, 65600, 0, 2048 },
  { "fat16, 16400 root entries", 16, 4, 1, 16400 / 16 * 16, 2, 0, 0, 1, 36000, 2, 2048 },
  { "fat16, most clusters", 16, 4, 1, 512, 2, 0, 0, 1, 65515, 0, 2048 },
};
static const Cfg *C;
typedef struct Node { char name[12]; u8 attr; u32 size; int n; u32 *cl; struct Node *kid[600]; int nk, pre; struct Node *up; int lfn, del; } Node;
static Node pool[4000]; static int npool; static u32 clpool[3000000]; static u32 nclpool;
static u32 *fat; static u32 fatcap; static L fat_sectors, clofs, fslen, lowc, highc;
static Node *root;
static bool junk_tail;
static L secof (u32 c) { return C->start + clofs + (L) (c - 2) * C->cs; }
static Node *node (Node *up, const char *nm, int attr, u32 size)
{
  Node *n = &pool[npool++]; int nk = 0; (void) nk;
  memset (n, 0, offsetof (Node, kid)); n->nk = 0; n->pre = n->lfn = n->del = 0; n->up = up; n->attr = attr; n->size = size;
  memset (n->name, ' ', 11); n->name[11] = 0; memcpy (n->name, nm, strlen (nm) > 11 ? 11 : strlen (nm));
  if (up) up->kid[up->nk++] = n;
  n->cl = clpool + nclpool; return n;
}
static bool isfree (u32 c) { return c >= 2 && c < C->ncl + 2 && !fat[c]; }
/* gives N clusters to a node; HOW: 0 next from the start, 1 from the end backwards, 2 every third, 3 alternating start and end, 4 from the middle */
static u32 cur3, curm;
static void give (Node *n, u32 cnt, int how)
{
  n->cl = clpool + nclpool; n->n = cnt; nclpool += cnt;
  for (u32 i = 0; i < cnt; i++) {
    u32 c; int h = how == 3 ? i & 1 : how;
    if (h == 0) { while (!isfree (lowc)) lowc++; c = lowc; }
    else if (h == 1) { while (!isfree (highc)) highc--; c = highc; }
    else if (h == 2) { while (!isfree (cur3)) { if (++cur3 >= C->ncl + 2) cur3 = 2; } c = cur3; cur3 += 3; }
    else { while (!isfree (curm)) { if (++curm >= C->ncl + 2) curm = 2; } c = curm++; }
    n->cl[i] = c; fat[c] = 1;
  }
}
static Node *file (Node *d, const char *nm, u32 size, int how)
{
  Node *n = node (d, nm, 0x20, size); u32 b = C->cs * 512; give (n, (size + b - 1) / b, how); return n;
}
static Node *dir (Node *d, const char *nm, int ncl, int how) { Node *n = node (d, nm, 0x10, 0); give (n, ncl, how); return n; }
static void bad (u32 c) { if (isfree (c)) fat[c] = C->type == 16 ? 0xfff7 : 0x0ffffff7; }
static int put_entry (u8 *e, const Node *n, int shift)
{
  memset (e, 0, 32); memcpy (e, n->name, 11); e[11] = n->attr; e[12] = 0x18; e[13] = 7; w16 (e + 14, 0x1234 + n->size); w16 (e + 16, 0x5a21); w16 (e + 18, 0x5a22); w16 (e + 22, 0x4444); w16 (e + 24, 0x5a23);
  u32 c = n->n ? n->cl[0] : 0; if (!strncmp (n->name, "LABEL", 5)) c = 0;
  w16 (e + 26, c); if (C->type == 32) w16 (e + 20, c >> 16);
  w32 (e + 28, n->attr & 0x10 ? 0 : n->size); return 32;
}
static void put_dir (Node *d)
{
  L bytes = d == root && C->type == 16 ? C->rde * 32 : (L) d->n * C->cs * 512, o = 0;
  u8 *b = calloc (1, bytes + 64);
  if (d != root) {
    Node dot = { .attr = 0x10, .n = 1, .cl = d->cl }; memcpy (dot.name, ".          ", 12); o += put_entry (b + o, &dot, 0);
    Node up = { .attr = 0x10, .n = d->up != root, .cl = d->up->cl }; memcpy (up.name, "..         ", 12); o += put_entry (b + o, &up, 0);
  }
  for (int i = 0; i < d->nk; i++) {
    Node *k = d->kid[i];
    for (int j = 0; j < k->del; j++) { memset (b + o, 0x11 + j, 32); b[o] = 0xe5; b[o + 11] = 0x20; o += 32; }
    for (int j = k->lfn; j > 0; j--) { memset (b + o, 0x61 + j, 32); b[o] = j | (j == k->lfn ? 0x40 : 0); b[o + 11] = 0x0f; w16 (b + o + 26, 0); o += 32; }
    if (o + 32 > bytes) abort ();
    o += put_entry (b + o, k, 0);
  }
  if (junk_tail && o + 64 <= bytes) { o += 32; for (; o + 32 <= bytes; o += 32) { memset (b + o, 0x41 + o / 32 % 26, 32); b[o + 11] = 0x20; w16 (b + o + 20, 0); w16 (b + o + 26, 7); } }
  if (d == root && C->type == 16) { L ro = C->start + C->res * C->lss + C->nfats * fat_sectors; for (L s = 0; s < bytes / 512; s++) mc_store_write (ro + s, b + s * 512); }
  else for (int i = 0; i < d->n; i++) for (int s = 0; s < C->cs; s++) mc_store_write (secof (d->cl[i]) + s, b + ((L) i * C->cs + s) * 512);
  free (b);
  for (int i = 0; i < d->nk; i++) if (d->kid[i]->attr & 0x10) put_dir (d->kid[i]);
}
static void put_chains (Node *n)
{
  u32 eoc = C->type == 16 ? 0xffff : 0x0fffffff;
  for (int i = 0; i < n->n; i++) fat[n->cl[i]] = i + 1 < n->n ? n->cl[i + 1] : eoc;
  if (n->attr & 0x10) for (int i = 0; i < n->nk; i++) put_chains (n->kid[i]);
}
static const char *const prof[] = { "files at the start", "files at the end", "fragments", "many directories", "bad clusters", "nearly full", "full root directory", "directories at the end", "junk after the last entry", "deep directories", "half full" };
#define NPROF N (prof)
static void content (int p)
{
  u32 b = C->cs * 512; char nm[20]; Node *d, *e, *f;
  if (C->type == 32) give (root, p == 6 ? (530 * 32 + b - 1) / b : p == 3 ? 3 : p == 10 ? 2 : 1, p == 1 || p == 7 ? 1 : p == 2 ? 2 : 0);
  f = node (root, "LABELLED", 0x08, 0);
  switch (p) {
  case 0: file (root, "EMPTY   TXT", 0, 0); file (root, "ONE     BIN", 1, 0); file (root, "EXACT   BIN", 3 * b, 0); file (root, "PART    BIN", 5 * b - 700, 0); d = dir (root, "SUB", 1, 0); file (d, "INNER   TXT", b / 2, 0); break;
  case 1: file (root, "LAST    BIN", 4 * b - 1, 1); d = dir (root, "SUB", 2, 1); file (d, "INNER   BIN", 10 * b, 1); file (d, "X", 1, 1); file (root, "START   BIN", 3 * b, 0); file (root, "MID     BIN", 9 * b, 4); break;
  case 2: for (int i = 0; i < 6; i++) { sprintf (nm, "FR%d     BIN", i); file (root, nm, (20 + i) * b - 600 * i - 1, i % 5); } d = dir (root, "SUB", 3, 3); for (int i = 0; i < 5; i++) { sprintf (nm, "G%d      BIN", i); file (d, nm, (3 + i) * b - i, (i + 2) % 5); } break;
  case 3: for (int i = 0; i < 7; i++) { sprintf (nm, "DIR%d", i); d = dir (root, nm, 1 + i % 3, i % 5); for (int j = 0; j < 4; j++) { sprintf (nm, "SUB%d", j); e = dir (d, nm, 1 + j % 2, (i + j) % 5); e->lfn = j; e->del = i & 1; for (int k = 0; k < 3; k++) { sprintf (nm, "F%d%d%d    TXT", i, j, k); f = file (e, nm, k * 600 * (i + 1), (i + k) % 5); f->lfn = k; f->del = j & 1; } } } break;
  case 4: for (u32 i = 0; i < C->ncl; i += C->ncl / 97) bad (i + 5); for (u32 i = 0; i < 8; i++) { bad (2 + 3 * i); bad (C->ncl + 1 - 2 * i); bad (C->ncl / 2 + i); }
    for (int i = 0; i < 5; i++) { sprintf (nm, "BF%d     BIN", i); file (root, nm, (7 + i) * b - i, i); } d = dir (root, "SUB", 2, 1); file (d, "INNER   BIN", 12 * b, 3); break;
  case 5: d = dir (root, "SUB", 1, 1); file (d, "SMALL", 10, 1); { u32 fr = 0; for (u32 c = 2; c < C->ncl + 2; c++) fr += !fat[c]; u32 k = fr - 40; file (root, "BIG     BIN", (k / 2) * b, 2); file (root, "BIG2    BIN", (k - k / 2) * b, 0); } break;
  case 6: for (int i = 0; i < 509; i++) { sprintf (nm, "R%d", i); file (root, nm, i % 7 ? 0 : 100 + i, i % 5); } d = dir (root, "LASTDIR", 1, 0); file (d, "INNER", 5, 0); break;
  case 7: d = dir (root, "ENDDIR", 4, 1); for (int i = 0; i < 40; i++) { sprintf (nm, "E%d", i); file (d, nm, i * 200, i % 2); } e = dir (d, "DEEPER", 2, 1); for (int i = 0; i < 20; i++) { sprintf (nm, "Z%d", i); file (e, nm, i * b / 2, 1); } break;
  case 8: junk_tail = true; d = dir (root, "SUB", 1, 0); file (d, "INNER   TXT", 10 * b, 0); file (root, "AFTER   BIN", 3 * b, 1); break;
  case 9: d = root; for (int i = 0; i < 420; i++) { sprintf (nm, "D%07dXYZ", i); d = dir (d, nm, 1, i % 4); } file (d, "BOTTOM", 100, 0); break;
  case 10: d = dir (root, "SUB", 1, 1); file (d, "SMALL", 10, 4); file (root, "HALF    BIN", C->ncl / 4 * b, 2); file (root, "HALF2   BIN", C->ncl / 5 * b, 1); break;
  }
}
static void build (const Cfg *c, int p)
{
  C = c; npool = 0; nclpool = 0; lowc = 2; highc = c->ncl + 1; cur3 = 900; curm = c->ncl / 2; junk_tail = false;
  int es = c->type / 8; u32 ent = c->ncl + 2;
  fat_sectors = (ent * es + 511) / 512; fat_sectors = (fat_sectors + c->lss - 1) / c->lss * c->lss;
  if (fatcap < ent + 10) { fatcap = ent + 10; fat = realloc (fat, fatcap * 4); } memset (fat, 0, (ent + 2) * 4);
  clofs = c->res * c->lss + c->nfats * fat_sectors + c->rde / 16; fslen = clofs + (L) c->ncl * c->cs + c->slack;
  if (c->lss > 1) fslen = fslen / c->lss * c->lss;
  root = node (NULL, "", 0x10, 0); content (p); put_chains (root); put_dir (root);
  u8 b[512]; memset (b, 0x90, 512); memcpy (b, "\xeb\x58\x90" "mkfs.fat", 11);
  w16 (b + 11, 512 * c->lss); b[13] = c->cs / c->lss; w16 (b + 14, c->res); b[16] = c->nfats; w16 (b + 17, c->rde);
  L tot = fslen / c->lss; if (tot < 0x10000 && c->type == 16) { w16 (b + 19, tot); w32 (b + 32, 0); } else { w16 (b + 19, 0); w32 (b + 32, tot); }
  b[21] = 0xf8; w16 (b + 22, c->type == 16 ? fat_sectors / c->lss : 0); w16 (b + 24, 63); w16 (b + 26, 255); w32 (b + 28, c->start);
  u8 *x = b + 36; if (c->type == 32) { w32 (b + 36, fat_sectors / c->lss); w16 (b + 40, 0); w16 (b + 42, 0); w32 (b + 44, root->cl[0]); w16 (b + 48, c->info); w16 (b + 50, c->backup); memset (b + 52, 0, 12); x = b + 64; }
  x[0] = 0x80; x[1] = 0; x[2] = 0x29; w32 (x + 3, 0xCAFEBABE); memcpy (x + 7, "MYVOLUME   ", 11); memcpy (x + 18, c->type == 16 ? "FAT16   " : "FAT32   ", 8);
  b[510] = 0x55; b[511] = 0xaa; mc_store_write (c->start, b); if (c->type == 32) mc_store_write (c->start + c->backup, b);
  for (int k = 0; k < c->nfats; k++) for (L s = 0; s < fat_sectors; s++) {
    u8 t[512]; memset (t, 0, 512); int per = 512 / es;
    for (int j = 0; j < per; j++) { u32 e = s * per + j; if (e >= ent) break; u32 v = e == 0 ? 0x0ffffff8 : e == 1 ? 0x0fffffff : fat[e]; if (es == 2) w16 (t + j * 2, v); else w32 (t + j * 4, v); }
    mc_store_write (c->start + c->res * c->lss + k * fat_sectors + s, t);
  }
  if (c->type == 32) { u8 t[512]; memset (t, 0, 512); u32 fr = 0; for (u32 i = 2; i < ent; i++) fr += !fat[i]; memcpy (t, "RRaA", 4); memcpy (t + 484, "rrAa", 4); w32 (t + 488, fr); w32 (t + 492, 3); t[510] = 0x55; t[511] = 0xaa; mc_store_write (c->start + c->info, t); }
}

/* ---------- an independent reader ---------- */
typedef struct { int type, cs, nfats, info, backup, lss; u32 ncl, rootc, serial; L start, len, resv, fats, fs, rootofs, rootsec, clofs; u32 *t; u8 *own; u32 dirs; char err[300]; McStr list; u32 used, freec, badc; } Fs;
static void ferr (Fs *f, const char *m, ...) { if (*f->err) return; va_list a; va_start (a, m); vsnprintf (f->err, 300, m, a); va_end (a); }
static u8 sb[512];
static u8 *rd (L s) { mc_store_read (s, sb); return sb; }
static bool eoc (const Fs *f, u32 v) { return f->type == 16 ? v >= 0xfff8 : v >= 0x0ffffff8; }
static int chain (Fs *f, u32 c, u32 **out, const char *path)
{
  u32 *l = NULL; int n = 0;
  while (1) {
    if (c < 2 || c >= f->ncl + 2) { ferr (f, "%s: cluster %u of %u", path, c, f->ncl); break; }
    if (f->own[c]) { ferr (f, "%s: cluster %u is used twice", path, c); break; }
    f->own[c] = 1; if (!(n & (n + 1023) & ~1023) || n % 1024 == 0) l = realloc (l, (n + 1024) * sizeof *l); l[n++] = c; c = f->t[c];
    if (eoc (f, c)) break;
  }
  *out = l; return n;
}
static void rdir (Fs *f, const char *path, u32 first, u32 self, u32 parent, int depth)
{
  if (*f->err || depth > 600) return;
  L bytes; u8 *b; u32 *cl = NULL; int n = 0;
  if (!first && f->type == 16) { bytes = f->rootsec * 512; b = malloc (bytes); for (L i = 0; i < f->rootsec; i++) mc_store_read (f->start + f->rootofs + i, b + i * 512); }
  else { n = chain (f, first, &cl, path); f->dirs += n; if (*f->err) { free (cl); return; } bytes = (L) n * f->cs * 512; b = malloc (bytes); for (int i = 0; i < n; i++) for (int s = 0; s < f->cs; s++) mc_store_read (f->start + f->clofs + (L) (cl[i] - 2) * f->cs + s, b + ((L) i * f->cs + s) * 512); }
  bool isroot = !parent && depth == 0; int idx = 0;
  for (L o = 0; o < bytes && !*f->err; o += 32, idx++) {
    u8 *e = b + o; if (!e[0]) break; if (e[0] == 0xe5) continue;
    char nm[14]; snprintf (nm, 14, "%.11s", (char *) e);
    if (e[11] == 0x0f) { mc_sprintf (&f->list, "%s lfn %llx\n", path, (unsigned long long) mc_hash (e, 32, 1)); continue; }
    u32 c = LE16 (e + 26) | (f->type == 32 ? LE16 (e + 20) << 16 : 0); u8 h[32]; memcpy (h, e, 32); w16 (h + 26, 0); w16 (h + 20, 0);
    if (!isroot && idx < 2) {
      if (strncmp (nm, idx ? "..         " : ".          ", 11) || c != (idx ? parent : first)) { ferr (f, "%s: '%s' is cluster %u, not %u", path, nm, c, idx ? parent : first); break; }
      continue;
    }
    mc_sprintf (&f->list, "%s\\%s %llx", path, nm, (unsigned long long) mc_hash (h, 32, 2));
    if (e[11] & 8) { mc_sprintf (&f->list, " label\n"); continue; }
    char *np = malloc (strlen (path) + 15); sprintf (np, "%s\\%s", path, nm);
    if (e[11] & 0x10) { mc_sprintf (&f->list, " dir\n"); if (!c) ferr (f, "%s: directory without clusters", np); else rdir (f, np, c, c, isroot ? 0 : first, depth + 1); }
    else {
      u32 size = LE32 (e + 28); u32 bs = f->cs * 512, want = (size + (u64) bs - 1) / bs; u32 *fl = NULL; int k = 0; u64 hh = 77; u32 left = size;
      if (c) k = chain (f, c, &fl, np); 
      if (!*f->err && (u32) k != want) ferr (f, "%s: %u bytes in %d clusters of %u", np, size, k, bs);
      for (int i = 0; i < k && !*f->err && left; i++) for (int s = 0; s < f->cs && left; s++) { u32 m = left < 512 ? left : 512; hh = mc_hash (rd (f->start + f->clofs + (L) (fl[i] - 2) * f->cs + s), m, hh); left -= m; }
      if (k && !*f->err && size % bs) f->own[fl[k - 1]] = 10 + (size % bs + 511) / 512;   /* the rest is not in use */
      mc_sprintf (&f->list, " %u %llx\n", size, (unsigned long long) hh); free (fl);
    }
    free (np);
  }
  free (b); free (cl);
}
static void fsfree (Fs *f) { free (f->t); free (f->own); free (f->list.s); memset (f, 0, sizeof *f); }
/* STRICT: as a resize must leave it */
static void fsread (Fs *f, L start, L len, bool strict)
{
  memset (f, 0, sizeof *f); f->start = start; u8 b[512]; memcpy (b, rd (start), 512); mc_sprintf (&f->list, "");
  if (LE16 (b + 510) != 0xaa55) { ferr (f, "no boot sector"); return; }
  f->lss = LE16 (b + 11) / 512; if (f->lss < 1 || f->lss > 8 || LE16 (b + 11) % 512) { ferr (f, "%u-byte sectors", LE16 (b + 11)); return; }
  f->cs = b[13] * f->lss; f->resv = LE16 (b + 14) * f->lss; f->nfats = b[16]; L rde = LE16 (b + 17); f->rootsec = rde * 32 / 512;
  f->len = (LE16 (b + 19) ? LE16 (b + 19) : LE32 (b + 32)) * (L) f->lss; f->type = LE16 (b + 22) ? 16 : 32; f->fs = (f->type == 16 ? LE16 (b + 22) : LE32 (b + 36)) * (L) f->lss;
  if (!f->cs || (f->cs & (f->cs - 1)) || f->cs > 128 || !f->resv || f->nfats < 1 || f->nfats > 2 || !f->fs) { ferr (f, "clusters of %d sectors, %lld reserved, %d FATs of %lld", f->cs, f->resv, f->nfats, f->fs); return; }
  if ((f->type == 32) != (rde == 0)) { ferr (f, "%lld root directory entries on FAT%d", rde, f->type); return; }
  f->fats = f->resv; f->rootofs = f->resv + f->nfats * f->fs; f->clofs = f->rootofs + f->rootsec;
  if (f->len <= f->clofs || (strict && f->len > len)) { ferr (f, "the boot sector says %lld sectors in %lld", f->len, len); return; }
  L ncl = (f->len - f->clofs) / f->cs; u32 cap = f->fs * 512 / (f->type / 8) - 2; 
  if (ncl > cap) { if (strict) ferr (f, "%lld clusters, but the FATs hold %u", ncl, cap); ncl = cap; } f->ncl = ncl;
  if (f->type == 16 ? f->ncl > 65524 || f->ncl < 4085 : f->ncl < 65525) if (strict) { ferr (f, "FAT%d with %u clusters", f->type, f->ncl); }
  u8 *x = b + (f->type == 32 ? 64 : 36); f->serial = LE32 (x + 3);
  f->t = malloc ((f->ncl + 200) * 4); f->own = calloc (1, f->ncl + 200);
  int es = f->type / 8, per = 512 / es; 
  for (int k = f->nfats - 1; k >= 0; k--) for (L s = 0; s * per < f->ncl + 2; s++) { u8 *p = rd (f->start + f->fats + k * f->fs + s); for (int j = 0; j < per && s * per + j < f->ncl + 2; j++) { u32 e = s * per + j, v = es == 2 ? LE16 (p + j * 2) : LE32 (p + j * 4) & 0x0fffffff; if (k != f->nfats - 1 && f->t[e] != v) ferr (f, "the FATs differ at cluster %u: %x, %x", e, v, f->t[e]); f->t[e] = v; } }
  if (strict) {
    if (f->len > len || f->len < len - (f->lss - 1)) ferr (f, "%lld sectors, not %lld", f->len, len);
    if (LE32 (b + 28) != (u32) start) ferr (f, "hidden sectors %u, not %lld", LE32 (b + 28), start);
    if ((f->t[0] & 0xff) != b[21]) ferr (f, "media %x in the FAT, %x in the boot sector", f->t[0], b[21]);
    if (memcmp (x + 18, f->type == 16 ? "FAT16   " : "FAT32   ", 8) || x[2] != 0x29) ferr (f, "type field '%.8s'", x + 18);
    if (!eoc (f, f->t[1])) ferr (f, "FAT entry 1 is %x", f->t[1]);
  }
  if (f->type == 32) {
    f->rootc = LE32 (b + 44); f->info = LE16 (b + 48) * f->lss; f->backup = LE16 (b + 50) * f->lss;
    if (strict) { if (f->backup >= f->resv || f->info >= f->resv) ferr (f, "information sector %d, backup %d, %lld reserved", f->info, f->backup, f->resv); if (memcmp (rd (start + f->backup), b, 512)) ferr (f, "the backup boot sector differs"); if (b[41] || b[40]) ferr (f, "flags %x", LE16 (b + 40)); }
  }
  rdir (f, "", f->type == 32 ? f->rootc : 0, 0, 0, 0);
  for (u32 c = 2; c < f->ncl + 2; c++) {
    u32 v = f->t[c]; bool isbad = f->type == 16 ? v == 0xfff7 : v == 0x0ffffff7; if (!v) f->freec++; else if (isbad) f->badc++; else f->used++;
    if (f->own[c] && (!v || isbad)) ferr (f, "cluster %u is in a file, but marked %s", c, v ? "bad" : "free");
    if (strict && v && !isbad && !f->own[c]) ferr (f, "cluster %u is marked used (%x), but in no file", c, v);
    if (isbad) f->own[c] = 2;
  }
  if (f->type == 32 && strict) { u8 *i = rd (start + f->info); if (memcmp (i, "RRaA", 4) || memcmp (i + 484, "rrAa", 4) || LE16 (i + 510) != 0xaa55) ferr (f, "no information sector"); else if (LE32 (i + 488) != f->freec) ferr (f, "information sector says %u free clusters, not %u", LE32 (i + 488), f->freec); else if (LE32 (i + 492) != 0xffffffff && (LE32 (i + 492) >= f->ncl + 2)) ferr (f, "next free cluster %u of %u", LE32 (i + 492), f->ncl); }
}

/* ---------- one resize, checked ---------- */
static PedDevice *dev;
static u8 *inuse;             /* 1: the sector holds the old file system's metadata, 2: a file's, 3: bad */
static void mark_use (const Fs *f)
{
  inuse = realloc (inuse, f->len); memset (inuse, 0, f->len); memset (inuse, 1, f->clofs);
  for (u32 c = 2; c < f->ncl + 2; c++) if (f->own[c]) memset (inuse + f->clofs + (L) (c - 2) * f->cs, f->own[c] == 2 ? 3 : 2, f->own[c] >= 10 ? f->own[c] - 10 : f->cs);
}
static L listdiff (const char *a, const char *b) { L i = 0; while (a[i] && a[i] == b[i]) i++; while (i && a[i - 1] != '\n') i--; return i; }
static McImage *before;
static int bef_cmp (const void *a, const void *b) { PedSector x = before->sec[*(int *) a], y = before->sec[*(int *) b]; return x < y ? -1 : x > y; }
static int *bidx;
static void bef_index (void) { bidx = realloc (bidx, (before->n + 1) * sizeof *bidx); for (int i = 0; i < before->n; i++) bidx[i] = i; qsort (bidx, before->n, sizeof *bidx, bef_cmp); }
static void bef_read (L s, u8 *d)
{
  int lo = 0, hi = before->n - 1;
  while (lo <= hi) { int m = (lo + hi) / 2; PedSector q = before->sec[bidx[m]]; if (q == s) { memcpy (d, before->data + (size_t) bidx[m] * 512, 512); return; } if (q < s) lo = m + 1; else hi = m - 1; }
  for (int i = 0; i < 64; i++) { u64 v = 0x9E3779B97F4A7C15ull * (u64) (s + 1) + i; memcpy (d + i * 8, &v, 8); }
}
static char what[400];
/* 1: done, 0: refused */
static int resize1 (PedFileSystem *fs, L ns, L nl, bool must, bool faulty, const Fs *old, Fs *now)
{
  PedGeometry g; ped_geometry_init (&g, dev, ns, nl);
  L os = old->start, ol = old->len; mark_use (old);
  before = mc_image_save (); bef_index (); long fi = mc_fail_io; mc_io_reset (); mc_fail_io = fi; mc_exc_bug = 0; mc_exc_msg[0] = 0;
  int r = ped_file_system_resize (fs, &g, NULL);
  mc_count ("resizes", 1);
  if (mc_exc_bug) mc_fail ("bug", "%s: %s", what, mc_exc_msg);
  memset (now, 0, sizeof *now);
  if (r) {
    mc_count (faulty ? "resizes with a fault done" : "resizes done", 1);
    fsread (now, ns, nl, true);
    if (*now->err && mc_verbose) fprintf (stderr, "old:\n%s\nnow:\n%s\n", old->list.s, now->list.s);
    if (*now->err) mc_fail ("damaged", "%s: %s", what, now->err);
    if (strcmp (now->list.s, old->list.s)) { L d = listdiff (now->list.s, old->list.s); mc_fail ("files", "%s: is '%.150s', was '%.150s'", what, now->list.s + d, old->list.s + d); }
    if (now->serial != old->serial) mc_fail ("serial", "%s: serial number %x was %x", what, now->serial, old->serial);
    if (!ped_geometry_test_equal (fs->geom, &g)) mc_fail ("object", "%s: the file system's geometry is %lld+%lld", what, (L) fs->geom->start, (L) fs->geom->length);
    if (strcmp (fs->type->name, now->type == 16 ? "fat16" : "fat32")) mc_fail ("object", "%s: the file system's type is %s", what, fs->type->name);
    for (u32 c = 2; c < old->ncl + 2; c++) if (old->own[c] == 2) for (int s = 0; s < old->cs; s++) {
      L p = os + old->clofs + (L) (c - 2) * old->cs + s - ns - now->clofs; if (p < 0 || p >= (L) now->ncl * now->cs) continue;
      u32 q = p / now->cs + 2; if (now->own[q] != 2) mc_fail ("bad-clusters", "%s: the bad cluster %u is now cluster %u, which is %s", what, c, q, now->own[q] ? "used" : "free");
    }
  } else {
    mc_count (faulty ? "resizes with a fault refused" : "resizes refused", 1);
    if (must) mc_fail ("refused", "%s: refused: %s", what, mc_exc_msg);
    if (!mc_nexc) mc_fail ("silent", "%s: refused without a message", what);
  }
  /* where it wrote */
  L meta = r ? ns + now->clofs : -1;
  for (int i = 0; i < mc_nlog; i++) if (mc_log[i].kind == 0) {
    L s = mc_log[i].start, n = mc_log[i].count;
    if (s < ns || s + n > ns + nl) mc_fail ("outside", "%s: writes sectors %lld-%lld", what, s, s + n - 1);
    for (L k = 0; k < n; k++) if (s + k >= os && s + k < os + ol && inuse[s + k - os] && inuse[s + k - os] != 3) {
      if (r && s + k < meta) continue;
      if (!r && faulty && s + k < os + old->clofs) continue;
      u8 t[512]; bef_read (s + k, t);
      if (memcmp (t, mc_logdata + mc_log[i].off + k * 512, 512)) {
        if (!r && faulty) break; 
        mc_fail (r ? "overwrites" : "refused-destroys", "%s: %s, but overwrites sector %lld of the file system (%s)", what, r ? "done" : "refused", s + k - os, inuse[s + k - os] == 1 ? "metadata" : "data");
      }
    }
  }
  mc_image_free (before); before = NULL;
  return r;
}

static const L dstart[] = { 0, 1, -1, 2, -2, -3, -5, -6, 8, -8, 63, -63, 64, -64, 255, 1000, -1000, 3001, -2000, 20000, -20000, 45001, 66100 };
static const L dlen[] = { 0, -1, 1, -2, 2, -3, 3, 4, -5, 8, -16, 63, 64, -64, 255, -255, 1000, -1000, 5000, -5000, -20000, 20000, -60000, 60001, 200000, -200000, 1000000 };
enum { L_MIN = N (dlen), L_MIN1, L_MINM, L_CAP, L_CAP1, L_CAP2, L_HALF, L_F32, L_F32B, L_N };
static const int anss[] = { ANS_UNHANDLED, ANS_REPAIR, ANS_NO };
static L newlen (int k, const Fs *f, L minsz)
{
  L cap = f->clofs + 65520LL * f->cs;
  switch (k) { case L_MIN: return minsz; case L_MIN1: return minsz + 1; case L_MINM: return minsz - 100; case L_CAP: return cap; case L_CAP1: return cap + 1; case L_CAP2: return cap + f->cs * 20; case L_HALF: return f->len / 2; case L_F32: return 65525LL * 8 + 1100; case L_F32B: return 65525LL * f->cs + 1100 + 4 * f->cs; }
  return f->len + dlen[k];
}
#define CHUNK 5
static long per (void) { return (long) NPROF * N (dstart); }
static McGeom G = { .ss = 512, .phys = 512, .heads = 255, .sects = 63 };
static void setup (const Cfg *c, int p, Fs *old)
{
  L span = (L) c->ncl * c->cs; G.length = c->start + span * 3 + 2000000;
  mc_bg = 1000; dev = mc_device (&G); build (c, p);
  fsread (old, c->start, fslen, false); if (*old->err) { fprintf (stderr, "builder: %s\n", old->err); abort (); }
  mc_io_reset ();
}
static PedFileSystem *open_fs (L start, L len)
{
  PedGeometry g; ped_geometry_init (&g, dev, start, len); mc_nexc = 0;
  PedFileSystem *fs = ped_file_system_open (&g);
  if (!fs) mc_fail ("open", "%s: cannot be opened: %s", what, mc_exc_msg);
  return fs;
}
static void one (int ci, int p, int si, int li, int ai)
{
  Fs old, now; const Cfg *c = &cfgs[ci];
  mc_ans = anss[ai]; setup (c, p, &old);
  if (mc_verbose) fprintf (stderr, "  length %d, answer %d\n", li, ai);
  snprintf (what, 400, "opening");
  PedFileSystem *fs = open_fs (c->start, fslen + 500);
  PedConstraint *rc = ped_file_system_get_resize_constraint (fs); L mn = rc->min_size; ped_constraint_destroy (rc);
  L ns = c->start + dstart[si], nl = newlen (li, &old, mn);
  if (nl > 100 && ns >= 0 && ns + nl <= dev->length) {
    L cap = old.clofs + 65520LL * old.cs; bool same = ns == c->start;
    bool must = c->type == 16 ? nl >= mn && nl <= cap : nl >= mn && nl >= 65530LL * old.cs + old.clofs + 2 * old.cs;
    if (!same && must) { L d = ns < c->start ? c->start - ns : ns - c->start; must = old.freec * (L) old.cs > 3 * (d + old.clofs + 100) + 30000 && nl - d > (old.used + old.dirs) * (L) old.cs + 2 * old.clofs + 33000LL * old.cs; }
    if (c->type == 16 && anss[ai] == ANS_REPAIR && nl > 65525 * 8) must = false;
    snprintf (what, 400, "%lld+%lld (smallest %lld) to %lld+%lld", c->start, fslen, mn, ns, nl);
    if (resize1 (fs, ns, nl, must, false, &old, &now)) {
      McStr a = { 0 }; mc_sprintf (&a, "%d %d %d %u %lld %d", ci, p, now.type, now.ncl, now.clofs, now.cs); mc_nontrivial (mc_hash (a.s, a.n, 3)); 
      mc_sample ("%s, %s: %s: FAT%d, %u clusters of %d sectors", c->name, prof[p], what, now.type, now.ncl, now.cs); free (a.s);
      /* and again, with the same object and with a new one */
      Fs third; int again = (ci + p + si + li) % 3;
      L s2 = again == 0 ? c->start : ns + (again == 1 ? 0 : 37), l2 = again == 0 ? fslen : nl - (again == 1 ? 1000 : 50);
      if (ci & 1) { ped_file_system_close (fs); snprintf (what, 400, "opening again"); fs = open_fs (ns, nl); }
      snprintf (what, 400, "%lld+%lld to %lld+%lld to %lld+%lld", c->start, fslen, ns, nl, s2, l2);
      if (s2 >= 0 && s2 + l2 <= dev->length && l2 > 100) { resize1 (fs, s2, l2, false, false, &now, &third); fsfree (&third); }
    }
    fsfree (&now);
  }
  fsfree (&old); ped_file_system_close (fs);
}
static long decode_i (long i, int *ci, int *p, int *si) { *ci = i / per (); *p = i % per () / N (dstart); *si = i % N (dstart); return i; }
static void run (long i)
{
  int ci, p, si; decode_i (i, &ci, &p, &si);
  if ((p == 5 || p == 10) && cfgs[ci].cs > 4) return;
  for (int li = 0; li < L_N; li++) for (int ai = 0; ai < N (anss); ai++) {
    if (*mc_opt) { static int wl = -2, wa = -2; if (wl == -2) sscanf (mc_opt, "%d,%d", &wl, &wa); if (li != wl || ai != wa) continue; }
    else if (!mc_thorough && ((li * 5 + ai + si + p * 3 + ci) % 20 || (p == 5 && li % 3))) continue;
    one (ci, p, si, li, ai);
  }
}
/* I/O errors in the middle of a resize */
static const struct { int ci, p, ds; L dl; } scen[] = {
  { 0, 0, 0, -500 }, { 0, 1, 0, -600 }, { 0, 2, 0, 5000 }, { 0, 3, 0, -64 }, { 0, 1, 64, -100 }, { 0, 2, -64, 100 }, { 0, 4, 3, 40 }, { 0, 6, 0, -300 }, { 0, 9, 0, 300 }, { 1, 2, 1000, 2000 }, { 1, 7, -32, -2000 },
  { 3, 1, 0, -50 }, { 3, 2, 0, 8000 }, { 3, 3, 0, 80 }, { 3, 7, 64, -200 }, { 3, 2, -64, 64 }, { 2, 3, 0, 300000 }, { 2, 6, 0, 100 }, { 4, 2, 0, -700000 }, { 4, 6, 0, -700000 }, { 9, 3, 8, -300000 }, { 2, 2, 0, 700000 } };
#define NFAULT ((long) N (scen) * 6)
static int fwhat; static long flast;
static void fault (long i)
{
  int sc = i / 6, kind = i % 6, ci = scen[sc].ci, p = scen[sc].p; const Cfg *c = &cfgs[ci];
  long total = 1; PedSector *sec = NULL; long nsec = 0;
  for (long k = 0; k <= total; k++) {
    Fs old, now; mc_ans = ANS_REPAIR; setup (c, p, &old);
    L ns = c->start + scen[sc].ds, nl = fslen + scen[sc].dl;
    snprintf (what, 400, "%lld+%lld to %lld+%lld", c->start, fslen, ns, nl);
    PedFileSystem *fs = open_fs (c->start, fslen + 500);
    mc_fail_mask = kind < 3 ? 1 << kind : 7; mc_fail_sticky = kind >= 3 && kind < 4; mc_fail_io = kind < 4 ? k : 0; mc_io = 0; 
    if (kind >= 4 && k) { mc_bad_sector = sec[k - 1]; mc_bad_mask = kind == 4 ? 2 : 3; }
    if (k) snprintf (what + strlen (what), 100, kind < 4 ? " with %s %ld failing" : " with sector %s%ld bad", kind == 0 ? "read" : kind == 1 ? "write" : kind == 2 ? "sync" : kind == 3 ? "everything from" : "", kind < 4 ? k : (long) mc_bad_sector);
    if (mc_verbose) fprintf (stderr, "  %s\n", what);
    int r = resize1 (fs, ns, nl, k == 0, k > 0, &old, &now);
    mc_bad_sector = -1; mc_fail_io = 0; mc_fail_sticky = 0; 
    if (!k && kind >= 4) {
      L from = ns + now.clofs, prev = -1;
      for (int j = 0; j < mc_nlog; j++) if (!mc_log[j].kind && mc_log[j].start >= from) for (L s = 0; s < mc_log[j].count; s += (mc_log[j].count > 40 ? 13 : 3)) { L q = mc_log[j].start + s; if (q == prev) continue; prev = q; sec = realloc (sec, (nsec + 1) * sizeof *sec); sec[nsec++] = q; }
      total = nsec < 400 ? nsec : 400;
    } else if (!k) total = mc_io;
    mc_count (k ? r ? "done in spite of an I/O error" : "refused for an I/O error" : "without I/O errors", 1);
    u64 h = mc_hash (what, strlen (what), r); mc_nontrivial (h);
    fsfree (&now); fsfree (&old); ped_file_system_close (fs);
  }
  free (sec);
}
static long base_n (void) { return (long) N (cfgs) * per (); }
static void run_all (long i) { if (i < base_n ()) run (i); else fault (i - base_n ()); }
static void describe (long i, FILE *f) { if (i >= base_n ()) { i -= base_n (); static const char *const kn[] = { "reads fail", "writes fail", "syncs fail", "everything fails from then on", "bad sectors (writing)", "bad sectors" }; fprintf (f, "%s, %s, start moved by %d, %lld sectors more, %s", cfgs[scen[i / 6].ci].name, prof[scen[i / 6].p], scen[i / 6].ds, scen[i / 6].dl, kn[i % 6]); return; } int ci, p, si; decode_i (i, &ci, &p, &si); fprintf (f, "%s, %s, start moved by %lld", cfgs[ci].name, prof[p], dstart[si]); }
int main (int argc, char **argv)
{
  mc_store_bits = 20;
  McSweep s = { "P24", base_n () + NFAULT, run_all, describe };
  return mc_sweep (&s, argc, argv);
}
