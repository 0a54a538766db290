/* P28: tables as other tools lay them out.  An encoder per format, with
   parameters parted does not choose; each table is read, compared with what it
   was made to say, written back unchanged, with one partition less and with
   one more, and what is not concerned must stay. */
#include <config.h>
#include "mc.h"
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#define L long long
#include "fsimg.h"
#define N(a) ((int) (sizeof (a) / sizeof *(a)))
static char late_key[60], late_msg[1200], what[300], known_key[60];
static void late (const char *k, const char *f, ...) { if (mc_is_known (k)) { snprintf (known_key, sizeof known_key, "%s", k); return; } if (*late_key) return; va_list a; va_start (a, f); snprintf (late_key, sizeof late_key, "%s", k); int n = snprintf (late_msg, sizeof late_msg, "%s: ", what); vsnprintf (late_msg + n, sizeof late_msg - n, f, a); va_end (a); }
static PedDevice *dev; static McGeom G;
typedef struct { int num, kind; L s, e; const char *name; int boot, fs; } X;          /* what the table says; KIND: 0 normal, 1 logical, 2 extended, 3 of the label itself */
static X x[260]; static int nx;
typedef struct { L off; int len, num; const char *what; } Keep;                        /* bytes that commits leave alone; NUM: belongs to that partition */
static Keep keeps[900]; static int nkeep;
static PedCHSGeometry want_geom; static bool anyexc, renum, fix;
static void put (L off, const void *p, int n) { pb (off, p, n); }
static void keep (L off, int len, int num, const char *w) { keeps[nkeep++] = (Keep) { off, len, num, w }; }
static void on (L len, int ss, int h, int s) { G = (McGeom) { .length = len, .ss = ss, .phys = ss, .heads = h, .sects = s }; mc_geom = G; dev = mc_device (&G); nx = nkeep = 0; want_geom.heads = 0; anyexc = renum = fix = false; }
static X *exp_ (int num, int kind, L s, L e) { x[nx] = (X) { .num = num, .kind = kind, .s = s, .e = e, .boot = -1 }; return &x[nx++]; }
static int take (long *i, int n) { int r = *i % n; *i /= n; return r; }
static uint32_t crc (const uint8_t *p, size_t n) { uint32_t c = ~0u; while (n--) { c ^= *p++; for (int i = 0; i < 8; i++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0); } return ~c; }
static void fill (uint8_t *b, int n, int seed) { for (int i = 0; i < n; i++) b[i] = (i * 37 + seed * 11 + 5) % 250 + 1; }

/* the I-th way to place N things in M slots, in order of I; false when there are no more */
static bool place (long i, int n, int m, int *slot) { bool used[32] = { 0 }; for (int k = 0; k < n; k++) { int r = i % (m - k); i /= m - k; int j = 0; for (;; j++) if (!used[j] && !r--) break; slot[k] = j; used[j] = true; } return i == 0; }
static long places (int n, int m) { long r = 1; for (int k = 0; k < n; k++) r *= m - k; return r; }

/* ---- msdos ---- */
static void chs (uint8_t *p, L lba, int H, int S) { L c = lba / (H * S); int h = lba / S % H, s = lba % S + 1; if (c > 1023) { c = 1023; h = H - 1; s = S; } p[0] = h; p[1] = s | (c >> 8) << 6; p[2] = c; }
static void dosent (uint8_t *p, int boot, int type, L s, L e, L base, int H, int S) { p[0] = boot; p[4] = type; if (H > 0) { chs (p + 1, s, H, S); chs (p + 5, e, H, S); } else if (H < 0) memcpy (p + 1, "\xfe\xff\xff", 3), memcpy (p + 5, "\xfe\xff\xff", 3); le (p + 8, 4, s - base); le (p + 12, 4, e - s + 1); }
static const uint8_t dtypes[] = { 0x83, 0x07, 0x0c, 0x82, 0x8e, 0xa5, 0x27, 0x12, 0x39, 0x63 };
static long msdos (long i)
{
  static const int HS[][2] = { { 255, 63 }, { 16, 63 }, { 240, 63 }, { 64, 32 }, { 128, 63 }, { 7, 11 }, { 0, 0 }, { -1, 0 } };
  static const int ET[] = { 5, 0xf, 0x85 };
  if (i < 0) {       /* primaries: n, places, geometry, sector size;  with an extended partition: its slot, type, logicals, arrangement, gap */
    return (4 + 12 + 24 + 24) * N (HS) * 2 + 4 * N (ET) * 4 * 6 * 4 * 3 * 3;
  }
  long A = (4 + 12 + 24 + 24) * N (HS) * 2; uint8_t b[4096]; int ss;
  if (i < A) {
    int p = take (&i, 64), g = take (&i, N (HS)); ss = i ? 4096 : 512; int n = 1; long q = p; while (q >= places (n, 4)) q -= places (n++, 4);
    on (ss == 512 ? 400000 : 60000, ss, 255, 63); int slot[4]; place (q, n, 4, slot); int H = HS[g][0], S = HS[g][1]; L cyl = H > 0 ? H * S : 2048;
    memset (b, 0, sizeof b); fill (b, 440, p); memcpy (b + 440, "\x12\x34\x56\x78", 4); b[510] = 0x55; b[511] = 0xaa; L len = G.length / n / cyl;
    for (int k = 0; k < n; k++) {
      L s = len ? k * len * cyl : k * (G.length / n), e = len ? (k + 1) * len * cyl - 1 : (k + 1) * (G.length / n) - 1; if (!k) s = H > 0 ? S : 64; int t = dtypes[(p + k + g) % N (dtypes)];
      dosent (b + 446 + 16 * slot[k], k == 1 ? 0x80 : 0, t, s, e, 0, H, S); X *y = exp_ (slot[k] + 1, 0, s, e); y->boot = k == 1;
      keep (446 + 16 * slot[k], 16, y->num, "the entry of a primary partition");
    }
    keep (0, 440, 0, "boot code"); keep (440, 4, 0, "disk signature");
    if (H > 0 && len && n == 1 && (len * cyl - 1) / cyl > 0 && (len * cyl - 1) / cyl < 1023 && ss == 512) { want_geom.heads = H; want_geom.sectors = S; want_geom.cylinders = G.length / cyl; }
    put (0, b, ss); snprintf (what, sizeof what, "msdos, %d partitions in slots %d %d %d %d, %d heads, %d sectors, sectors of %d bytes", n, slot[0], n > 1 ? slot[1] : -1, n > 2 ? slot[2] : -1, n > 3 ? slot[3] : -1, H, S, ss);
    return 0;
  }
  i -= A; int es = take (&i, 4), et = take (&i, N (ET)), nl = take (&i, 4), ord = take (&i, 6), lay = take (&i, 4), gap = take (&i, 3), pos = take (&i, 3);
  static const int P[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; static const int gaps[] = { 1, 63, 2048 };
  on (200000, 512, 255, 63); memset (b, 0, 512); fill (b, 440, es); memcpy (b + 440, "\x12\x34\x56\x78", 4); b[510] = 0x55; b[511] = 0xaa;
  L xs = pos == 0 ? 63 : 60000, xe = pos == 2 ? 199999 : 160000;
  dosent (b + 446 + 16 * es, 0, ET[et], xs, xe, 0, 0, 0); exp_ (es + 1, 2, xs, xe); keep (446 + 16 * es + 4, 12, es + 1, "the entry of the extended partition");
  int o1 = (es + 1) % 4, o2 = (es + 2) % 4; if (pos) { dosent (b + 446 + 16 * o1, 0x80, 0x83, 2048, 50000, 0, 0, 0); exp_ (o1 + 1, 0, 2048, 50000)->boot = 1; keep (446 + 16 * o1, 16, o1 + 1, "the entry of a primary partition"); }
  if (pos < 2) { dosent (b + 446 + 16 * o2, 0, 7, 160001, 199999, 0, 0, 0); exp_ (o2 + 1, 0, 160001, 199999); keep (446 + 16 * o2, 16, o2 + 1, "the entry of a primary partition"); }
  keep (0, 440, 0, "boot code"); keep (440, 4, 0, "disk signature"); put (0, b, 512);
  /* logical partitions, the K-th on the disk; the chain goes through them in some order from the first EBR, which is at the start */
  int chain[3], m = 0; for (int k = 0; k < 3; k++) if (P[ord][k] < nl) chain[m++] = P[ord][k];
  L room = (xe - xs) / 4 / 8 * 8; L at[4], ls[3], le_[3];
  for (int k = 0; k < nl; k++) { at[k] = xs + (k + 1) * room - 2100; ls[k] = at[k] + gaps[gap]; le_[k] = ls[k] + room / 2; }
  bool empty = lay == 3; if (nl && !empty) at[chain[0]] = xs, ls[chain[0]] = chain[0] == 0 ? xs + gaps[gap] : ls[chain[0]];
  if (nl && !empty && chain[0] == 0) le_[0] = ls[0] + room / 2;
  for (int k = empty ? -1 : 0; k < m || (k == 0 && !m); k++) {
    memset (b, 0, 512); b[510] = 0x55; b[511] = 0xaa; int ds = lay == 1 ? 1 : lay == 2 ? 2 : 0, ns = lay == 1 ? 0 : lay == 2 ? 3 : 1; L here = k < 0 || !m ? xs : at[chain[k]];
    if (k >= 0 && m) dosent (b + 446 + 16 * ds, 0, dtypes[(k + es) % N (dtypes)], ls[chain[k]], le_[chain[k]], here, 0, 0);
    if (k + 1 < m) { L nx_ = at[chain[k + 1]]; dosent (b + 446 + 16 * ns, 0, ET[et == 2 ? 2 : 0], nx_, le_[chain[k + 1]], xs, 0, 0); }
    put (here * 512, b, 512);
  }
  for (int k = 0; k < m; k++) exp_ (5 + k, 1, ls[chain[k]], le_[chain[k]]);      /* numbered in the order of the chain */
  renum = true;
  snprintf (what, sizeof what, "msdos, extended partition of type %02x in slot %d at %lld-%lld, %d logical in order %d, arrangement %d, gap %d", ET[et], es, xs, xe, nl, ord, lay, gaps[gap]);
  return 0;
}
/* ---- gpt ---- */
static void gptent (uint8_t *p, int k, L s, L e, int attr)
{
  static const uint8_t ty[][16] = { "\xaf\x3d\xc6\x0f\x83\x84\x72\x47\x8e\x79\x3d\x69\xd8\x47\x7d\xe4", "\x28\x73\x2a\xc1\x1f\xf8\xd2\x11\xba\x4b\x00\xa0\xc9\x3e\xc9\x3b", "\xde\xad\xbe\xef\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c", "\xa2\xa0\xd0\xeb\xe5\xb9\x33\x44\x87\xc0\x68\xb6\xb7\x26\x99\xc7" };
  memcpy (p, ty[k % 4], 16); fill (p + 16, 16, k + 1); le (p + 32, 8, s); le (p + 40, 8, e); if (attr) le (p + 48, 8, 0x8001000000000005ULL << (attr - 1));
  static const char *nm[] = { "data", "", "one", "a name that has all thirty-six chars." }; const char *n = nm[k % 4]; for (int i = 0; n[i] && i < 36; i++) p[56 + 2 * i] = n[i]; if (k % 4 == 2) le (p + 56, 2, 0xe9), le (p + 58, 2, 0x20ac);
}
static long gpt (long i)
{
  static const int cnt[] = { 1, 2, 4, 5, 8, 16, 64, 127, 128, 129, 130, 256, 500, 1024 }, esz[] = { 128, 256, 512 }, lba[] = { 2, 3, 10 }, hs[] = { 92, 96, 512 }, sz[] = { 512, 4096 };
  if (i < 0) return (long) N (cnt) * N (esz) * N (lba) * N (hs) * N (sz) * 5 * 3;
  int c = cnt[take (&i, N (cnt))], es = esz[take (&i, N (esz))], lb = lba[take (&i, N (lba))], h = hs[take (&i, N (hs))], ss = sz[take (&i, N (sz))], lay = take (&i, 5), us = take (&i, 3);
  on (ss == 512 ? 70000 : 20000, ss, 255, 63); int ns = ((L) c * es + ss - 1) / ss; L min = (16384 + ss - 1) / ss, fu = lb + ns, lu = G.length - 2 - ns; if (us) fu = (fu < 2 + min ? 2 + min : fu) + (us == 2 ? 700 : 0), lu -= us == 2 ? 300 : 0; if (us && lu > G.length - 2 - min) lu = G.length - 2 - min;
  if (fu < 3) fu = 3; int slots[3], n = 0;
  if (lay == 0) n = 0; else if (lay == 1) slots[n++] = 0; else if (lay == 2) slots[n++] = c - 1; else if (lay == 3) { slots[n++] = c / 2; if (c > 1) slots[n++] = 0; } else { slots[n++] = c - 1; if (c > 1) slots[n++] = 0; if (c > 3) slots[n++] = c / 2; }
  uint8_t *e = calloc (1, (size_t) ns * ss), b[4096]; memset (b, 0, sizeof b);
  L w = (lu - fu + 1) / 3; for (int k = 0; k < n; k++) { L s = fu + k * w, q = k == 2 || n == 1 ? lu : s + w - 1 - k * 5; gptent (e + slots[k] * es, k + lay, s, q, k); exp_ (slots[k] + 1, 0, s, q); if (es > 128) fill (e + slots[k] * es + 128, 8, 3); }
  fill (b, 440, c); b[446 + 4] = 0xee; b[447] = 0; b[448] = 2; b[451] = b[452] = b[453] = 0xff; le (b + 454, 4, 1); le (b + 458, 4, G.length - 1); b[510] = 0x55; b[511] = 0xaa; put (0, b, ss); keep (0, 440, 0, "boot code");
  for (int k = 0; k < 2; k++) {
    L at = k ? G.length - 1 : 1, pe = k ? G.length - 1 - ns : lb; memset (b, 0, ss); memcpy (b, "EFI PART", 8); le (b + 8, 4, 0x10000); le (b + 12, 4, h); le (b + 24, 8, at); le (b + 32, 8, k ? 1 : G.length - 1); le (b + 40, 8, fu); le (b + 48, 8, lu); fill (b + 56, 16, 9);
    le (b + 72, 8, pe); le (b + 80, 4, c); le (b + 84, 4, es); le (b + 88, 4, crc (e, (size_t) c * es)); le (b + 16, 4, crc (b, h)); put (at * ss, b, ss); put (pe * ss, e, ns * ss);
  }
  anyexc = us == 2;        /* not all of the space is used: asks whether to fix that */
  free (e); snprintf (what, sizeof what, "gpt, %d entries of %d bytes at %d, header of %d bytes, usable %lld-%lld, sectors of %d bytes, arrangement %d", c, es, lb, h, fu, lu, ss, lay);
  return 0;
}
/* ---- mac ---- */
static long mac (long i)
{
  static const int maps[] = { 12, 16, 63, 64 };
  if (i < 0) return (long) N (maps) * 24 * 3 * 3 * 3;
  int mp = maps[take (&i, N (maps))], perm = take (&i, 24), own = take (&i, 3), fr = take (&i, 3), sz = take (&i, 3), g = sz == 3 ? 2 : sz == 4 ? 4 : 1; int ss = sz == 1 ? 2048 : 512; on (sz == 2 ? 300000 : 40000, ss, 16, 63);
  int slot[4]; place (perm, 4, 4, slot);       /* the map itself, two partitions, free space or a driver; in the order of the entries */
  int n = 4; uint8_t b[4096]; memset (b, 0, sizeof b); memcpy (b, "ER", 2); be (b + 2, 2, ss); be (b + 4, 4, G.length); be (b + 8, 2, 1); be (b + 10, 2, 1); if (own == 1) { be (b + 16, 2, 1); be (b + 18, 4, fr == 2 ? 2 * (G.length / 4) - 10 : 64); be (b + 22, 2, fr == 2 ? 900 : 9); be (b + 24, 2, 1); } put (0, b, ss); if (own == 1 && fr == 2) keep (16, 10, slot[3] + 1, "the list of drivers"); else if (own != 1) keep (16, 490, 0, "the list of drivers, empty"); 
  L q = G.length / 4; if (slot[0] != 0 && own == 2) own = 0; int drv = fr == 2;
  struct { const char *nm, *ty; L s, n; bool free; } e[4] = { { "Apple", "Apple_partition_map", 1, mp, 0 }, { "MacOS", "Apple_HFS", q, q - 10, 0 }, { own == 2 ? "" : "data", "Apple_UNIX_SVR2", 3 * q, G.length - 3 * q, 0 }, { drv ? "Macintosh" : "Extra", drv ? "Apple_Driver43" : "Apple_Free", 2 * q - 10, drv ? 900 : q + 10, !drv } };
  if (fr == 1) n = 3;
  if (n == 3) { int k = 0, s2[3]; for (int v = 0; v < 4; v++) for (int j = 0; j < 3; j++) if (slot[j] == v) s2[j] = k++; memcpy (slot, s2, sizeof s2); }
  for (int k = 0; k < n; k++) {
    memset (b, 0, ss); memcpy (b, "PM", 2); be (b + 4, 4, n); be (b + 8, 4, e[k].s); be (b + 12, 4, e[k].n); strcpy ((char *) b + 16, e[k].nm); strcpy ((char *) b + 48, e[k].ty); be (b + 84, 4, e[k].n); be (b + 88, 4, k == 1 ? 0x40000033 : 0x33); if (k == 3 && drv) be (b + 96, 4, e[k].n); if (k == 2) { be (b + 96, 4, 0x1234); be (b + 100, 4, 0x5678); be (b + 108, 4, 0x9abc); be (b + 116, 4, 0xdef0); strcpy ((char *) b + 120, "68000"); }
    if (g > 1) be (b + 4, 4, mp); L off = (L) (slot[k] + 1) * g * ss; put (off, b, ss); for (int j = 1; j < g; j++) { uint8_t v[512] = "PM"; be (v + 4, 4, mp); strcpy ((char *) v + 48, "Apple_Void"); put (off - j * ss, v, 512); } if (e[k].free) continue;
    X *y = exp_ (slot[k] + 1, k ? 0 : 3, e[k].s, e[k].s + e[k].n - 1); y->name = e[k].nm; keep (off, 4, y->num, "signature of an entry"); keep (off + 8, 84, y->num, "place, name, type and status of an entry"); if (k == 2) { keep (off + 96, 4, y->num, "boot load address"); keep (off + 108, 4, y->num, "boot entry"); keep (off + 116, 20, y->num, "boot checksum and processor"); }
  }
  keep (0, 8, 0, "driver descriptor");
  snprintf (what, sizeof what, "mac, map of %d blocks in entry %d, others in %d %d %d (%d), drivers %d, every %d. entry, sectors of %d bytes", mp, slot[0] + 1, slot[1] + 1, slot[2] + 1, n > 3 ? slot[3] + 1 : 0, fr, own, g, ss);
  return 0;
}
/* ---- bsd ---- */
static long bsd (long i)
{
  if (i < 0) return (places (1, 8) + places (2, 8) + places (3, 8)) * 2 * 2;
  int p = take (&i, 8 + 56 + 336), np = take (&i, 2), alpha = take (&i, 2), n = 1; while (p >= places (n, 8)) p -= places (n++, 8); int slot[3]; place (p, n, 8, slot);
  on (60000, 512, 16, 63); uint8_t b[512]; memset (b, 0, 512); if (alpha) fill (b, 56, 1); else fill (b, 64, 2);
  uint8_t *l = b + 64; le (l, 4, 0x82564557); le (l + 4, 2, 5); fill (l + 8, 10, 1); fill (l + 24, 12, 2); le (l + 40, 4, 512); le (l + 44, 4, 63); le (l + 48, 4, 16); le (l + 52, 4, 59); le (l + 56, 4, 1008); le (l + 60, 4, 60000); le (l + 72, 2, 3600); le (l + 74, 2, 1); le (l + 88, 4, 4); fill (l + 92, 40, 3); le (l + 132, 4, 0x82564557); le (l + 140, 4, 8192); le (l + 144, 4, 8192);
  int top = 0; for (int k = 0; k < n; k++) { static const int ty[] = { 7, 1, 17, 8 }; L s = 16 + k * 18000 + k, e = s + 15000 + slot[k]; uint8_t *q = l + 148 + 16 * slot[k]; le (q, 4, e - s + 1); le (q + 4, 4, s); q[12] = ty[(k + p) % 4]; exp_ (slot[k] + 1, 0, s, e); keep (64 + 148 + 16 * slot[k], 8, slot[k] + 1, "place of a partition"); keep (64 + 148 + 16 * slot[k] + 12, 1, slot[k] + 1, "type of a partition"); if (slot[k] >= top) top = slot[k] + 1; }
  le (l + 138, 2, np ? 8 : top); uint16_t c = 0; for (int k = 0; k < 148 + 16 * (np ? 8 : top); k += 2) c ^= l[k] | l[k + 1] << 8; le (l + 136, 2, c);
  if (alpha) { uint64_t t = 0; for (int k = 0; k < 63; k++) { uint64_t v = 0; for (int j = 7; j >= 0; j--) v = v << 8 | b[k * 8 + j]; t += v; } le (b + 504, 8, t); }
  put (0, b, 512); keep (0, alpha ? 56 : 64, 0, "boot code"); keep (64, 136, 0, "label fields");
  snprintf (what, sizeof what, "bsd, %d partitions in slots %d %d %d, %s", n, slot[0], n > 1 ? slot[1] : -1, n > 2 ? slot[2] : -1, alpha ? "with a boot block checksum" : "plain");
  return 0;
}
/* ---- sun ---- */
static long sun (long i)
{
  static const int HS[][2] = { { 16, 63 }, { 255, 63 }, { 4, 32 } };
  if (i < 0) return (8 + 56 + 336) * N (HS) * 3;
  int p = take (&i, 8 + 56 + 336), g = take (&i, N (HS)), v = take (&i, 3), n = 1; while (p >= places (n, 8)) p -= places (n++, 8); int slot[3]; place (p, n, 8, slot);
  int H = HS[g][0], S = HS[g][1]; L cyl = H * S, nc = 60000 / cyl; if (nc < 12) nc = 12; on (nc * cyl + (v == 1 ? 77 : 0), 512, H, S); uint8_t b[512]; memset (b, 0, 512);
  fill (b, 60, 1); be (b + 128, 4, 1); if (v) memcpy (b + 132, "volname", 8); be (b + 140, 2, 8); be (b + 188, 4, 0x600ddeee); fill (b + 232, 32, 4); be (b + 420, 2, 7200); be (b + 422, 2, nc); be (b + 424, 2, 0); be (b + 430, 2, 1); be (b + 432, 2, v == 2 ? nc - 2 : nc); be (b + 434, 2, v == 2 ? 2 : 0); be (b + 436, 2, H); be (b + 438, 2, S); be (b + 508, 2, 0xdabe);
  bool whole = true; for (int k = 0; k < n; k++) { static const int ty[] = { 2, 0x83, 4, 7 }; L a = 1 + k * (nc / 3), s = a * cyl, e = s + (nc / 3 - 2) * cyl - 1; be (b + 444 + 8 * slot[k], 4, a); be (b + 448 + 8 * slot[k], 4, e - s + 1); b[142 + 4 * slot[k] + 1] = ty[(k + p) % 4]; exp_ (slot[k] + 1, 0, s, e); if (slot[k] == 2) whole = false; keep (142 + 4 * slot[k] + 1, 1, slot[k] + 1, "type of a partition"); keep (444 + 8 * slot[k], 8, slot[k] + 1, "place of a partition"); }
  if (whole) { b[142 + 9] = 5; be (b + 448 + 16, 4, (v == 2 ? nc - 2 : nc) * cyl); }
  uint16_t c = 0; for (int k = 0; k < 510; k += 2) c ^= b[k] << 8 | b[k + 1]; be (b + 510, 2, c); put (0, b, 512);
  keep (0, 140, 0, "text, version and volume name"); keep (188, 4, 0, "sanity"); keep (232, 32, 0, "timestamps"); keep (420, 2, 0, "speed"); keep (430, 2, 0, "interleave"); keep (436, 4, 0, "geometry");
  snprintf (what, sizeof what, "sun, %d partitions in slots %d %d %d, %lld cylinders of %d heads of %d sectors, variant %d", n, slot[0], n > 1 ? slot[1] : -1, n > 2 ? slot[2] : -1, nc, H, S, v);
  return 0;
}
/* ---- dvh ---- */
static long dvh (long i)
{
  if (i < 0) return (1 + 14 + 14 * 13) * 3 * 4;
  int p = take (&i, 1 + 14 + 14 * 13), nb = take (&i, 3), v = take (&i, 4), n = 0; while (p >= places (n, 14)) p -= places (n++, 14); int slot[2] = { -1, -1 }; place (p, n, 14, slot);
  on (60000, 512, 16, 63); uint8_t b[512]; memset (b, 0, 512); be (b, 4, 0x0be5a941);
  for (int k = 0; k < n; k++) { if (slot[k] >= 8) slot[k]++; if (slot[k] >= 10) slot[k]++; }      /* 8: volume header, 10: the volume */
  be (b + 4, 2, v & 1 && n ? slot[0] : -1); be (b + 6, 2, v & 2 && n > 1 ? slot[1] : -1);
  b[24] = 3; b[27] = 1; be (b + 24 + 10, 2, 0); be (b + 24 + 16, 2, 63); be (b + 24 + 18, 2, 512); be (b + 24 + 20, 2, 1); be (b + 24 + 22 , 4, 0x11); 
  static const char *fn[] = { "sash", "abcdefgh" }; for (int k = 0; k < nb; k++) { L s = 10 + k * 700; int by = k ? 512 * 60 - 3 : 512 * 500; int at = k == 1 && v ? 6 : k; memcpy (b + 72 + 16 * at, fn[k], strlen (fn[k])); be (b + 80 + 16 * at, 4, s); be (b + 84 + 16 * at, 4, by); X *y = exp_ (17 + at, 1, s, s + (by + 511) / 512 - 1); y->name = fn[k]; keep (72 + 16 * at, 16, 17 + at, "a file of the volume header"); }
  if (nb && v) { memcpy (b + 8, fn[0], 4); for (int k = 0; k < nx; k++) x[k].boot = k == 0; keep (8, 16, 17, "boot file"); }
  uint8_t *t = b + 312; be (t + 8 * 12, 4, 4096); be (t + 8 * 12 + 4, 4, 0); be (t + 8 * 12 + 8, 4, 0); exp_ (9, 2, 0, 4095); be (t + 10 * 12, 4, 60000); be (t + 10 * 12 + 8, 4, 6);
  for (int k = 0; k < n; k++) { static const int ty[] = { 10, 7, 3 }; L s = 4096 + k * 20000, e = s + 15000 + slot[k]; be (t + 12 * slot[k], 4, e - s + 1); be (t + 12 * slot[k] + 4, 4, s); be (t + 12 * slot[k] + 8, 4, ty[(k + p) % 3]); exp_ (slot[k] + 1, 0, s, e); keep (312 + 12 * slot[k], 12, slot[k] + 1, "an entry"); }
  uint32_t c = 0; for (int k = 0; k < 126; k++) c += (uint32_t) b[k * 4] << 24 | b[k * 4 + 1] << 16 | b[k * 4 + 2] << 8 | b[k * 4 + 3]; be (b + 504, 4, -c); put (0, b, 512);
  if (v & 1 && n) keep (4, 2, slot[0] + 1, "root partition"); if (v & 2 && n > 1) keep (6, 2, slot[1] + 1, "swap partition"); keep (24, 4, 0, "drive parameters"); keep (24 + 20, 6, 0, "drive parameters");
  keep (312 + 8 * 12, 12, 9, "the volume header's entry"); keep (312 + 10 * 12, 12, 0, "the volume's entry");
  snprintf (what, sizeof what, "dvh, %d partitions in slots %d %d, %d files, variant %d", n, slot[0], slot[1], nb, v);
  return 0;
}
/* ---- amiga ---- */
static void sum (uint8_t *b) { uint32_t c = 0; int n = b[7]; be (b + 8, 4, 0); for (int k = 0; k < n; k++) c += (uint32_t) b[k * 4] << 24 | b[k * 4 + 1] << 16 | b[k * 4 + 2] << 8 | b[k * 4 + 3]; be (b + 8, 4, -c); }
static long amiga (long i)
{
  static const int HS[][2] = { { 16, 63 }, { 4, 32 }, { 1, 700 } };
  if (i < 0) return 16 * N (HS) * 4 * 6 * 3;
  int at = take (&i, 16), g = take (&i, N (HS)), n = take (&i, 4), ord = take (&i, 6), lists = take (&i, 3); int H = HS[g][0], S = HS[g][1]; L cyl = H * S; on (80 * cyl, 512, H, S); uint8_t b[512]; memset (b, 0, 512);
  L lo = 1200 / cyl + 1, w = (80 - lo) / 4, hi = lo * cyl - 1; int blk[3] = { at + 1, at + 2 + 3 * (ord / 2), at + 40 }; if (lists) blk[2] = at + 60;
  memcpy (b, "RDSK", 4); be (b + 4, 4, 64); be (b + 12, 4, 7); be (b + 16, 4, 512); be (b + 20, 4, 0x17); for (int k = 6; k < 16; k++) be (b + k * 4, 4, 0xffffffff); if (n) be (b + 28, 4, blk[0]); if (lists) be (b + 32, 4, at + 30); if (lists == 2) be (b + 24, 4, at + 50);
  be (b + 64, 4, 80); be (b + 68, 4, S); be (b + 72, 4, H); be (b + 76, 4, 1); be (b + 80, 4, 80); for (int k = 21; k < 24; k++) be (b + k * 4, 4, 0xffffffff); be (b + 96, 4, 80); be (b + 100, 4, 80); be (b + 104, 4, 3); be (b + 128, 4, 0); be (b + 132, 4, hi); be (b + 136, 4, lo); be (b + 140, 4, 79); be (b + 144, 4, cyl); be (b + 152, 4, at + 61); memcpy (b + 160, "VENDOR  PRODUCT         1.0 ", 28); sum (b); put (at * 512LL, b, 512);
  static const int P[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; int o[3], m = 0; for (int k = 0; k < 3; k++) if (P[ord][k] < n) o[m++] = P[ord][k];
  for (int k = 0; k < n; k++) {
    L a = lo + o[k] * w; memset (b, 0, 512); memcpy (b, "PART", 4); be (b + 4, 4, 64); be (b + 12, 4, 7); be (b + 16, 4, k + 1 < n ? (uint32_t) blk[k + 1] : 0xffffffff); be (b + 20, 4, k == 0); b[36] = 3; b[37] = 'D'; b[38] = 'H'; b[39] = '0' + o[k]; be (b + 128, 4, 16); be (b + 132, 4, 128); be (b + 140, 4, H); be (b + 144, 4, 1); be (b + 148, 4, S); be (b + 152, 4, 2); be (b + 164, 4, a); be (b + 168, 4, a + w - 2); be (b + 172, 4, 30); be (b + 180, 4, 0xffffff); be (b + 184, 4, 0x7ffffffe); be (b + 188, 4, k); be (b + 192, 4, 0x444f5301 + k); sum (b); put (blk[k] * 512LL, b, 512);
  }
  for (int k = 0; k < n; k++) { int at_ = 0; while (o[at_] != k) at_++; X *y = exp_ (at_ + 1, 0, (lo + k * w) * cyl, (lo + k * w + w - 1) * cyl - 1); y->name = k == 0 ? "DH0" : k == 1 ? "DH1" : "DH2"; }
  if (lists) { memset (b, 0, 512); memcpy (b, "FSHD", 4); be (b + 4, 4, 64); be (b + 16, 4, 0xffffffff); be (b + 32, 4, 0x444f5303); for (int k = 18; k < 20; k++) be (b + k * 4, 4, 0xffffffff); be (b + 72, 4, at + 31); sum (b); put ((at + 30) * 512LL, b, 512); keep ((at + 30) * 512, 512, 0, "a file system header"); memset (b, 0, 512); memcpy (b, "LSEG", 4); be (b + 4, 4, 128); be (b + 16, 4, 0xffffffff); fill (b + 20, 400, 1); sum (b); put ((at + 31) * 512LL, b, 512); keep ((at + 31) * 512, 512, 0, "file system code"); }
  if (lists == 2) { memset (b, 0, 512); memcpy (b, "BADB", 4); be (b + 4, 4, 128); be (b + 16, 4, 0xffffffff); be (b + 24, 4, 5555); be (b + 28, 4, 77); sum (b); put ((at + 50) * 512LL, b, 512); keep ((at + 50) * 512, 512, 0, "a list of bad blocks"); }
  keep (at * 512, 8, 0, "rigid disk block"); keep (at * 512 + 12, 16, 0, "rigid disk block"); keep (at * 512 + 32, 120, 0, "rigid disk block"); keep (at * 512 + 160, 352, 0, "rigid disk block");
  renum = true;
  snprintf (what, sizeof what, "amiga, block at %d, %d partitions in blocks %d %d %d in order %d, %d heads, %d sectors, other lists %d", at, n, blk[0], blk[1], blk[2], ord, H, S, lists);
  return 0;
}
/* ---- atari ---- */
static void atr (uint8_t *p, int flag, const char *id, L s, L n) { p[0] = flag; memcpy (p + 1, id, 3); be (p + 4, 4, s); be (p + 8, 4, n); }
static long atari (long i)
{
  long A = 15 * 3 * 2, B = 3 * 4 * 3 * 3 * 2, C = 15 * 9 * 2;
  if (i < 0) return A + B + C;
  static const char *id[] = { "GEM", "BGM", "LNX", "RAW", "MIX", "SWP", "UNX" };
  on (120000, 512, 16, 63); uint8_t b[512]; memset (b, 0, 512); fill (b, 0x156, 7); int mask, bsl, small; L hd = 120000;
  if (i < A) {
    mask = 1 + take (&i, 15); bsl = take (&i, 3); small = take (&i, 2); if (small) hd = 119000;
    int num = 1; for (int k = 0; k < 4; k++) if (mask >> k & 1) { L s = 10 + k * 29000, n = 20000 + k; atr (b + 0x1c6 + 12 * k, 1 | (k == 1 ? 0x80 : 0), id[(mask + k) % 7], s, n); exp_ (num++, 0, s, s + n - 1); }
    snprintf (what, sizeof what, "atari, slots %x, bad sector list %d, size %lld", mask, bsl, hd);
  } else if (i < A + B) {
    i -= A; int xs = 1 + take (&i, 3), nl = take (&i, 4), ds = take (&i, 3); bsl = take (&i, 3); small = take (&i, 2); if (small) hd = 119000; mask = 0;
    int num = 1; for (int k = 0; k < 4; k++) if (k != xs && (k == 0 || k == 3 || small)) { L s = 10 + k * 29000, n = 20000 + k; atr (b + 0x1c6 + 12 * k, 1, id[(k + nl) % 7], s, n); x[nx] = (X) { .num = k < xs ? num++ : 100 + k, .s = s, .e = s + n - 1, .boot = -1 }; nx++; }
    L e0 = 10 + xs * 29000, en = 28000; atr (b + 0x1c6 + 12 * xs, 1, "XGM", e0, en); exp_ (0, 2, e0, e0 + en - 1);
    uint8_t c[512]; for (int k = 0; k < nl || (!k && !nl); k++) { memset (c, 0, 512); L at = e0 + (k ? k * 8000 + 50 : 0); if (nl) { L s = at + 1 + (k ? 0 : 20), n = 6000; atr (c + 0x1c6 + 12 * ds, 1, id[(k + ds) % 7], s - at, n); exp_ (num++, 1, s, s + n - 1); if (k + 1 < nl) atr (c + 0x1c6 + 12 * (ds + 1), 1, "XGM", (k + 1) * 8000 + 50, 6010); } put (at * 512, c, 512); }
    for (int k = 0; k < nx; k++) if (x[k].num > 99) x[k].num = num++;
    snprintf (what, sizeof what, "atari, extended in slot %d, %d logical in slot %d, bad sector list %d, size %lld", xs, nl, ds, bsl, hd);
  } else {
    i -= A + B; mask = 1 + take (&i, 15); int ni = take (&i, 9); bsl = 0; small = take (&i, 2); if (small) hd = 119000;
    int num = 1; for (int k = 0; k < 4; k++) if (mask >> k & 1) { L s = 10 + k * 10000, n = 9000 + k; atr (b + 0x1c6 + 12 * k, 1, id[(mask + k) % 6], s, n); exp_ (num++, 0, s, s + n - 1); }
    static const char *icd[] = { "GEM", "BGM", "LNX", "RAW", "SWP" };
    for (int k = 0; k < ni; k++) { L s = 41000 + k * 9000, n = 8000 + k; atr (b + 0x156 + 12 * k, 1, icd[(k + mask) % 5], s, n); exp_ (num++, 0, s, s + n - 1); }
    snprintf (what, sizeof what, "atari, slots %x and %d ICD entries, size %lld", mask, ni, hd);
  }
  be (b + 0x1c2, 4, hd); if (bsl) { be (b + 0x1f6, 4, bsl == 1 ? 1 : 5); be (b + 0x1fa, 4, bsl == 1 ? 1 : 3); } put (0, b, 512);
  fix = anyexc = small || strstr (what, "ICD"); keep (0, 0x156, 0, "boot code"); keep (0x1f6, 8, 0, "place of the bad sector list"); renum = true;
  return 0;
}
/* ---- pc98 ---- */
static long pc98 (long i)
{
  if (i < 0) return (16 + 16 * 15 + 4 * 15 * 14) * 2 * 2;
  int p = take (&i, 16 + 240 + 840), ipl = take (&i, 2), bt = take (&i, 2), n = 1; int slot[3]; if (p < 16) place (p, 1, 16, slot); else if (p < 256) n = 2, place (p - 16, 2, 16, slot); else n = 3, place ((p - 256) * 4, 3, 16, slot);
  on (8 * 17 * 450, 512, 8, 17); L cyl = 8 * 17; uint8_t b[1024]; memset (b, 0, 1024); fill (b + 8, 500, 3); memcpy (b, "\xcb\0\0\0", 4); memcpy (b + 4, bt ? "GRUB/98 " : "IPL1", bt ? 8 : 4); b[510] = 0x55; b[511] = 0xaa;
  static const char *nm[] = { "Linux", "MS-DOS 6.20", "0123456789abcdef" }; static const int mid[] = { 0x62, 0x20, 0x14 }, sid[] = { 0xe2, 0x91, 0x44 };
  for (int k = 0; k < n; k++) { uint8_t *q = b + 512 + 32 * slot[k]; L c = 1 + k * 150, d = c + 140 - slot[k]; q[0] = mid[k] | (k == 1 ? 0x80 : 0); q[1] = sid[k]; if (ipl) { le (q + 6, 2, c + 1); q[4] = 3; q[5] = 2; } else le (q + 6, 2, c); le (q + 10, 2, c); le (q + 14, 2, d); memset (q + 16, ' ', 16); memcpy (q + 16, nm[k], strlen (nm[k])); X *y = exp_ (slot[k] + 1, 0, c * cyl, (d + 1) * cyl - 1); y->name = nm[k]; y->boot = k == 1; keep (512 + 32 * slot[k], 32, slot[k] + 1, "an entry"); }
  put (0, b, 1024); keep (0, 510, 0, "boot code");
  snprintf (what, sizeof what, "pc98, %d partitions in slots %d %d %d, loader %s, %s", n, slot[0], n > 1 ? slot[1] : -1, n > 2 ? slot[2] : -1, ipl ? "elsewhere" : "at the start", bt ? "GRUB" : "IPL");
  return 0;
}
static const struct { const char *label; long (*gen) (long); } fmt[] = { { "msdos", msdos }, { "gpt", gpt }, { "mac", mac }, { "bsd", bsd }, { "sun", sun }, { "dvh", dvh }, { "amiga", amiga }, { "atari", atari }, { "pc98", pc98 } };
#define NF N (fmt)
static long cnt[NF];

/* ---- checks ---- */
static const int kinds[] = { 8, 28, 14, 16, 12, 3, 20 };
static void files (int salt)
{
  for (int k = 0; k < nx; k++) if (x[k].kind < 2) { x[k].fs = -1; int q = kinds[(k + salt) % N (kinds)]; if (fsi_put (q, x[k].s, x[k].e - x[k].s + 1)) x[k].fs = q; } else x[k].fs = -2;
}
static int bystart (const void *a, const void *b) { const X *p = a, *q = b; return p->s < q->s ? -1 : p->s > q->s ? 1 : (q->kind == 2) - (p->kind == 2); }
/* the disk is as expected but for partition SKIP and those beyond the expected ones when MORE */
static void compare (const char *label, PedDisk *d, int skip, int more, const char *when)
{
  char k2[60]; int seen = 0, extra = 0;
#define BAD(k, ...) do { snprintf (k2, 60, "%s:%s", label, k); late (k2, __VA_ARGS__); } while (0)
  for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) {
    if (!ped_partition_is_active (p)) continue;
    X *y = NULL; for (int k = 0; k < nx; k++) if (k != skip && x[k].s == p->geom.start && x[k].e == p->geom.end && (x[k].kind == 2) == (p->type == PED_PARTITION_EXTENDED)) y = &x[k];
    if (!y) { extra++; if (!more) BAD ("unexpected", "%s, there is a partition %d at %lld-%lld", when, p->num, (L) p->geom.start, (L) p->geom.end); continue; }
    seen++;
    if (p->type != (y->kind == 2 ? PED_PARTITION_EXTENDED : y->kind == 1 ? PED_PARTITION_LOGICAL : 0)) BAD ("kind", "%s, partition %d at %lld is of type %d", when, p->num, y->s, p->type);
    if (p->num != y->num && y->kind != 2 && !(renum && (skip >= 0 || more))) BAD ("number", "%s, the partition at %lld-%lld has number %d, not %d", when, y->s, y->e, p->num, y->num);
    if (y->name && ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_NAME) && strcmp (y->name, ped_partition_get_name (p))) BAD ("name", "%s, partition %d is named '%s', not '%s'", when, p->num, ped_partition_get_name (p), y->name);
    if (y->boot >= 0 && ped_partition_get_flag (p, PED_PARTITION_BOOT) != y->boot) BAD ("boot", "%s, partition %d has the boot flag %d", when, p->num, !y->boot);
    if (y->kind < 2) { const char *t = y->fs >= 0 ? fsimg[y->fs].type : NULL, *f = p->fs_type ? p->fs_type->name : NULL; if (t ? !f || strcmp (f, t) : f != NULL) BAD ("filesystem", "%s, partition %d at %lld-%lld holds %s, and the disk says %s", when, p->num, y->s, y->e, t ? t : "nothing", f ? f : "nothing"); }
  }
  if (seen != nx - (skip >= 0)) { for (int k = 0; k < nx; k++) if (k != skip) { bool f = false; for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) if (ped_partition_is_active (p) && p->geom.start == x[k].s && p->geom.end == x[k].e) f = true; if (!f) BAD ("missing", "%s, partition %d at %lld-%lld is not there", when, x[k].num, x[k].s, x[k].e); } BAD ("missing", "%s, %d of %d partitions are there", when, seen, nx - (skip >= 0)); }
}
static uint8_t saved[900][600];
static void remember (void) { for (int k = 0; k < nkeep; k++) gb (keeps[k].off, saved[k], keeps[k].len); }
static void kept (const char *label, int skipnum, const char *when)
{
  for (int k = 0; k < nkeep; k++) {
    if (keeps[k].num && (keeps[k].num == skipnum || (skipnum && renum))) continue; uint8_t b[600]; gb (keeps[k].off, b, keeps[k].len); if (!memcmp (b, saved[k], keeps[k].len)) continue;
    int j = 0; while (b[j] == saved[k][j]) j++; char k2[60]; snprintf (k2, 60, "%s:lost:%.40s", label, keeps[k].what); for (char *q = k2; *q; q++) if (*q == ' ') *q = '-'; late (k2, "%s, byte %lld changed from %02x to %02x (%s%s)", when, keeps[k].off + j, saved[k][j], b[j], keeps[k].what, keeps[k].num ? " that is not concerned" : "");
  }
}
static bool oddbios; static void device (void) { dev = mc_device_keep (&G); if (oddbios) dev->bios_geom = (PedCHSGeometry) { G.length / 77, 7, 11 }; }
static PedDisk *again (const char *label, const char *when) { device (); mc_nexc = 0; PedDisk *d = ped_disk_new (dev); if (!d) { char k[60]; snprintf (k, 60, "%s:reread", label); late (k, "%s, it cannot be read: %s", when, mc_exc_msg); } else if (strcmp (d->type->name, label)) { char k[60]; snprintf (k, 60, "%s:relabel", label); late (k, "%s, it is a %s label", when, d->type->name); } return d; }
static void run (long i)
{
  *late_key = *known_key = 0; int f = 0; while (i >= cnt[f]) i -= cnt[f++]; const char *label = fmt[f].label; char k2[60];
  fmt[f].gen (i); qsort (x, nx, sizeof *x, bystart); files (i);
  if (renum && f == 0) ;                                              /* logical partitions are numbered in the order of the disk */
  McImage *im = mc_image_save (); mc_nontrivial (mc_store_hash ()); mc_count ("tables", 1);
  mc_ans = fix ? ANS_FIX : ANS_DECLINE; mc_io_reset (); mc_nexc = 0; oddbios = i % 2 && (!strcmp (label, "amiga") || !strcmp (label, "pc98") || !strcmp (label, "mac") || !strcmp (label, "atari") || !strcmp (label, "bsd")); device ();
  PedDiskType *t = ped_disk_probe (dev); if (!t || strcmp (t->name, label)) { BAD ("probe", "it is taken for %s", t ? t->name : "nothing"); goto out; }
  PedDisk *d = ped_disk_new (dev); if (!d) { BAD ("unreadable", "it cannot be read: %s", mc_exc_msg); goto out; }
  if (mc_nexc && !anyexc) BAD ("complaint", "reading it reports: %s", mc_exc_msg);
  if (mc_nwrite) BAD ("writes", "reading it writes to the device");
  compare (label, d, -1, 0, "after reading");
  if (want_geom.heads && (dev->bios_geom.heads != want_geom.heads || dev->bios_geom.sectors != want_geom.sectors || dev->bios_geom.cylinders != want_geom.cylinders)) BAD ("geometry", "the geometry is found to be %d/%d/%d, not %d/%d/%d", dev->bios_geom.cylinders, dev->bios_geom.heads, dev->bios_geom.sectors, want_geom.cylinders, want_geom.heads, want_geom.sectors);
  remember ();
  PedDisk *c = ped_disk_duplicate (d); if (c) { compare (label, c, -1, 0, "in a duplicate"); if (i % 3 == 1) { PedDisk *o = d; d = c; c = o; } ped_disk_destroy (c); } else BAD ("duplicate", "it cannot be duplicated: %s", mc_exc_msg);
  if (*late_key) goto out;
  mc_nexc = 0; if (!ped_disk_commit_to_dev (d)) BAD ("commit", "it cannot be written back: %s", mc_exc_msg); ped_disk_destroy (d); if (mc_nexc && !anyexc) BAD ("commit-complaint", "writing it back reports: %s", mc_exc_msg);
  kept (label, 0, "written back"); d = again (label, "written back"); if (d) { compare (label, d, -1, 0, "written back"); ped_disk_destroy (d); }
  mc_count ("commits", 1);
  /* one partition less */
  for (int k = 0; k < nx && !*late_key; k++) {
    if (x[k].kind >= 2) continue; if (nx > 40 && k % 9) continue;
    mc_image_load (im); if (!(d = again (label, "as it was"))) break;
    PedPartition *p = ped_disk_next_partition (d, NULL); for (; p; p = ped_disk_next_partition (d, p)) if (ped_partition_is_active (p) && p->geom.start == x[k].s && p->geom.end == x[k].e && p->type != PED_PARTITION_EXTENDED) break;
    if (!p) { ped_disk_destroy (d); continue; } int num = p->num;
    char w[60]; snprintf (w, 60, "without partition %d", num); mc_nexc = 0;
    if (!ped_disk_delete_partition (d, p)) { if (mc_nexc == 0) BAD ("delete", "partition %d cannot be deleted", num); ped_disk_destroy (d); continue; }
    if (!ped_disk_commit_to_dev (d)) { BAD ("commit", "%s, it cannot be written: %s", w, mc_exc_msg); ped_disk_destroy (d); continue; }
    ped_disk_destroy (d); kept (label, num, w); d = again (label, w); if (d) { compare (label, d, k, 0, w); ped_disk_destroy (d); } mc_count ("commits", 1);
  }
  /* one more, in every place that is free */
  for (int fr = 0; fr < 5 && !*late_key; fr++) {
    mc_image_load (im); if (!(d = again (label, "as it was"))) break;
    PedPartition *p = ped_disk_next_partition (d, NULL); int q = fr; for (; p; p = ped_disk_next_partition (d, p)) if ((p->type & PED_PARTITION_FREESPACE) && p->geom.length > 300 && !q--) break;
    if (!p) { ped_disk_destroy (d); break; }
    int lg = p->type & PED_PARTITION_LOGICAL; PedConstraint *any = ped_constraint_any (dev); PedPartition *n = ped_partition_new (d, lg, NULL, p->geom.start, p->geom.end); mc_nexc = 0;
    if (n && ped_disk_add_partition (d, n, any)) {
      char w[60]; snprintf (w, 60, "with one more at %lld-%lld", (L) n->geom.start, (L) n->geom.end); L ns = n->geom.start, ne = n->geom.end;
      for (int k = 0; k < nx; k++) if (x[k].kind != 2 && x[k].s <= ne && x[k].e >= ns) BAD ("overlap", "%s, it overlaps partition %d", w, x[k].num);
      int ok = ped_disk_commit_to_dev (d); if (!ok) BAD ("commit", "%s, it cannot be written: %s", w, mc_exc_msg);
      ped_disk_destroy (d); if (ok) { kept (label, 1000, w); d = again (label, w); if (d) { compare (label, d, -1, 1, w); if (!ped_disk_get_partition_by_sector (d, ns)) BAD ("missing", "%s, it is not there", w); ped_disk_destroy (d); } }
      mc_count ("commits", 1);
    } else { if (n) ped_partition_destroy (n); ped_disk_destroy (d); }
    ped_constraint_destroy (any);
  }
out:
  mc_image_free (im);
  if (i % 997 == 5) mc_sample ("%s", what);
  if (*late_key) mc_fail (late_key, "%s", late_msg);
  if (*known_key) mc_fail (known_key, "%s", what);
}
static void describe (long i, FILE *o) { int f = 0; long j = i; while (j >= cnt[f]) j -= cnt[f++]; fmt[f].gen (j); fprintf (o, "%s", what); }
void mc_setup (int, char **);
int main (int argc, char **argv)
{
  mc_setup (argc, argv); long n = 0;
  for (int f = 0; f < NF; f++) { cnt[f] = *mc_opt && strcmp (mc_opt, fmt[f].label) ? 0 : fmt[f].gen (-1); n += cnt[f]; if (getenv ("MC_PROGRESS") && cnt[f]) fprintf (stderr, "%s: %ld\n", fmt[f].label, cnt[f]); }
  McSweep s = { .prop = "P28", .n = n, .run = run, .describe = describe };
  return mc_sweep (&s, argc, argv);
}
