/* P06: the code that a partition's entry gets for its file system is the one
   that others know.  Every label, every file system type, set on a fresh
   partition, over another type, and before and after the flags that take
   precedence. */
#include <config.h>
#include "mc.h"
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#define L long long
#define N(a) ((int) (sizeof (a) / sizeof *(a)))
static char late_key[60], late_msg[900];
static void late (const char *k, const char *f, ...) { if (*late_key) return; va_list a; va_start (a, f); snprintf (late_key, sizeof late_key, "%s", k); vsnprintf (late_msg, sizeof late_msg, f, a); va_end (a); }
static const char *const labels[] = { "msdos", "gpt", "mac", "sun", "bsd", "dvh", "amiga", "pc98", "atari" };
#define NL N (labels)
/* the codes; the first line that fits the label and the name counts; "*" is any, "-" is none */
typedef struct { const char *label, *fs, *code; } Row;
static const Row rows[] = {
  { "msdos", "fat16", "06" }, { "msdos", "fat32", "0b" }, { "msdos", "ntfs", "07" }, { "msdos", "hfs", "af" }, { "msdos", "hfs+", "af" }, { "msdos", "udf", "07" }, { "msdos", "sun-ufs", "bf" }, { "msdos", "linux-swap(v0)", "82" }, { "msdos", "linux-swap(v1)", "82" }, { "msdos", "*", "83" },
#define BASIC "a2a0d0ebe5b9334487c068b6b72699c7"
#define HFS "005346480000aa11aa1100306543ecac"
#define SWAP "6dfd5706aba4c44384e50933c84b4f4f"
#define LINUX "af3dc60f838472478e793d69d8477de4"
  { "gpt", "fat16", BASIC }, { "gpt", "fat32", BASIC }, { "gpt", "ntfs", BASIC }, { "gpt", "udf", BASIC }, { "gpt", "hfs", HFS }, { "gpt", "hfs+", HFS }, { "gpt", "hfsx", HFS }, { "gpt", "linux-swap(v0)", SWAP }, { "gpt", "linux-swap(v1)", SWAP }, { "gpt", "swsusp", LINUX }, { "gpt", "*", LINUX },
  { "mac", "hfs", "Apple_HFS" }, { "mac", "hfs+", "Apple_HFS" }, { "mac", "hfsx", "Apple_HFSX" }, { "mac", "*", "Apple_UNIX_SVR2" },
  { "sun", "linux-swap(v0)", "82" }, { "sun", "linux-swap(v1)", "82" }, { "sun", "*", "83" },
  { "bsd", "linux-swap(v0)", "01" }, { "bsd", "linux-swap(v1)", "01" }, { "bsd", "*", "08" },
  { "dvh", "xfs", "0a" }, { "dvh", "*", "03" },
  { "amiga", "-", "LNX\\0" }, { "amiga", "ext2", "LNX\\0" }, { "amiga", "ext3", "EXT\\3" }, { "amiga", "linux-swap(v0)", "SWP\\0" }, { "amiga", "linux-swap(v1)", "SWP\\0" }, { "amiga", "fat16", "FAT\\0" }, { "amiga", "fat32", "FAT\\1" }, { "amiga", "hfs", "HFS\\0" }, { "amiga", "jfs", "JFS\\0" }, { "amiga", "ntfs", "NTFS" }, { "amiga", "reiserfs", "RFS\\0" }, { "amiga", "sun-ufs", "SUFS" }, { "amiga", "hp-ufs", "HUFS" }, { "amiga", "xfs", "XFS\\0" }, { "amiga", "*", "\\0\\0\\0\\0" },
  { "pc98", "-", "20e2" }, { "pc98", "fat16", "2091" }, { "pc98", "fat32", "20e1" }, { "pc98", "ntfs", "20b1" }, { "pc98", "*", "a0e2" },
  { "atari", "-", "RAW" }, { "atari", "ext2", "LNX" }, { "atari", "ext3", "LNX" }, { "atari", "fat16", "GEM" }, { "atari", "fat32", "F32" }, { "atari", "hfs", "MAC" }, { "atari", "hfs+", "MAC" }, { "atari", "hfsx", "MAC" }, { "atari", "jfs", "LNX" }, { "atari", "linux-swap(v0)", "SWP" }, { "atari", "linux-swap(v1)", "SWP" }, { "atari", "reiserfs", "LNX" }, { "atari", "hp-ufs", "LNX" }, { "atari", "sun-ufs", "LNX" }, { "atari", "xfs", "LNX" }, { "atari", "*", "RAW" },
};
/* large partitions have other codes */
static const Row big[] = { { "pc98", "fat16", "20a1" }, { "atari", "fat16", "BGM" } };
static const char *want (const char *l, const char *fs, bool large)
{
  if (large) for (int i = 0; i < N (big); i++) if (!strcmp (big[i].label, l) && !strcmp (big[i].fs, fs)) return big[i].code;
  for (int i = 0; i < N (rows); i++) if (!strcmp (rows[i].label, l) && (!strcmp (rows[i].fs, fs) || !strcmp (rows[i].fs, "*"))) return rows[i].code;
  return "";
}
static McGeom G;
/* the code of the only partition, at START, on the device */
static void code (const char *l, L start, char *o)
{
  uint8_t b[4096]; *o = 0; L cyl = 32;
  if (!strcmp (l, "msdos")) { mc_store_read (0, b); for (int i = 0; i < 4; i++) if (b[446 + 16 * i + 4]) { sprintf (o, "%02x", b[446 + 16 * i + 4]); return; } }
  if (!strcmp (l, "gpt")) { mc_store_read (2, b); for (int i = 0; i < 16; i++) sprintf (o + 2 * i, "%02x", b[i]); }
  if (!strcmp (l, "mac")) for (int i = 1; i < 20; i++) { mc_store_read (i, b); L s = (L) b[8] << 24 | b[9] << 16 | b[10] << 8 | b[11]; if (s == start) { memcpy (o, b + 48, 32); o[32] = 0; return; } }
  if (!strcmp (l, "sun")) { mc_store_read (0, b); for (int i = 0; i < 8; i++) { uint8_t *p = b + 444 + 8 * i; L s = ((L) p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]) * cyl; if (s == start && i != 2 && (p[4] | p[5] | p[6] | p[7])) { sprintf (o, "%02x", b[142 + 4 * i] << 8 | b[143 + 4 * i]); return; } } }
  if (!strcmp (l, "bsd")) { mc_store_read (0, b); for (int i = 0; i < 8; i++) { uint8_t *p = b + 64 + 148 + 16 * i; L s = p[4] | p[5] << 8 | p[6] << 16 | (L) p[7] << 24; if (s == start && (p[0] | p[1] | p[2] | p[3])) { sprintf (o, "%02x", p[12]); return; } } }
  if (!strcmp (l, "dvh")) { mc_store_read (0, b); for (int i = 0; i < 16; i++) { uint8_t *p = b + 312 + 12 * i; L s = (L) p[4] << 24 | p[5] << 16 | p[6] << 8 | p[7]; if (s == start && i != 8 && i != 10) { sprintf (o, "%02x", p[11]); return; } } }
  if (!strcmp (l, "amiga")) { for (int i = 0; i < 32; i++) { mc_store_read (i, b); if (memcmp (b, "PART", 4)) continue; for (int j = 0; j < 4; j++) { int c = b[192 + j]; if (c > 31) { *o++ = c; *o = 0; } else o += sprintf (o, "\\%d", c); } return; } }
  if (!strcmp (l, "pc98")) { mc_store_read (1, b); sprintf (o, "%02x%02x", b[0], b[1]); }
  if (!strcmp (l, "atari")) { mc_store_read (0, b); memcpy (o, b + 0x1c7, 3); o[3] = 0; }
}
#define MAXFS 60
static const PedFileSystemType *fs[MAXFS]; static int nfs;
/* modes: alone; over another type; written and read before; the name given twice */
enum { M_ALONE, M_OVER, M_REREAD, M_LARGE, M_N };
static const char *const mn[] = { "", ", which had another type", ", read from the device", ", large" };
static long ncase (void) { return (long) NL * nfs * M_N * nfs; }
static void run (long i)
{
  int a = i % nfs, m = i / nfs % M_N, k = i / nfs / M_N % nfs; const char *l = labels[i / nfs / M_N / nfs]; *late_key = 0;
  if ((m == M_ALONE || m == M_LARGE) && a) return;   /* the other type does not matter */
  if (!strcmp (l, "pc98") && m != M_ALONE && m != M_LARGE && fs[a] && strcmp (want (l, fs[a]->name, false), want (l, "-", false)) && *want (l, fs[a]->name, false) == 'a') return;   /* sets the boot flag as well */
  const char *name = fs[k] ? fs[k]->name : "-"; bool large = m == M_LARGE;
  G = (McGeom) { .length = large ? 400000 : 20000, .ss = 512, .phys = 512, .heads = 4, .sects = 8 }; mc_geom = G; PedDevice *dev = mc_device (&G); mc_ans = ANS_CANCEL;
  PedDisk *d = ped_disk_new_fresh (dev, ped_disk_type_get (l)); if (!d) { late ("fresh", "no %s label", l); goto out; }
  if (ped_disk_is_flag_available (d, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag (d, PED_DISK_CYLINDER_ALIGNMENT, 0);
  L s = 9600, e = large ? 399999 - 64 * 32 : 16000 - 1; if (large) e = (e + 1) / 32 * 32 - 1;
  PedPartition *p = ped_partition_new (d, 0, NULL, s, e); PedConstraint *c = ped_constraint_any (dev);
  if (!p || !ped_disk_add_partition (d, p, c)) { late ("add", "%s: no partition", l); ped_constraint_destroy (c); goto out; }
  ped_constraint_destroy (c); s = p->geom.start;
  if (m == M_OVER || m == M_REREAD) ped_partition_set_system (p, fs[a]);
  if (m == M_REREAD) { if (!ped_disk_commit_to_dev (d)) late ("commit", "%s: %s", l, mc_exc_msg); ped_disk_destroy (d); dev = mc_device_keep (&G); d = ped_disk_new (dev); if (!d) { late ("reread", "%s: %s", l, mc_exc_msg); goto out; } p = ped_disk_get_partition_by_sector (d, s); if (!p) { late ("reread", "%s: the partition is gone", l); goto out; } }
  if (!ped_partition_set_system (p, fs[k])) late ("refused", "%s, type %s is refused", l, name);
  if (p->fs_type != fs[k]) late ("fs-type", "%s: type %s is not kept", l, name);
  if (!ped_disk_commit_to_dev (d)) { late ("commit", "%s: %s", l, mc_exc_msg); goto out; }
  char o[80]; code (l, s, o); mc_count ("codes", 1); mc_nontrivial (mc_store_hash ());
  if (mc_verbose) fprintf (stderr, "%s %s: %s\n", l, name, o);
  const char *w = want (l, name, large), *w0 = m == M_OVER || m == M_REREAD ? want (l, fs[a] ? fs[a]->name : "-", false) : "";
  /* types that are flags stay until the flag is cleared */
  if ((!strcmp (l, "msdos") && !strcmp (w0, "82")) || !strcmp (w0, BASIC) || !strcmp (w0, SWAP)) w = w0;
  if (strcmp (o, w)) late ("fs-code", "%s: a partition%s for %s is written as %s, others know %s", l, mn[m], name, o, w);
out:
  if (d) ped_disk_destroy (d);
  if (i % 1009 == 0) mc_sample ("%s, %s over %s%s", l, name, fs[a] ? fs[a]->name : "-", mn[m]);
  if (*late_key) mc_fail (late_key, "%s", late_msg);
}
static void describe (long i, FILE *f) { int a = i % nfs, m = i / nfs % M_N, k = i / nfs / M_N % nfs; fprintf (f, "%s label, type %s on a partition%s (%s)", labels[i / nfs / M_N / nfs], fs[k] ? fs[k]->name : "none", mn[m], fs[a] ? fs[a]->name : "none"); }
void mc_setup (int, char **);
int main (int argc, char **argv)
{
  mc_setup (argc, argv);
  fs[nfs++] = NULL; for (const PedFileSystemType *t = NULL; (t = ped_file_system_type_get_next (t)) && nfs < MAXFS; ) fs[nfs++] = t;
  McSweep s = { .prop = "P06", .n = ncase (), .run = run, .describe = describe };
  return mc_sweep (&s, argc, argv);
}
