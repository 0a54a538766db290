/* Independent decoders of the on-disk formats, written from the formats'
   published descriptions; they share no code with libparted.  dec_check
   compares what a third party reads from the device with the table that has
   just been committed. */
#include <config.h>
#include "mc.h"
#include "decode.h"
#include <string.h>
#include <stdlib.h>

static const char *(*K) (const char *);
static PedDisk *D;
static int SS; static long long LEN;
#define FAIL(k, ...) mc_fail (K (k), __VA_ARGS__)
static uint16_t l16 (const uint8_t *p) { return p[0] | p[1] << 8; }
static uint32_t l32 (const uint8_t *p) { return l16 (p) | (uint32_t) l16 (p + 2) << 16; }
static uint64_t l64 (const uint8_t *p) { return l32 (p) | (uint64_t) l32 (p + 4) << 32; }
static uint16_t b16 (const uint8_t *p) { return p[0] << 8 | p[1]; }
static uint32_t b32 (const uint8_t *p) { return (uint32_t) b16 (p) << 16 | b16 (p + 2); }
static void rd (long long s, uint8_t *b) { if (s < 0 || s >= LEN) FAIL ("decode-pointer", "the table refers to sector %lld, outside the device", s); mc_store_read (s, b); }

/* the partitions a third party finds */
typedef struct { int num; long long s, n; bool ext, logical; int type; char name[80]; uint8_t guid[16]; uint64_t attr; bool boot; bool seen; } DP;
static DP dp[300]; static int ndp;
static DP *add (int num, long long s, long long n) { DP *d = &dp[ndp++]; memset (d, 0, sizeof *d); d->num = num; d->s = s; d->n = n; return d; }
static bool flag (PedPartition *p, PedPartitionFlag f) { return ped_partition_is_flag_available (p, f) && ped_partition_get_flag (p, f); }

static PedPartition *match (DP *d)
{
  for (PedPartition *p = ped_disk_next_partition (D, NULL); p; p = ped_disk_next_partition (D, p))
    if (ped_partition_is_active (p) && p->num == d->num) return p;
  return NULL;
}
static void match_all (bool numbers)
{
  int n = 0;
  for (PedPartition *p = ped_disk_next_partition (D, NULL); p; p = ped_disk_next_partition (D, p)) {
    if (!ped_partition_is_active (p)) continue;
    n++;
    DP *f = NULL;
    for (int i = 0; i < ndp; i++) if (numbers ? dp[i].num == p->num : dp[i].s == p->geom.start && dp[i].ext == !!(p->type & PED_PARTITION_EXTENDED)) f = &dp[i];
    if (!f) FAIL ("decode-missing", "partition %d (%lld-%lld) is not in the table on the device", p->num, p->geom.start, p->geom.end);
    if (f->s != p->geom.start || f->n != p->geom.length) FAIL ("decode-extent", "partition %d is %lld+%lld in memory and %lld+%lld on the device", p->num, p->geom.start, p->geom.length, f->s, f->n);
    if (f->ext != !!(p->type & PED_PARTITION_EXTENDED) || f->logical != !!(p->type & PED_PARTITION_LOGICAL)) FAIL ("decode-kind", "partition %d has another kind (primary, extended, logical) on the device", p->num);
    f->seen = true;
  }
  for (int i = 0; i < ndp; i++) if (!dp[i].seen) FAIL ("decode-extra", "the device's table has an unknown partition %d at %lld+%lld", dp[i].num, dp[i].s, dp[i].n);
  /* what a third party reads must not overlap */
  for (int i = 0; i < ndp; i++) for (int j = i + 1; j < ndp; j++) {
    if (dp[i].ext || dp[j].ext) continue;
    if (dp[i].s < dp[j].s + dp[j].n && dp[j].s < dp[i].s + dp[i].n) FAIL ("decode-overlap", "partitions %d and %d overlap on the device", dp[i].num, dp[j].num);
  }
  mc_count ("tables_decoded", 1); mc_count ("entries_decoded", n);
}

/* ---------- msdos ---------- */
static void chs (const uint8_t *c, long long lba)
{
  PedCHSGeometry g = D->dev->bios_geom;
  long long cyl = lba / (g.heads * g.sectors), h = lba / g.sectors % g.heads, s = lba % g.sectors;
  if (cyl > 1023) { cyl = 1023; h = g.heads - 1; s = g.sectors - 1; }
  if (c[0] != h || (c[1] & 63) != s + 1 || (c[2] | (c[1] & 0xc0) << 2) != cyl)
    FAIL ("decode-chs", "sector %lld is encoded as cylinder %d head %d sector %d (device: %d heads, %d sectors)", lba, c[2] | (c[1] & 0xc0) << 2, c[0], c[1] & 63, g.heads, g.sectors);
}
static void dec_msdos (void)
{
  uint8_t b[8192]; rd (0, b);
  if (b[510] != 0x55 || b[511] != 0xaa) FAIL ("decode-magic", "no boot signature");
  long long ext = -1, extn = 0; int boots = 0;
  for (int i = 0; i < 4; i++) {
    uint8_t *e = b + 446 + 16 * i;
    if (!e[4]) { for (int k = 0; k < 16; k++) if (e[k]) FAIL ("decode-empty", "an unused entry is not zero"); continue; }
    if (e[0] & 0x7f) FAIL ("decode-boot-indicator", "boot indicator %02x", e[0]);
    DP *d = add (i + 1, l32 (e + 8), l32 (e + 12)); d->type = e[4]; d->boot = e[0] == 0x80; boots += d->boot;
    if (e[4] == 5 || e[4] == 0xf || e[4] == 0x85) { if (ext >= 0) FAIL ("decode-two-extended", "two extended partitions"); d->ext = true; ext = d->s; extn = d->n; }
    if (e[4] == 0xee) FAIL ("decode-protective", "a partition of type EE");
    chs (e + 1, d->s); chs (e + 5, d->s + d->n - 1);
  }
  if (boots > 1) FAIL ("decode-two-boot", "%d bootable partitions", boots);
  long long at = ext, ebrs[80]; int n = 5, ne = 0;
  while (at >= 0) {
    if (ne > 64) FAIL ("decode-ebr-loop", "the list of logical partitions does not end");
    for (int i = 0; i < ne; i++) if (ebrs[i] == at) FAIL ("decode-ebr-loop", "the list of logical partitions has a loop");
    if (at < ext || at >= ext + extn) FAIL ("decode-ebr-outside", "logical partition entry at %lld outside the extended partition", at);
    ebrs[ne++] = at;
    uint8_t x[8192]; rd (at, x);
    if (x[510] != 0x55 || x[511] != 0xaa) FAIL ("decode-ebr-magic", "no signature in the entry of logical partition %d at sector %lld", n, at);
    uint8_t *e = x + 446, *nx = x + 462;
    for (int k = 32; k < 64; k++) if (x[446 + k]) FAIL ("decode-ebr-tail", "unused entries of a logical partition's table are not zero");
    if (e[4]) {
      DP *d = add (n++, at + l32 (e + 8), l32 (e + 12)); d->logical = true; d->type = e[4]; d->boot = e[0] == 0x80;
      if (d->s < ext || d->s + d->n > ext + extn) FAIL ("decode-logical-outside", "logical partition %lld+%lld outside the extended partition", d->s, d->n);
      if (e[4] == 5 || e[4] == 0xf || e[4] == 0x85) FAIL ("decode-nested", "extended partition inside an extended partition");
      chs (e + 1, d->s); chs (e + 5, d->s + d->n - 1);
    } else if (ne > 1) FAIL ("decode-ebr-empty", "an empty logical partition entry inside the list");
    if (!nx[4]) break;
    if (nx[4] != 5 && nx[4] != 0xf && nx[4] != 0x85) FAIL ("decode-ebr-link", "link of type %02x", nx[4]);
    /* the link covers the entry and its partition */
    long long nxt = ext + l32 (nx + 8), nn = l32 (nx + 12);
    if (nxt + nn > ext + extn) FAIL ("decode-ebr-link-length", "the link to %lld covers %lld sectors, more than the extended partition has", nxt, nn);
    at = nxt;
    uint8_t y[8192]; rd (at, y);
    if (y[446 + 4] && l32 (y + 446 + 8) + l32 (y + 446 + 12) > nn) FAIL ("decode-ebr-link-length", "the link to %lld is shorter than the partition it leads to", nxt);
  }
  match_all (true);
  for (int i = 0; i < ndp; i++) for (int k = 0; k < ne; k++) if (!dp[i].ext && ebrs[k] >= dp[i].s && ebrs[k] < dp[i].s + dp[i].n) FAIL ("decode-ebr-in-data", "the entry at sector %lld lies inside partition %d", ebrs[k], dp[i].num);
  static const struct { PedPartitionFlag f; int t; } ft[] = { { PED_PARTITION_LVM, 0x8e }, { PED_PARTITION_RAID, 0xfd }, { PED_PARTITION_ESP, 0xef }, { PED_PARTITION_PREP, 0x41 },
    { PED_PARTITION_PALO, 0xf0 }, { PED_PARTITION_IRST, 0x84 }, { PED_PARTITION_DIAG, 0x12 }, { PED_PARTITION_SWAP, 0x82 }, { PED_PARTITION_BLS_BOOT, 0xea }, { PED_PARTITION_MSFT_RESERVED, 0x0c01 } };
  for (int i = 0; i < ndp; i++) {
    PedPartition *p = match (&dp[i]);
    if (ped_partition_get_type_id (p) != dp[i].type) FAIL ("decode-type", "partition %d has type %02x in memory and %02x on the device", dp[i].num, ped_partition_get_type_id (p), dp[i].type);
    if (flag (p, PED_PARTITION_BOOT) != dp[i].boot) FAIL ("decode-boot", "partition %d: boot flag differs", dp[i].num);
    for (int k = 0; k < 9; k++) if (flag (p, ft[k].f) != (dp[i].type == ft[k].t) && !(ft[k].f == PED_PARTITION_DIAG && (dp[i].type == 0x27 || dp[i].type == 0x1c || dp[i].type == 0x83))) FAIL ("decode-flag", "partition %d: flag %s is %d with type %02x on the device", dp[i].num, ped_partition_flag_get_name (ft[k].f), flag (p, ft[k].f), dp[i].type);
  }
}

/* ---------- gpt ---------- */
static uint32_t crc32 (const uint8_t *p, size_t n)
{
  uint32_t c = ~0u;
  while (n--) { c ^= *p++; for (int k = 0; k < 8; k++) c = c >> 1 ^ (c & 1 ? 0xEDB88320u : 0); }
  return ~c;
}
static void gpt_header (long long at, long long other, long long pe_at, int nsec, uint8_t *pes, uint8_t *hdr)
{
  rd (at, hdr);
  if (memcmp (hdr, "EFI PART", 8)) FAIL ("decode-magic", "no GPT header at %lld", at);
  if (l32 (hdr + 8) != 0x10000) FAIL ("decode-revision", "GPT revision %x", l32 (hdr + 8));
  uint32_t hs = l32 (hdr + 12), want = l32 (hdr + 16);
  if (hs != 92) FAIL ("decode-header-size", "GPT header size %u", hs);
  uint8_t t[8192]; memcpy (t, hdr, hs); memset (t + 16, 0, 4);
  if (crc32 (t, hs) != want) FAIL ("decode-header-crc", "GPT header at %lld: CRC %08x stored, %08x computed", at, want, crc32 (t, hs));
  for (int i = hs; i < SS; i++) if (hdr[i]) FAIL ("decode-header-pad", "GPT header padding is not zero");
  if (l32 (hdr + 20)) FAIL ("decode-header-reserved", "GPT reserved field is not zero");
  if (l64 (hdr + 24) != (uint64_t) at || l64 (hdr + 32) != (uint64_t) other) FAIL ("decode-header-lba", "GPT header at %lld: my LBA %lld, alternate LBA %lld (expected %lld)", at, (long long) l64 (hdr + 24), (long long) l64 (hdr + 32), other);
  if (l64 (hdr + 72) != (uint64_t) pe_at) FAIL ("decode-entries-lba", "GPT header at %lld: entries at %lld, expected %lld", at, (long long) l64 (hdr + 72), pe_at);
  if (l32 (hdr + 80) != 128 || l32 (hdr + 84) != 128) FAIL ("decode-entry-count", "%u entries of %u bytes", l32 (hdr + 80), l32 (hdr + 84));
  for (int i = 0; i < nsec; i++) rd (pe_at + i, pes + i * SS);
  if (crc32 (pes, 128 * 128) != l32 (hdr + 88)) FAIL ("decode-entries-crc", "GPT entries at %lld have a wrong CRC", pe_at);
}
static void guid_bytes (const uint8_t *le, uint8_t *be)   /* mixed-endian on disk */
{
  static const int o[16] = { 3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15 };
  for (int i = 0; i < 16; i++) be[i] = le[o[i]];
}
static void dec_gpt (void)
{
  uint8_t m[8192], h1[8192], h2[8192], e1[32768], e2[32768], g[16];
  int nsec = (128 * 128 + SS - 1) / SS;
  rd (0, m);
  if (m[510] != 0x55 || m[511] != 0xaa) FAIL ("decode-pmbr", "no boot signature in the protective MBR");
  uint8_t *p0 = m + 446;
  if (p0[4] != 0xee || l32 (p0 + 8) != 1 || l32 (p0 + 12) != (LEN - 1 > 0xffffffffLL ? 0xffffffffu : (uint32_t) (LEN - 1))) FAIL ("decode-pmbr", "protective entry type %02x start %u size %u", p0[4], l32 (p0 + 8), l32 (p0 + 12));
  if (p0[1] != 0 || p0[2] != 2 || p0[3] != 0) FAIL ("decode-pmbr", "protective entry starts at CHS %d/%d/%d", p0[3], p0[1], p0[2]);
  for (int i = 16; i < 64; i++) if (p0[i]) FAIL ("decode-pmbr", "other entries of the protective MBR are in use");
  if ((p0[0] == 0x80) != !!ped_disk_get_flag (D, PED_DISK_GPT_PMBR_BOOT) || (p0[0] & 0x7f)) FAIL ("decode-pmbr-boot", "protective entry boot indicator %02x", p0[0]);
  gpt_header (1, LEN - 1, 2, nsec, e1, h1);
  gpt_header (LEN - 1, 1, LEN - 1 - nsec, nsec, e2, h2);
  if (memcmp (e1, e2, nsec * SS)) FAIL ("decode-mirror", "the two copies of the partition entries differ");
  if (memcmp (h1 + 40, h2 + 40, 32)) FAIL ("decode-mirror", "the two headers differ in usable area or disk GUID");
  uint64_t fu = l64 (h1 + 40), lu = l64 (h1 + 48);
  if (fu != (uint64_t) 2 + nsec || lu != (uint64_t) LEN - 2 - nsec) FAIL ("decode-usable", "usable area %lld-%lld, expected %d-%lld", (long long) fu, (long long) lu, 2 + nsec, LEN - 2 - nsec);
  guid_bytes (h1 + 56, g);
  uint8_t *du = ped_disk_get_uuid (D);
  bool same = du && !memcmp (g, du, 16); free (du);
  if (!same) FAIL ("decode-disk-guid", "the disk GUID on the device is not the disk's");
  static const uint8_t zero[16];
  for (int i = 0; i < 128; i++) {
    uint8_t *e = e1 + i * 128;
    if (!memcmp (e, zero, 16)) { for (int k = 0; k < 128; k++) if (e[k]) FAIL ("decode-empty", "an unused entry is not zero"); continue; }
    DP *d = add (i + 1, l64 (e + 32), l64 (e + 40) - l64 (e + 32) + 1);
    d->attr = l64 (e + 48); guid_bytes (e, d->guid);
    if (l64 (e + 32) < fu || l64 (e + 40) > lu || l64 (e + 40) < l64 (e + 32)) FAIL ("decode-outside", "partition %d (%lld-%lld) outside the usable area", i + 1, (long long) l64 (e + 32), (long long) l64 (e + 40));
    int k; for (k = 0; k < 36; k++) { unsigned c = l16 (e + 56 + 2 * k); if (!c) break; d->name[k] = c < 128 ? c : '?'; }
    for (; k < 36; k++) if (l16 (e + 56 + 2 * k)) FAIL ("decode-name-tail", "partition %d: bytes after the end of the name", i + 1);
  }
  match_all (true);
  static const struct { PedPartitionFlag f; const char *g; } ft[] = {
    { PED_PARTITION_ESP, "C12A7328-F81F-11D2-BA4B-00A0C93EC93B" }, { PED_PARTITION_LVM, "E6D6D379-F507-44C2-A23C-238F2A3DF928" },
    { PED_PARTITION_RAID, "A19D880F-05FC-4D3B-A006-743F0F84911E" }, { PED_PARTITION_BIOS_GRUB, "21686148-6449-6E6F-744E-656564454649" },
    { PED_PARTITION_SWAP, "0657FD6D-A4AB-43C4-84E5-0933C84B4F4F" }, { PED_PARTITION_PREP, "9E1A2D38-C612-4316-AA26-8B49521E5A8B" },
    { PED_PARTITION_MSFT_RESERVED, "E3C9E316-0B5C-4DB8-817D-F92DF00215AE" }, { PED_PARTITION_MSFT_DATA, "EBD0A0A2-B9E5-4433-87C0-68B6B72699C7" },
    { PED_PARTITION_HPSERVICE, "E2A1E728-32E3-11D6-A682-7B03A0000000" }, { PED_PARTITION_APPLE_TV_RECOVERY, "5265636F-7665-11AA-AA11-00306543ECAC" },
    { PED_PARTITION_DIAG, "DE94BBA4-06D1-4D40-A16A-BFD50179D6AC" }, { PED_PARTITION_IRST, "D3BFE2DE-3DAF-11DF-BA40-E3A556D89593" },
    { PED_PARTITION_CHROMEOS_KERNEL, "FE3A2A5D-4F32-41A7-B725-ACCC3285A309" }, { PED_PARTITION_BLS_BOOT, "BC13C2FF-59E6-4262-A352-B275FD6F7172" },
    { PED_PARTITION_LINUX_HOME, "933AC7E1-2EB4-4F13-B844-0E14E2AEF915" } };
  for (int i = 0; i < ndp; i++) {
    PedPartition *p = match (&dp[i]);
    uint8_t *t = ped_partition_get_type_uuid (p), *u = ped_partition_get_uuid (p); uint8_t pg[16];
    guid_bytes (e1 + (dp[i].num - 1) * 128 + 16, pg);
    bool ok1 = t && !memcmp (t, dp[i].guid, 16), ok2 = u && !memcmp (u, pg, 16); free (t); free (u);
    if (!ok1) FAIL ("decode-type-guid", "partition %d: type GUID differs from the device's", dp[i].num);
    if (!ok2) FAIL ("decode-guid", "partition %d: GUID differs from the device's", dp[i].num);
    for (int j = 0; j < i; j++) if (!memcmp (e1 + (dp[i].num - 1) * 128 + 16, e1 + (dp[j].num - 1) * 128 + 16, 16)) FAIL ("decode-guid-dup", "two partitions have the same GUID");
    if (strcmp (ped_partition_get_name (p), dp[i].name)) FAIL ("decode-name", "partition %d is named '%s' in memory and '%s' on the device", dp[i].num, ped_partition_get_name (p), dp[i].name);
    if (flag (p, PED_PARTITION_HIDDEN) != (dp[i].attr & 1) || flag (p, PED_PARTITION_LEGACY_BOOT) != (dp[i].attr >> 2 & 1) || flag (p, PED_PARTITION_NO_AUTOMOUNT) != (dp[i].attr >> 63)) FAIL ("decode-attributes", "partition %d: attributes %llx do not match the flags", dp[i].num, (unsigned long long) dp[i].attr);
    for (size_t k = 0; k < sizeof ft / sizeof *ft; k++) {
      uint8_t w[16]; const char *q = ft[k].g; for (int b = 0; b < 16; b++) { if (*q == '-') q++; sscanf (q, "%2hhx", &w[b]); q += 2; }
      if (flag (p, ft[k].f) != !memcmp (w, dp[i].guid, 16)) FAIL ("decode-flag", "partition %d: flag %s is %d but the type GUID on the device says otherwise", dp[i].num, ped_partition_flag_get_name (ft[k].f), flag (p, ft[k].f));
    }
  }
}

/* ---------- mac ---------- */
static void dec_mac (void)
{
  uint8_t b[8192]; rd (0, b);
  if (b[0] != 'E' || b[1] != 'R') FAIL ("decode-magic", "no driver descriptor record");
  if (b16 (b + 2) != SS) FAIL ("decode-block-size", "block size %d", b16 (b + 2));
  if (b32 (b + 4) != (uint32_t) (LEN > 0xffffffffLL ? (uint32_t) LEN : LEN)) FAIL ("decode-block-count", "block count %u", b32 (b + 4));
  uint8_t e[8192]; rd (1, e);
  if (e[0] != 'P' || e[1] != 'M') FAIL ("decode-magic", "no partition map");
  uint32_t cnt = b32 (e + 4);
  if (cnt < 1 || cnt > 256) FAIL ("decode-map-count", "%u map entries", cnt);
  struct { long long s, n; } free_[300]; int nf = 0; bool map = false; long long mapend = 0;
  for (uint32_t i = 1; i <= cnt; i++) {
    rd (i, e);
    if (e[0] != 'P' || e[1] != 'M') FAIL ("decode-magic", "map entry %u has no signature", i);
    if (b32 (e + 4) != cnt) FAIL ("decode-map-count", "map entry %u says there are %u entries, the first says %u", i, b32 (e + 4), cnt);
    char nm[33] = "", ty[33] = ""; memcpy (nm, e + 16, 32); memcpy (ty, e + 48, 32);
    if (!strcmp (ty, "Apple_Void")) continue;
    if (!strcmp (ty, "Apple_Free")) { free_[nf].s = b32 (e + 8); free_[nf++].n = b32 (e + 12); continue; }
    DP *d = add (i, b32 (e + 8), b32 (e + 12)); snprintf (d->name, 80, "%s", nm);
    if (b32 (e + 80) + b32 (e + 84) > b32 (e + 12)) FAIL ("decode-data-region", "entry %u: the data region is longer than the partition", i);
    if (!strcmp (ty, "Apple_partition_map")) { map = true; mapend = d->s + d->n; if (d->s != 1) FAIL ("decode-map-place", "the map says it starts at %lld", d->s); }
    d->boot = b32 (e + 88) & 8;
    d->type = !strcmp (ty, "Apple_UNIX_SVR2") ? 1 : !strcmp (ty, "Linux_LVM") ? 2 : !strcmp (ty, "Linux_RAID") ? 3 : !strcmp (ty, "Apple_Bootstrap") ? 4 : 0;
  }
  if (!map) { if (getenv ("MC_DEBUG")) fprintf (stderr, "no map\n"); }
  else if (mapend < (long long) cnt + 1) FAIL ("decode-map-size", "%u entries do not fit in the map, which ends at %lld", cnt, mapend);
  match_all (true);
  for (int i = 0; i < ndp; i++) {
    PedPartition *p = match (&dp[i]);
    char want[33]; snprintf (want, 32, "%s", ped_partition_get_name (p));
    if (strcmp (want, dp[i].name)) FAIL ("decode-name", "partition %d is named '%s' in memory and '%s' on the device", dp[i].num, want, dp[i].name);
    if (flag (p, PED_PARTITION_LVM) != (dp[i].type == 2) || flag (p, PED_PARTITION_RAID) != (dp[i].type == 3)) FAIL ("decode-flag", "partition %d: raid or lvm flag does not match the type on the device", dp[i].num);
    if (flag (p, PED_PARTITION_BOOT) != (dp[i].type == 4)) FAIL ("decode-flag", "partition %d: boot flag %d does not match the entry on the device", dp[i].num, flag (p, PED_PARTITION_BOOT));
  }
  /* every block from 1 on is accounted for */
  long long at = 1;
  for (;;) {
    long long nx = -1;
    for (int i = 0; i < ndp; i++) if (dp[i].s == at && dp[i].n) nx = dp[i].s + dp[i].n;
    for (int i = 0; i < nf; i++) if (free_[i].s == at && free_[i].n) nx = at + free_[i].n;
    if (nx < 0) break;
    at = nx;
  }
  if (LEN <= 0xffffffffLL && at != LEN) FAIL ("decode-coverage", "block %lld belongs neither to a partition nor to a free entry", at);
}

/* ---------- sun ---------- */
static void dec_sun (void)
{
  uint8_t b[8192]; rd (0, b);
  if (b16 (b + 508) != 0xDABE) FAIL ("decode-magic", "no Sun label");
  unsigned x = 0; for (int i = 0; i < 512; i += 2) x ^= b16 (b + i);
  if (x) FAIL ("decode-checksum", "Sun label checksum is wrong");
  if (b32 (b + 128) != 1 || b32 (b + 188) != 0x600DDEEE || b16 (b + 140) != 8) FAIL ("decode-vtoc", "Sun VTOC version %u sanity %08x parts %u", b32 (b + 128), b32 (b + 188), b16 (b + 140));
  int heads = b16 (b + 436), sects = b16 (b + 438), ncyl = b16 (b + 432), acyl = b16 (b + 434);
  if (heads != D->dev->bios_geom.heads || sects != D->dev->bios_geom.sectors || (uint16_t) (ncyl + acyl) != (uint16_t) D->dev->bios_geom.cylinders) FAIL ("decode-geometry", "geometry %d+%d cylinders, %d heads, %d sectors", ncyl, acyl, heads, sects);
  bool whole = false;
  for (int i = 0; i < 8; i++) {
    int id = b[142 + 4 * i + 1]; long long c = b32 (b + 444 + 8 * i), n = b32 (b + 448 + 8 * i);
    if (!n) { if (id || c) FAIL ("decode-empty", "unused entry %d is not zero", i + 1); continue; }
    if (i == 2 && id == 5) {
      whole = true;
      /* more than 65536 cylinders cannot be expressed; parted warns about that */
      if (c || (D->dev->bios_geom.cylinders <= 65536 && n != (long long) D->dev->bios_geom.cylinders * heads * sects)) FAIL ("decode-whole", "the whole-disk entry covers %lld sectors from cylinder %lld", n, c);
      continue; }
    DP *d = add (i + 1, c * heads * sects, n); d->type = id;
  }
  if (!whole && !ped_disk_get_partition (D, 3)) FAIL ("decode-whole", "no whole-disk entry");
  match_all (true);
  for (int i = 0; i < ndp; i++) {
    PedPartition *p = match (&dp[i]);
    if (flag (p, PED_PARTITION_BOOT) != (dp[i].type == 1) || flag (p, PED_PARTITION_ROOT) != (dp[i].type == 2) || flag (p, PED_PARTITION_LVM) != (dp[i].type == 0x8e) || flag (p, PED_PARTITION_RAID) != (dp[i].type == 0xfd)) FAIL ("decode-flag", "partition %d: type %02x on the device does not match the flags", dp[i].num, dp[i].type);
  }
}

/* ---------- bsd ---------- */
static void dec_bsd (void)
{
  uint8_t s[8192]; rd (0, s); uint8_t *b = s + 64;
  if (l32 (b) != 0x82564557 || l32 (b + 132) != 0x82564557) FAIL ("decode-magic", "no BSD label");
  int np = l16 (b + 138);
  if (np < 1 || np > 9) FAIL ("decode-count", "%d entries", np);
  unsigned x = 0; for (int i = 0; i < 148 + 16 * np; i += 2) x ^= l16 (b + i);
  if (x) FAIL ("decode-checksum", "the BSD label's checksum is wrong");
  if (l32 (b + 40) != (uint32_t) SS) FAIL ("decode-sector-size", "BSD label says sectors have %u bytes", l32 (b + 40));
  for (int i = 0; i < 8; i++) {
    uint8_t *e = b + 148 + 16 * i;
    if (!l32 (e) && !l32 (e + 4) && !e[12]) continue;
    if (i >= np) FAIL ("decode-count", "entry %d lies after the last of %d", i + 1, np);
    DP *d = add (i + 1, l32 (e + 4), l32 (e)); d->type = e[12];
  }
  match_all (true);
}

/* ---------- dvh ---------- */
static void dec_dvh (void)
{
  uint8_t b[8192]; rd (0, b);
  if (b32 (b) != 0x0be5a941) FAIL ("decode-magic", "no DVH label");
  uint32_t x = 0; for (int i = 0; i < 512; i += 4) x += b32 (b + i);
  if (x) FAIL ("decode-checksum", "DVH checksum is wrong");
  for (int i = 0; i < 16; i++) {
    uint8_t *e = b + 312 + 12 * i; long long n = b32 (e), f = b32 (e + 4); uint32_t ty = b32 (e + 8);
    if (!n) continue;
    if (ty == 6 && i == 10) { if (f || n != (uint32_t) LEN) FAIL ("decode-whole", "the whole-disk entry covers %lld+%lld", f, n); continue; }
    DP *d = add (i + 1, f, n); d->type = ty; d->ext = i == 8 && ty == 0;
    if (!d->ext && ty == 0) FAIL ("decode-volhdr", "entry %d is a volume header", i + 1);
  }
  for (int i = 0; i < 15; i++) {
    uint8_t *e = b + 72 + 16 * i; long long lbn = b32 (e + 8), nb = b32 (e + 12);
    if (!nb) continue;
    DP *d = add (17 + i, lbn, ((long long) nb + 511) / 512); d->logical = true; memcpy (d->name, e, 8);
  }
  match_all (true);
  char bf[17] = ""; memcpy (bf, b + 8, 16);
  int boots = 0;
  for (int i = 0; i < ndp; i++) {
    PedPartition *p = match (&dp[i]);
    if (dp[i].logical) {
      char w[9] = ""; strncpy (w, ped_partition_get_name (p), 8);
      if (strcmp (w, dp[i].name)) FAIL ("decode-name", "boot file %d is named '%s' in memory and '%s' on the device", dp[i].num, w, dp[i].name);
      if (flag (p, PED_PARTITION_BOOT)) { boots++; if (strcmp (bf, dp[i].name)) FAIL ("decode-boot", "boot file '%s' is set, partition '%s' has the boot flag", bf, dp[i].name); }
    } else {
      if (flag (p, PED_PARTITION_ROOT) != (b16 (b + 4) == dp[i].num - 1) || flag (p, PED_PARTITION_SWAP) != (b16 (b + 6) == dp[i].num - 1)) FAIL ("decode-flag", "partition %d: root/swap flags differ from the device's root %d swap %d", dp[i].num, b16 (b + 4), b16 (b + 6));
      if (flag (p, PED_PARTITION_LVM) != (dp[i].type == 0x8e) || flag (p, PED_PARTITION_RAID) != (dp[i].type == 0xfd)) FAIL ("decode-flag", "partition %d: type %u does not match the flags", dp[i].num, dp[i].type);
    }
  }
  if (*bf && !boots) FAIL ("decode-boot", "boot file '%s' set but no partition has the boot flag", bf);
}

/* ---------- amiga ---------- */
static uint32_t asum (const uint8_t *b) { uint32_t x = 0, n = b32 (b + 4); if (n > 128) return 1; for (uint32_t i = 0; i < n; i++) x += b32 (b + 4 * i); return x; }
static void dec_amiga (void)
{
  uint8_t b[8192]; int r; for (r = 0; r < 16; r++) { rd (r, b); if (!memcmp (b, "RDSK", 4)) break; }
  if (r == 16) FAIL ("decode-magic", "no rigid disk block");
  if (asum (b)) FAIL ("decode-checksum", "rigid disk block checksum is wrong");
  long long heads = b32 (b + 0x48), sects = b32 (b + 0x44), cyls = b32 (b + 0x40), lo = b32 (b + 0x80), hi = b32 (b + 0x84);
  if (heads != D->dev->hw_geom.heads || sects != D->dev->hw_geom.sectors || !cyls) FAIL ("decode-geometry", "RDB geometry %lld/%lld/%lld", cyls, heads, sects);
  if (b32 (b + 0x10) != (uint32_t) SS) FAIL ("decode-sector-size", "RDB block size %u", b32 (b + 0x10));
  uint32_t at = b32 (b + 0x1c); int n = 0;
  while (at != 0xffffffffu) {
    if (at <= (uint32_t) r || at < lo || at > hi) FAIL ("decode-block-place", "partition block at %u, reserved area is %lld-%lld", at, lo, hi);
    if (at > b32 (b + 0x98)) FAIL ("decode-high-block", "partition block at %u lies beyond the highest used block %u", at, b32 (b + 0x98));
    if (++n > 128) FAIL ("decode-loop", "the partition list does not end");
    uint8_t e[8192]; rd (at, e);
    if (memcmp (e, "PART", 4)) FAIL ("decode-magic", "no partition block at %u", at);
    if (asum (e)) FAIL ("decode-checksum", "partition block %d checksum is wrong", n);
    long long c0 = b32 (e + 164), c1 = b32 (e + 168);
    DP *d = add (n, c0 * heads * sects, (c1 - c0 + 1) * heads * sects);
    int l = e[0x24]; if (l > 31) l = 31; memcpy (d->name, e + 0x25, l);
    d->attr = b32 (e + 0x14); d->type = b32 (e + 0xc0);
    if (d->s <= hi) FAIL ("decode-rdb-overlap", "partition %d overlaps the RDB area", n);
    at = b32 (e + 0x10);
  }
  /* numbers are list positions */
  PedPartition *q[130]; int k = 0;
  for (PedPartition *p = ped_disk_next_partition (D, NULL); p; p = ped_disk_next_partition (D, p)) if (ped_partition_is_active (p)) q[k++] = p;
  for (int i = 0; i < k; i++) { int rank = 1; for (int j = 0; j < k; j++) rank += q[j]->num < q[i]->num; if (rank <= n) dp[rank - 1].num = q[i]->num; }
  match_all (true);
  for (int i = 0; i < ndp; i++) {
    PedPartition *p = match (&dp[i]);
    if (strcmp (ped_partition_get_name (p), dp[i].name)) FAIL ("decode-name", "partition %d is named '%s' in memory and '%s' on the device", dp[i].num, ped_partition_get_name (p), dp[i].name);
    if (flag (p, PED_PARTITION_BOOT) != (dp[i].attr & 1) || flag (p, PED_PARTITION_HIDDEN) != (dp[i].attr >> 1 & 1)) FAIL ("decode-flag", "partition %d: flags %llx on the device", dp[i].num, (unsigned long long) dp[i].attr);
  }
}

/* ---------- pc98 ---------- */
static void dec_pc98 (void)
{
  uint8_t b[8192]; rd (0, b);
  if (b[510] != 0x55 || b[511] != 0xaa || memcmp (b + 4, "IPL1", 4)) FAIL ("decode-magic", "no PC-9800 label");
  rd (1, b);
  int H = D->dev->hw_geom.heads, S = D->dev->hw_geom.sectors;
  for (int i = 0; i < 16; i++) {
    uint8_t *e = b + 32 * i; int k; for (k = 0; k < 32 && !e[k]; k++) ;
    if (k == 32) continue;
    long long s = ((long long) l16 (e + 10) * H + e[9]) * S + e[8];
    long long ipl = ((long long) l16 (e + 6) * H + e[5]) * S + e[4];
    long long end = ((long long) l16 (e + 14) + 1) * H * S;
    DP *d = add (i + 1, s, end - s); d->type = e[0] << 8 | e[1];
    if (ipl < s || ipl >= end) FAIL ("decode-ipl", "partition %d (%lld-%lld): its boot loader is said to be at sector %lld", i + 1, s, end - 1, ipl);
    memcpy (d->name, e + 16, 16); for (int z = 15; z >= 0 && d->name[z] == ' '; z--) d->name[z] = 0;
  }
  match_all (true);
  for (int i = 0; i < ndp; i++) {
    PedPartition *p = match (&dp[i]);
    if (flag (p, PED_PARTITION_BOOT) != (dp[i].type >> 15 & 1) || flag (p, PED_PARTITION_HIDDEN) == (dp[i].type >> 7 & 1)) FAIL ("decode-flag", "partition %d: type %04x on the device does not match the flags", dp[i].num, dp[i].type);
  }
}

/* ---------- atari ---------- */
static bool alnum3 (const uint8_t *p) { for (int i = 0; i < 3; i++) if (!((p[i] >= '0' && p[i] <= '9') || (p[i] >= 'A' && p[i] <= 'Z') || (p[i] >= 'a' && p[i] <= 'z'))) return false; return true; }
static void dec_atari (void)
{
  uint8_t b[8192]; rd (0, b);
  if (b32 (b + 0x1c2) != (uint32_t) LEN) FAIL ("decode-size", "the root sector says the disk has %u sectors", b32 (b + 0x1c2));
  bool any = false; 
  for (int i = 0; i < 4; i++) {
    uint8_t *e = b + 0x1c6 + 12 * i;
    if (!(e[0] & 1)) continue;
    any = true;
    if (!alnum3 (e + 1)) FAIL ("decode-id", "entry %d has no valid id", i + 1);
    DP *d = add (0, b32 (e + 4), b32 (e + 8));
    if (!memcmp (e + 1, "XGM", 3)) {
      d->ext = true;
      long long ext = d->s, at = ext, en = d->n; int n = 0;
      for (;;) {
        if (++n > 64) FAIL ("decode-loop", "the logical list does not end");
        uint8_t x[8192]; rd (at, x); int k;
        uint8_t *q = NULL, *l = NULL;
        for (k = 0; k < 4; k++) { uint8_t *f = x + 0x1c6 + 12 * k; if (!(f[0] & 1)) continue; if (!memcmp (f + 1, "XGM", 3)) l = f; else if (!q) q = f; else FAIL ("decode-logical", "two partitions in one auxiliary root sector"); }
        if (!q) { if (n == 1) break; FAIL ("decode-logical", "auxiliary root sector at %lld has no partition", at); }
        DP *z = add (0, at + b32 (q + 4), b32 (q + 8)); z->logical = true;
        if (z->s < ext || z->s + z->n > ext + en) FAIL ("decode-logical-outside", "logical partition %lld+%lld outside the extended partition", z->s, z->n);
        if (!l) break;
        at = ext + b32 (l + 4);
        if (at < ext || at >= ext + en) FAIL ("decode-logical-outside", "auxiliary root sector at %lld outside the extended partition", at);
      }
    }
  }
  /* ICD entries count only when all four main ones are not extended */
  bool xgm = false; for (int i = 0; i < ndp; i++) if (dp[i].ext) xgm = true;
  uint8_t *ic = b + 0x156;
  if (any && !xgm && (ic[0] & 1) && alnum3 (ic + 1)) for (int i = 0; i < 8; i++) { uint8_t *e = ic + 12 * i; if ((e[0] & 1) && alnum3 (e + 1)) add (0, b32 (e + 4), b32 (e + 8)); }
  match_all (false);
}

static void dec_loop (void)
{
  uint8_t b[8192]; rd (0, b);
  PedPartition *p = ped_disk_get_partition (D, 1);
  if (p && p->fs_type) return;
  if (memcmp (b, "GNU Parted Loopback 0", 21)) FAIL ("decode-magic", "no loop label");
}

void dec_check (PedDisk *disk, const char *(*k) (const char *))
{
  D = disk; K = k; SS = mc_geom.ss; LEN = mc_geom.length; ndp = 0;
  const char *l = disk->type->name;
  if (!strcmp (l, "msdos")) dec_msdos ();
  else if (!strcmp (l, "gpt")) dec_gpt ();
  else if (!strcmp (l, "mac")) dec_mac ();
  else if (!strcmp (l, "sun")) dec_sun ();
  else if (!strcmp (l, "bsd")) dec_bsd ();
  else if (!strcmp (l, "dvh")) dec_dvh ();
  else if (!strcmp (l, "amiga")) dec_amiga ();
  else if (!strcmp (l, "pc98")) dec_pc98 ();
  else if (!strcmp (l, "atari")) dec_atari ();
  else if (!strcmp (l, "loop")) dec_loop ();
}
