/* File systems as their own tools lay them out (superblocks only), written
   from the formats' published descriptions, for P23 and P16. */
#ifndef FSIMG_H
#define FSIMG_H
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#ifndef L
#define L long long
#endif
static void pb (L off, const void *data, L n)             /* absolute byte offset */
{
  const uint8_t *d = data; L ss = mc_geom.ss; uint8_t *b = malloc (ss);
  while (n > 0) {
    L s = off / ss, o = off % ss, k = ss - o < n ? ss - o : n;
    mc_store_read (s, b); memcpy (b + o, d, k); mc_store_write (s, b);
    off += k; d += k; n -= k;
  }
  free (b);
}
static void gb (L off, void *data, L n)
{
  uint8_t *d = data; L ss = mc_geom.ss; uint8_t *b = malloc (ss);
  while (n > 0) { L s = off / ss, o = off % ss, k = ss - o < n ? ss - o : n; mc_store_read (s, b); memcpy (d, b + o, k); off += k; d += k; n -= k; }
  free (b);
}
static void le (uint8_t *p, int n, uint64_t v) { for (int i = 0; i < n; i++) p[i] = v >> (8 * i); }
static void be (uint8_t *p, int n, uint64_t v) { for (int i = 0; i < n; i++) p[n - 1 - i] = v >> (8 * i); }
typedef struct { const char *name, *type; int kind, a, b; L at, n; } FsImg;   /* AT, N: bytes of the superblock */
enum { F_FAT, F_NTFS, F_EXT, F_HFS, F_HFSP, F_HFSW, F_XFS, F_JFS, F_REISER, F_NILFS, F_SWAP, F_UFS, F_UDF, F_BTRFS, F_F2FS, F_AFFS, F_APFS, F_ASFS };
static const FsImg fsimg[] = {
  { "fat12", NULL, F_FAT, 12, 1, 0, 96 },
  { "fat12, large clusters", NULL, F_FAT, 12, 16, 0, 96 },
  { "fat16, 1-sector clusters", "fat16", F_FAT, 16, 1, 0, 96 },
  { "fat16, 16-sector clusters", "fat16", F_FAT, 16, 16, 0, 96 },
  { "fat16, 64-sector clusters", "fat16", F_FAT, 16, 64, 0, 96 },
  { "fat32, 1-sector clusters", "fat32", F_FAT, 32, 1, 0, 96 },
  { "fat32, 8-sector clusters", "fat32", F_FAT, 32, 8, 0, 96 },
  { "ntfs", "ntfs", F_NTFS, 0, 0, 0, 96 },
  { "ext2, 1 KiB blocks", "ext2", F_EXT, 2, 1024, 1024, 264 },
  { "ext2, 4 KiB blocks", "ext2", F_EXT, 2, 4096, 1024, 264 },
  { "ext3, 2 KiB blocks", "ext3", F_EXT, 3, 2048, 1024, 264 },
  { "ext3, 4 KiB blocks", "ext3", F_EXT, 3, 4096, 1024, 264 },
  { "ext4, 1 KiB blocks", "ext4", F_EXT, 4, 1024, 1024, 264 },
  { "ext4, 4 KiB blocks", "ext4", F_EXT, 4, 4096, 1024, 264 },
  { "hfs", "hfs", F_HFS, 512, 0, 1024, 164 },
  { "hfs, 4 KiB blocks", "hfs", F_HFS, 4096, 0, 1024, 164 },
  { "hfs+", "hfs+", F_HFSP, 0, 4096, 1024, 112 },
  { "hfs+, 512 byte blocks", "hfs+", F_HFSP, 0, 512, 1024, 112 },
  { "hfsx", "hfsx", F_HFSP, 1, 4096, 1024, 112 },
  { "hfs+ in an hfs wrapper", "hfs+", F_HFSW, 0, 4096, 1024, 164 },
  { "xfs", "xfs", F_XFS, 4096, 0, 0, 128 },
  { "xfs, 64 KiB blocks", "xfs", F_XFS, 65536, 0, 0, 128 },
  { "jfs", "jfs", F_JFS, 0, 0, 32768, 64 },
  { "reiserfs", "reiserfs", F_REISER, 0, 65536, 65536, 64 },
  { "reiserfs 3.5", "reiserfs", F_REISER, 1, 8192, 8192, 64 },
  { "reiserfs 3.6", "reiserfs", F_REISER, 2, 65536, 65536, 64 },
  { "nilfs2", "nilfs2", F_NILFS, 0, 0, 1024, 288 },
  { "swap v0", "linux-swap(v0)", F_SWAP, 0, 0, 4080, 16 },
  { "swap v1", "linux-swap(v1)", F_SWAP, 1, 0, 1024, 64 },
  { "swsusp", "swsusp", F_SWAP, 2, 0, 1024, 64 },
  { "ufs, Sun", "sun-ufs", F_UFS, 1, 0, 8192, 1380 },
  { "ufs, little endian", "sun-ufs", F_UFS, 0, 0, 8192, 1380 },
  { "ufs, HP long names", "hp-ufs", F_UFS, 1, 1, 8192, 1380 },
  { "ufs, HP fea", "hp-ufs", F_UFS, 0, 2, 8192, 1380 },
  { "ufs, HP 4 GB", "hp-ufs", F_UFS, 1, 3, 8192, 1380 },
  { "udf, 512 byte blocks", "udf", F_UDF, 512, 256, 32768, 6144 },
  { "udf, 2 KiB blocks", "udf", F_UDF, 2048, 256, 32768, 6144 },
  { "udf, 2 KiB blocks, anchor at the end", "udf", F_UDF, 2048, -1, 32768, 6144 },
  { "udf, 4 KiB blocks", "udf", F_UDF, 4096, 256, 32768, 12288 },
  { "udf, 4 KiB blocks, anchor before the end", "udf", F_UDF, 4096, -257, 32768, 12288 },
  { "btrfs", "btrfs", F_BTRFS, 0, 0, 65536, 128 },
  { "f2fs", "f2fs", F_F2FS, 0, 0, 1024, 96 },
  { "amiga OFS", "affs0", F_AFFS, 0, 0, 0, 16 },
  { "amiga FFS", "affs1", F_AFFS, 1, 0, 0, 16 },
  { "amiga FFS international", "affs3", F_AFFS, 3, 0, 0, 16 },
  { "amiga DOS\\7", "affs7", F_AFFS, 7, 0, 0, 16 },
  { "amiga multi-user", "amufs4", F_AFFS, 0x104, 0, 0, 16 },
  { "amiga PFS", "apfs1", F_APFS, 1, 0, 0, 16 },
  { "amiga PFS 2", "apfs2", F_APFS, 2, 0, 0, 16 },
  { "amiga SFS", "asfs", F_ASFS, 0, 0, 0, 128 },
};
#define NFSIMG ((int) (sizeof fsimg / sizeof *fsimg))
static uint32_t fsi_crc (uint32_t c, const uint8_t *p, size_t n) { while (n--) { c ^= *p++; for (int i = 0; i < 8; i++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0); } return c; }
static int fsi_amiga_spb = 1, fsi_amiga_res = 2;
/* Writes file system K into the N sectors from S on; returns how many of them
   it covers, or 0 when such a file system is not possible there. */
static L fsi_put (int k, L s, L n)
{
  const FsImg *f = &fsimg[k]; L ss = mc_geom.ss, o = s * ss, bytes = n * ss; uint8_t b[16384]; memset (b, 0, sizeof b);
  switch (f->kind) {
  case F_FAT: {
    if (ss > 4096) return 0;
    L spc = f->b, res = f->a == 32 ? 32 : 1, root = f->a == 32 ? 0 : 512 * 32 / ss, min = f->a == 32 ? 65525 : f->a == 16 ? 4085 : 1, max = f->a == 32 ? 0x0ffffff5 : f->a == 16 ? 65524 : 4084, tot = n, fat, cl;
    if (tot > 0xffffffffLL) tot = 0xffffffffLL;
    for (int i = 0; ; i++) {
      fat = 1; cl = 0;
      for (int j = 0; j < 40; j++) { cl = (tot - res - root - 2 * fat) / spc; L need = f->a == 12 ? (cl + 2) * 3 / 2 + 1 : (cl + 2) * (f->a / 8); need = (need + ss - 1) / ss; if (need <= fat) break; fat = need; }
      if (cl <= max) break;
      if (i) return 0;
      tot = res + root + max * spc; for (L x = f->a == 12 ? (max + 2) * 3 / 2 + 1 : (max + 2) * (f->a / 8), y = (x + ss - 1) / ss; y > 0; y = 0) tot += 2 * y;
    }
    if (cl < min || (f->a != 32 && fat > 65535)) return 0;
    memcpy (b, "\xeb\x3c\x90mkfs.fat", 11); le (b + 11, 2, ss); b[13] = spc; le (b + 14, 2, res); b[16] = 2; le (b + 17, 2, f->a == 32 ? 0 : 512);
    if (tot < 65536 && f->a != 32) le (b + 19, 2, tot); else le (b + 32, 4, tot);
    b[21] = 0xf8; if (f->a != 32) le (b + 22, 2, fat); le (b + 24, 2, 32); le (b + 26, 2, 64);
    if (f->a == 32) { le (b + 36, 4, fat); le (b + 44, 4, 2); le (b + 48, 2, 1); le (b + 50, 2, 6); b[66] = 0x29; memcpy (b + 71, "NO NAME    FAT32   ", 19); }
    else { b[36] = 0x80; b[38] = 0x29; memcpy (b + 43, "NO NAME    ", 11); memcpy (b + 54, f->a == 16 ? "FAT16   " : "FAT12   ", 8); }
    b[510] = 0x55; b[511] = 0xaa; pb (o, b, 512); return tot;
  }
  case F_NTFS:
    if (n < 16) return 0;
    memcpy (b, "\xeb\x52\x90NTFS    ", 11); le (b + 11, 2, ss); b[13] = 4096 / ss ? 4096 / ss : 1; b[21] = 0xf8; le (b + 40, 8, n - 1); le (b + 48, 8, 4); b[510] = 0x55; b[511] = 0xaa; pb (o, b, 512); return n - 1;
  case F_EXT: {
    L bs = f->b, blocks = bytes / bs, lg = bs == 1024 ? 0 : bs == 2048 ? 1 : 2; if (bs < ss || blocks < 64) return 0; if (blocks > 0xffffffffLL) blocks = 0xffffffffLL;
    le (b, 4, blocks / 4); le (b + 4, 4, blocks); le (b + 20, 4, bs == 1024); le (b + 24, 4, lg); le (b + 28, 4, lg); le (b + 32, 4, bs * 8); le (b + 36, 4, bs * 8); le (b + 40, 4, 2048); le (b + 56, 2, 0xef53); le (b + 58, 2, 1); le (b + 76, 4, 1); le (b + 84, 4, 11); le (b + 88, 2, 256);
    le (b + 92, 4, f->a > 2 ? 0x3c : 0x38); le (b + 96, 4, f->a == 4 ? 0x242 : 2); le (b + 100, 4, f->a == 4 ? 0x7b : 3);
    pb (o + 1024, b, 1024); return blocks * bs / ss;
  }
  case F_HFS: case F_HFSW: {
    if (ss != 512) return 0;
    L bs = f->kind == F_HFSW ? 4096 : f->a, start = 16, tb = (n - start - 2) * 512 / bs; if (tb < 16) return 0; if (tb > 65535) tb = 65535;
    L N = start + tb * bs / 512 + 2, slack = n - N < bs / 512 - 1 ? n - N : bs / 512 - 1; N += slack;
    be (b, 2, 0x4244); be (b + 14, 2, 3); be (b + 18, 2, tb); be (b + 20, 4, bs); be (b + 24, 4, bs); be (b + 28, 2, start); b[36] = 8; memcpy (b + 37, "Untitled", 8);
    if (f->kind == F_HFSW) { be (b + 124, 2, 0x482b); be (b + 126, 2, 2); be (b + 128, 2, tb - 2); }
    pb (o + 1024, b, 512); pb (o + (N - 2) * 512, b, 512); return N;
  }
  case F_HFSP: {
    if (ss != 512) return 0;
    L bs = f->b, tb = bytes / bs; if (tb < 16) return 0; if (tb > 0xffffffffLL) return 0;
    be (b, 2, f->a ? 0x4858 : 0x482b); be (b + 2, 2, 4 + f->a); be (b + 40, 4, bs); be (b + 44, 4, tb); be (b + 48, 4, tb / 2);
    pb (o + 1024, b, 512); pb (o + (n - 2) * 512, b, 512); return n;
  }
  case F_XFS: {
    L bs = f->a, blocks = bytes / bs; if (blocks < 4 || bs < ss) return 0;
    memcpy (b, "XFSB", 4); be (b + 4, 4, bs); be (b + 8, 8, blocks); be (b + 84, 4, blocks / 4); be (b + 88, 4, 4); be (b + 100, 2, 0xb4a4); be (b + 102, 2, ss); be (b + 104, 2, 512);
    pb (o, b, 512); return blocks * bs / ss;
  }
  case F_JFS: {
    L blocks = bytes / 4096; if (blocks < 20) return 0;
    memcpy (b, "JFS1", 4); le (b + 4, 4, 2); le (b + 8, 8, blocks * 8); le (b + 16, 4, 4096); le (b + 20, 2, 12); le (b + 22, 2, 3); le (b + 24, 4, 512); le (b + 28, 2, 9);
    pb (o + 32768, b, 512); return blocks * 4096 / ss;
  }
  case F_REISER: {
    L blocks = bytes / 4096; if (blocks < 32 || ss > 4096) return 0; if (blocks > 0xffffffffLL) blocks = 0xffffffffLL;
    le (b, 4, blocks); le (b + 4, 4, blocks / 2); le (b + 8, 4, 8211); le (b + 44, 2, 4096); le (b + 50, 2, 1); strcpy ((char *) b + 52, f->a == 0 ? "ReIsEr2Fs" : f->a == 1 ? "ReIsErFs" : "ReIsEr3Fs"); le (b + 68, 2, 4);
    pb (o + f->b, b, 512); return blocks * 4096 / ss;
  }
  case F_NILFS: {
    L n4 = bytes / 4096; if (n4 < 4 || ss > 4096) return 0;
    le (b, 4, 2); le (b + 6, 2, 0x3434); le (b + 8, 2, 280); le (b + 12, 4, 0x12345678); le (b + 20, 4, 2); le (b + 24, 8, n4 / 4); le (b + 32, 8, n4 * 4096); le (b + 40, 8, 1); le (b + 48, 4, 2048);
    le (b + 16, 4, 0); le (b + 16, 4, fsi_crc (0x12345678, b, 280)); pb (o + 1024, b, 1024); pb (o + (n4 - 1) * 4096, b, 1024); return n4 * 4096 / ss;
  }
  case F_SWAP: {
    L pages = bytes / 4096; if (pages < 10 || ss > 4096) return 0; if (pages > 0xffffffffLL) pages = 0xffffffffLL;
    if (f->a) { le (b + 1024, 4, 1); le (b + 1028, 4, pages - 1); memcpy (b + 1036, "0123456789abcdef", 16); }
    memcpy (b + 4086, f->a == 0 ? "SWAP-SPACE" : f->a == 1 ? "SWAPSPACE2" : "S1SUSPEND\0", 10); pb (o + 1024, b + 1024, 3072); return f->a == 1 ? pages * 4096 / ss : n;
  }
  case F_UFS: {
    static const uint32_t M[] = { 0x11954, 0x95014, 0x195612, 0x5231994 }; L fs = 1024; if (ss > fs) fs = ss; L fr = bytes / fs; if (fr < 128 || ss > 8192) return 0; if (fr > 0x7fffffff) fr = 0x7fffffff;
    void (*w) (uint8_t *, int, uint64_t) = f->a ? be : le;
    w (b + 8, 4, 16); w (b + 36, 4, fr); w (b + 40, 4, fr - 64); w (b + 44, 4, 1); w (b + 48, 4, 8192); w (b + 52, 4, fs); w (b + 56, 4, 8192 / fs); w (b + 1372, 4, M[f->b]);
    pb (o + 8192, b, 1536); return fr * fs / ss;
  }
  case F_UDF: {
    L bs = f->a, blocks = bytes / bs, v = bs > 2048 ? bs : 2048, anchor = f->b < 0 ? blocks + f->b : f->b; if (ss > bs || blocks < 600) return 0;
    static const char *const id[] = { "BEA01", "NSR02", "TEA01" }; for (int i = 0; i < 3; i++) { b[0] = 0; memcpy (b + 1, id[i], 5); b[6] = 1; pb (o + 32768 + i * v, b, 16); }
    memset (b, 0, 512); le (b, 2, 2); le (b + 2, 2, 2); le (b + 12, 4, anchor); pb (o + anchor * bs, b, 512); if (anchor > 0xffffffffLL) return 0;
    return n;
  }
  case F_BTRFS: if (bytes < 1 << 17) return 0; le (b + 48, 8, 65536); memcpy (b + 64, "_BHRfS_M", 8); le (b + 112, 8, bytes); pb (o + 65536, b, 512); return n;
  case F_F2FS: if (bytes < 1 << 20 || ss > 4096) return 0;
    le (b, 4, 0xf2f52010); le (b + 4, 2, 1); le (b + 8, 4, 9); le (b + 12, 4, 3); le (b + 16, 4, 12); le (b + 20, 4, 9); le (b + 36, 8, bytes / 4096); pb (o + 1024, b, 512); pb (o + 4096 + 1024, b, 512); return n;
  case F_AFFS: {
    if (ss != 512) return 0; L q = fsi_amiga_spb, nb = n / q, root = (nb - 1 + fsi_amiga_res) / 2; if (nb < 16) return 0;
    be (b, 4, (f->a & 0x100 ? 0x6d754600 : 0x444f5300) | (f->a & 255)); pb (o, b, 512); memset (b, 0, sizeof b);
    be (b, 4, 2); be (b + 12, 4, 72); be (b + q * 512 - 4, 4, 1); uint32_t sum = 0; for (int i = 0; i < q * 128; i++) sum += (uint32_t) b[4 * i] << 24 | b[4 * i + 1] << 16 | b[4 * i + 2] << 8 | b[4 * i + 3]; be (b + 20, 4, -sum);
    pb (o + root * q * 512, b, q * 512); return n;
  }
  case F_APFS: if (ss != 512 || n < 64) return 0; be (b, 4, 0x50463100 | f->a); pb (o, b, 512); pb (o + fsi_amiga_res * fsi_amiga_spb * 512, b, 512); return n;
  case F_ASFS: {
    if (ss != 512 || n < 64) return 0; L q = fsi_amiga_spb; if (n % q) return 0;
    for (int e = 0; e < 2; e++) {
      memset (b, 0, sizeof b); L blk = e ? n / q - 1 : 0; be (b, 4, 0x53465300); be (b + 8, 4, blk); be (b + 12, 2, 3); be (b + 32, 8, o); be (b + 40, 8, o + bytes); be (b + 48, 4, n / q); be (b + 52, 4, q * 512);
      uint32_t sum = 1; for (int i = 0; i < q * 128; i++) sum += (uint32_t) b[4 * i] << 24 | b[4 * i + 1] << 16 | b[4 * i + 2] << 8 | b[4 * i + 3]; be (b + 4, 4, -sum); pb (o + blk * q * 512, b, q * 512);
    }
    return n;
  }
  }
  return 0;
}
#endif
