/* P26 (transfers) and P18 (devices and sessions): the Linux back end's device
   layer on a stand-in kernel.  Every script of kernel results and user answers
   up to a bounded number of choices is run through the real code. */
#include "fakekernel.h"
#include "mc.h"
#include "architecture.h"
extern PedArchitecture ped_linux_arch;
static char lkey[40], lmsg[1500];
static void late (const char *k, const char *f, ...) { if (mc_is_known (k) || *lkey) return; va_list a; va_start (a, f); snprintf (lkey, 40, "%s", k); vsnprintf (lmsg, 1500, f, a); va_end (a); }
/* ---- choice scripts ---- */
#define MAXC 16
static int script[MAXC], width[MAXC], nscript, ncho, maxcho;
static int choose (int n) { if (ncho >= maxcho) { ncho++; return 0; } int i = ncho++; if (i >= nscript) { script[i] = 0; nscript = i + 1; } width[i] = n; return script[i]; }
static bool next_script (void) { int n = ncho < maxcho ? ncho : maxcho; nscript = n; while (nscript > 0) { if (++script[nscript - 1] < width[nscript - 1]) return true; nscript--; } return false; }
static char strace_[800]; static void tr (const char *f, ...) { va_list a; size_t n = strlen (strace_); if (n > 700) return; va_start (a, f); vsnprintf (strace_ + n, 800 - n, f, a); va_end (a); }
static int ans_choice (PedException *e)
{
  static const int all[] = { PED_EXCEPTION_CANCEL, PED_EXCEPTION_RETRY, PED_EXCEPTION_IGNORE };
  int av[4], n = 0; for (int i = 0; i < 3; i++) if (e->options & all[i]) av[n++] = all[i];
  if (!n) { tr (" [OK]"); return e->options & PED_EXCEPTION_OK ? PED_EXCEPTION_OK : PED_EXCEPTION_UNHANDLED; }
  av[n++] = PED_EXCEPTION_UNHANDLED;
  int k = choose (n); if (!(e->options & PED_EXCEPTION_CANCEL) && ncho > maxcho) k = n - 2 >= 0 ? n - 2 : 0; /* past the bound: leave the loop */
  tr (" [%s]", av[k] == PED_EXCEPTION_CANCEL ? "cancel" : av[k] == PED_EXCEPTION_RETRY ? "retry" : av[k] == PED_EXCEPTION_IGNORE ? "ignore" : "unhandled");
  return av[k];
}
/* ---- transfers ---- */
static L w0, wlen; static uint8_t *wdata; static bool *wset; static bool outside; static int nfail;
static uint8_t pat (L o) { return (uint8_t) ((o * 2654435761u >> 13) ^ (o >> 9) ^ (o >> 32)); }
static ssize_t part_of (size_t n, int c) { return c == 0 ? (ssize_t) n : c == 1 ? (n > 512 ? (ssize_t) ((n / 2 + 511) / 512 * 512) : (ssize_t) n) : c == 2 ? (n > 1 ? (ssize_t) (n / 2 | 1) : 1) : 0; }
static ssize_t io_read (int fd, void *b, size_t n)
{
  if (!n) return 0;
  int c = choose (5); if (c >= 3) nfail++;
  if (c == 4) { errno = EIO; tr (" read:EIO"); return -1; }
  ssize_t k = part_of (n, c); for (ssize_t i = 0; i < k; i++) ((uint8_t *) b)[i] = pat (ffd[fd].pos + i);
  tr (" read:%zd/%zu", k, n); return k;
}
static ssize_t io_write (int fd, const void *b, size_t n)
{
  if (!n) return 0;
  int c = choose (5); if (c >= 3) nfail++;
  if (c == 4) { errno = EIO; tr (" write:EIO"); return -1; }
  ssize_t k = part_of (n, c);
  for (ssize_t i = 0; i < k; i++) { L o = ffd[fd].pos + i - w0; if (o < 0 || o >= wlen) outside = true; else { wdata[o] = ((uint8_t *) b)[i]; wset[o] = true; } }
  tr (" write:%zd/%zu", k, n); return k;
}
static int io_seek (int fd, L pos) { (void) fd; if (choose (2)) { errno = EINVAL; nfail++; tr (" seek:EINVAL"); return -1; } tr (" seek:%lld", pos); return 0; }
static int io_fsync (int num) { if (choose (2)) { nfail++; tr (" fsync:EIO"); return EIO; } tr (" fsync:ok"); (void) num; return 0; }
static PedDevice *dev;
static void setup (int kind, L bytes)
{
  fk_setup (kind); if (bytes) fk.bytes = bytes; ped_architecture = &ped_linux_arch; ped_exception_set_handler (fk_handler); fk_answer = NULL;
  fk_read = NULL; fk_write = NULL; fk_seek = NULL; fk_openhook = NULL; fk_fsynchook = fk_closehook = NULL;
  *lkey = *strace_ = 0; dev = ped_device_get (fk.path); if (!dev) mc_fail ("open", "cannot use %s: %s", fk.path, nfexc ? fexc[0].msg : "");
}
static long nscripts;
static void begin_script (void) { ncho = 0; nfexc = 0; nfail = 0; *strace_ = 0; fk_badfd = 0; }
static int last_ans (void) { return nfexc ? fexc[nfexc - 1].ans : 0; }
static const int SS[] = { 512, 1024, 2048, 4096 }; static const int CNT[] = { 1, 2, 3, 8 };
static const L START[] = { 0, 5, (1LL << 31) - 1, (1LL << 32) + 3, (1LL << 50) + 1 };
static void transfer (int ss, int count, L start, bool write)
{
  setup (K_SD4, 0); dev->sector_size = fk.ss = ss; dev->length = start + count + 10; fk.bytes = dev->length * ss;
  if (!ped_device_open (dev)) mc_fail ("open", "open failed");
  size_t n = (size_t) count * ss; uint8_t *buf = malloc (n + 128); wlen = n + 2 * 8192; w0 = start * ss - 8192; wdata = malloc (wlen); wset = malloc (wlen); uint8_t *src = malloc (n);
  for (size_t i = 0; i < n; i++) src[i] = pat (start * ss + i) ^ 0x5a;
  fk_answer = ans_choice; nscript = 0; maxcho = mc_thorough ? 11 : 8;
  do {
    begin_script (); fk_read = io_read; fk_write = io_write; fk_seek = io_seek; outside = false; memset (wset, 0, wlen); memset (buf, 0xc3, n + 128); if (write) memcpy (buf + 64, src, n);
    int r = write ? ped_device_write (dev, buf + 64, start, count) : ped_device_read (dev, buf + 64, start, count);
    nscripts++;
    bool ign = false; for (int i = 0; i < nfexc; i++) ign |= fexc[i].ans == PED_EXCEPTION_IGNORE;
#define T "%s of %d sectors of %d bytes at %lld (kernel:%s) returned %d: "
#define TA write ? "writing" : "reading", count, ss, start, strace_, r
    if (fk_badfd) late ("bad-descriptor", T "bad descriptor", TA);
    if (nfail != nfexc) late ("failure-report", T "%d failing calls, %d reports", TA, nfail, nfexc);
    if (!r && !nfexc) late ("silent-failure", T "no report", TA);
    if (r && nfexc && last_ans () != PED_EXCEPTION_IGNORE && last_ans () != PED_EXCEPTION_RETRY) late ("answer", T "success after the answer was to give up", TA);
    if (!r && (last_ans () == PED_EXCEPTION_IGNORE || last_ans () == PED_EXCEPTION_RETRY)) late ("answer", T "failure after the answer was to go on", TA);
    for (int i = 0; i < 64; i++) if (buf[i] != 0xc3 || buf[n + 64 + i] != 0xc3) { late ("buffer", T "memory around the buffer was changed", TA); break; }
    if (write) {
      if (outside) late ("outside", T "bytes outside the request were written", TA);
      for (L i = 0; i < wlen; i++) { bool in = i >= 8192 && i < 8192 + (L) n; if (wset[i] && (!in || wdata[i] != src[i - 8192])) { late ("written-wrong", T "byte %lld of the device is wrong", TA, w0 + i); break; } if (in && !wset[i] && r && !ign) { late ("not-written", T "byte %lld was not written", TA, i - 8192); break; } }
      if (memcmp (buf + 64, src, n)) late ("source", T "the caller's buffer was changed", TA);
    } else for (size_t i = 0; i < n; i++) { if (buf[64 + i] == pat (start * ss + i)) continue; if (r && !ign) { late ("read-wrong", T "byte %zu is wrong", TA, i); break; } if (buf[64 + i] != 0xc3) { late ("read-garbage", T "byte %zu is neither old nor from the device", TA, i); break; } }
    mc_nontrivial (mc_hash (strace_, strlen (strace_), count * 8 + write * 4 + ss + start % 1000));
  } while (!*lkey && next_script ());
  fk_answer = NULL; fk_seek = NULL; fk_read = NULL; fk_write = NULL; free (buf); free (wdata); free (wset); free (src); ped_device_close (dev); char why[60]; if (fk_leaks (why)) late ("leak", "%s left open", why); ped_device_destroy (dev);
}
static L unsynced; static ssize_t cnt_write (int fd, const void *b, size_t n) { (void) b; if (ffd[fd].num == 0) unsynced = 1; return n; }
static void syncing (int kind, int op)
{
  setup (kind, 0); int max = fk.ext_range > 0 ? fk.ext_range - 1 : 20; L u = fk.ss / 512;
  int nums[3] = { 1, 2, max }; for (int i = 0; i < 3; i++) kp[nums[i]] = (KPart) { .present = true, .start = (64 + 8 * i) * u, .len = 8 * u, .mounted = i == 1, .busy = i == 1 };
  nscript = 0; maxcho = mc_thorough ? 12 : 9; void *b = calloc (1, fk.ss);
  do {
    if (!ped_device_open (dev)) mc_fail ("open", "open failed");
    begin_script (); nkop = 0; unsynced = 0; fk_write = cnt_write; if (!ped_device_write (dev, b, 3, 1)) mc_fail ("write", "write failed"); nkop = 0;
    fk_fsynchook = io_fsync; fk_answer = ans_choice;
    int r = op == 0 ? ped_device_sync (dev) : op == 1 ? ped_device_sync_fast (dev) : ped_device_close (dev);
    fk_fsynchook = NULL; fk_answer = NULL; nscripts++;
    bool ign = false; for (int i = 0; i < nfexc; i++) ign |= fexc[i].ans != PED_EXCEPTION_RETRY; bool synced = false; for (int i = 0; i < nkop; i++) synced |= kop[i].what == 'f' && kop[i].num == 0;
#define S "%s after a write (kernel:%s) returned %d: "
#define SA op == 0 ? "sync" : op == 1 ? "sync_fast" : "close", strace_, r
    if (nfail != nfexc) late ("failure-report", S "%d failing calls, %d reports", SA, nfail, nfexc);
    if (fk_badfd) late ("bad-descriptor", S "a closed descriptor was used", SA);
    if (r && !ign && !synced) late ("not-synced", S "the data were not flushed", SA);
    if (op < 2 && !r && !nfexc) late ("silent-failure", S "no report", SA);
    bool ign2 = false; for (int i = 0; i < nfexc; i++) ign2 |= fexc[i].ans == PED_EXCEPTION_IGNORE;
    if (op < 2 && r && nfexc && !synced && !ign2) late ("answer", S "success after giving up", SA);
    if (op < 2 && fk_openfds (-1) != 1) late ("leak", S "%d descriptors are open instead of 1", SA, fk_openfds (-1));
    if (op == 2 && fk_openfds (-1)) late ("leak", S "%d descriptors are left open", SA, fk_openfds (-1));
    if (op != 1 && (r || op == 2)) for (int i = 0; i < 3; i++) {
      bool fl = false, op_ = false; for (int j = 0; j < nkop; j++) { fl |= kop[j].num == nums[i] && kop[j].what == 'F'; op_ |= kop[j].num == nums[i] && kop[j].what == 'o'; }
      if (i != 1 && !fl) late ("partition-cache", S "the cache of partition %d was not flushed", SA, nums[i]);
      if (i == 1 && (fl || op_)) late ("mounted-touched", S "mounted partition %d was touched", SA, nums[i]);
    }
    mc_nontrivial (mc_hash (strace_, strlen (strace_), op + 77));
    if (op < 2) ped_device_close (dev);
    char why[60]; if (fk_leaks (why)) { late ("leak", S "%s left open", SA, why); for (int i = 0; i < FK_NFD; i++) ffd[i].used = false; }
  } while (!*lkey && next_script ());
  free (b); ped_device_destroy (dev);
}
/* ---- checking for bad sectors ---- */
static unsigned badmask; static L bstart, bend; static int bodd; static long nreads;
static ssize_t bad_read (int fd, void *b, size_t n)
{
  if (++nreads > 2000) { late ("endless", "reading does not end"); fk_read = NULL; errno = EIO; return -1; }
  L o = ffd[fd].pos, e = o + (L) n, s = o / fk.ss; if (o >= bend * fk.ss) return 0; if (e > bend * fk.ss) e = bend * fk.ss;
  for (L q = s; q * fk.ss < e; q++) if (q >= bstart && q < bstart + 8 && (badmask >> (q - bstart) & 1)) { if (q == s) { errno = EIO; return -1; } e = q * fk.ss; break; }
  n = e - o; if (bodd == 1 && n > 512) n = (n / 2 + 511) / 512 * 512; if (bodd == 2 && n > 1) n = n / 2 | 1;
  for (size_t i = 0; i < n; i++) ((uint8_t *) b)[i] = pat (o + i);
  return n;
}
static void checking (int ss, int count)
{
  setup (K_SD4, 0); dev->sector_size = fk.ss = ss; static const L st[] = { 0, 7, (1LL << 32) + 1 };
  for (int si = 0; si < 3; si++) for (int eof = 0; eof <= count; eof++) {
    bstart = st[si]; bend = bstart + count - eof; dev->length = bstart + count; fk.bytes = dev->length * ss; if (!ped_device_open (dev)) mc_fail ("open", "open failed");
    uint8_t *buf = malloc (count * ss);
    for (badmask = 0; badmask < 1u << count; badmask++) for (bodd = 0; bodd < 3; bodd++) {
      L exp = count - eof; for (int i = 0; i < count; i++) if (badmask >> i & 1) { if (i < exp) exp = i; break; }
      nreads = 0; nfexc = 0; fk_read = bad_read; L got = ped_device_check (dev, buf, bstart, count); fk_read = NULL; nscripts++;
      if (got != exp) late ("check", "checking %d sectors of %d bytes at %lld, bad sectors %#x, device ends after %d, short reads %d: %lld are good, not %lld", count, ss, bstart, badmask, count - eof, bodd, exp, got);
      mc_nontrivial (badmask * 64 + bodd * 16 + count + ss * 100000 + eof * 1000000);
    }
    free (buf); ped_device_close (dev);
  }
  ped_device_destroy (dev);
}
/* ---- sessions ---- */
enum { O_OPEN_, O_CLOSE_, O_BEGIN, O_END, O_WRITE_, O_READ_, O_SYNC_, O_FAST, O_GET, O_NOPS };
static const char *opn[] = { "open", "close", "begin_external", "end_external", "write", "read", "sync", "sync_fast", "get" };
static int seq[10], nseq; static int rovar; /* 0 normal, 1 read-write opening refused, 2 refused at first */
static int nopen; static int ro_hook (int num, int flags) { if (num) return 0; nopen++; if ((flags & O_ACCMODE) != O_RDWR) return 0; return rovar == 1 || (rovar == 2 && nopen <= 1) ? EROFS : 0; }
static int retries; static int ans_sess; static int sess_answer (PedException *e) { if ((e->options & ans_sess) && (ans_sess != PED_EXCEPTION_RETRY || retries++ < 3)) return ans_sess; return e->options & PED_EXCEPTION_CANCEL ? PED_EXCEPTION_CANCEL : e->options & PED_EXCEPTION_IGNORE ? PED_EXCEPTION_IGNORE : e->options & PED_EXCEPTION_OK ? PED_EXCEPTION_OK : PED_EXCEPTION_UNHANDLED; }
static void seqstr (char *o) { *o = 0; for (int i = 0; i < nseq; i++) o += sprintf (o, "%s%s", i ? ", " : "", opn[seq[i]]); }
static long sess_calls;
static void session (bool faulty)
{
  int oc = 0; bool ext = false, broken = false, ro = false; char sq[200]; void *b = calloc (1, 4096); seqstr (sq);
  nkop = 0; nfexc = 0; fk_badfd = 0; nopen = 0; dev->read_only = 0; retries = 0; unsynced = 0; fk_calls = 0; fk_fired = false; fk_write = cnt_write; fk_openhook = rovar ? ro_hook : NULL; fk_answer = sess_answer; nscripts++;
#define Q "after %s (step %d%s%s%s): "
#define QA sq, i + 1, rovar ? ", read-only" : "", fk_fired ? ", failing call: " : "", fk_fired ? fk_what : ""
  for (int i = 0; i < nseq + 8; i++) {
    int o = i < nseq ? seq[i] : ext ? O_END : oc ? O_CLOSE_ : -1; if (o < 0) break; if (o != O_OPEN_ && o != O_GET && o != O_BEGIN && o != O_END && (!oc || ext)) continue;
    int e0 = nfexc, k0 = nkop; long bad0 = fk_badfd; int r = 1; bool wasopen = oc && !ext && !broken; bool dirty = unsynced; (void) dirty; (void) wasopen;
    switch (o) {
    case O_OPEN_: r = ped_device_open (dev); if (r) { if (!oc) broken = false; oc++; } else if (!faulty) late ("open", Q "open failed", QA); break;
    case O_CLOSE_: r = ped_device_close (dev); oc--; break;
    case O_BEGIN: r = ped_device_begin_external_access (dev); ext = true; break;
    case O_END: r = ped_device_end_external_access (dev); ext = false; if (!r && oc) broken = true; else broken = false; break;
    case O_WRITE_: r = ped_device_write (dev, b, 3, 1); if (!broken) { if (dev->read_only) { if (r && e0 == nfexc) late ("read-only-write", Q "writing to a read-only device succeeded", QA); } else if (!r) late ("write", Q "write failed: %s", QA, nfexc ? fexc[nfexc - 1].msg : ""); } break;
    case O_READ_: r = ped_device_read (dev, b, 3, 1); if (!r && !broken) late ("read", Q "read failed", QA); break;
    case O_SYNC_: r = ped_device_sync (dev); break;
    case O_FAST: r = ped_device_sync_fast (dev); break;
    case O_GET: if (ped_device_get (fk.path) != dev) late ("get", Q "another device object was made", QA); break;
    }
    if (ro != (dev->read_only != 0)) ro = dev->read_only;
    if (broken) { fk_badfd = bad0; if (dev->open_count != oc) late ("count", Q "open_count is %d, not %d", QA, dev->open_count, oc); if (!oc) broken = false; continue; }
    int fds = fk_openfds (0), want = oc && !ext;
    if (fds != want) late ("descriptors", Q "%d descriptors of the device are open, not %d", QA, fds, want);
    if (fk_openfds (-1) != fds) late ("leak", Q "descriptors of partitions are left open", QA);
    if (fk_badfd != bad0) late ("bad-descriptor", Q "a closed descriptor was used", QA);
    if (dev->open_count != oc || !!dev->external_mode != ext) late ("count", Q "open_count is %d, not %d", QA, dev->open_count, oc);
    if (!r && nfexc == e0) late ("silent-failure", Q "%s failed without a report", QA, opn[o]);
    if (!faulty && rovar == 0 && nfexc) late ("report", Q "something was reported: %s", QA, fexc[0].msg);
    for (int k = k0; k < nkop; k++) if (kop[k].what == 'f' && kop[k].num == 0) unsynced = 0;
    if ((o == O_SYNC_ || o == O_FAST) && r && nfexc == e0 && unsynced) late ("not-synced", Q "%s left data behind", QA, opn[o]);
    if ((o == O_CLOSE_ || o == O_BEGIN) && wasopen && !want && nfexc == e0 && unsynced) late ("not-synced", Q "%s left data behind", QA, opn[o]);
    if (want && fds == 1) for (int f = 0; f < FK_NFD; f++) if (ffd[f].used && !ffd[f].num && (dev->read_only != 0) != ((ffd[f].mode & O_ACCMODE) == O_RDONLY)) late ("read-only", Q "open for %s, but marked %s", QA, dev->read_only ? "writing too" : "reading only", dev->read_only ? "read-only" : "writable");
    if (rovar == 1 && want && !ro) late ("read-only", Q "the device is not marked read-only", QA);
    if ((rovar == 0 && !faulty) && ro) late ("read-only", Q "the device is marked read-only", QA);
    if (rovar == 1) for (int k = 0; k < nkop; k++) if (kop[k].what == 'o' && kop[k].num == 0) late ("read-only", Q "the device was opened for writing", QA);
  }
  sess_calls = fk_calls; free (b);
  char why[60]; if (fk_leaks (why)) { int i = nseq; late ("leak", Q "%s left open", QA, why); }
  for (int i = 0; i < FK_NFD; i++) ffd[i].used = false; dev->open_count = 0; dev->external_mode = 0; dev->dirty = 0; fk_openhook = NULL; fk_answer = NULL; fk_fail_at = 0;
}
static void all_sequences (int depth, int oc, bool ext, bool faults)
{
  if (*lkey) return;
  if (nseq) {
    for (rovar = 0; rovar < 3; rovar++) { if (faults && rovar == 1) continue; fk_mask = C_OPEN | C_FSYNC | C_CLOSE; fk_fail_at = 0; ans_sess = PED_EXCEPTION_CANCEL; session (false); long c = sess_calls;
      char s[200]; seqstr (s); mc_nontrivial (mc_hash (s, strlen (s), rovar));
      if (faults) for (long k = 1; k <= c && !*lkey; k++) for (int sticky = 0; sticky < 2; sticky++) for (int a = 0; a < 3; a++) {
        fk_fail_at = k; fk_sticky = sticky; fk_fail_errno = EIO; ans_sess = a == 0 ? PED_EXCEPTION_CANCEL : a == 1 ? PED_EXCEPTION_RETRY : PED_EXCEPTION_IGNORE; session (true); fk_sticky = false; fk_fail_at = 0; } }
  }
  if (nseq == depth) return;
  for (int o = 0; o < O_NOPS; o++) {
    if (o == O_OPEN_ ? ext || oc >= 3 : o == O_BEGIN ? ext : o == O_END ? !ext : o == O_GET ? nseq && seq[nseq - 1] == O_GET : ext || !oc) continue;
    if (nseq && (o == O_READ_ || o == O_FAST) && seq[nseq - 1] == o) continue;
    seq[nseq++] = o; all_sequences (depth, oc + (o == O_OPEN_) - (o == O_CLOSE_), o == O_BEGIN ? true : o == O_END ? false : ext, faults); nseq--;
  }
}
static void sessions (int kind, int first, int second, bool faults)
{
  setup (kind, 0); L u = fk.ss / 512; for (int i = 1; i <= 2; i++) kp[i] = (KPart) { .present = true, .start = (64 + 8 * i) * u, .len = 8 * u, .mounted = i == 1, .busy = i == 1 };
  int oc = 0; bool ext = false; nseq = 0; int f[2] = { first, second };
  for (int i = 0; i < 2; i++) { int o = f[i]; if (o == O_OPEN_ ? ext : o == O_BEGIN ? ext : o == O_END ? !ext : o == O_GET ? 0 : ext || !oc) { ped_device_destroy (dev); return; } seq[nseq++] = o; oc += (o == O_OPEN_) - (o == O_CLOSE_); ext = o == O_BEGIN ? true : o == O_END ? false : ext; }
  all_sequences (faults ? (mc_thorough ? 5 : 4) : (mc_thorough ? 8 : 7), oc, ext, faults);
  ped_device_destroy (dev); if (fk_nprobes) late ("leak", "a blkid probe is left");
}
/* ---- what a device is said to be ---- */
static const struct { const char *path, *base, *sep; int major, minor, type; } KINDS[] = {
  { "/dev/sdx", "sdx", "", 8, 0x20, PED_DEVICE_SCSI }, { "/dev/hdx", "hdx", "", 22, 0x40, PED_DEVICE_IDE }, { "/dev/rd/c0d0", "c0d0", "p", 48, 8, PED_DEVICE_DAC960 }, { "/dev/ida/c0d0", "c0d0", "p", 72, 16, PED_DEVICE_CPQARRAY },
  { "/fake/disk.img", "disk.img", "", 0, 0, PED_DEVICE_FILE }, { "/dev/ataraid/d0", "d0", "p", 114, 16, PED_DEVICE_ATARAID }, { "/dev/i2o/hda", "hda", "", 80, 16, PED_DEVICE_I2O }, { "/dev/ubda", "ubda", "", 98, 16, PED_DEVICE_UBD },
  { "/dev/iseries/vda", "vda", "", 112, 8, PED_DEVICE_VIODASD }, { "/dev/sx8/0", "0", "p", 160, 32, PED_DEVICE_SX8 }, { "/dev/mapper/vol", "vol", "", 253, 3, PED_DEVICE_DM }, { "/dev/mapper/vol0", "vol0", "p", 253, 3, PED_DEVICE_DM }, { "/dev/xvdx", "xvdx", "", 202, 16, PED_DEVICE_XVD },
  { "/dev/mmcblk7", "mmcblk7", "p", 179, 8, PED_DEVICE_SDMMC }, { "/dev/vdx", "vdx", "", 252, 16, PED_DEVICE_VIRTBLK }, { "/dev/etherd/e0.0", "e0.0", "p", 152, 16, PED_DEVICE_AOE }, { "/dev/md77", "md77", "p", 9, 77, PED_DEVICE_MD },
  { "/dev/loop77", "loop77", "p", 7, 77, PED_DEVICE_LOOP }, { "/dev/nvme7n1", "nvme7n1", "p", 259, 5, PED_DEVICE_NVME }, { "/dev/ram7", "ram7", "p", 1, 7, PED_DEVICE_RAM }, { "/dev/pmem7", "pmem7", "p", 259, 5, PED_DEVICE_PMEM }, { "/dev/weird", "weird", "", 200, 0, PED_DEVICE_UNKNOWN } };
#define NK (int) (sizeof KINDS / sizeof KINDS[0])
static const struct { int ss, phys; L bytes; bool idlun, ssz, gs64, geo, topo, sysfs; int ident; } VAR[] = {
  { 512, 512, 1 << 20, 0, 0, 0, 1, 1, 1, 0 }, { 512, 4096, 8LL << 30, 0, 0, 0, 0, 1, 1, 2 }, { 4096, 4096, 64 << 20, 0, 0, 0, 0, 1, 0, 1 }, { 2048, 2048, 700 << 20, 0, 0, 1, 1, 1, 1, 0 }, { 512, 0, 1 << 20, 0, 0, 0, 1, 1, 1, 3 },
  { 512, 512, 1 << 20, 0, 0, 1, 0, 0, 1, 0 }, { 4096, 4096, 3LL << 43, 0, 0, 0, 1, 1, 1, 2 }, { 512, 512, 1 << 20, 0, 1, 0, 1, 1, 0, 0 }, { 512, 512, (1LL << 41) + 512, 1, 0, 0, 1, 1, 0, 0 },
  { 512, 512, 0, 0, 0, 0, 1, 1, 1, 0 }, { 512, 512, 511, 0, 0, 1, 0, 1, 0, 0 }, { 4096, 4096, 3584, 0, 0, 0, 1, 1, 1, 0 } };   /* less than a sector */
#define NV (int) (sizeof VAR / sizeof VAR[0])
static void describe_device (int k, int v)
{
  setup (K_SD, 0); ped_device_destroy (dev); *lkey = 0;
  fk_kernel_clear (); fk.path = KINDS[k].path; fk.base = KINDS[k].base; fk.sep = KINDS[k].sep; fk.major = KINDS[k].major; fk.minor = KINDS[k].minor; fk.file = KINDS[k].type == PED_DEVICE_FILE; fk.dm = KINDS[k].type == PED_DEVICE_DM; fk.dmtype = "linear";
  if (fk.dm && v == 4) fk.dmtype = NULL;
  fk.ss = VAR[v].ss; fk.phys = VAR[v].phys; fk.bytes = VAR[v].bytes; fk.idlun_fails = VAR[v].idlun; fk.blksszget_fails = VAR[v].ssz; fk.getsize64_fails = VAR[v].gs64; fk.hdgeo = VAR[v].geo; fk.topo = VAR[v].topo; fk.sysfs = VAR[v].sysfs; fk.ident = VAR[v].ident;
  if (fk.file) fk.ss = fk.phys = 512;
  static const int A[] = { PED_EXCEPTION_CANCEL, PED_EXCEPTION_IGNORE, PED_EXCEPTION_RETRY };
  long calls = 0;
  for (int a = 0; a < 3; a++) for (long f = 0; f <= calls && !*lkey; f++) for (int sticky = 0; sticky <= (f > 0); sticky++) {
    fk_reset_history (); fk_mask = -1; fk_fail_at = f; fk_fail_errno = EIO; fk_sticky = sticky; ans_sess = A[a]; retries = 0; fk_answer = sess_answer; int exc0 = nfexc; nscripts++;
    PedDevice *d = ped_device_get (fk.path); fk_fail_at = 0; fk_sticky = false;
    if (!f) calls = fk_calls;
#define D "%s (variant %d, answer %s%s%s): "
#define DA fk.path, v, a == 0 ? "cancel" : a == 1 ? "ignore" : "retry", fk_fired ? ", failing call: " : "", fk_fired ? fk_what : ""
    if (fk_badfd) late ("bad-descriptor", D "a bad descriptor was used", DA);
    char why[60]; if (fk_leaks (why)) { late ("leak", D "%s left open", DA, why); for (int i = 0; i < FK_NFD; i++) ffd[i].used = false; fk_ntasks = 0; }
    if (!d) { if (nfexc == exc0) late ("silent-failure", D "the device cannot be used, and nothing was reported", DA); if (!f && !VAR[v].idlun && fk.bytes >= fk.ss && !(KINDS[k].type == PED_DEVICE_IDE && (VAR[v].ident & 1))) late ("refused", D "refused: %s", DA, nfexc ? fexc[0].msg : ""); if (fk_nprobes) { late ("leak", D "a probe is left", DA); fk_nprobes = 0; } continue; }
    if ((int) d->type != KINDS[k].type && !fk_fired) late ("type", D "type %d, not %d", DA, d->type, KINDS[k].type);
    bool told = nfexc > exc0 || fk_fired || fk.blksszget_fails; (void) exc0;
    if (d->sector_size < 512 || d->sector_size % 512) late ("sector-size", D "sector size %lld", DA, d->sector_size);
    else {
      if (d->sector_size != fk.ss && !told) late ("sector-size", D "sector size %lld, not %d", DA, d->sector_size, fk.ss);
      if (d->length != fk.bytes / d->sector_size) late ("length", D "%lld sectors of %lld bytes, but the device has %lld bytes", DA, d->length, d->sector_size, fk.bytes);
    }
    if (d->phys_sector_size < d->sector_size || (fk.topo && fk.phys && d->phys_sector_size != fk.phys && !told)) late ("phys-sector-size", D "physical sector size %lld", DA, d->phys_sector_size);
    if (!fk_fired && (KINDS[k].type == PED_DEVICE_SCSI || KINDS[k].type == PED_DEVICE_IDE) && VAR[v].topo && !VAR[v].phys && !told) late ("phys-sector-size", D "unknown physical sector size not reported", DA);
    if (d->bios_geom.heads <= 0 || d->bios_geom.sectors <= 0 || (L) d->bios_geom.cylinders != d->length / d->bios_geom.heads / d->bios_geom.sectors) { if (d->length / 255 / 2 < 1LL << 31) late ("geometry", D "geometry %d/%d/%d for %lld sectors", DA, d->bios_geom.cylinders, d->bios_geom.heads, d->bios_geom.sectors, d->length); }
    if (!d->model) late ("model", D "no model", DA); else { if (!fk_fired && KINDS[k].type == PED_DEVICE_SCSI && fk.sysfs && !fk.idlun_fails && strcmp (d->model, "ACME Disk Model 1")) late ("model", D "model \"%s\"", DA, d->model); if (!fk_fired && KINDS[k].type == PED_DEVICE_NVME && fk.sysfs && strcmp (d->model, "Disk Model 1")) late ("model", D "model \"%s\"", DA, d->model); if (strlen (d->model) > 1000) abort (); }
    if (strcmp (d->path, fk.path)) late ("path", D "path %s", DA, d->path);
    if (d->open_count || d->external_mode || d->dirty) late ("state", D "the new device is not closed", DA);
    if (ped_device_get (fk.path) != d) late ("get", D "another device object was made", DA);
    fk_mask = 0; ped_device_destroy (d); if (fk_nprobes) { late ("leak", D "a probe is left", DA); fk_nprobes = 0; }
    mc_nontrivial (f * 1000000 + k * 1000 + v * 10 + a + sticky * 500);
  }
  fk_answer = NULL; fk_mask = -1;
}
static void topology (int kind)
{
  static const unsigned long IO[] = { 0, 512, 4096, 8192, 32768, 65536, 1048576, 1572864, 2097152, 33553920 }; static const unsigned long OFF[] = { 0, 512, 3584, 4096 };
  setup (kind, 0);
  for (int m = 0; m < 10; m++) for (int o = 0; o < 10; o++) for (int f = 0; f < 4; f++) for (int t = 0; t < 2; t++) for (int ph = 512; ph <= 4096; ph *= 8) {
    if (IO[m] && IO[m] < (unsigned) fk.ss) continue; if (IO[o] && IO[o] < (unsigned) fk.ss) continue; if (OFF[f] % fk.ss) continue; if (ph < fk.ss) continue;
    ped_device_destroy (dev); fk.io_min = IO[m]; fk.io_opt = IO[o]; fk.io_off = OFF[f]; fk.topo = t; fk.phys = ph; dev = ped_device_get (fk.path); nscripts++; if (!dev) mc_fail ("open", "open failed");
    PedAlignment *mi = ped_device_get_minimum_alignment (dev), *op = ped_device_get_optimum_alignment (dev); L ss = fk.ss, mib = 1048576;
    L off = t ? OFF[f] / ss : 0, gm = !t ? ph / ss : IO[m] ? (L) IO[m] / ss : ph / ss, go;
    if (!t) gm = 1;  /* the physical sector size is unknown too */
    if (!t) go = mib / ss; else if ((!IO[o] || mib % IO[o] == 0) && (!IO[m] || mib % IO[m] == 0)) go = mib / ss; else go = IO[o] ? (L) IO[o] / ss : gm;
    if (!mi || !op || mi->grain_size != gm || mi->offset != off % gm || op->grain_size != go || op->offset != off % go) late ("alignment", "minimum I/O %lu, optimal I/O %lu, offset %lu, physical sector %d%s: minimum alignment %lld+%lld (expected %lld+%lld), optimal %lld+%lld (expected %lld+%lld)", IO[m], IO[o], OFF[f], ph, t ? "" : ", no topology", mi ? mi->offset : -1, mi ? mi->grain_size : -1, off % gm, gm, op ? op->offset : -1, op ? op->grain_size : -1, off % go, go);
    if (mi) ped_alignment_destroy (mi); if (op) ped_alignment_destroy (op); mc_nontrivial (m * 10000 + o * 1000 + f * 100 + t * 10 + (ph > 512));
  }
  ped_device_destroy (dev);
}
/* ---- probing ---- */
static void probing (int k)
{
  setup (K_SD, 0); ped_device_destroy (dev); fk_kernel_clear (); fk.path = KINDS[k].path; fk.base = KINDS[k].base; fk.sep = KINDS[k].sep; fk.major = KINDS[k].major; fk.minor = KINDS[k].minor; fk.file = KINDS[k].type == PED_DEVICE_FILE; fk.dm = KINDS[k].type == PED_DEVICE_DM; fk.dmtype = "linear";
  kp[1] = (KPart) { .present = true, .start = 64, .len = 8 }; char p1[80], ent[80], ent1[80];
  for (int raid = 0; raid < 2; raid++) {
    memset (fk_dirs, 0, sizeof fk_dirs); int n = 0; fk.dmuuid = raid ? "DMRAID-abc" : "LVM-abc";
    fk_dirs[n][0] = "/sys/block"; fk_dirs[n++][1] = "."; fk_dirs[n][0] = "/sys/block"; fk_dirs[n++][1] = "..";
    bool expect = false;
    if (fk.dm) { snprintf (p1, 80, "%s%s1", fk.base, fk.sep); fk_dirs[n][0] = "/dev/mapper"; fk_dirs[n++][1] = "."; fk_dirs[n][0] = "/dev/mapper"; fk_dirs[n++][1] = "control"; fk_dirs[n][0] = "/dev/mapper"; fk_dirs[n++][1] = fk.base; fk_dirs[n][0] = "/dev/mapper"; fk_dirs[n++][1] = p1; expect = raid; fk_dirs[n][0] = "/sys/block"; fk_dirs[n++][1] = "dm-0"; }
    else if (!fk.file) { snprintf (ent, 80, "%s", fk.path + 5); for (char *c = ent; *c; c++) if (*c == '/') *c = '!'; snprintf (ent1, 80, "%s", ent); fk_dirs[n][0] = "/sys/block"; fk_dirs[n++][1] = ent1; expect = KINDS[k].type != PED_DEVICE_LOOP && KINDS[k].type != PED_DEVICE_RAM; }
    fk_dirs[n][0] = "/sys/block"; fk_dirs[n++][1] = "sdq";                          /* no such device */
    fk_reset_history (); fk_mask = 0; ped_device_probe_all (); nscripts++;
    int found = 0, other = 0; for (PedDevice *d = NULL; (d = ped_device_get_next (d)); ) if (!strcmp (d->path, fk.path)) found++; else other++;
    if (found != expect || other) late ("probe", "probing with %s%s present finds it %d times (expected %d) and %d others", fk.path, fk.dm && raid ? " (dmraid)" : "", found, expect, other);
    if (nfexc) late ("probe-report", "probing with %s present reports: %s", fk.path, fexc[0].msg);
    char why[60]; if (fk_leaks (why)) late ("leak", "probing with %s present: %s left open", fk.path, why);
    ped_device_free_all ();
    mc_nontrivial (k * 2 + raid + 5000000);
  }
  memset (fk_dirs, 0, sizeof fk_dirs); fk_mask = -1;
}
/* ---- items ---- */
enum { I_TRANSFER, I_SYNC, I_CHECK, I_SESSION, I_SESSION_F, I_DESC, I_TOPO, I_PROBE }; static const char *iname[] = { "transfer", "sync", "check", "session", "session with a fault", "device", "topology", "probing" };
typedef struct { int what, a, b, c, d; } Item; static Item *it; static long nit;
static void add (int w, int a, int b, int c, int d) { if (!(nit & 255)) it = realloc (it, (nit + 256) * sizeof *it); it[nit++] = (Item) { w, a, b, c, d }; }
static void run (long i)
{
  Item *x = &it[i]; nscripts = 0; fk_mask = -1; fk_fail_at = 0; fk_sticky = false;
  switch (x->what) {
  case I_TRANSFER: transfer (SS[x->a], CNT[x->b], START[x->c], x->d); break;
  case I_SYNC: syncing (x->a, x->b); break;
  case I_CHECK: checking (SS[x->a], x->b); break;
  case I_SESSION: sessions (x->a, x->b, x->c, false); break;
  case I_SESSION_F: sessions (x->a, x->b, x->c, true); break;
  case I_DESC: describe_device (x->a, x->b); break;
  case I_TOPO: topology (x->a); break;
  case I_PROBE: probing (x->a); break;
  }
  mc_count ("scripts", nscripts);
  if (*lkey) mc_fail (lkey, "%s", lmsg);
}
static void describe (long i, FILE *f) { fprintf (f, "%s %d %d %d %d", iname[it[i].what], it[i].a, it[i].b, it[i].c, it[i].d); }
int main (int argc, char **argv)
{
  const char *opt = "io"; for (int i = 1; i < argc; i++) { if (!strcmp (argv[i], "--thorough")) mc_thorough = 1; if (!strcmp (argv[i], "--opt") && i + 1 < argc) opt = argv[i + 1]; }
  if (!strcmp (opt, "io")) {
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int c = 0; c < 5; c++) for (int d = 0; d < 2; d++) add (I_TRANSFER, a, b, c, d);
    for (int k = 0; k < NKIND; k++) for (int o = 0; o < 3; o++) add (I_SYNC, k, o, 0, 0);
    for (int a = 0; a < 4; a++) for (int c = 1; c <= 8; c++) add (I_CHECK, a, c, 0, 0);
  } else {
    for (int k = 0; k < NK; k++) for (int v = 0; v < NV; v++) add (I_DESC, k, v, 0, 0);
    for (int k = 0; k < NKIND; k++) add (I_TOPO, k, 0, 0, 0);
    for (int k = 0; k < NK; k++) add (I_PROBE, k, 0, 0, 0);
    for (int k = 0; k < NKIND; k++) for (int a = 0; a < O_NOPS; a++) for (int b = 0; b < O_NOPS; b++) { if (k == K_SD || k == K_DM || mc_thorough) add (I_SESSION_F, k, a, b, 0); if (k == K_SD || k == K_CCISS || mc_thorough) add (I_SESSION, k, a, b, 0); }
  }
  mc_init ();
  McSweep s = { .prop = !strcmp (opt, "io") ? "P26" : "P18", .n = nit, .run = run, .describe = describe };
  return mc_sweep (&s, argc, argv);
}
