/* P20: exceptions are delivered; P27: progress is reported (--opt exc, timer) */
#include <config.h>
#include "mc.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
typedef long long L;
#define N(a) ((int) (sizeof (a) / sizeof *(a)))
static char hist[600];
static void say (const char *f, ...) { size_t n = strlen (hist); va_list a; va_start (a, f); vsnprintf (hist + n, sizeof hist - n, f, a); va_end (a); }

/* ---------- exceptions ---------- */
/* what the library says goes to a file while a case runs */
static int cap = -1, olderr = -1;
static void cap_on (void) { if (cap < 0) cap = memfd_create ("err", 0); fflush (stderr); olderr = dup (2); dup2 (cap, 2); }
static void cap_clear (void) { fflush (stderr); (void) !ftruncate (cap, 0); lseek (cap, 0, SEEK_SET); }
static int cap_get (char *b, int n) { fflush (stderr); L m = pread (cap, b, n - 1, 0); b[m < 0 ? 0 : m] = 0; return m; }
static void cap_off (void) { if (olderr < 0) return; fflush (stderr); dup2 (olderr, 2); close (olderr); olderr = -1; }
#define BAD(k, ...) do { cap_off (); bad (k, __VA_ARGS__); } while (0)
static void bad (const char *k, const char *f, ...) { char b[900]; va_list a; va_start (a, f); vsnprintf (b, sizeof b, f, a); va_end (a); mc_fail (k, "%s:%s", b, hist); }

static struct { int calls, who, type, opts, flag; char msg[4200]; bool null; } seen;
static PedExceptionOption note (int who, PedException *e)
{
  seen.calls++; seen.who = who; seen.type = e->type; seen.opts = e->options; seen.flag = ped_exception; seen.null = !e->message;
  snprintf (seen.msg, sizeof seen.msg, "%s", e->message ? e->message : "");
  return who == 1 ? e->options & -e->options : who == 2 ? PED_EXCEPTION_UNHANDLED : e->options ? 1u << (31 - __builtin_clz (e->options)) : 0;
}
static PedExceptionOption h1 (PedException *e) { return note (1, e); }
static PedExceptionOption h2 (PedException *e) { return note (2, e); }
static PedExceptionOption h3 (PedException *e) { return note (3, e); }
static PedExceptionHandler *const hs[] = { NULL, h1, h2, h3 };
static const char *const tn[] = { "", "Information", "Warning", "Error", "Fatal", "Bug", "No Implementation" };
static const char *const optn[] = { "Fix", "Yes", "No", "OK", "Retry", "Ignore", "Cancel" };
typedef struct { int type, opts; const char *fmt, *arg; int len; } Th;
static Th th[] = {
  { PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL, "e %s", "abc" },
  { PED_EXCEPTION_WARNING, PED_EXCEPTION_IGNORE_CANCEL, "%s", NULL, 1500 },
  { PED_EXCEPTION_INFORMATION, PED_EXCEPTION_OK, "i", "" },
  { PED_EXCEPTION_BUG, PED_EXCEPTION_IGNORE, "%s", NULL, 999 },
};
static char longmsg[5000];
static PedExceptionHandler *dflt;
enum { O_THROW, O_FETCH = N (th), O_LEAVE, O_CATCH, O_RETHROW, O_H1, O_H2, O_H0, NOP };
static const char *const opn[] = { "fetch", "leave", "catch", "rethrow", "handler 1", "handler 2", "default handler" };
static struct { int level, h; bool pend; int what; } md;
static void msg_of (int t, char *b) { if (th[t].arg) snprintf (b, 4200, th[t].fmt, th[t].arg); else { memcpy (b, longmsg, th[t].len); b[th[t].len] = 0; } }
static int dothrow (int t) { if (!th[t].arg) { longmsg[th[t].len] = 0; int r = ped_exception_throw (th[t].type, th[t].opts, th[t].fmt, longmsg); longmsg[th[t].len] = 'a' + th[t].len % 26; return r; } return ped_exception_throw (th[t].type, th[t].opts, th[t].fmt, th[t].arg); }
/* what a throw, or the repetition of one, has to do */
static void delivered (int r, int t)
{
  static char m[4200], out[9000]; msg_of (t, m);
  if (md.level) {
    if (seen.calls) BAD ("fetched", "a handler is called while exceptions are fetched");
    if (r != PED_EXCEPTION_UNHANDLED) BAD ("fetched", "a fetched exception is answered with %x", r);
    md.pend = true; md.what = t; return;
  }
  md.pend = false;
  int o = th[t].opts;
  if (md.h) {
    int want = md.h == 1 ? o & -o : md.h == 2 ? PED_EXCEPTION_UNHANDLED : o ? 1 << (31 - __builtin_clz (o)) : 0;
    if (seen.calls != 1 || seen.who != md.h) BAD ("handler", "the handler is called %d times (handler %d)", seen.calls, seen.who);
    if (seen.type != th[t].type || seen.opts != o || strcmp (seen.msg, m)) BAD ("contents", "the handler is told type %d, options %x, '%.80s' (%zd characters), not %d, %x, '%.80s' (%zd)", seen.type, seen.opts, seen.msg, strlen (seen.msg), th[t].type, o, m, strlen (m));
    if (!seen.flag) BAD ("flag", "no exception is pending while the handler runs");
    if (r != want) BAD ("answer", "the handler answers %x, the thrower gets %x", want, r);
  } else {
    int want = o == PED_EXCEPTION_OK || o == PED_EXCEPTION_CANCEL || o == PED_EXCEPTION_IGNORE ? o : PED_EXCEPTION_UNHANDLED;
    if (seen.calls) BAD ("handler", "a handler that is not set is called");
    if (r != want) BAD ("default-answer", "options %x are answered with %x by default, not %x", o, r, want);
    cap_get (out, sizeof out);
    if (!strstr (out, m)) BAD ("default-output", "the message does not appear: '%.200s'", out);
    if (th[t].type != PED_EXCEPTION_BUG && strncmp (out, tn[th[t].type], strlen (tn[th[t].type]))) BAD ("default-output", "type %s is shown as '%.200s'", tn[th[t].type], out);
    if (th[t].type == PED_EXCEPTION_BUG && !strstr (out, VERSION)) BAD ("default-output", "a bug is shown as '%.200s'", out);
  }
}
static bool step (int op)
{
  if (op == O_LEAVE && !md.level) return false;
  if (op == O_RETHROW && !md.pend) return false;
  if (op == O_FETCH && md.level >= 3) return false;
  say (" %s", op < N (th) ? (const char *[]) { "throw 0", "throw 1", "throw 2", "throw 3" }[op] : opn[op - O_FETCH]);
  memset (&seen, 0, 32); seen.calls = 0; *seen.msg = 0; if (!md.h) cap_clear ();
  switch (op) {
  case O_FETCH: ped_exception_fetch_all (); md.level++; break;
  case O_LEAVE: ped_exception_leave_all (); md.level--; break;
  case O_CATCH: ped_exception_catch (); md.pend = false; break;
  case O_RETHROW: delivered (ped_exception_rethrow (), md.what); break;
  case O_H1: case O_H2: ped_exception_set_handler (hs[op - O_H1 + 1]); md.h = op - O_H1 + 1; break;
  case O_H0: ped_exception_set_handler (NULL); md.h = 0; break;
  default: delivered (dothrow (op), op);
  }
  if (op >= O_FETCH && op != O_RETHROW && seen.calls) BAD ("handler", "a handler is called although nothing is thrown");
  if (!!ped_exception != md.pend) BAD ("flag", "an exception %s", md.pend ? "is pending and nobody is told" : "is said to be pending that was resolved");
  if (ped_exception_get_handler () != (md.h ? hs[md.h] : dflt)) BAD ("get-handler", "another handler is set");
  return true;
}
static void fresh (void) { ped_exception_catch (); while (md.level) { ped_exception_leave_all (); md.level--; } md.pend = false; ped_exception_set_handler (NULL); md.h = 0; *hist = 0; }
static int depth = 4; static uint16_t sq[16]; static long nseq;
static void replay (int n) { fresh (); for (int i = 0; i < n; i++) if (!step (sq[i])) abort (); }
static void extend (int n)
{
  for (int op = 0; op < NOP; op++) {
    sq[n] = op; replay (n); if (!step (op)) continue;
    nseq++; if (n + 1 < depth) extend (n + 1);
  }
}
#define PRE ((long) NOP * NOP * NOP)
#define NMSG 43
#define NDEF 6
static void exc_case (long i)
{
  memset (longmsg, 0, sizeof longmsg); for (int k = 0; k < 4990; k++) longmsg[k] = 'a' + k % 26;
  ped_exception_set_handler (NULL); dflt = ped_exception_get_handler (); cap_on ();
  if (i < PRE) {
    sq[0] = i / NOP / NOP; sq[1] = i / NOP % NOP; sq[2] = i % NOP; fresh ();
    bool ok = true; for (int k = 0; ok && k < 3; k++) ok = step (sq[k]);
    if (ok) { nseq = 1; extend (3); mc_count ("sequences", nseq); mc_count ("evaluations", nseq); mc_nontrivial (mc_hash (&i, sizeof i, 1)); }
    fresh ();
  } else if (i < PRE + NMSG) {            /* every length of message, up and down */
    for (int l = (i - PRE) * 100; l < (i - PRE) * 100 + 100; l++) for (int k = 0; k < 2; k++) {
      int save = th[1].len; th[1].len = k ? 4199 - l : l; if (th[1].len < 0) th[1].len = 0; if (th[1].len > 4190) th[1].len = 4190;
      fresh (); step (O_H1); step (O_THROW + 1); step (O_FETCH); step (O_THROW + 1); step (O_LEAVE); step (O_RETHROW); step (O_H0); step (O_THROW + 1);
      th[1].len = save; mc_count ("evaluations", 1); mc_count ("messages", 1);
    }
    mc_nontrivial (mc_hash (&i, sizeof i, 2)); fresh ();
  } else {                                /* every type with every set of options and every handler */
    int t = i - PRE - NMSG + 1; if (strcmp (ped_exception_get_type_string (t), tn[t])) BAD ("type-string", "type %d is called '%s'", t, ped_exception_get_type_string (t));
    for (int o = 0; o < 7; o++) if (strcmp (ped_exception_get_option_string (1 << o), optn[o])) BAD ("option-string", "option %x is called '%s'", 1 << o, ped_exception_get_option_string (1 << o));
    Th save = th[0]; th[0].type = t;
    for (int o = 0; o < 128; o++) for (int h = 0; h < 4; h++) for (int n = 0; n < 3; n++) {
      th[0].opts = o; fresh (); if (h) { ped_exception_set_handler (hs[h]); md.h = h; }
      snprintf (hist, sizeof hist, " type %d, options %x, handler %d", t, o, h);
      for (int k = 0; k < n; k++) step (O_FETCH);
      step (O_THROW); if (n) { step (O_LEAVE); if (n > 1) { step (O_RETHROW); step (O_LEAVE); } step (O_RETHROW); } step (O_THROW);
      mc_count ("evaluations", 1); mc_count ("types and options", 1); mc_nontrivial (mc_hash ((int[]) { t, o, h, n }, 16, 3));
    }
    th[0] = save; fresh ();
  }
  cap_off ();
  if (i % 211 == 5) mc_sample ("%s", i < PRE ? "sequences after three steps" : "messages");
}

/* ---------- timers ---------- */
static time_t now_;
time_t time (time_t *t) { if (t) *t = now_; return now_; }
static const float fr[] = { 0, 0.25f, 0.5f, 1 };
typedef struct { bool live; int parent; float nest, base; float frac; time_t start, now, end; const char *name; int calls; } Tm;
#define NT 3
static Tm tm_[NT]; static PedTimer *rt[NT];
static struct { int calls; float frac; time_t start, now, end; const char *name; void *ctx; PedTimer *who; } top;
static void on_top (PedTimer *t, void *c) { top.calls++; top.frac = t->frac; top.start = t->start; top.now = t->now; top.end = t->predicted_end; top.name = t->state_name; top.ctx = c; top.who = t; }
static int told;
static void m_update (int k, float f);
static void m_touch (int k) { Tm *t = &tm_[k]; t->now = now_; if (t->now > t->end) t->end = t->now; if (t->parent < 0) told++; else m_update (t->parent, t->base + t->nest * t->frac); }
static void m_update (int k, float f) { Tm *t = &tm_[k]; t->now = now_; t->frac = f; if (f) t->end = t->start + (L) ((double) (t->now - t->start) / f); m_touch (k); }
static void m_reset (int k) { Tm *t = &tm_[k]; t->start = t->now = t->end = now_; t->name = NULL; t->frac = 0; m_touch (k); }
/* operations: the clock; update of each timer; touch; reset; name; nested timers made and destroyed */
enum { T_CLOCK, T_UPD = T_CLOCK + 3, T_TOUCH = T_UPD + NT * N (fr), T_RESET = T_TOUCH + NT, T_NAME = T_RESET + NT, T_NEST = T_NAME + NT, T_DROP = T_NEST + 2 * 3, T_NULL = T_DROP + 2, TOP };
static const int tick[] = { 1, 7, 100000 };
static int ctx;
static bool tstep (int op)
{
  int k; told = 0; top.calls = 0;
  if (op < T_UPD) { now_ += tick[op]; say (" +%ds", tick[op]); return true; }
  if (op < T_TOUCH) { k = (op - T_UPD) / N (fr); float f = fr[(op - T_UPD) % N (fr)]; if (!tm_[k].live) return false; say (" update %d %g", k, f); ped_timer_update (rt[k], f); m_update (k, f); }
  else if (op < T_RESET) { k = op - T_TOUCH; if (!tm_[k].live) return false; say (" touch %d", k); ped_timer_touch (rt[k]); m_touch (k); }
  else if (op < T_NAME) { k = op - T_RESET; if (!tm_[k].live) return false; say (" reset %d", k); ped_timer_reset (rt[k]); m_reset (k); }
  else if (op < T_NEST) { k = op - T_NAME; if (!tm_[k].live) return false; say (" name %d", k); static const char *const nm[] = { "zero", "one", "two" }; ped_timer_set_state_name (rt[k], nm[k]); tm_[k].name = nm[k]; m_touch (k); }
  else if (op < T_DROP) {
    k = 1 + (op - T_NEST) / 3; float f = fr[1 + (op - T_NEST) % 3]; if (tm_[k].live || !tm_[k - 1].live) return false; say (" nest %d %g", k, f);
    rt[k] = ped_timer_new_nested (rt[k - 1], f); if (!rt[k]) BAD ("nested", "no nested timer");
    tm_[k] = (Tm) { .live = true, .parent = k - 1, .nest = f, .base = tm_[k - 1].frac }; m_reset (k);
  } else if (op < T_NULL) { k = 1 + op - T_DROP; if (!tm_[k].live || (k + 1 < NT && tm_[k + 1].live)) return false; say (" drop %d", k); ped_timer_destroy_nested (rt[k]); tm_[k].live = false; }
  else { say (" null"); ped_timer_update (NULL, 0.5); ped_timer_touch (NULL); ped_timer_reset (NULL); ped_timer_set_state_name (NULL, "x"); if (ped_timer_new_nested (NULL, 0.5)) BAD ("null", "a timer nested in none"); ped_timer_destroy (NULL); ped_timer_destroy_nested (NULL); }
  if (!top.calls != !told) BAD ("told", "the user is told %d times, not %d", top.calls, told);
  for (int j = 0; j < NT; j++) if (tm_[j].live) {
    Tm *t = &tm_[j]; PedTimer *r = rt[j];
    if (r->frac != t->frac) BAD ("fraction", "timer %d is at %g, not %g", j, r->frac, t->frac);
    if (r->start != t->start || r->now != t->now) BAD ("clock", "timer %d started at %lld and is at %lld, not %lld and %lld", j, (L) r->start, (L) r->now, (L) t->start, (L) t->now);
    if (r->predicted_end != t->end) BAD ("end", "timer %d is expected to end at %lld, not %lld (now %lld)", j, (L) r->predicted_end, (L) t->end, (L) now_);
    if (r->state_name != t->name) BAD ("name", "timer %d is called %s", j, r->state_name ? r->state_name : "nothing");
  }
  if (top.calls && (top.frac != tm_[0].frac || top.now != tm_[0].now || top.start != tm_[0].start || top.end != tm_[0].end || top.name != tm_[0].name || top.ctx != &ctx || top.who != rt[0])) BAD ("shown", "the user is shown %g, until %lld", top.frac, (L) top.end);
  return true;
}
static void tend (void)
{
  for (int k = NT - 1; k > 0; k--) if (tm_[k].live) ped_timer_destroy_nested (rt[k]);
  if (tm_[0].live) ped_timer_destroy (rt[0]);
  memset (tm_, 0, sizeof tm_);
}
static void tfresh (void)
{
  tend (); *hist = 0; now_ = 1000000000; top.calls = told = 0;
  tm_[0].live = true; tm_[0].parent = -1; rt[0] = ped_timer_new (on_top, &ctx); m_reset (0); if (!top.calls) BAD ("told", "the user is not told that a timer starts");
}
static void textend (int n)
{
  for (int op = 0; op < TOP; op++) {
    if (op == T_NULL && n) continue;
    sq[n] = op; tfresh (); for (int i = 0; i < n; i++) tstep (sq[i]); if (!tstep (op)) continue;
    nseq++; mc_nontrivial (mc_hash (tm_, sizeof tm_, 9)); if (n + 1 < depth) textend (n + 1);
  }
}
static void timer_case (long i)
{
  sq[0] = i / TOP; sq[1] = i % TOP; tfresh (); nseq = 0;
  if (tstep (sq[0]) && tstep (sq[1])) { nseq = 1; textend (2); }
  mc_count ("sequences", nseq); mc_count ("evaluations", nseq);
  if (i % 101 == 7) mc_sample ("sequences after two steps; the last:%s", hist);
}

void mc_cleanup (void) { tend (); }
static void run (long i) { *hist = 0; if (!strcmp (mc_opt, "timer")) timer_case (i); else exc_case (i); }
static void describe (long i, FILE *f) { if (!strcmp (mc_opt, "timer")) fprintf (f, "timers, sequences that begin with steps %ld and %ld", i / TOP, i % TOP); else if (i < PRE) fprintf (f, "exceptions, sequences that begin with steps %ld, %ld and %ld", i / NOP / NOP, i / NOP % NOP, i % NOP); else fprintf (f, "exceptions, %s", i < PRE + NMSG ? "messages" : "types and options"); }
void mc_setup (int, char **);
int main (int argc, char **argv)
{
  mc_setup (argc, argv);
  for (int i = 1; i + 1 < argc; i++) if (!strcmp (argv[i], "--depth")) depth = atoi (argv[i + 1]);
  bool t = !strcmp (mc_opt, "timer");
  McSweep s = { .prop = t ? "P27" : "P20", .n = t ? (long) TOP * TOP : PRE + NMSG + NDEF, .run = run, .describe = describe };
  return mc_sweep (&s, argc, argv);
}
