//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: write_log_buffer wg_start_logging wg_stop_logging wg_init_handle_logdata wg_cleanup_handle_logdata
//@ contracts: check_journal open_journal
#include "common.h"
/* The journal file.  The operating system's calls are modelled by what they promise: open gives a descriptor that is not
 * in use, read and write transfer any part of what was asked for, or fail. */
#define LD (HEAPBASE + 4096)
static u64 BUF, LEN, FNA, OLDFD, NEWFD, SER, ACT, DIRTY, FP, TBL;
static u8 stale, nopen, nclose_old, nclose_new, nchk, chkok, nwr, wrok, nread, readok, nfd, fdok, nrec, nth, ntf, nfclose, recok, create, trunc0, mode, filebuf;
enum { M_WBUF, M_START };
static u64 bufcur;
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 8192;
  DEF(HEAPBASE, DBBASE);
  DEF(HEAPBASE + 8, LD);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  BUF = ND_u64(); LEN = ND_u64(); FNA = ND_u64(); SER = RD(SEG(O_logging + OG_serial)); ACT = RD(SEG(O_logging + OG_active)); DIRTY = RD(SEG(O_logging + OG_dirty));
  OLDFD = NEWFD = -1; FP = TBL = 0; bufcur = 0;
  stale = nopen = nclose_old = nclose_new = nchk = chkok = nwr = wrok = nread = readok = nfd = fdok = nrec = nth = ntf = nfclose = recok = create = trunc0 = filebuf = 0;
}
static u64 fd_(void) { u64 f = ND_u64(); ASSUME(f >= 0 && f < 1000000 && f != OLDFD); return f; }
static u32 openfd(void) { CHECK(!nopen, "pre: the file is opened once"); nopen++; if (FORK(ND_u8(), 2)) { NEWFD = -1; return (u32)-1; } NEWFD = fd_(); return (u32)NEWFD; }
u32 c_open_journal(u64 db, u32 cr) {
  CHECK(db == DB && (cr != 0) == (mode == M_START), "pre: the journal is created only when logging starts");
  if (mode == M_START) CHECK(ACT == 0, "pre: the journal in use is not created again");
  return openfd();
}
u64 c_check_journal(u64 db, u32 fd) {
  CHECK(NEWFD >= 0 && fd == NEWFD && !nclose_new && !nchk, "pre: the opened file is checked");
  nchk++; chkok = !FORK(ND_u8(), 2); return chkok ? 0 : -1;
}
u32 x_close(u32 fd) {
  if (fd == NEWFD) { CHECK(!nclose_new && NEWFD >= 0, "pre: a descriptor is closed once"); CHECK(!nfd || !fdok, "pre: a stream's descriptor is closed with the stream"); nclose_new++; }
  else { CHECK(fd == OLDFD && OLDFD >= 0 && !nclose_old, "pre: only the journal's own descriptor is closed, once"); nclose_old++; }
  return 0;
}
static u8 usable(u64 fd) { return fd >= 0 && ((fd == NEWFD && chkok && !nclose_new) || (fd == OLDFD && !stale && !nclose_old)); }
u64 x_write(u32 fd, u64 p, u64 n) {
  CHECK(!nwr, "pre: an entry is written at once"); nwr++;
  if (mode == M_START) {
    CHECK(fd == NEWFD && NEWFD >= 0 && n == K_WG_JOURNAL_MAGIC_BYTES && RD8(p) == 'w' && RD8(p + 1) == 'g' && RD8(p + 2) == 'd' && RD8(p + 3) == 'b', "pre: a new journal starts with the file mark");
    CHECK(DIRTY == 0, "pre: a journal that holds changes is not written over");
  } else {
    CHECK(usable(fd), "pre: entries go to the current journal, never to a stale or closed file");
    CHECK(p == BUF && n == LEN, "pre: the whole entry is written");
    CHECK(RD(SEG(O_logging + OG_dirty)) != 0, "pre: the journal is marked as holding changes before it does");
  }
  u64 r = ND_u64(); ASSUME(r >= -1 && r <= n);
  wrok = FORK(r == n, 2);
  return wrok ? n : r;
}
u32 x_ftruncate(u32 fd, u64 n) { CHECK(fd == NEWFD && n == 0 && DIRTY == 0 && mode == M_START && !nwr, "pre: only a journal without changes is emptied"); return (u32)ND_u32(); }
static u8 frame(u64 x) { return RD(x) == R0(x); }
static u64 wit(void) { u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); return x; }
ENTRY(log_buffer) {
  setup(); mode = M_WBUF;
  u64 x = wit();
  ASSUME(LEN > 0 && LEN <= ((u64)1 << 42));
  u64 o = (u64)(s64)(s32)RD32(LD + OJ_fd);
  if (FORK(o >= 0, 2)) { OLDFD = o; ASSUME(o < 1000000); } else OLDFD = -1;
  stale = FORK(RD(LD + OJ_serial) != SER, 2);
  SNAPSHOT(M0);
  u64 r = f_write_log_buffer(DB, BUF, LEN);
  u64 c = (u64)(s64)(s32)RD32(LD + OJ_fd);
  CHECK(frame(x) || x == SEG(O_logging + OG_dirty), "ens: writing an entry changes only the mark in the database");
  if (r == 0) { CHECK(nwr == 1 && wrok, "ens: success means that the whole entry was written"); COVER("written"); }
  else { CHECK(!nwr || !wrok, "ens: a complete entry is not reported as failed"); COVER("failed"); }
  if (c >= 0) {
    CHECK(usable(c), "ens: the descriptor that is kept is open and belongs to the current journal");
    CHECK(RD(LD + OJ_serial) == SER, "ens: the descriptor that is kept is known to be current");
  }
  CHECK(nclose_old == (OLDFD >= 0 && c != OLDFD), "ens: a descriptor that is no longer used is closed");
  CHECK(nclose_new == (NEWFD >= 0 && c != NEWFD), "ens: a descriptor that is no longer used is closed");
}
ENTRY(log_start) {
  setup(); mode = M_START; u64 x = wit();
  if (!FORK(ACT != 0, 2)) ACT = 0;
  if (!FORK(DIRTY != 0, 2)) DIRTY = 0;
  SNAPSHOT(M0);
  u64 r = f_wg_start_logging(DB);
  CHECK(NEWFD < 0 || nclose_new, "ens: the file is closed");
  CHECK(frame(x) || x == SEG(O_logging + OG_active), "ens: nothing else changes");
  u64 a = RD(SEG(O_logging + OG_active));
  if (ACT) { CHECK(r == -1 && a == ACT && !nopen, "ens: logging is not started twice"); COVER("twice"); return; }
  if (r == 0) {
    CHECK(a != 0 && NEWFD >= 0, "ens: success turns logging on");
    CHECK(DIRTY ? nchk && chkok && !nwr : nwr && wrok, "ens: logging goes on in the journal of the current changes, or in a new one");
    COVER("started");
  } else { CHECK(a == 0 && (NEWFD < 0 || (nchk && !chkok) || (nwr && !wrok)), "ens: logging stays off on failure"); COVER("failed"); }
}
ENTRY(log_stop) {
  setup(); u64 x = wit();
  if (!FORK(ACT != 0, 2)) ACT = 0;
  SNAPSHOT(M0);
  u64 r = f_wg_stop_logging(DB);
  CHECK(RD(SEG(O_logging + OG_active)) == 0 && (r == 0) == (ACT != 0), "ens: logging is off, an error is reported if it was");
  CHECK(frame(x) || x == SEG(O_logging + OG_active), "ens: nothing else changes");
  COVER("stop");
}
ENTRY(log_handle) {
  setup(); u64 x = wit();
  u32 v = RD32(LD + OJ_fd);
  u8 has = FORK(ND_u8(), 2);
  if (!has) WR(HEAPBASE + 8, 0);
  else if (FORK((s64)(s32)v >= 0, 2)) OLDFD = (u64)(s64)(s32)v;
  nopen = 1; /* no file is opened */
  SNAPSHOT(M0);
  f_wg_cleanup_handle_logdata(DB);
  CHECK(nclose_old == (OLDFD >= 0), "ens: the descriptor is closed");
  CHECK(filebuf == has && RD(HEAPBASE + 8) == 0, "ens: the handle's log data is released");
  CHECK(frame(x), "ens: the database is not changed");
  COVER("cleanup");
}
void x_free(u64 p) { CHECK(p == LD && !filebuf, "pre: the log data of the handle is released once"); filebuf++; }
static u8 inmal; 
u64 x_malloc(u64 n) { CHECK(n == SZ_logdata && !inmal, "pre: log data is allocated"); inmal = 1; if (FORK(ND_u8(), 2)) { inmal = 2; return 0; } return LD; }
ENTRY(log_init) {
  setup(); u64 x = wit(); inmal = 0;
  WR(HEAPBASE + 8, 0);
  SNAPSHOT(M0);
  u64 r = f_wg_init_handle_logdata(DB);
  CHECK((r != 0) == (inmal == 2), "ens: failure is reported");
  if (r == 0) { CHECK(RD(HEAPBASE + 8) == LD && (s64)(s32)RD32(LD + OJ_fd) == -1, "ens: a new handle has no journal open"); COVER("init"); }
  CHECK(frame(x), "ens: the database is not changed");
}
