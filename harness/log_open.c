//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_replay_log check_journal open_journal backup_journal
//@ contracts: backup_journal check_journal recover_journal wg_ginthash_init wg_ginthash_free wg_journal_filename wg_start_logging
//@ loopinv: backup_journal 0 i,logidx,oldest
#include "common.h"
/* Opening, checking and setting aside the journal file, and replaying it. */
#define LD (HEAPBASE + 4096)
enum { M_CHECK, M_OPEN, M_BACKUP, M_REPLAY };
static u64 FD, FNA, FSZ, FN, FP, TBL, ACT, DIRTY, UM; static u8 mode, nopen, nclose, nchk, chkok, nread, eq, four, nback, backok, exists, nstat, nmask, numask, create, named;
static u8 nfd, fdok, nth, thok, ntf, nrec, recok, nfclose, nstart, startok;
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 8192;
  DEF(HEAPBASE, DBBASE);
  DEF(HEAPBASE + 8, LD);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  ACT = RD(SEG(O_logging + OG_active)); DIRTY = RD(SEG(O_logging + OG_dirty));
  FD = -1; FN = FNA = FP = TBL = 0;
  nopen = nclose = nchk = chkok = nread = eq = four = nback = backok = exists = nstat = nmask = numask = create = named = 0;
  nfd = fdok = nth = thok = ntf = nrec = recok = nfclose = nstart = startok = 0;
}
static u64 wit(void) { u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); return x; }
static u8 frame(u64 x) { return RD(x) == R0(x); }
/* ---- the file mark */
static u64 RB; static u64 got;
u64 x_read(u32 fd, u64 p, u64 n) {
  CHECK(fd == FD && n == K_WG_JOURNAL_MAGIC_BYTES && !nread, "pre: the file mark is read"); nread++;
  CHECK(vx_stkend(p) >= p + n, "pre: there is room for the file mark");
  RB = p; vx_havoc_range(p, p + n);
  for (u8 i = 0; i < 4; i++) ASSUME(RD8(p + i) >= -128 && RD8(p + i) < 256);
  four = FORK(ND_u8(), 2);
  if (four) return n;
  u64 r = ND_u64(); ASSUME(r >= -1 && r < n); return r;
}
static u8 magic(u64 a) { return RD8(a) == 'w' && RD8(a + 1) == 'g' && RD8(a + 2) == 'd' && RD8(a + 3) == 'b'; }
static u32 cmpmagic(u64 a, u64 b, u64 n) {
  CHECK(((a == RB && magic(b)) || (b == RB && magic(a))) && n == K_WG_JOURNAL_MAGIC_BYTES && four, "pre: the whole file mark is compared");
  eq = FORK(ND_u8(), 2);
  if (eq) return 0;
  u32 r = ND_u32(); ASSUME(r != 0); return r;
}
u32 x_strncmp(u64 a, u64 b, u64 n) { return cmpmagic(a, b, n); }
u32 x_memcmp(u64 a, u64 b, u64 n) { return cmpmagic(a, b, n); }
u32 x_bcmp(u64 a, u64 b, u64 n) { return cmpmagic(a, b, n); }
ENTRY(log_check) {
  setup(); mode = M_CHECK; FD = 5; u64 x = wit();
  SNAPSHOT(M0);
  u64 r = f_check_journal(DB, 5);
  CHECK((r == 0) == (four && eq), "ens: exactly a file with the journal's mark is accepted");
  CHECK(frame(x), "ens: the database is not changed");
  if (r) { COVER("refused"); } else { COVER("accepted"); }
}
/* ---- opening */
void c_wg_journal_filename(u64 db, u64 buf, u64 n) { CHECK(db == DB && n <= vx_stkend(buf) - buf && n >= K_WG_JOURNAL_FN_BUFSIZE, "pre: there is room for the file name"); FN = buf; named = 1; }
u32 c_backup_journal(u64 db, u64 fn) {
  CHECK(db == DB && named && fn == FN && create && DIRTY == 0 && exists && !nback && !nopen, "pre: exactly an existing journal without unsaved changes is set aside before a new one is made");
  nback++; backok = !FORK(ND_u8(), 2); return backok ? 0 : (u32)-1;
}
static u64 CUR;  /* mask of the process */
u32 x_umask(u32 m) { u64 o = CUR; CUR = m; numask++; return (u32)o; }
static u64 BI; static u8 ndst;
GHOST(EX, u8) GHOST(MT, u64)
static u64 NAMEBUF, NAMEI;
u32 x_snprintf_n5(u64 b, u64 n, u64 f, u64 a, u64 i) {
  CHECK(mode == M_BACKUP && a == FN && n <= vx_stkend(b) - b && n >= K_WG_JOURNAL_FN_BUFSIZE + 2, "pre: the name of a backup is made of the journal's name and a number, with room for it");
  NAMEBUF = b; NAMEI = (u64)(s64)(s32)i;
  return 1;
}
#define ERRNO (HEAPBASE + 6000)
u64 x___errno_location(void) { return HEAPBASE + 6016; }
static u8 exv(u64 i) { u8 e = EX_(i); return e; }
u32 x_stat(u64 nm, u64 st) {
  if (mode == M_OPEN) { CHECK(named && nm == FN && create, "pre: the journal file is looked for"); nstat++; exists = FORK(ND_u8(), 2); return exists ? 0 : (u32)-1; }
  CHECK(nm == NAMEBUF && NAMEI >= 0 && NAMEI < K_WG_JOURNAL_MAX_BACKUPS && vx_stkend(st) >= st + OST_mtime + 8, "pre: a backup is looked for");
  u8 e = FORK(EX_(NAMEI), 3);  /* 0: is not there, 1: is there, 2: cannot be examined */
  if (e == 1) { WR(st + OST_mtime, MT_(NAMEI)); ASSUME(MT_(NAMEI) > 0); return 0; }
  WR32(HEAPBASE + 6016, e == 0 ? K_ENOENT : 13);
  return (u32)-1;
}
static u32 opn(u64 fn, u32 flags) {
  CHECK(!nopen, "pre: the file is opened once"); nopen++;
  if (mode == M_OPEN) {
    u64 fl = flags;
    CHECK(named && fn == FN, "pre: the journal is opened");
    CHECK((fl & K_O_ACCMODE) == K_O_RDWR && (fl & K_O_APPEND) != 0 && (fl & K_O_TRUNC) == 0, "pre: entries are added at the end and nothing is cut off");
    CHECK(((fl & K_O_CREAT) != 0) == create, "pre: the file is created only on request");
    CHECK(!create || !exists || DIRTY != 0 || (nback && backok), "pre: a previous journal is set aside before a new one is made");
    if (create) CHECK(CUR == UM, "pre: a new file gets the permissions of the handle");
  } else CHECK(fn == FNA && (flags & K_O_ACCMODE) == K_O_RDONLY, "pre: the given file is opened for reading");
  if (FORK(ND_u8(), 2)) return (u32)-1;
  FD = 7; return 7;
}
u32 x_open_n2(u64 fn, u32 flags) { return opn(fn, flags); }
u32 x_open_n3(u64 fn, u32 flags, u32 m) { return opn(fn, flags); }
ENTRY(log_open) {
  setup(); mode = M_OPEN; u64 x = wit();
  create = FORK(ND_u8(), 2);
  UM = RD32(LD + OJ_umask); u64 old = 18; CUR = old;
  if (!FORK(DIRTY != 0, 2)) DIRTY = 0;
  SNAPSHOT(M0);
  u64 r = (u64)(s64)(s32)f_open_journal(DB, create);
  CHECK(r == FD, "ens: the descriptor is returned, or -1");
  CHECK(CUR == old, "ens: the mask of the process is restored");
  CHECK(frame(x), "ens: the database is not changed");
  if (nback && !backok) { CHECK(!nopen, "ens: when the old journal cannot be set aside it is not written over"); COVER("kept"); return; }
  CHECK(nopen == 1, "ens: the file is opened");
  if (nback) { COVER("set aside"); } else { COVER("plain"); }
}
/* ---- setting aside: backup number i exists (EX = 1) since MT, or not (0), or cannot be examined (2) */
static u64 RI, J; static u8 nren, renok;
u32 x_rename(u64 a, u64 b) {
  CHECK(a == FN && b == NAMEBUF && !nren, "pre: the journal is renamed to a backup's name");
  nren++; RI = NAMEI; renok = FORK(ND_u8(), 2); return renok ? 0 : (u32)-1;
}
static u8 exrange(u64 j) { return (EX_(j) >= 0) & (EX_(j) <= 2); }
static u8 inv(u64 i, u64 l, u64 o) {
  return (i >= 0) & (i <= K_WG_JOURNAL_MAX_BACKUPS) & (l >= 0) & ((l < i) | ((i == 0) & (l == 0)) | ((o == 0) & (l == 0)))
    & (!((J >= 0) & (J < i)) | (EX_(J) != 0)) & (!((J >= 0) & (J < i) & (EX_(J) == 1)) | ((o != 0) & (o <= MT_(J)))) & ((o == 0) | ((EX_(l) == 1) & (MT_(l) == o)));
}
void LI_ASSERT_backup_journal_0(u32 i, u32 l, u64 o) {
  u64 ii = (u64)(s64)(s32)i, ll = (u64)(s64)(s32)l;
  CHECK(inv(ii, ll, o), "loop invariant: every backup before this one exists and the oldest of them is known");
  CHECK(!nren, "loop invariant: nothing is renamed yet");
}
void LI_HAVOC_backup_journal_0(u32 i, u32 l, u64 o) { NAMEI = ND_u64(); WR32(HEAPBASE + 6016, ND_u32()); }
void LI_ASSUME_backup_journal_0(u32 i, u32 l, u64 o) {
  u64 ii = (u64)(s64)(s32)i, ll = (u64)(s64)(s32)l;
  ASSUME(exrange(ll) && exrange(ii) && exrange(J));
  ASSUME(inv(ii, ll, o));
}
ENTRY(log_backup) {
  setup(); mode = M_BACKUP; u64 x = wit();
  FN = HEAPBASE + 7000; nren = renok = 0; RI = NAMEI = 0; NAMEBUF = 0; J = ND_u64();
  ASSUME(J >= 0 && J < K_WG_JOURNAL_MAX_BACKUPS && exrange(J) && exrange(0) && MT_(J) > 0);
  u64 ser = RD(SEG(O_logging + OG_serial)); ASSUME(ser >= 0 && ser < ((u64)1 << 62));
  SNAPSHOT(M0);
  u32 r = f_backup_journal(DB, FN);
  CHECK(nren == 1 && (r == 0) == renok, "ens: the journal is renamed, failure is reported");
  CHECK(RI >= 0 && RI < K_WG_JOURNAL_MAX_BACKUPS, "ens: the backup has one of the possible numbers");
  ASSUME(exrange(RI));
  CHECK(EX_(RI) != 1 || (EX_(J) != 0 && (EX_(J) == 2 || MT_(RI) <= MT_(J))), "ens: a backup is overwritten only when no number is free, and then the oldest");
  CHECK(RD(SEG(O_logging + OG_serial)) == ser + renok, "ens: other processes learn that the journal was replaced exactly when it was");
  CHECK(frame(x) || x == SEG(O_logging + OG_serial), "ens: nothing else changes");
  if (EX_(RI) == 1) { COVER("oldest"); } else { COVER("free"); }
}
/* ---- replay */
u64 c_check_journal(u64 db, u32 fd) { CHECK(db == DB && fd == FD && FD >= 0 && !nclose && !nchk && !nfd, "pre: the opened file is checked first"); nchk++; chkok = !FORK(ND_u8(), 2); return chkok ? 0 : -1; }
u32 x_close(u32 fd) { CHECK(fd == FD && FD >= 0 && !nclose && !(nfd && fdok), "pre: the descriptor is closed once"); nclose++; return 0; }
u64 x_fdopen(u64 fd, u64 m) { CHECK(fd == FD && nchk && chkok && !nclose && !nfd && RD8(m) == 'r', "pre: a checked file is read"); nfd++; fdok = !FORK(ND_u8(), 2); FP = fdok ? HEAPBASE + 7500 : 0; return FP; }
u32 x_fclose(u64 f) { CHECK(f == FP && nfd && fdok && !nfclose, "pre: the stream is closed once"); nfclose++; return 0; }
u64 c_wg_ginthash_init(u64 db) { CHECK(!nth, "pre: one table"); nth++; thok = !FORK(ND_u8(), 2); TBL = thok ? HEAPBASE + 7600 : 0; return TBL; }
void c_wg_ginthash_free(u64 db, u64 t) { CHECK(thok && t == TBL && !ntf, "pre: the table is released once"); ntf++; }
static u64 act1, dirty1;
u64 c_recover_journal(u64 db, u64 f, u64 t) {
  CHECK(db == DB && f == FP && fdok && !nfclose && t == TBL && thok && !ntf && !nrec, "pre: the checked file is replayed once");
  CHECK(RD(SEG(O_logging + OG_active)) == 0, "pre: replaying is not journalled");
  nrec++; vx_havoc_range(SEG(HDRSIZE), DBBASE + DBSIZE); recok = !FORK(ND_u8(), 2); return recok ? 0 : -1;
}
u64 c_wg_start_logging(u64 db) {
  CHECK(nrec && recok && nfclose && RD(SEG(O_logging + OG_active)) == 0 && RD(SEG(O_logging + OG_dirty)) == 0 && !nstart, "pre: logging goes on in a new journal after the replay");
  nstart++; startok = !FORK(ND_u8(), 2); if (startok) WR(SEG(O_logging + OG_active), 1); return startok ? 0 : -2;
}
ENTRY(log_replay) {
  setup(); mode = M_REPLAY; u64 x = wit();
  FNA = ND_u64();
  if (!FORK(ACT != 0, 2)) ACT = 0;
  SNAPSHOT(M0);
  u64 r = f_wg_replay_log(DB, FNA);
  u64 a = RD(SEG(O_logging + OG_active)), d = RD(SEG(O_logging + OG_dirty));
  CHECK(nclose + nfclose == (FD >= 0), "ens: the file is closed");
  CHECK(ntf == thok, "ens: the table is released");
  CHECK(frame(x) || (nrec && x >= SEG(HDRSIZE)) || x == SEG(O_logging + OG_active) || x == SEG(O_logging + OG_dirty), "ens: nothing else changes");
  CHECK(r == 0 || r == -1 || r == -2, "ens: a documented result");
  if (r == -1) { CHECK(!nrec && a == ACT && d == DIRTY, "ens: a refused file changes nothing, and logging is on as before"); COVER("refused"); return; }
  CHECK(nrec == 1, "ens: the file is replayed");
  if (!recok) { CHECK(r == -2 && a == 0 && d == DIRTY, "ens: a failed replay is reported and the journal is not taken for clean"); COVER("failed"); return; }
  CHECK(d == 0, "ens: after the replay the journal is clean");
  CHECK(nstart == (ACT != 0), "ens: logging is on again exactly when it was on");
  CHECK((r == 0) == (!nstart || startok), "ens: success is reported exactly when logging is as before");
  if (nstart) { COVER("on"); } else { COVER("off"); }
}
