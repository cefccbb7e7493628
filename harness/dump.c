//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_dump wg_dump_internal wg_import_dump wg_check_dump update_crc32
//@ contracts: update_crc32 db_tfqueue_wlock db_tfqueue_wulock db_tfqueue_rlock db_tfqueue_rulock wg_stop_logging wg_start_logging wg_init_locks wg_check_header_compat wg_dump_internal wg_print_code_version wg_print_header_version
//@ loopinv: wg_check_dump 0 @n,len,filesize,crc
//@ loopinv: update_crc32 0 @n,crc
#include "common.h"
/* Writing the memory image to a file, checking such a file, and reading it back. */
enum { M_DUMP, M_CHECK, M_IMPORT, M_API };
#define BUF (HEAPBASE + 4096)
#define FP ((u64)0x7fff1230)
static u64 FNM, POS, LK, CRC0, CRC, FLEN, FREE, ACT, KEY, SIZE, SER, CPOS, BPOS, BLEN, MINP, MAXP, DFREE, DSIZE, DCRC, NX; static u8 mode, locking, nopen, nclose, failed, nlock, locked, nunlock, ncrc, img, crcw, pend, nstop, nstart, startok, ninit, nmal, nfree, hdr, compat, rderr, first, loaded, initr, eof, inl, emal;
GHOST(CR, u32)  /* checksum of the first n bytes of the file, with the checksum field zero */
static u64 wit(void) { u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); return x; }
#define LOGW(f) SEG(O_logging + OG_##f)
static void setup(u8 m) {
  mode = m;
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 131072 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 262144;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  FNM = ND_u64(); POS = LK = CRC = CPOS = BPOS = BLEN = 0; locking = FORK(ND_u8(), 2);
  nopen = nclose = failed = nlock = locked = nunlock = ncrc = img = crcw = pend = nstop = nstart = startok = ninit = nmal = nfree = hdr = compat = rderr = first = loaded = initr = eof = inl = emal = 0;
  FREE = RD(SEG(O_free)); ACT = RD(LOGW(active)); KEY = RD(SEG(O_key)); SIZE = RD(SEG(O_size)); SER = RD(LOGW(serial));
  NX = RD(SEG(O_extdbs + OX_count));
  ASSUME(SIZE == DBSIZE && FREE >= HDRSIZE && FREE <= DBSIZE && (ACT == 0 || ACT == 1) && NX >= 0);
}
u64 x_fopen(u64 nm, u64 md) {
  CHECK(nm == FNM && !nopen && RD8(md) == (mode == M_DUMP ? 'w' : 'r') && RD8(md + 1) == 'b' && RD8(md + 2) == 0, "pre: the file is opened in the right mode, once"); nopen++;
  if (FORK(ND_u8(), 2)) { nopen = 9; failed = 1; return 0; }
  return FP;
}
u32 x_fclose(u64 f) {
  CHECK(f == FP && nopen == 1 && !nclose, "pre: the file is closed once"); nclose++;
  if (mode != M_DUMP) return ND_u32();
  if (FORK(ND_u8(), 2)) { failed = 1; return (u32)-1; }
  pend = 0; return 0;
}
u32 x_fflush(u64 f) { if (f != FP) return 0; CHECK(f == FP && nopen == 1 && !nclose, "pre: an open file is flushed"); if (FORK(ND_u8(), 2)) { failed = 1; return (u32)-1; } pend = 0; return 0; }
u32 x_fseek(u64 f, u64 o, u32 w) {
  CHECK(f == FP && nopen == 1 && !nclose && w == 0, "pre: a place in the file is sought");
  if (mode != M_DUMP) { POS = o; return 0; }
  if (FORK(ND_u8(), 2)) { failed = 1; return (u32)-1; }
  POS = o; pend = 0; return 0;
}
void x_rewind(u64 f) { CHECK(f == FP && nopen == 1 && !nclose, "pre: an open file is rewound"); POS = 0; }
/* ---- dump */
static u64 lock(void) {
  CHECK(mode == M_DUMP && locking && !nlock, "pre: the lock is taken once"); nlock++;
  /* other processes were at work until now */
  vx_havoc_word(SEG(O_free)); vx_havoc_word(LOGW(active)); vx_havoc_word(LOGW(serial)); vx_havoc_word(SEG(O_checksum & ~(u64)7)); vx_havoc_range(SEG(HDRSIZE), SEG(DBSIZE));
  FREE = RD(SEG(O_free)); ACT = RD(LOGW(active)); ASSUME(FREE >= HDRSIZE && FREE <= DBSIZE && (ACT == 0 || ACT == 1));
  SNAPSHOT(M0);
  if (FORK(ND_u8(), 2)) { failed = 1; return 0; }
  locked = 1; LK = ND_u64(); ASSUME(LK != 0); return LK;
}
u64 c_db_tfqueue_wlock(u64 db, u64 t) { CHECK(db == DB, "pre: this database is locked"); return lock(); }
u64 c_db_tfqueue_rlock(u64 db, u64 t) { CHECK(0, "pre: the dump excludes all others (it switches the journal)"); return 0; }
static u64 ulock(u64 l) { CHECK(locked && l == LK, "pre: the lock taken is released"); locked = 0; nunlock++; if (FORK(ND_u8(), 2)) { failed = 1; return 0; } return 1; }
u64 c_db_tfqueue_wulock(u64 db, u64 l) { return ulock(l); }
u64 c_db_tfqueue_rulock(u64 db, u64 l) { return ulock(l); }
u64 c_wg_stop_logging(u64 db) { CHECK(db == DB && locked == locking && ACT && !nstop && !ncrc && !img, "pre: the journal is stopped before the image is made"); nstop++; WR(LOGW(active), 0); return 0; }
u64 c_wg_start_logging(u64 db) {
  CHECK(db == DB && ACT && !nstart && RD(LOGW(active)) == 0 && RD(LOGW(dirty)) == 0, "pre: a new journal is started when the old one was active");
  if (mode == M_DUMP) CHECK(nstop && locked == locking, "pre: the journal goes on under the lock");
  else CHECK(loaded && RD(LOGW(serial)) == SER && RD(SEG(O_key)) == KEY, "pre: the journal of this database goes on");
  nstart++; startok = !FORK(ND_u8(), 2); if (!startok) { failed = 1; return -1; }
  WR(LOGW(active), 1); vx_havoc_word(LOGW(serial)); return 0;
}
u32 c_update_crc32(u64 b, u64 n, u32 c) {
  if (mode == M_DUMP) {
    CHECK(b == DBBASE && n == FREE && c == 0 && !ncrc && locked == locking, "pre: the checksum is that of the used part of the segment"); ncrc++;
    SNAP(2);
    u32 r = ND_u32(); CRC = (u64)r; return r;
  }
  CHECK(b == BUF && (BLEN > 0) && n == BLEN && BPOS == CPOS && c == CR_(CPOS), "pre: the checksum covers the file in order");
  CHECK(CPOS > 0 || RD32(BUF + O_checksum) == 0, "pre: the checksum field counts as zero");
  CPOS = CPOS + n; return CR_(CPOS);
}
u64 x_fwrite(u64 p, u64 sz, u64 n, u64 f) {
  CHECK(f == FP && nopen == 1 && !nclose && mode == M_DUMP, "pre: the file is written");
  u64 x = wit();
  if (!img) {
    CHECK(p == DBBASE && POS == 0 && ((sz == FREE && n == 1) || (sz == 1 && n == FREE)) && locked == locking, "pre: the used part of the segment is written");
    CHECK(!ncrc || RD(x) == RK(2, x), "pre: what is written is what the checksum was computed of");
    CHECK(RD(LOGW(active)) == 0, "pre: the journal is not active in the image");
    img = 1; SNAP(2); pend = 1;
    if (FORK(ND_u8(), 2)) { failed = 1; u64 r = ND_u64(); ASSUME(r >= 0 && r < n); return r; }
    POS = FREE; return n;
  }
  CHECK(ncrc && !crcw && POS == O_checksum && ((sz == 4 && n == 1) || (sz == 1 && n == 4)) && RD32(p) == (u32)CRC, "pre: the checksum is stored in its place");
  pend = 1;
  if (FORK(ND_u8(), 2)) { failed = 1; u64 r = ND_u64(); ASSUME(r >= 0 && r < n); return r; }
  crcw = 1; return n;
}
ENTRY(dump) {
  setup(M_DUMP); u64 x = wit(); SNAPSHOT(M0);
  u64 r = f_wg_dump_internal(DB, FNM, locking), nx = NX;
  if (r == 0) {
    CHECK(!failed && nx == 0 && img && crcw && !pend && nclose == 1, "ens: success means that the image and its checksum are in the file");
    CHECK(!locking || nunlock == 1, "ens: the lock is released");
    CHECK(ACT == 0 || (nstart && startok), "ens: the journal goes on with a new file");
    COVER("dumped");
  } else {
    CHECK(failed || nx != 0, "ens: a dump fails only when something went wrong");
    CHECK(!locked, "ens: the lock is released");
    CHECK(nopen != 1 || nclose == 1, "ens: the file is closed");
    COVER("failed");
  }
  CHECK(RD(x) == R0(x) || x == LOGW(active) || x == LOGW(dirty) || x == LOGW(serial), "frame: a dump does not change the database");
  CHECK((RD(LOGW(active)) == 0) == (ACT == 0) || (nstart && !startok), "ens: the journal is as active as before");
}
/* ---- reading */
/* small blocks hold messages */
#define EB (HEAPBASE + 64)
u64 x_malloc(u64 n) {
  if (n >= 0 && n < 2048) { CHECK(!emal, "pre: one message at a time"); if (FORK(ND_u8(), 2)) return 0; emal = 1; return EB; }
  CHECK(!nmal && n <= 131072, "pre: one buffer is needed"); nmal++;
  if (FORK(ND_u8(), 2)) { failed = 1; nmal = 9; return 0; }
  return BUF;
}
u32 x_snprintf_n4(u64 p, u64 n, u64 f, u64 s) { CHECK(p == EB && emal && n <= 256, "pre: a message fits its buffer"); u32 r = ND_u32(); ASSUME((s32)r >= 0 && (s32)r < 256); return r; }
u32 x_snprintf_n5(u64 p, u64 n, u64 f, u64 s, u64 t) { return x_snprintf_n4(p, n, f, s); }
void x_free(u64 p) { if (p == EB) { CHECK(emal, "pre: a message is released once"); emal = 0; return; } CHECK(p == BUF && nmal == 1 && !nfree, "pre: the buffer is released once"); nfree++; }
u64 x_fread(u64 p, u64 sz, u64 n, u64 f) {
  CHECK(f == FP && nopen == 1 && !nclose && mode != M_DUMP, "pre: the file is read");
  u64 tot = sz == 1 ? n : sz;
  CHECK(sz == 1 || n == 1, "pre: a block is read");
  if (mode == M_CHECK) {
    CHECK(p == BUF && tot >= 1 && tot <= 131072 && !nfree, "pre: the block fits in the buffer");
    vx_havoc_range(BUF, BUF + 131072);
    if (POS == 0 && !hdr) {
      CHECK(tot >= HDRSIZE || tot >= O_size + 8, "pre: the header is read first");
      if (FORK(ND_u8(), 2)) { failed = 1; u64 r = ND_u64(); ASSUME(r >= 0 && r < n); return r; }
      hdr = 1; DFREE = RD(BUF + O_free); DSIZE = RD(BUF + O_size); DCRC = RD32(BUF + O_checksum);
      BPOS = 0; BLEN = tot; POS = tot; ASSUME(POS <= FLEN); return n;
    }
    u64 k = ND_u64(); ASSUME(k >= 0 && k <= tot && POS + k <= FLEN);
    eof = FORK(k == 0, 2);
    if (eof) { if (POS < FLEN) rderr = 1; return 0; }
    BPOS = POS; BLEN = k; POS = POS + k; return k;
  }
  /* import */
  if (!hdr) {
    CHECK(p == BUF && POS == 0 && tot >= HDRSIZE && tot <= 131072, "pre: the header is read first");
    vx_havoc_range(BUF, BUF + 131072);
    if (FORK(ND_u8(), 2)) { failed = 1; u64 r = ND_u64(); ASSUME(r >= 0 && r < n); return r; }
    hdr = 1; DFREE = RD(BUF + O_free); NX = RD(BUF + O_extdbs + OX_count); POS = tot; return n;
  }
  CHECK(p == DBBASE && POS == 0 && tot == DFREE && !loaded, "pre: the whole image is read to the start of the segment");
  CHECK(DFREE > 0 && DFREE <= SIZE && NX == 0, "pre: only an image that fits and has no references into other databases is read");
  loaded = 1; vx_havoc_range(DBBASE, DBBASE + DFREE); SNAP(3);
  if (FORK(ND_u8(), 2)) { failed = 1; u64 r = ND_u64(); ASSUME(r >= 0 && r < n); return r; }
  ASSUME(RD(SEG(O_free)) == DFREE);
  return n;
}
u32 c_wg_check_header_compat(u64 h) { CHECK(h == BUF && hdr && POS == BLEN && CPOS == 0, "pre: the header of the file is examined"); compat = !FORK(ND_u8(), 2); return compat ? 0 : (u32)-3; }
void c_wg_print_code_version(void) { }
void c_wg_print_header_version(u64 h, u32 v) { }
void LI_ASSERT_wg_check_dump_0(u64 n, u64 len, u64 fsz, u32 crc) {
  CHECK(CPOS == BPOS && BLEN > 0 && POS == BPOS + BLEN && crc == CR_(CPOS) && fsz == CPOS && len == BLEN && !nfree, "loop invariant: the checksum so far is that of the bytes before the block in the buffer");
  CHECK(CPOS > 0 || RD32(BUF + O_checksum) == 0, "loop invariant: the checksum field is zero in the first block");
}
void LI_HAVOC_wg_check_dump_0(u64 n, u64 len, u64 fsz, u32 crc) { inl = 1; CPOS = ND_u64(); BLEN = ND_u64(); BPOS = CPOS; POS = BPOS + BLEN; vx_havoc_range(BUF, BUF + 131072); }
void LI_ASSUME_wg_check_dump_0(u64 n, u64 len, u64 fsz, u32 crc) {
  ASSUME(CPOS >= 0 && BLEN > 0 && BLEN <= 131072 && POS <= FLEN && crc == CR_(CPOS) && fsz == CPOS && len == BLEN);
  ASSUME((CPOS > 0) | (RD32(BUF + O_checksum) == 0));
}
ENTRY(dump_check) {
  setup(M_CHECK); u64 x = wit(); FLEN = ND_u64(); ASSUME(FLEN >= 0 && FLEN <= ((u64)1 << 40)); ASSUME(CR_(0) == 0);
  MINP = HEAPBASE + 64; MAXP = HEAPBASE + 72; SNAPSHOT(M0);
  u64 r = f_wg_check_dump(DB, FNM, MINP, MAXP);
  if (r == 0) {
    CHECK(hdr && compat && !failed && (CPOS == FLEN || rderr) && DFREE == CPOS && CR_(CPOS) == (u32)DCRC, "ens: only a complete file of this version with the right checksum is accepted");
    CHECK(RD(MINP) == DFREE && RD(MAXP) == DSIZE, "ens: the size needed and the original size are reported");
    COVER("accepted");
  } else {
    CHECK(failed || !compat || rderr || DFREE != FLEN || CR_(FLEN) != (u32)DCRC, "ens: a good file is not refused");
    CHECK(!(hdr && !compat) || r == -2, "ens: another version is reported as such");
    CHECK(!(hdr && compat) || r == -3, "ens: a damaged file is reported as such");
    COVER("refused");
  }
  CHECK((nopen != 1 || nclose == 1) && (nmal != 1 || nfree == 1), "ens: file and buffer are released");
  CHECK(RD(x) == R0(x), "frame: a check does not change the database");
}
u64 c_wg_init_locks(u64 db) { CHECK(db == DB && loaded && !ninit, "pre: the locks are initialised after the image is read"); ninit++; initr = FORK(ND_u8(), 2); return initr ? -1 : 0; }
ENTRY(dump_import) {
  setup(M_IMPORT); u64 x = wit(); ASSUME(x >= DBBASE + 16); SNAPSHOT(M0);
  u64 r = f_wg_import_dump(DB, FNM);
  CHECK(nopen != 1 || nclose == 1, "ens: the file is closed");
  CHECK(nmal != 1 || nfree == 1, "ens: the buffer is released");
  if (!loaded) {
    CHECK(r == -1 && RD(x) == R0(x), "ens: a dump that is not read leaves the database alone");
    CHECK(failed || NX != 0 || DFREE <= 0 || DFREE > SIZE, "ens: a dump that fits is read");
    COVER("not read"); return;
  }
  if (failed && !nstart) { CHECK(r == -2 && !ninit, "ens: a dump read in part is a fatal error"); COVER("short"); return; }
  if (ACT) CHECK(nstart, "ens: an active journal goes on");
  if (nstart && !startok) { CHECK(r == -2, "ens: a journal that cannot go on is a fatal error"); COVER("no journal"); return; }
  CHECK(ninit && (r == 0) == !initr, "ens: the locks are free afterwards");
  CHECK(RD(SEG(O_size)) == SIZE && RD(SEG(O_key)) == KEY && (ACT || RD(LOGW(serial)) == SER), "ens: size, key and journal number are those of this segment");
  CHECK((RD(LOGW(active)) != 0) == (ACT != 0) && RD(LOGW(dirty)) == 0, "ens: the journal is as active as before and clean");
  CHECK(RD32(SEG(O_checksum)) == 0, "ens: the checksum field is zero in memory");
  CHECK(RD(x) == RK(3, x) || x == SEG(O_size) || x == SEG(O_key) || x == LOGW(serial) || x == LOGW(active) || x == LOGW(dirty), "ens: everything else is what the dump says");
  COVER("imported");
}
/* ---- the checksum is computed byte by byte, so that it can be computed piece by piece */
static u64 B, N; static u32 C0;
extern u32 GLO_crc_table[];
GHOST(ACC, u32)
void LI_ASSERT_update_crc32_0(u64 n, u32 crc) { CHECK(n >= 0 && n <= N && crc == ACC_(n), "loop invariant: the bytes so far are accounted for"); }
void LI_HAVOC_update_crc32_0(u64 n, u32 crc) { }
void LI_ASSUME_update_crc32_0(u64 n, u32 crc) {
  ASSUME(n >= 0 && n <= N && crc == ACC_(n));
  if (FORK(n < N, 2)) { u32 b = (u32)(s32)(s8)RD8(B + n), a = ACC_(n); ASSUME(ACC_(n + 1) == (RD32((u64)GLO_crc_table + 4 * (u64)(255 & (b ^ a))) ^ (u32)((s32)a >> 8))); }
}
ENTRY(dump_crc) {
  B = HEAPBASE + 4096; N = ND_u64(); ASSUME(N >= 0 && N <= ((u64)1 << 40)); C0 = ND_u32(); DBSIZE = HDRSIZE; HEAPTOP = B + N;
  ASSUME(ACC_(0) == ~C0);
  u32 r = f_update_crc32(B, N, C0);
  CHECK(r == ~ACC_(N), "ens: the checksum is that of all bytes, in order, continued from the one given");
  COVER("computed");
}
ENTRY(dump_api) {
  setup(M_API); u64 r = f_wg_dump(DB, FNM);
  CHECK(nopen == 1 && r == LK, "ens: wg_dump makes a dump under the lock");
  COVER("api");
}
u64 c_wg_dump_internal(u64 db, u64 fn, u32 l) { CHECK(db == DB && fn == FNM && l != 0 && !nopen, "pre: the dump is made under the lock"); nopen = 1; LK = ND_u64(); return LK; }
