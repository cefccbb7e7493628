//@ engine: vx
//@ vx: {"autocut":true,"facts":[],"wrapshl":["wg_log_encode"]}
//@ roots: wg_log_create_record wg_log_delete_record wg_log_encval wg_log_set_field wg_log_set_meta wg_log_encode
//@ contracts: enc_varint write_log_buffer
//@ loopinv: wg_log_encode 0 @n
//@ loopinv: wg_log_encode 1 @n
#include "common.h"
/* An entry of the journal: one command byte, the numbers of the entry in order, the bytes of the value; written at once.
 * enc_varint's contract (harness log_codec.c): 1 to 9 bytes from the given place, which needs room for 9. */
static u64 P0, END, PP[3], NN[3], VV[3], W; static u8 nv, nw, wfail;
static u64 MB, MS, D, E, LEN, XLEN, TY; static u8 nmal, nfree, mfail, enc;
static u64 K; /* a byte position */
u8 mok_extra(u64 a, u64 n) { return (nmal && a >= MB && a + n <= MB + MS) | ((a >= D) & (a + n <= D + LEN)) | ((a >= E) & (a + n <= E + XLEN)); }
u64 c_enc_varint(u64 p, u64 v) {
  u64 n = ND_u64(); ASSUME(n >= 1 && n <= 9);
  CHECK(nv < 3 && !nw, "pre: at most three numbers make up an entry");
  if (nv == 0) { P0 = p; END = vx_stkend(p); if (END == 0) END = MB + MS; }
  CHECK(p + 9 <= END, "pre: there is room for a number");
  vx_havoc_range(p, p + n); SNAP(1);
  PP[nv] = p; NN[nv] = n; VV[nv] = v; nv++;
  return n;
}
static u64 after(u8 k) { return k == 0 ? P0 : PP[k - 1] + NN[k - 1]; }
static u8 cmd, want; static u64 A[3];
u64 c_write_log_buffer(u64 db, u64 buf, u64 len) {
  CHECK(db == DB && !nw, "pre: an entry is written at once");
  nw++;
  CHECK(nv == want, "pre: the entry has all its numbers");
  u64 e = nv ? after(nv) : buf + 1;
  for (u8 i = 0; i < 3; i++) if (i < nv) {
    CHECK(PP[i] == after(i), "pre: numbers follow each other");
    CHECK(VV[i] == A[i], "pre: the entry says what is done");
  }
  if (nv) CHECK(P0 == buf + (cmd != 255), "pre: the first number follows the command");
  if (cmd != 255) CHECK((RD8(buf) & 255) == cmd, "pre: the entry starts with its command");
  if (nv) CHECK(!(K >= P0 && K < e) || RD8(K) == RK8(1, K), "pre: the numbers are not overwritten");
  if (!enc) CHECK(len == e - buf, "pre: the whole entry is written");
  else if (TY == K_WG_INTTYPE || TY == K_WG_DOUBLETYPE) {
    CHECK(len == 9 && buf == MB && RD(buf + 1) == R0(D), "pre: the whole number is written");
  } else {
    CHECK(buf == MB && len == e - buf + LEN + XLEN, "pre: the whole value is written");
    CHECK(!(W >= 0 && W < LEN) || RD8(e + W) == R08(D + W), "pre: the bytes of the value are written");
    CHECK(!(W >= 0 && W < XLEN) || RD8(e + LEN + W) == R08(E + W), "pre: the bytes of the second part are written");
  }
  wfail = FORK(ND_u8(), 2);
  return wfail ? -5 : 0;
}
u64 x_malloc(u64 n) {
  CHECK(enc && !nmal && n >= 9, "pre: one buffer is allocated");
  mfail = FORK(ND_u8(), 2);
  if (mfail) return 0;
  nmal++; MS = n;
  ASSUME(MB + MS <= HEAPBASE + ((u64)1 << 44));
  return MB;
}
void x_free(u64 p) { CHECK(p == MB && nmal == 1 && !nfree && nw, "pre: the buffer is released after it was written"); nfree++; }
static u64 LP; static u8 inl;
static u64 dst(void) { return after(2); }
/* the two copying loops */
void LI_ASSERT_wg_log_encode_0(u64 n) {
  u64 k = n;
  CHECK(nv == 2 && k >= 0 && k <= LEN, "loop invariant: bytes are copied in order");
  CHECK(!(W >= 0 && W < k) || RD8(dst() + W) == R08(D + W), "loop invariant: bytes before this one are copied");
  CHECK(!(K >= P0 && K < dst()) || RD8(K) == RK8(1, K), "loop invariant: the numbers are not overwritten");
}
void LI_HAVOC_wg_log_encode_0(u64 n) { vx_havoc_range(dst(), dst() + LEN); }
void LI_ASSUME_wg_log_encode_0(u64 n) {
  ASSUME(n >= 0 && n <= LEN);
  ASSUME(!((W >= 0) & (W < n)) | (RD8(dst() + W) == R08(D + W)));
}
void LI_ASSERT_wg_log_encode_1(u64 n) {
  u64 d = dst() + LEN, k = n;
  CHECK(nv == 2 && k >= 0 && k <= XLEN, "loop invariant: bytes of the second part are copied in order");
  CHECK(!(W >= 0 && W < k) || RD8(d + W) == R08(E + W), "loop invariant: bytes of the second part before this one are copied");
  CHECK(!(W >= 0 && W < LEN) || RD8(dst() + W) == R08(D + W), "loop invariant: the bytes of the value stay");
  CHECK(!(K >= P0 && K < dst()) || RD8(K) == RK8(1, K), "loop invariant: the numbers are not overwritten");
}
void LI_HAVOC_wg_log_encode_1(u64 n) { u64 d = dst() + LEN; vx_havoc_range(d, d + XLEN); }
void LI_ASSUME_wg_log_encode_1(u64 n) {
  u64 d = dst() + LEN;
  ASSUME(n >= 0 && n <= XLEN);
  ASSUME(!((W >= 0) & (W < n)) | (RD8(d + W) == R08(E + W)));
}
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  nv = nw = wfail = nmal = nfree = mfail = enc = 0; MB = MS = D = E = LEN = XLEN = TY = P0 = END = 0;
  A[0] = ND_u64(); A[1] = ND_u64(); A[2] = ND_u64(); W = ND_u64(); K = ND_u64();
}
static void done(u64 r) {
  CHECK(nw == 1, "ens: exactly one entry is written");
  CHECK((r != 0) == wfail, "ens: a failed write is reported");
  if (r) { COVER("failed"); } else { COVER("written"); }
}
static u64 rec(void) { u64 o = ND_u64(); ASSUME(o >= HDRSIZE && o < DBSIZE && (o & 7) == 0); A[0] = o; return SEG(o); }
ENTRY(log_create) { setup(); cmd = K_WG_JOURNAL_ENTRY_CRE; want = 1; done(f_wg_log_create_record(DB, A[0])); }
ENTRY(log_delete) { setup(); cmd = K_WG_JOURNAL_ENTRY_DEL; want = 1; done(f_wg_log_delete_record(DB, A[0])); }
ENTRY(log_encval) { setup(); cmd = 255; want = 1; done(f_wg_log_encval(DB, A[0])); }
ENTRY(log_set) { setup(); cmd = K_WG_JOURNAL_ENTRY_SET; want = 3; u64 r = rec(); done(f_wg_log_set_field(DB, r, A[1], A[2])); }
ENTRY(log_meta) { setup(); cmd = K_WG_JOURNAL_ENTRY_META; want = 2; u64 r = rec(); done(f_wg_log_set_meta(DB, r, A[1])); }
ENTRY(log_encode) {
  setup(); enc = 1;
  u64 t = FORK(ND_u8(), 32);
  TY = t;
  u8 num = t == K_WG_INTTYPE || t == K_WG_DOUBLETYPE;
  u8 str = t == K_WG_STRTYPE || t == K_WG_URITYPE || t == K_WG_XMLLITERALTYPE || t == K_WG_ANONCONSTTYPE || t == K_WG_BLOBTYPE;
  u8 imm = t == K_WG_NULLTYPE || t == K_WG_RECORDTYPE || t == K_WG_CHARTYPE || t == K_WG_DATETYPE || t == K_WG_TIMETYPE || t == K_WG_VARTYPE || t == K_WG_FIXPOINTTYPE;
  cmd = K_WG_JOURNAL_ENTRY_ENC + t; want = str ? 2 : 0;
  MB = ND_u64(); ASSUME(MB >= HEAPBASE + 4096 && MB <= HEAPBASE + ((u64)1 << 43) && (MB & 7) == 7);
  D = ND_u64(); E = ND_u64();
  ASSUME(D >= 4096 && E >= 4096 && (D & 7) == 0);
  if (str) {
    LEN = ND_u64(); XLEN = ND_u64(); A[0] = LEN; A[1] = XLEN;
    ASSUME(LEN >= 0 && LEN <= ((u64)1 << 40) && XLEN >= 0 && XLEN <= ((u64)1 << 40));
    ASSUME((D + LEN < DBBASE) & (E + XLEN < DBBASE));
  } else if (num) { LEN = 8; ASSUME(D < DBBASE - 64); RD(D); }
  u8 small = 0;
  if (t == K_WG_INTTYPE) small = FORK(RD(D) >= -((u64)1 << 60) && RD(D) < ((u64)1 << 60), 2);
  SNAPSHOT(M0);
  u64 r = f_wg_log_encode(DB, TY, D, str ? LEN : 0, str ? E : 0, XLEN);
  CHECK(nfree == nmal, "ens: the buffer is released");
  if (imm || small) { CHECK(r == 0 && !nw, "ens: a value that needs no storage is not journalled"); COVER("imm"); return; }
  if (!num && !str) { CHECK(r != 0 && !nw, "ens: an unknown type is refused"); COVER("unknown"); return; }
  if (mfail) { CHECK(r != 0 && !nw, "ens: failure is reported"); COVER("nomem"); return; }
  done(r);
}
