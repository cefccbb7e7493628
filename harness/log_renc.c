//@ roots: recover_encode
//@ contracts: fget_varint wg_encode_int wg_encode_double wg_encode_unistr wg_encode_uniblob
//@ cut: *=unroll
#include "common.h"
/* Parsing the entry of an encoded value: what was journalled is encoded again with the same type, bytes and length. */
static u64 TY, LEN, XLEN, VAL, RES; static u8 nvar, nread, nmal, nfree1, nfree2, nenc, vfail, rfail, mfail, isstr;
#define F GLOBASE
#define B1 (HEAPBASE + 4096)
#define B2 (HEAPBASE + 4096 + ((u64)1 << 41))
static u8 want(void) { return (u8)(isstr ? (XLEN ? 2 : 1) : 1); }
u32 c_fget_varint(u64 db, u64 f, u64 pv) {
  CHECK(f == F && isstr && nvar < 2 && !nread && !vfail, "pre: both lengths are read first");
  vfail = ND_u8() & 1;
  if (vfail) return (u32)-1;
  WR(pv, nvar ? XLEN : LEN); nvar++; return 0;
}
u64 x_malloc(u64 n) {
  CHECK(nvar == 2 && nmal < 2 && !mfail, "pre: buffers are allocated when their size is known");
  CHECK(n >= (nmal ? XLEN : LEN) + 1, "pre: there is room for the bytes and a terminator");
  mfail = ND_u8() & 1;
  if (mfail) return 0;
  return nmal++ ? B2 : B1;
}
void x_free(u64 p) {
  if (p == 0) return;
  CHECK((p == B1 && nmal >= 1 && !nfree1) || (p == B2 && nmal == 2 && !nfree2), "pre: a buffer is released once");
  if (p == B1) nfree1 = 1; else nfree2 = 1;
}
u64 x_fread(u64 p, u64 s, u64 n, u64 f) {
  CHECK(f == F && !rfail && !vfail && !mfail && nread < want(), "pre: exactly the bytes of the entry are read");
  if (isstr) CHECK(s * n == (nread ? XLEN : LEN) && p == (nread ? B2 : B1) && (nread ? nmal == 2 : nmal >= 1) && !nfree1 && !nfree2, "pre: the bytes are read into a buffer of their own");
  else CHECK(s * n == 8, "pre: the whole number is read");
  rfail = ND_u8() & 1;
  if (rfail) { u64 m = ND_u64(); ASSUME(m < n || (n == 0 && 0)); return m; }
  if (!isstr) WR(p, VAL);
  nread++;
  return n;
}
static u64 result(void) { nenc++; return RES; }
u64 c_wg_encode_int(u64 db, u64 v) { CHECK(db == DB && TY == K_WG_INTTYPE && nread == 1 && v == VAL, "pre: the journalled integer is encoded"); return result(); }
u64 c_wg_encode_double(u64 db, double v) { CHECK(db == DB && TY == K_WG_DOUBLETYPE && nread == 1 && (D2BITS(v) == VAL || v != v), "pre: the journalled double is encoded"); return result(); }
static void strok(u64 db, u64 s, u64 x, u64 t) {
  CHECK(db == DB && isstr && t == TY && nread == want() && s == B1 && RD8(B1 + LEN) == 0 && !nfree1 && !nfree2, "pre: the journalled bytes are encoded with their type");
  CHECK(XLEN ? (x == B2 && RD8(B2 + XLEN) == 0) : x == 0, "pre: the second part is encoded exactly when there is one");
}
u64 c_wg_encode_unistr(u64 db, u64 s, u64 x, u64 t) { strok(db, s, x, t); CHECK(TY != K_WG_BLOBTYPE, "pre: a blob is not encoded as a string"); return result(); }
u64 c_wg_encode_uniblob(u64 db, u64 s, u64 x, u64 t, u64 n) { strok(db, s, x, t); CHECK(TY == K_WG_BLOBTYPE && n == LEN, "pre: a blob keeps its length"); return result(); }
ENTRY(log_renc) {
  setup_db();
  HEAPTOP = HEAPBASE + 4096 + ((u64)1 << 42);
  TY = ND_u64(); LEN = ND_u64(); XLEN = ND_u64(); VAL = ND_u64(); RES = ND_u64();
  ASSUME(TY < 32 && LEN < ((u64)1 << 40) && XLEN < ((u64)1 << 40));
  nvar = nread = nmal = nfree1 = nfree2 = nenc = vfail = rfail = mfail = 0;
  isstr = TY == K_WG_STRTYPE || TY == K_WG_URITYPE || TY == K_WG_XMLLITERALTYPE || TY == K_WG_ANONCONSTTYPE || TY == K_WG_BLOBTYPE;
  SNAPSHOT(M0); u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  u64 r = f_recover_encode(DB, F, TY);
  CHECK(nfree1 == (nmal >= 1) && nfree2 == (nmal == 2), "ens: the buffers are released");
  CHECK(RD(x) == R0(x), "ens: parsing changes the database only by encoding");
  if (!isstr && TY != K_WG_INTTYPE && TY != K_WG_DOUBLETYPE) { CHECK(r == K_WG_ILLEGAL && !nenc, "ens: an unknown type is an error"); COVER("unknown"); return; }
  if (vfail || rfail || mfail) { CHECK(r == K_WG_ILLEGAL && !nenc, "ens: an incomplete entry is an error"); COVER("incomplete"); return; }
  CHECK(nenc == 1 && r == RES, "ens: the value is encoded once and its word returned");
  if (isstr) { COVER("string"); } else { COVER("number"); }
}
