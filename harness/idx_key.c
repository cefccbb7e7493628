//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_decode_for_hashing
//@ contracts: wg_get_encoded_type wg_decode_int wg_decode_char wg_decode_double wg_decode_fixpoint wg_decode_date wg_decode_time wg_decode_var wg_decode_str wg_decode_str_len wg_decode_uri wg_decode_uri_len wg_decode_uri_prefix wg_decode_xmlliteral wg_decode_xmlliteral_len wg_decode_xmlliteral_xsdtype wg_decode_xmlliteral_xsdtype_len wg_decode_uri_prefix_len
#include "common.h"
/* The bytes a value is hashed and compared by: its type, then the whole value. */
#define P2 ((u64)1 << 46)
#define D (P2 + 4096)
#define E (P2 + ((u64)1 << 42))
#define OUT (P2 + ((u64)2 << 42))
#define TMP (P2 + ((u64)3 << 42))
static u64 ENC, TY, V, LEN, XLEN, OUTN, TMPN, RP, N; static u8 ext, nout, ntmp, fout, ftmp, c1, c2, c3, zero;
u8 mok_extra(u64 a, u64 n) { return (nout == 1 && a >= OUT && a + n <= OUT + OUTN) | (ntmp == 1 && !ftmp && a >= TMP && a + n <= TMP + TMPN) | ((a >= D) & (a + n <= D + LEN)); }
u64 c_wg_get_encoded_type(u64 db, u64 e) { CHECK(db == DB && e == ENC, "pre: the type of the value is asked"); return TY; }
#define DEC(f, ty) u64 c_##f(u64 db, u64 e) { CHECK(db == DB && e == ENC && TY == ty, "pre: the value is decoded as what it is"); return V; }
#define DECD(f, ty) double c_##f(u64 db, u64 e) { CHECK(db == DB && e == ENC && TY == ty, "pre: the value is decoded as what it is"); return *(double *)&V; }
#define DEC32(f, ty) u32 c_##f(u64 db, u64 e) { CHECK(db == DB && e == ENC && TY == ty, "pre: the value is decoded as what it is"); return (u32)V; }
DEC(wg_decode_int, K_WG_INTTYPE) DEC(wg_decode_var, K_WG_VARTYPE) DECD(wg_decode_double, K_WG_DOUBLETYPE) DECD(wg_decode_fixpoint, K_WG_FIXPOINTTYPE)
DEC32(wg_decode_date, K_WG_DATETYPE) DEC32(wg_decode_time, K_WG_TIMETYPE)
u8 c_wg_decode_char(u64 db, u64 e) { CHECK(db == DB && e == ENC && TY == K_WG_CHARTYPE, "pre: the value is decoded as what it is"); return (u8)V; }
#define DECS(f, ty, r) u64 c_##f(u64 db, u64 e) { CHECK(db == DB && e == ENC && TY == ty, "pre: the string is decoded as what it is"); return r; }
#define DECX(f, r) u64 c_##f(u64 db, u64 e) { CHECK(db == DB && e == ENC && (TY == K_WG_URITYPE || TY == K_WG_XMLLITERALTYPE), "pre: the second part is decoded"); return r; }
DECS(wg_decode_str, K_WG_STRTYPE, D) DECS(wg_decode_str_len, K_WG_STRTYPE, LEN) DECS(wg_decode_uri, K_WG_URITYPE, D) DECS(wg_decode_uri_len, K_WG_URITYPE, LEN)
DECS(wg_decode_xmlliteral, K_WG_XMLLITERALTYPE, D) DECS(wg_decode_xmlliteral_len, K_WG_XMLLITERALTYPE, LEN)
DECX(wg_decode_uri_prefix, ext ? E : 0) DECX(wg_decode_xmlliteral_xsdtype, ext ? E : 0) DECX(wg_decode_xmlliteral_xsdtype_len, ext ? XLEN : 0) DECX(wg_decode_uri_prefix_len, ext ? XLEN : 0)
static u8 isstr(void) { return (TY == K_WG_STRTYPE) | (TY == K_WG_URITYPE) | (TY == K_WG_XMLLITERALTYPE); }
u64 x_malloc(u64 n) {
  CHECK(n > 0 && n < ((u64)1 << 42), "pre: a buffer is allocated");
  if (ext && isstr() && !ntmp && !nout) { ntmp = 1; if (FORK(ND_u8(), 2)) { ntmp = 9; return 0; } TMPN = n; return TMP; }
  CHECK(!nout, "pre: one buffer is returned"); nout = 1;
  if (FORK(ND_u8(), 2)) { nout = 9; return 0; }
  OUTN = n; return OUT;
}
void x_free(u64 p) { if (p == 0) return; CHECK(p == TMP && ntmp == 1 && !ftmp, "pre: the buffer of the parts is released"); ftmp = 1; }
u64 x_memcpy(u64 d, u64 s, u64 n, u8 v) {
  if (d == TMP) { CHECK(ext && s == E && n == XLEN && n + 1 + LEN <= TMPN, "pre: the second part comes first"); c1 = 1; return d; }
  if (c1 && !c2) { CHECK(d == TMP + XLEN + 1 && s == D && n == LEN && n + XLEN + 1 <= TMPN, "pre: the bytes of the value follow, separated"); c2 = 1; return d; }
  CHECK(nout == 1 && !c3 && d == OUT + 1 && n + 1 <= OUTN, "pre: the value follows its type"); c3 = 1; N = n;
  if (isstr()) { if (ext) CHECK(c1 && c2 && !ftmp && s == TMP && n == XLEN + 1 + LEN && (RD8(TMP + XLEN)) == 0, "pre: both parts of the value are taken"); else CHECK(s == D && n == LEN, "pre: all bytes of the value are taken"); }
  else if (TY == K_WG_DOUBLETYPE || TY == K_WG_FIXPOINTTYPE) CHECK(n == 8 && RD(s) == V, "pre: the whole number is taken");
  else if (TY == K_WG_NULLTYPE) CHECK(n == 8 && RD(s) == 0, "pre: null has one form");
  else if (TY == K_WG_RECORDTYPE) CHECK(n == 8 && RD(s) == ENC, "pre: a record is told by its offset");
  else if (n == 4) CHECK((s64)(s32)RD32(s) == (s64)V, "pre: the whole number is taken");
  else CHECK(n == 8 && RD(s) == V && (s64)(s32)V != (s64)V, "pre: the whole number is taken, in one form");
  return d;
}
ENTRY(idx_key) {
  DBSIZE = HDRSIZE; HEAPTOP = HEAPBASE + 64; DEF(HEAPBASE, DBBASE); RP = HEAPBASE + 32;
  ENC = ND_u64(); V = ND_u64(); LEN = ND_u64(); XLEN = ND_u64(); ext = FORK(ND_u8(), 2);
  ASSUME(LEN >= 0 && LEN < ((u64)1 << 40) && XLEN >= 0 && XLEN < ((u64)1 << 40));
  TY = FORK(ND_u8(), 16); nout = ntmp = fout = ftmp = c1 = c2 = c3 = 0; N = 0;
  if (TY == K_WG_STRTYPE) ext = 0;
  if (TY == K_WG_CHARTYPE) ASSUME((s64)V >= -128 && (s64)V < 128);
  if (TY == K_WG_DATETYPE || TY == K_WG_TIMETYPE) ASSUME((s64)V >= -((s64)1 << 31) && (s64)V < ((s64)1 << 31));
  u64 r = f_wg_decode_for_hashing(DB, ENC, RP);
  u8 known = isstr() | (TY == K_WG_DOUBLETYPE) | (TY == K_WG_FIXPOINTTYPE) | (TY == K_WG_NULLTYPE) | (TY == K_WG_RECORDTYPE) | (TY == K_WG_INTTYPE) | (TY == K_WG_CHARTYPE) | (TY == K_WG_DATETYPE) | (TY == K_WG_TIMETYPE) | (TY == K_WG_VARTYPE);
  CHECK(ntmp != 1 || ftmp, "ens: the buffer of the parts is released");
  if (r == 0) { CHECK(!known || nout == 9 || ntmp == 9, "ens: a value of a type that can be indexed has a key"); CHECK(nout != 1, "ens: nothing is left allocated"); COVER("none"); return; }
  CHECK(known && nout == 1 && c3 && r == N + 1 && RD(RP) == OUT && (RD8(OUT) & 255) == TY, "ens: the key is the type followed by the whole value");
  COVER("key");
}
