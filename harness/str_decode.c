//@ engine: vx
//@ vx: {"autocut":true,"facts":[],"unrolled":["wg_decode_unistr_copy"]}
//@ roots: wg_decode_str wg_decode_str_len wg_decode_str_copy wg_decode_str_lang wg_decode_str_lang_len wg_decode_str_lang_copy wg_decode_xmlliteral wg_decode_xmlliteral_len wg_decode_xmlliteral_copy wg_decode_xmlliteral_xsdtype wg_decode_xmlliteral_xsdtype_len wg_decode_xmlliteral_xsdtype_copy wg_decode_uri wg_decode_uri_len wg_decode_uri_copy wg_decode_uri_prefix wg_decode_uri_prefix_len wg_decode_uri_prefix_copy wg_decode_blob wg_decode_blob_len wg_decode_blob_copy wg_decode_blob_type wg_decode_blob_type_len wg_decode_blob_type_copy wg_decode_anonconst wg_get_encoded_type
#include "common.h"
static u64 O, V, TY, LEN, XV, XLEN, SL, B, BL, Q; static u8 shrt;
u8 mok_extra(u64 a, u64 n) { return (a >= B) & (a + n <= B + BL); }
static u64 PTR(void) { return SEG(shrt ? O : O + 8 * K_LONGSTR_HEADER_GINTS); }
static u64 XPTR(void) { return (XV & 7) == K_LONGSTRBITS ? SEG(XV - K_LONGSTRBITS + 8 * K_LONGSTR_HEADER_GINTS) : SEG(XV - K_SHORTSTRBITS); }
u64 x_strlen(u64 a) {
  if (shrt && a == PTR()) return SL;
  CHECK(XV != 0 && a == XPTR(), "pre: the length of a stored string is taken");
  return XLEN;
}
#define FOR_TYPE(f) (TY == K_WG_STRTYPE ? f_wg_decode_str##f(DB, V) : 0)
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  O = ND_u64(); B = ND_u64(); BL = ND_u64(); XLEN = ND_u64(); SL = 0; XV = 0; Q = ND_u64();
  ASSUME(B >= 4096 && BL >= 1 && BL <= ((u64)1 << 41) && ((B + BL <= DBBASE) | ((B >= DBBASE + DBSIZE) & (B + BL <= 2 * DBBASE))));
  ASSUME(XLEN >= 0 && XLEN < DBSIZE);
  u64 t = FORK(ND_u8(), 4);
  TY = t == 0 ? K_WG_STRTYPE : t == 1 ? K_WG_XMLLITERALTYPE : t == 2 ? K_WG_URITYPE : K_WG_BLOBTYPE;
  shrt = t == 0 ? FORK(ND_u8(), 2) : 0;
  if (shrt) {
    ASSUME(O >= HDRSIZE && (O & 7) == 0 && O + K_SHORTSTR_SIZE <= DBSIZE);
    V = O + K_SHORTSTRBITS;
  } else {
    u64 nd = ND_u64(), hb = ND_u8(), dif = ND_u8();
    ASSUME(O >= HDRSIZE && (O & 7) == 0 && (hb == 0 || hb == 2) && nd >= K_LONGSTR_HEADER_GINTS && 8 * nd <= DBSIZE - O && dif >= 48 && dif < 56);
    DEF(SEG(O), 8 * nd + hb); DEF(SEG(O + 8 * K_LONGSTR_META_POS), 256 * dif + TY);
    LEN = 8 * nd - dif;
    ASSUME(LEN >= (TY == K_WG_BLOBTYPE ? 0 : 1));
    V = O + K_LONGSTRBITS;
    XV = RD(SEG(O + 8 * K_LONGSTR_EXTRASTR_POS));
    u64 c = FORK(ND_u8(), 3);
    if (c == 0) ASSUME(XV == 0);
    else {
      ASSUME((XV & 7) == (c == 1 ? K_LONGSTRBITS : K_SHORTSTRBITS) && XV >= HDRSIZE && XV <= DBSIZE - 64);
      ASSUME(XPTR() + XLEN + 1 <= DBBASE + DBSIZE);
    }
  }
}
#define PICK(s, x, u, b) (TY == K_WG_STRTYPE ? (s) : TY == K_WG_XMLLITERALTYPE ? (x) : TY == K_WG_URITYPE ? (u) : (b))
ENTRY(str_access) {
  setup();
  if (shrt) { SL = ND_u64(); ASSUME(SL >= 0 && SL < K_SHORTSTR_SIZE); }
  u64 n = shrt ? SL : TY == K_WG_BLOBTYPE ? LEN : LEN - 1;
  SNAPSHOT(M0);
  u64 p, l, q, xl;
  if (TY == K_WG_STRTYPE) { p = f_wg_decode_str(DB, V); l = f_wg_decode_str_len(DB, V); q = f_wg_decode_str_lang(DB, V); xl = f_wg_decode_str_lang_len(DB, V); }
  else if (TY == K_WG_XMLLITERALTYPE) { p = f_wg_decode_xmlliteral(DB, V); l = f_wg_decode_xmlliteral_len(DB, V); q = f_wg_decode_xmlliteral_xsdtype(DB, V); xl = f_wg_decode_xmlliteral_xsdtype_len(DB, V); }
  else if (TY == K_WG_URITYPE) { p = f_wg_decode_uri(DB, V); l = f_wg_decode_uri_len(DB, V); q = f_wg_decode_uri_prefix(DB, V); xl = f_wg_decode_uri_prefix_len(DB, V); CHECK(f_wg_decode_anonconst(DB, V) == p, "ens: an anonymous constant is read as its name"); }
  else { p = f_wg_decode_blob(DB, V); l = f_wg_decode_blob_len(DB, V); q = f_wg_decode_blob_type(DB, V); xl = f_wg_decode_blob_type_len(DB, V); }
  CHECK(p == PTR(), "ens: reading a string gives its stored bytes");
  CHECK(l == n, "ens: the length of a string is the stored length");
  CHECK(q == (XV ? XPTR() : 0), "ens: the second string is the stored one, if any");
  CHECK(xl == (XV ? XLEN : 0), "ens: the length of the second string is its length, or 0");
  CHECK(f_wg_get_encoded_type(DB, V) == TY, "ens: the type of a string is the type it was stored with");
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  CHECK(RD(x) == R0(x), "ens: reading changes nothing");
  COVER("access");
}
/* copying a string to the buffer B of BL bytes */
ENTRY(str_copy) {
  setup();
  if (shrt) {
    SL = FORK(ND_u8(), 32);
    for (u64 j = 0; j < SL; j++) ASSUME(RD8(SEG(O + j)) != 0);
    ASSUME(RD8(SEG(O + SL)) == 0);
  }
  u64 n = shrt ? SL + 1 : LEN, y = ND_u64(), z = ND_u64();
  ASSUME(y >= 0 && y < n && (z < B || z >= B + BL) && z >= 4096 && z < ((u64)1 << 47));
  SNAPSHOT(M0);
  u64 r = TY == K_WG_STRTYPE ? f_wg_decode_str_copy(DB, V, B, BL) : TY == K_WG_XMLLITERALTYPE ? f_wg_decode_xmlliteral_copy(DB, V, B, BL) : TY == K_WG_URITYPE ? f_wg_decode_uri_copy(DB, V, B, BL) : f_wg_decode_blob_copy(DB, V, B, BL);
  CHECK(RD8(z) == R08(z), "ens: nothing outside the buffer changes");
  if (r == -1) { CHECK(BL < n, "ens: copying is refused only if the buffer is too small"); COVER("small"); return; }
  CHECK(BL >= n && r == (TY == K_WG_BLOBTYPE ? n : n - 1), "ens: the number of bytes copied is reported");
  CHECK(RD8(B + y) == R08(PTR() + y), "ens: all bytes of the string are copied");
  COVER("copy");
}
ENTRY(lang_copy) {
  setup();
  u64 n = XLEN + 1, y = ND_u64(), z = ND_u64();
  ASSUME(y >= 0 && y < n && (z < B || z >= B + BL) && z >= 4096 && z < ((u64)1 << 47));
  SNAPSHOT(M0);
  u64 r = TY == K_WG_STRTYPE ? f_wg_decode_str_lang_copy(DB, V, B, BL) : TY == K_WG_XMLLITERALTYPE ? f_wg_decode_xmlliteral_xsdtype_copy(DB, V, B, BL) : TY == K_WG_URITYPE ? f_wg_decode_uri_prefix_copy(DB, V, B, BL) : f_wg_decode_blob_type_copy(DB, V, B, BL);
  CHECK(RD8(z) == R08(z), "ens: nothing outside the buffer changes");
  if (XV == 0) { CHECK(r == 0 && RD8(B) == 0, "ens: without a second string the buffer holds an empty string"); COVER("nolang"); return; }
  if (r == -1) { CHECK(BL < n, "ens: copying is refused only if the buffer is too small"); COVER("small"); return; }
  CHECK(BL >= n && r == XLEN, "ens: the number of bytes copied is reported");
  CHECK(RD8(B + y) == R08(XPTR() + y), "ens: all bytes of the second string are copied");
  COVER("langcopy");
}
