//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_compare wg_get_encoded_type wg_decode_int
//@ contracts: wg_compare wg_decode_str wg_decode_uri wg_decode_uri_prefix wg_decode_xmlliteral wg_decode_xmlliteral_xsdtype wg_decode_blob wg_decode_blob_len wg_get_record_len wg_get_rec_owner wg_get_field wg_translate_hdroffset
//@ loopinv: wg_compare 0 @n
#include "common.h"
/* Ordering of two encoded values A and B.  The bytes of a string (and of its second part) stand for a point in the
 * order of strings, SA, SB (XA, XB); floating-point numbers are in cmp_double.c. */
static u64 A, B, SA, SB, XA, XB, LA, LB; static u8 NA, NB, nm;
#define ADA 0x500000000000UL
#define ADB 0x500000010000UL
#define AXA 0x600000000000UL
#define AXB 0x600000010000UL
u8 mok_extra(u64 a, u64 n) { return ((a == AXA) | (a == AXB)) & (n == 1); }
u64 c_wg_decode_str(u64 db, u64 v) { CHECK(v == A || v == B, "pre: one of the values"); return v == A ? ADA : ADB; }
u64 c_wg_decode_uri(u64 db, u64 v) { CHECK(v == A || v == B, "pre: one of the values"); return v == A ? ADA : ADB; }
u64 c_wg_decode_xmlliteral(u64 db, u64 v) { CHECK(v == A || v == B, "pre: one of the values"); return v == A ? ADA : ADB; }
u64 c_wg_decode_blob(u64 db, u64 v) { CHECK(v == A || v == B, "pre: one of the values"); return v == A ? ADA : ADB; }
u64 c_wg_decode_uri_prefix(u64 db, u64 v) { CHECK(v == A || v == B, "pre: one of the values"); return v == A ? (NA ? 0 : AXA) : NB ? 0 : AXB; }
u64 c_wg_decode_xmlliteral_xsdtype(u64 db, u64 v) { CHECK(v == A || v == B, "pre: one of the values"); return v == A ? (NA ? 0 : AXA) : NB ? 0 : AXB; }
u64 c_wg_decode_blob_len(u64 db, u64 v) { CHECK(v == A || v == B, "pre: one of the values"); return v == A ? LA : LB; }
static u64 rank(u64 a) {
  if (a == ADA) return SA;
  if (a == ADB) return SB;
  if (a == AXA) return XA;
  if (a == AXB) return XB;
  CHECK(RD8(a + 1) == 0, "pre: a character is compared as a string of one character");
  u64 c = RD8(a);
  return c < 0 ? c + 256 : c;
}
static u32 sign_(u64 x, u64 y) { s32 r = (s32)ND_u32(); if (x < y) ASSUME(r < 0); else if (x > y) ASSUME(r > 0); else ASSUME(r == 0); return (u32)r; }
u32 x_strcmp(u64 a, u64 b) { return sign_(rank(a), rank(b)); }
u32 x_memcmp(u64 a, u64 b, u64 n) {
  CHECK(((a == ADA && b == ADB) || (a == ADB && b == ADA)) && n == (LA < LB ? LA : LB), "pre: the bytes that two blobs both have are compared");
  nm++;
  return sign_(rank(a), rank(b));
}
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  nm = 0;
}
static u64 value(void) {
  u64 v = ND_u64(), t = FORK(v & 7, 8);
  ASSUME(t != 5 && t != K_FULLDOUBLEBITS);
  if (t == 3 || t == 7 || v == 0) return v;
  ASSUME(v >= HDRSIZE && v < DBSIZE - 64);
  return v;
}
static void valid(u64 v, u64 y) {
  ASSUME(y >= K_WG_NULLTYPE && y <= K_WG_VARTYPE && y != K_WG_FIXPOINTTYPE);
  u64 s = v >> 8;
  if (y == K_WG_DATETYPE) ASSUME(s >= -((u64)1 << 31) && s < ((u64)1 << 31));
  if (y == K_WG_TIMETYPE) ASSUME(s >= 0 && s < 1 << 24);
  if (y == K_WG_CHARTYPE) ASSUME(s >= 0 && s < 256);
  if ((v & 7) == K_LONGSTRBITS) ASSUME(y == K_WG_STRTYPE || y == K_WG_XMLLITERALTYPE || y == K_WG_URITYPE || y == K_WG_BLOBTYPE);
}
static u64 sg(u64 a, u64 b) { return a > b ? 1 : a < b ? -1 : 0; }
/* ---- anything but two records, or records when the depth is used up */
ENTRY(cmp_order) {
  setup();
  A = value(); B = value();
  ASSUME(A != B);
  SA = ND_u64(); SB = ND_u64(); XA = ND_u64(); XB = ND_u64(); LA = ND_u64(); LB = ND_u64(); NA = FORK(ND_u8(), 2); NB = FORK(ND_u8(), 2);
  ASSUME(LA >= 0 && LB >= 0 && LA <= ((u64)1 << 40) && LB <= ((u64)1 << 40));
  ASSUME(SA >= 0 && SB >= 0 && XA >= 0 && XB >= 0 && (RD8(AXA) == 0) == (XA == 0) && (RD8(AXB) == 0) == (XB == 0));
  u64 a = f_wg_get_encoded_type(DB, A), b = f_wg_get_encoded_type(DB, B);
  valid(A, a); valid(B, b);
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  SNAPSHOT(M0);
  u64 r = f_wg_compare(DB, A, B, 0);
  CHECK(RD(x) == R0(x), "ens: comparing changes nothing");
  if (a != b) { CHECK(r == sg(a, b), "ens: values of different types are ordered by type"); COVER("types"); return; }
  if (a == K_WG_INTTYPE) { CHECK(r == sg(f_wg_decode_int(DB, A), f_wg_decode_int(DB, B)), "ens: integers are in numerical order"); COVER("int"); }
  else if (a == K_WG_STRTYPE) { CHECK(r == sg(SA, SB), "ens: strings are in the order of their bytes"); COVER("str"); }
  else if (a == K_WG_URITYPE || a == K_WG_XMLLITERALTYPE) {
    u64 p = NA ? 0 : XA, q = NB ? 0 : XB;
    CHECK(r == (p != q ? sg(p, q) : sg(SA, SB)), "ens: prefix or type come first, then the bytes; an absent one counts as empty"); COVER("uri");
  } else if (a == K_WG_BLOBTYPE) { CHECK(nm == 1 && r == (SA != SB ? sg(SA, SB) : sg(LA, LB)), "ens: blobs are ordered by the bytes they both have, then by length"); COVER("blob"); }
  else if (a == K_WG_RECORDTYPE) { CHECK(r == sg(A, B), "ens: records are ordered by address when the depth is used up"); COVER("rec"); }
  else if (a == K_WG_ANONCONSTTYPE) CHECK(r == sg(A, B), "ens: the order of anonymous constants is fixed");
  else if (a == K_WG_VARTYPE) CHECK(r == sg(A >> 4, B >> 4), "ens: variables are in order");
  else { CHECK(r == sg(A >> 8, B >> 8), "ens: characters, dates and times are in order"); COVER("imm"); }
}
/* ---- two records, element by element */
GHOST(EA, u64) GHOST(EB, u64) GHOST(EC, u64) GHOST(TA, u64) GHOST(TB, u64)
static u64 DEPTH, OWA, OWB, K, LP; static u8 inl, ncmp;
static u64 ea(u64 i) { return OWA == DBBASE ? EA_(i) : TA_(i); }
static u64 eb(u64 i) { return OWB == DBBASE ? EB_(i) : TB_(i); }
u64 c_wg_get_record_len(u64 db, u64 r) { CHECK(db == DB && (r == SEG(A) || r == SEG(B)), "pre: the length of one of the records"); return r == SEG(A) ? LA : LB; }
u64 c_wg_get_rec_owner(u64 db, u64 r) { CHECK(db == DB && (r == SEG(A) || r == SEG(B)), "pre: the database of one of the records"); return r == SEG(A) ? OWA : OWB; }
u64 c_wg_get_field(u64 db, u64 r, u64 f) {
  CHECK(db == DB && (r == SEG(A) || r == SEG(B)) && inl && f == LP && LP < LA, "pre: the next element of one of the records");
  return r == SEG(A) ? EA_(LP) : EB_(LP);
}
u64 c_wg_translate_hdroffset(u64 db, u64 h, u64 e) {
  CHECK(db == DB && inl && ((h == OWA && e == EA_(LP)) || (h == OWB && e == EB_(LP))), "pre: an element is translated from the database of its record");
  if (FORK(OWA == OWB, 2)) return e == EA_(LP) && !(e == EB_(LP)) ? TA_(LP) : TB_(LP);
  return h == OWA ? TA_(LP) : TB_(LP);
}
u64 c_wg_compare(u64 db, u64 a, u64 b, u32 d) {
  CHECK(db == DB && inl && a == ea(LP) && b == eb(LP) && a != b, "pre: the next two elements are compared");
  CHECK(d == DEPTH - 1, "pre: the depth decreases");
  ncmp++;
  return EC_(LP);
}
static u64 res(u64 i) { return ea(i) == eb(i) ? 0 : EC_(i); }
void LI_ASSERT_wg_compare_0(u64 i) {
  u64 n = inl ? LP + 1 : 0;
  CHECK(i == n && i <= LA, "loop invariant: elements are compared in order");
  CHECK(K >= n || res(K) == 0, "loop invariant: the elements passed are equal");
}
void LI_HAVOC_wg_compare_0(u64 i) { LP = ND_u64(); inl = 1; ncmp = 0; }
void LI_ASSUME_wg_compare_0(u64 i) {
  ASSUME(LP >= 0 && LP <= LA && i == LP && (K >= LP || res(K) == 0));
  ASSUME(EC_(LP) >= -1 && EC_(LP) <= 1);
  ASSUME(IMPL((OWA == OWB) & (EA_(LP) == EB_(LP)), TA_(LP) == TB_(LP)));
}
ENTRY(cmp_records) {
  setup();
  A = ND_u64(); B = ND_u64(); LA = ND_u64(); LB = ND_u64(); OWA = ND_u64(); OWB = ND_u64(); DEPTH = ND_u64(); K = ND_u64(); inl = 0;
  ASSUME((A & 7) == K_DATARECBITS && (B & 7) == K_DATARECBITS && A != B && A != 0 && B != 0);
  ASSUME(A > -((u64)1 << 46) && A < ((u64)1 << 46) && B > -((u64)1 << 46) && B < ((u64)1 << 46));
  ASSUME(LA >= 0 && LA < ((u64)1 << 31) && LB >= 0 && LB < ((u64)1 << 31) && DEPTH >= 1 && DEPTH < 1000 && K >= 0);
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  SNAPSHOT(M0);
  u64 r = f_wg_compare(DB, A, B, (u32)DEPTH);
  CHECK(RD(x) == R0(x), "ens: comparing changes nothing");
  if (LA != LB) { CHECK(r == sg(LA, LB), "ens: a longer record is greater"); COVER("lengths"); return; }
  CHECK(K >= (r == 0 ? LA : LP) || res(K) == 0, "ens: the elements before the deciding one are equal");
  CHECK(r == 0 || (LP < LA && r == res(LP)), "ens: the first elements that differ decide");
  COVER("records");
}
