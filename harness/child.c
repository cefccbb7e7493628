//@ engine: vx
//@ vx: {"autocut":true,"facts":["SEEN"]}
//@ roots: wg_translate_hdroffset wg_encode_external_data get_ptr_owner is_local_offset wg_get_rec_owner wg_register_external_db
//@ loopinv: get_ptr_owner 0 @n
//@ loopinv: wg_get_rec_owner 0 @n
#include "common.h"
/* Databases that refer to each other: this one at DBBASE, another one EXT bytes away. */
static u64 CNT, K, EXT, ESZ; static u64 SEEN;
GHOST(XO, u64) GHOST(XS, u64)
static u64 wit(void) { u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); return x; }
#define XOF(i) SEG(O_extdbs + OX_offset + 8 * (u64)(i))
#define XSZ(i) SEG(O_extdbs + OX_size + 8 * (u64)(i))
static u64 XB;
u8 mok_extra(u64 a, u64 n) { return (XB != 0) & (a >= XB) & (a + n <= XB + HDRSIZE); }
static void setup(void) {
  XB = 0;
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 64 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  DEF(SEG(O_size), DBSIZE);
  CNT = ND_u64();
  ASSUME(CNT >= 0 && CNT <= K_MAX_EXTDB);
  DEF(SEG(O_extdbs + OX_count), CNT);
}
/* word enc as a reference: offset relative to this database */
static u8 ispt(u64 d) { return (d != 0) & ((d & 3) != 3); }
static u64 off(u64 d) { return d - (d & 7); }
static void value(u64 d) { ASSUME(d > 8192 - DBBASE && d < ((u64)1 << 46)); ASSUME(!ispt(d) | ((d & 7) != 5)); }
ENTRY(child_translate) {
  setup();
  HEAPTOP = HEAPBASE + 128;
  u64 xb = ND_u64(), d = ND_u64(), x = wit();
  ASSUME(xb >= 4096 && xb < ((u64)1 << 46) && (xb & 15) == 0);
  value(d);
  SNAPSHOT(M0);
  u64 r;
  if (FORK(ND_u8(), 2)) r = f_wg_translate_hdroffset(DB, xb, d);
  else { DEF(HEAPBASE + 64, xb); r = f_wg_encode_external_data(DB, HEAPBASE + 64, d); }
  if (!ispt(d)) CHECK(r == d, "ens: a value stored in the word itself is the same in every database");
  else {
    CHECK((r & 7) == (d & 7), "ens: a translated reference has the type it had");
    CHECK(DBBASE + off(r) == xb + off(d), "ens: a translated reference denotes the same address");
  }
  CHECK(RD(x) == R0(x), "ens: translation changes nothing");
  COVER("translate");
}
/* owner of a value: this database, or the registered one whose range contains it */
static u64 D; static u8 inl; static u64 P;
static u8 in(u64 i) { u64 o = off(D), b = XO_(i), s = XS_(i); return (o > b) & (o < b + s); }
static void ext(u64 i) {
  ASSUME(i >= 0 && i < K_MAX_EXTDB);
  DEF(XOF(i), XO_(i)); DEF(XSZ(i), XS_(i));
  u64 b = XO_(i), s = XS_(i);
  ASSUME((b & 7) == 0 && b > 4096 - DBBASE && b < ((u64)1 << 46) && (s & 7) == 0 && s > 0 && s <= ((u64)1 << 40));
  ASSUME(off(D) != b);
}
void LI_ASSERT_get_ptr_owner_0(u64 i) { CHECK(i >= 0 && i <= CNT && !(K >= 0 && K < i && in(K)), "loop invariant: the databases before this one do not own the value"); }
void LI_HAVOC_get_ptr_owner_0(u64 i) { P = i; inl = 1; }
void LI_ASSUME_get_ptr_owner_0(u64 i) { P = i; ASSUME(P >= 0 && P <= CNT); ASSUME(!((K >= 0) & (K < P)) | !in(K)); if (FORK(P < CNT, 2)) ext(P); }
void LI_ASSERT_wg_get_rec_owner_0(u64 i) { LI_ASSERT_get_ptr_owner_0(i); }
void LI_HAVOC_wg_get_rec_owner_0(u64 i) { LI_HAVOC_get_ptr_owner_0(i); }
void LI_ASSUME_wg_get_rec_owner_0(u64 i) { LI_ASSUME_get_ptr_owner_0(i); }
static void ownerpost(u64 r) {
  if (off(D) > 0 && off(D) < DBSIZE) { CHECK(r == DBBASE, "ens: a value inside this database is local"); COVER("local"); return; }
  if (r != 0) { CHECK(inl && P < CNT && in(P) && r == DBBASE + XO_(P), "ens: the owner of a value is the registered database that contains it"); COVER("external"); }
  else { CHECK(!(K >= 0 && K < CNT && in(K)), "ens: every value inside a registered database has an owner"); COVER("none"); }
}
ENTRY(child_owner) {
  setup(); K = ND_u64(); D = ND_u64(); inl = 0; u64 x = wit();
  value(D);
  if (FORK(CNT > 0, 2)) ext(0);
  if (FORK((K >= 0) & (K < CNT), 2)) ext(K);
  SNAPSHOT(M0);
  u64 r = f_get_ptr_owner(DB, D);
  CHECK(RD(x) == R0(x), "ens: asking for the owner changes nothing");
  if (!ispt(D)) { CHECK(r == DBBASE, "ens: a value stored in the word itself is local"); return; }
  if (off(D) == 0) return;
  ownerpost(r);
}
ENTRY(child_recowner) {
  setup(); K = ND_u64(); D = ND_u64(); inl = 0; u64 x = wit();
  ASSUME(D > 8192 - DBBASE && D < ((u64)1 << 46) && (D & 7) == 0 && D != 0);
  if (FORK((K >= 0) & (K < CNT), 2)) ext(K);
  SNAPSHOT(M0);
  u64 r = f_wg_get_rec_owner(DB, DBBASE + D);
  CHECK(RD(x) == R0(x), "ens: asking for the owner changes nothing");
  ownerpost(r);
}
ENTRY(child_local) {
  setup(); u64 x = wit(); u64 o = ND_u64();
  SNAPSHOT(M0);
  CHECK((f_is_local_offset(DB, o) != 0) == (o > 0 && o < DBSIZE), "ens: an offset is local exactly when it is inside the segment");
  CHECK(RD(x) == R0(x), "ens: asking changes nothing");
  COVER("local offset");
}
ENTRY(child_register) {
  setup(); u64 x = wit(), xb = ND_u64();
  HEAPTOP = HEAPBASE + 128;
  ASSUME(xb >= 4096 && xb < ((u64)1 << 46) && (xb & 15) == 0 && (xb + ((u64)1 << 41) <= DBBASE || xb >= DBBASE + DBSIZE));
  XB = xb;
  DEF(HEAPBASE + 64, xb);
  SNAPSHOT(M0);
  u64 r = f_wg_register_external_db(DB, HEAPBASE + 64);
  u64 key = RD(SEG(O_key)), ni = RD(SEG(O_index_control_area_header + OI_number_of_indexes)), xs = RD(xb + O_size);
  if (r == 0) {
    CHECK(key == 0 && ni <= 0 && CNT < K_MAX_EXTDB, "ens: references into other databases are refused in shared memory, with indexes or when the table is full");
    CHECK(RD(SEG(O_extdbs + OX_count)) == CNT + 1 && RD(XOF(CNT)) == xb - DBBASE && RD(XSZ(CNT)) == xs, "ens: a registered database can be recognised from then on");
    CHECK(RD(x) == R0(x) || x == SEG(O_extdbs + OX_count) || x == XOF(CNT) || x == XSZ(CNT), "ens: registration changes nothing else");
    COVER("registered");
  } else {
    CHECK(RD(x) == R0(x), "ens: a refused registration changes nothing");
    CHECK(key != 0 || ni > 0 || CNT >= K_MAX_EXTDB, "ens: a registration is refused only for these reasons");
    COVER("refused");
  }
}
