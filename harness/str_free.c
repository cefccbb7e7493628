//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: free_field_encoffset wg_free_encoded
//@ contracts: free_field_encoffset wg_remove_from_strhash wg_free_object wg_free_shortstr wg_free_doubleword wg_free_word
#include "common.h"
/* Releasing the stored value V.  The fixed-size cell areas are told apart by the area the release names. */
static u64 V, O, XV, RC; static u8 nhash, nrec, nobj, ncell, nfe; static u64 area, carea;
static u8 out_(u64 a, u64 n, u64 b, u64 m) { return (a + n <= b) | (b + m <= a); }
static u8 top;
u64 c_free_field_encoffset(u64 db, u64 e) {
  if (top) { /* called by wg_free_encoded */
    CHECK(db == DB && e == V, "pre: the value itself is released");
    CHECK(IMPL((V & 7) == K_LONGSTRBITS && O > 0 && O < RD(SEG(O_size)), RD(SEG(O + 8 * K_LONGSTR_REFCOUNT_POS)) == RC + 1), "pre: releasing balances one reference");
    nfe++;
    return ND_u64();
  }
  CHECK(db == DB && e == XV && XV != 0 && nhash == 1 && !nobj && !nrec, "pre: the second string is released after the string left its chain");
  nrec++;
  vx_havoc_range(SEG(HDRSIZE), SEG(O)); vx_havoc_range(SEG(O + 48), DBBASE + DBSIZE);
  return ND_u64();
}
u64 c_wg_remove_from_strhash(u64 db, u64 s) {
  CHECK(db == DB && s == V && !nhash && !nrec && !nobj, "pre: the string is intact when it leaves its chain");
  CHECK(RD(SEG(O + 8 * K_LONGSTR_EXTRASTR_POS)) == XV, "pre: the string is intact when it leaves its chain");
  nhash++;
  return FORK(ND_u8(), 2) ? -1 : 0;
}
u64 c_wg_free_object(u64 db, u64 ar, u64 off) {
  CHECK(db == DB && ar == SEG(O_longstr_area_header) && off == O && nhash == 1 && !nobj, "pre: the block of the string is released last");
  CHECK(nrec == (XV != 0), "pre: the second string is released first");
  nobj++;
  return FORK(ND_u8(), 2) ? -1 : 0;
}
static void cell_(u64 db, u64 ar, u64 off) {
  CHECK(db == DB && off == O && !ncell, "pre: the cell of the value is released");
  carea = ar;
  ncell++;
}
void c_wg_free_shortstr(u64 db, u64 off) { cell_(db, O_shortstr_area_header, off); }
void c_wg_free_doubleword(u64 db, u64 off) { cell_(db, O_doubleword_area_header, off); }
void c_wg_free_word(u64 db, u64 off) { cell_(db, O_word_area_header, off); }
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  DEF(SEG(O_size), DBSIZE);
  O = ND_u64(); XV = RC = 0;
  nhash = nrec = nobj = ncell = nfe = top = 0; carea = 0;
}
ENTRY(value_free) {
  setup();
  u64 k = FORK(ND_u8(), 8), far = FORK(ND_u8(), 2), x = ND_u64();
  ASSUME(k != 3 && k != 7 && k != 5); /* 5: a stored integer at an offset that is not a multiple of 8, does not occur with 64-bit words */
  if (far) ASSUME(O > -((u64)1 << 46) && O < ((u64)1 << 46) && (O < 0 || O >= DBSIZE) && (O & 7) == 0);
  else ASSUME(O >= HDRSIZE && O + 56 <= DBSIZE && (O & 7) == 0);
  V = O + k;
  ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  if (k == K_LONGSTRBITS && !far) { XV = RD(SEG(O + 8 * K_LONGSTR_EXTRASTR_POS)); RC = RD(SEG(O + 8 * K_LONGSTR_REFCOUNT_POS)); ASSUME(RC >= 0 && RC < ((u64)1 << 60)); }
  SNAPSHOT(M0);
  u64 r = f_free_field_encoffset(DB, V);
  if (far || k == K_DATARECBITS) {
    CHECK(RD(x) == R0(x) && !nhash && !nobj && !nrec && !ncell, "ens: records and values of other databases are left alone");
    COVER("left");
    return;
  }
  if (k == K_LONGSTRBITS) {
    CHECK(!ncell, "ens: a long string is not released as a cell");
    if (RC > 1) {
      CHECK(!nhash && !nobj && !nrec && RD(SEG(O + 8 * K_LONGSTR_REFCOUNT_POS)) == RC - 1, "ens: a string in use elsewhere stays, with one reference less");
      CHECK(RD(x) == R0(x) || x == SEG(O + 8 * K_LONGSTR_REFCOUNT_POS), "ens: nothing else changes");
      COVER("shared");
    } else {
      CHECK(nhash == 1 && nobj == 1 && nrec == (XV != 0), "ens: the last reference releases the string, its second string and its place in the chain, once each");
      COVER("last");
    }
    return;
  }
  CHECK(ncell == 1 && !nhash && !nobj && !nrec, "ens: a stored value is released once");
  CHECK(carea == (k == K_SHORTSTRBITS ? O_shortstr_area_header : k == K_FULLDOUBLEBITS ? O_doubleword_area_header : O_word_area_header), "ens: the cell goes back to the area it came from");
  CHECK(RD(x) == R0(x), "ens: nothing else changes");
  COVER("cell");
}
ENTRY(encoded_free) {
  setup();
  top = 1;
  V = ND_u64();
  u64 k = FORK(V & 7, 8), x = ND_u64();
  O = V - k;
  if (k == K_LONGSTRBITS) {
    if (FORK(ND_u8(), 2)) ASSUME(O > -((u64)1 << 46) && O < ((u64)1 << 46) && (O < 0 || O >= DBSIZE));
    else { ASSUME(O >= HDRSIZE && O + 56 <= DBSIZE); RC = RD(SEG(O + 8 * K_LONGSTR_REFCOUNT_POS)); ASSUME(RC >= 0 && RC < ((u64)1 << 60)); }
  }
  ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  SNAPSHOT(M0);
  f_wg_free_encoded(DB, V);
  CHECK(nfe == (V != 0 && k != 3 && k != 7), "ens: a value with storage is released once, other values need no release");
  CHECK(RD(x) == R0(x) || (k == K_LONGSTRBITS && x == SEG(O + 8 * K_LONGSTR_REFCOUNT_POS)), "ens: nothing else changes");
  COVER("encoded_free");
}
