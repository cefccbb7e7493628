//@ roots: wg_encode_int wg_encode_double
//@ contracts: wg_alloc_fixlen_object wg_log_encode wg_log_encval
//@ cut: *=unroll
#include "common.h"
/* Encoding a number that needs storage: journalled before it is stored, and where it was stored journalled after. */
static u64 V, CELL; static u8 nenc, nval, ncell, logon, encfail, valfail, dbl; static u64 LV;
u64 c_wg_log_encode(u64 db, u64 t, u64 d, u64 n, u64 e, u64 en) {
  CHECK(db == DB && logon && !ncell && !nenc, "pre: encoding is journalled before it is done");
  CHECK(t == (dbl ? K_WG_DOUBLETYPE : K_WG_INTTYPE) && RD(d) == V, "pre: the whole number is journalled");
  nenc++; encfail = ND_u8() & 1;
  return encfail ? (u64)-1 : 0;
}
u64 c_wg_log_encval(u64 db, u64 v) {
  CHECK(db == DB && logon && nenc == 1 && !nval && ncell, "pre: the result is journalled");
  CHECK(v == (CELL ? CELL | (dbl ? K_FULLDOUBLEBITS : K_FULLINTBITS) : K_WG_ILLEGAL), "pre: the word of the stored number is journalled");
  nval++; valfail = ND_u8() & 1;
  return valfail ? (u64)-1 : 0;
}
u64 c_wg_alloc_fixlen_object(u64 db, u64 area) {
  CHECK(db == DB && !ncell && area == SEG(dbl ? O_doubleword_area_header : O_word_area_header), "pre: a cell of the right size is taken");
  CHECK(!logon || (nenc && !encfail), "pre: encoding is journalled before it is done");
  ncell++;
  CELL = ND_u64();
  ASSUME(CELL == 0 || (CELL >= HDRSIZE && CELL <= DBSIZE - 8 && (CELL & 7) == 0));
  return CELL;
}
ENTRY(log_num) {
  setup_db(); V = ND_u64(); dbl = ND_u8() & 1;
  nenc = nval = ncell = encfail = valfail = 0; CELL = 0;
  logon = RD(SEG(O_logging + OG_active)) != 0;
  u64 r = dbl ? f_wg_encode_double(DB, BITS2D(V)) : f_wg_encode_int(DB, V);
  u8 small = !dbl && (s64)(V << 3) >> 3 == (s64)V;
  if (small) { CHECK(!nenc && !nval && !ncell, "ens: a number that needs no storage is not journalled"); COVER("small"); return; }
  if (encfail) { CHECK(r == K_WG_ILLEGAL && !ncell, "ens: nothing is stored when the journal cannot be written"); COVER("nolog"); return; }
  CHECK(ncell == 1 && nenc == logon && nval == logon, "ens: a stored number and its word are journalled exactly when the journal is on");
  CHECK(valfail || !CELL || r != K_WG_ILLEGAL, "ens: encoding succeeds when there is storage");
  CHECK(!(valfail || !CELL) || r == K_WG_ILLEGAL, "ens: failure of storage or the journal is reported");
  COVER("stored");
}
