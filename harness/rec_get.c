//@ roots: wg_get_field wg_get_field_type wg_get_record_len wg_get_record_dataarray wg_get_encoded_type
//@ cut: *=unroll
#include "common.h"
static u64 R, L; static s64 F;
/* an arbitrary record: a block in use, inside the segment, of any length */
static void rec(void) {
  setup_db();
  R = ND_u64(); ASSUME(R >= HDRSIZE && R < DBSIZE && (R & 7) == 0);
  u64 h = RD(SEG(R));
  ASSUME((h & 1) == 0 && (h & 4) == 0 && (h >> 3) >= K_RECORD_HEADER_GINTS);
  L = (h >> 3) - K_RECORD_HEADER_GINTS;
  ASSUME((h >> 3) <= (DBSIZE >> 3) && R + 8 * (h >> 3) <= DBSIZE);
  F = (s64)ND_u64();
}
static u64 wit(void) { u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); return x; }
#define FLD(f) SEG(R + 8 * (K_RECORD_HEADER_GINTS + (u64)(f)))
ENTRY(rec_get) {
  rec(); SNAPSHOT(M0); u64 x = wit();
  u64 v = f_wg_get_field(DB, SEG(R), (u64)F);
  if (F >= 0 && F < (s64)L) { CHECK(v == RD(FLD(F)), "ens: a field of the record reads as the word stored in it"); COVER("get ok"); }
  else { CHECK(v == K_WG_ILLEGAL, "ens: a field number outside the record is refused"); COVER("get refused"); }
  CHECK(RD(x) == R0(x), "ens: reading changes nothing");
}
ENTRY(rec_type) {
  rec(); SNAPSHOT(M0); u64 x = wit();
  if (F >= 0 && F < (s64)L) {
    u64 d = RD(FLD(F));
    /* a stored word is an encoded value: long strings are inside the segment */
    ASSUME((d & 7) != K_LONGSTRBITS || ((s64)d > 0 && d < DBSIZE - 64));
    CHECK(f_wg_get_field_type(DB, SEG(R), (u64)F) == f_wg_get_encoded_type(DB, d), "ens: the type of a field is the type of its value");
    COVER("type ok");
  } else { CHECK(f_wg_get_field_type(DB, SEG(R), (u64)F) == 0, "ens: the type of a field outside the record is refused"); COVER("type refused"); }
  CHECK(RD(x) == R0(x), "ens: reading changes nothing");
}
ENTRY(rec_len) {
  rec(); SNAPSHOT(M0); u64 x = wit();
  CHECK(f_wg_get_record_len(DB, SEG(R)) == L, "ens: the length of a record is its number of fields");
  CHECK(f_wg_get_record_dataarray(DB, SEG(R)) == FLD(0), "ens: the data array starts at the first field");
  CHECK(RD(x) == R0(x), "ens: reading changes nothing");
  COVER("len");
}
