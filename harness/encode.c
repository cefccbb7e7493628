//@ roots: wg_encode_null wg_decode_null wg_encode_int wg_decode_int wg_encode_char wg_decode_char wg_encode_double wg_decode_double wg_encode_fixpoint wg_decode_fixpoint wg_encode_date wg_decode_date wg_encode_time wg_decode_time wg_encode_record wg_decode_record wg_encode_var wg_decode_var wg_get_encoded_type
//@ contracts: wg_alloc_fixlen_object wg_log_encode wg_log_encval
//@ cut: *=unroll
/* double multiplication and division by the divisor are left uninterpreted (same operands, same result) */
double __CPROVER_uninterpreted_fmul(double, double);
double __CPROVER_uninterpreted_fdiv(double, double);
#define FP_MUL(a,b) __CPROVER_uninterpreted_fmul(a,b)
#define FP_DIV(a,b) __CPROVER_uninterpreted_fdiv(a,b)
#include "common.h"
/* contract of the fixed-length allocator: 0, or an 8-byte aligned cell inside the segment, past the header */
static u64 cell; static int cell_used;
u64 c_wg_alloc_fixlen_object(u64 db, u64 area) {
  u64 o = ND_u64();
  CHECK(db == DB, "pre: allocation is made in the database of the call");
  ASSUME(o == 0 || (o >= HDRSIZE && o <= DBSIZE - 8 && (o & 7) == 0));
  cell_used = o != 0;
  cell = o;
  return o;
}
u64 c_wg_log_encode(u64 db, u64 type, u64 data, u64 length, u64 ext, u64 extlen) { return (s64)(s32)ND_u32(); }
u64 c_wg_log_encval(u64 db, u64 enc) { return (s64)(s32)ND_u32(); }
#define FRAME(x, allowed) CHECK((allowed) || RD(x) == R0(x), "ens: encoding and decoding change no other database memory")
static u64 wit(void) { u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); return x; }
ENTRY(e_null) {
  setup_db(); SNAPSHOT(M0); u64 x = wit();
  u64 e = f_wg_encode_null(DB, 0);
  CHECK(e == 0, "ens: null encodes to zero");
  CHECK(f_wg_get_encoded_type(DB, e) == K_WG_NULLTYPE, "ens: type of an encoded null is null");
  CHECK(f_wg_decode_null(DB, e) == 0, "ens: null decodes to null");
  FRAME(x, 0); COVER("e_null");
}
ENTRY(e_int) {
  setup_db(); SNAPSHOT(M0); u64 x = wit(); cell_used = 0;
  u64 d = ND_u64();
  u64 e = f_wg_encode_int(DB, d);
  u8 small = ((s64)(d << 3) >> 3) == (s64)d;
  CHECK(IMPL(e == K_WG_ILLEGAL, !small), "ens: an integer of up to 61 bits always encodes");
  CHECK(IMPL(small, !cell_used), "ens: an integer of up to 61 bits needs no storage");
  FRAME(x, cell_used && x == SEG(cell));
  if (e == K_WG_ILLEGAL) return;
  CHECK(f_wg_get_encoded_type(DB, e) == K_WG_INTTYPE, "ens: type of an encoded integer is int");
  CHECK(f_wg_decode_int(DB, e) == d, "ens: integer decodes to itself");
  if (small) { COVER("e_int small"); } else { COVER("e_int big"); }
}
ENTRY(e_char) {
  setup_db(); SNAPSHOT(M0); u64 x = wit();
  u8 c = ND_u8();
  u64 e = f_wg_encode_char(DB, c);
  CHECK(f_wg_get_encoded_type(DB, e) == K_WG_CHARTYPE, "ens: type of an encoded char is char");
  CHECK(f_wg_decode_char(DB, e) == c, "ens: char decodes to itself");
  FRAME(x, 0); COVER("e_char");
}
ENTRY(e_double) {
  setup_db(); SNAPSHOT(M0); u64 x = wit(); cell_used = 0;
  u64 b = ND_u64();
  u64 e = f_wg_encode_double(DB, BITS2D(b));
  FRAME(x, cell_used && x == SEG(cell));
  if (e == K_WG_ILLEGAL) return;
  CHECK(f_wg_get_encoded_type(DB, e) == K_WG_DOUBLETYPE, "ens: type of an encoded double is double");
  double d = BITS2D(b), r = f_wg_decode_double(DB, e);
  CHECK(D2BITS(r) == b || (d != d && r != r), "ens: double decodes to the same bits");
  COVER("e_double");
}
ENTRY(e_fixpoint) {
  setup_db(); SNAPSHOT(M0); u64 x = wit();
  double d = ND_double();
  ASSUME(d <= 800.0 && d >= -800.0);
  double p = FP_MUL(d, 10000.0);
  ASSUME(p <= 8000000.0 && p >= -8000000.0);   /* IEEE 754: |d| <= 800 and the product is rounded monotonically */
  u64 e = f_wg_encode_fixpoint(DB, d);
  CHECK(e != K_WG_ILLEGAL, "ens: fixpoint values of -800..800 encode");
  CHECK(f_wg_get_encoded_type(DB, e) == K_WG_FIXPOINTTYPE, "ens: type of an encoded fixpoint is fixpoint");
  CHECK((s64)e >> 8 == (s64)mm_round(p), "ens: fixpoint keeps the nearest number of ten-thousandths");
  CHECK(D2BITS(f_wg_decode_fixpoint(DB, e)) == D2BITS(FP_DIV((double)((s64)e >> 8), 10000.0)), "ens: fixpoint decodes to its number of ten-thousandths");
  FRAME(x, 0); COVER("e_fixpoint");
}
ENTRY(e_fixpoint_range) {
  setup_db();
  double d = ND_double();
  u64 e = f_wg_encode_fixpoint(DB, d);
  CHECK(IMPL(d > 800.0 || d < -800.0, e == K_WG_ILLEGAL), "ens: fixpoint out of range is rejected");
  CHECK(IMPL(d <= 800.0 && d >= -800.0, e != K_WG_ILLEGAL && f_wg_get_encoded_type(DB, e) == K_WG_FIXPOINTTYPE), "ens: fixpoint in range is accepted");
  COVER("e_fixpoint_range");
}
ENTRY(e_date) {
  setup_db(); SNAPSHOT(M0); u64 x = wit();
  u32 d = ND_u32();
  u64 e = f_wg_encode_date(DB, d);
  u8 fit = (s32)d <= 128*255*255 && (s32)d >= -128*255*255;
  CHECK((e == K_WG_ILLEGAL) == !fit, "ens: exactly the day numbers in the documented range encode");
  FRAME(x, 0);
  if (!fit) return;
  CHECK(f_wg_get_encoded_type(DB, e) == K_WG_DATETYPE, "ens: type of an encoded date is date");
  CHECK(f_wg_decode_date(DB, e) == d, "ens: date decodes to itself");
  COVER("e_date");
}
ENTRY(e_time) {
  setup_db(); SNAPSHOT(M0); u64 x = wit();
  u32 d = ND_u32();
  u64 e = f_wg_encode_time(DB, d);
  u8 fit = (s32)d <= 24*60*60*100 && (s32)d >= 0;
  CHECK((e == K_WG_ILLEGAL) == !fit, "ens: exactly the times of day encode");
  FRAME(x, 0);
  if (!fit) return;
  CHECK(f_wg_get_encoded_type(DB, e) == K_WG_TIMETYPE, "ens: type of an encoded time is time");
  CHECK(f_wg_decode_time(DB, e) == d, "ens: time decodes to itself");
  COVER("e_time");
}
ENTRY(e_record) {
  setup_db(); SNAPSHOT(M0); u64 x = wit();
  u64 o = ND_u64();
  ASSUME(o >= HDRSIZE && o < DBSIZE && (o & 7) == 0);
  u64 e = f_wg_encode_record(DB, SEG(o));
  CHECK(f_wg_get_encoded_type(DB, e) == K_WG_RECORDTYPE, "ens: type of an encoded record is record");
  CHECK(f_wg_decode_record(DB, e) == SEG(o), "ens: record pointer decodes to itself");
  FRAME(x, 0); COVER("e_record");
}
ENTRY(e_var) {
  setup_db(); SNAPSHOT(M0); u64 x = wit();
  u64 d = ND_u64();
  u64 e = f_wg_encode_var(DB, d);
  u8 fit = ((s64)(d << 4) >> 4) == (s64)d;
  CHECK((e == K_WG_ILLEGAL) == !fit || (fit && d == 15), "ens: exactly the variable numbers of 60 bits encode");
  FRAME(x, 0);
  if (!fit) return;
  CHECK(f_wg_get_encoded_type(DB, e) == K_WG_VARTYPE, "ens: type of an encoded variable is var");
  CHECK(f_wg_decode_var(DB, e) == d, "ens: variable number decodes to itself");
  COVER("e_var");
}
/* no two kinds of immediate value share an encoding */
ENTRY(e_distinct) {
  setup_db();
  u64 a = ND_u64(), b = ND_u64();
  ASSUME(((s64)(a << 3) >> 3) == (s64)a && ((s64)(b << 3) >> 3) == (s64)b);
  u64 i1 = f_wg_encode_int(DB, a), i2 = f_wg_encode_int(DB, b);
  CHECK((i1 == i2) == (a == b), "ens: two small integers share an encoding exactly when equal");
  u32 t1 = ND_u32(), t2 = ND_u32(), d1 = ND_u32(), d2 = ND_u32(); u8 c1 = ND_u8(), c2 = ND_u8();
  u64 et1 = f_wg_encode_time(DB, t1), et2 = f_wg_encode_time(DB, t2), ed1 = f_wg_encode_date(DB, d1), ed2 = f_wg_encode_date(DB, d2);
  ASSUME(et1 != K_WG_ILLEGAL && et2 != K_WG_ILLEGAL && ed1 != K_WG_ILLEGAL && ed2 != K_WG_ILLEGAL);
  CHECK((et1 == et2) == (t1 == t2), "ens: two times share an encoding exactly when equal");
  CHECK((ed1 == ed2) == (d1 == d2), "ens: two dates share an encoding exactly when equal");
  CHECK((f_wg_encode_char(DB, c1) == f_wg_encode_char(DB, c2)) == (c1 == c2), "ens: two chars share an encoding exactly when equal");
  COVER("e_distinct");
}
