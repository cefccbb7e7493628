//@ roots: wg_ymd_to_date wg_date_to_ymd years_to_days
//@ contracts: years_to_days
//@ cut: *=unroll
//@ cbmc: --unwind 4
/* inverse of the calendar: years_to_days() is used through its contract (proved in cal_ytd.c) and the
 * estimate division is left uninterpreted, with the bound proved in cal_ytd.c */
#define SDIV64(a,b) sdiv_est(a,b)
static long sdiv_est(long a, long b);
#include "common.h"
static u8 leap(u32 y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static u32 mdays(u32 y, u32 m) { return m == 2 ? (leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
#define MAXYEAR 22787
u64 __CPROVER_uninterpreted_ytd(u32);
#define YTD(n) __CPROVER_uninterpreted_ytd(n)
static u32 Y; static u64 NUM;
static long sdiv_est(long a, long b) {
  long r = (long)ND_u64();
  CHECK(b != 0, "division by zero");
  /* contract of the estimate, proved in cal_ytd.c/ytd_estimate: for the day number s of a day of year Y,
     floor(400*s/146097) is one of Y-2, Y-1, Y */
  if (b == 146097 && a == (long)(NUM * 400)) ASSUME(r >= 0 && r >= (long)Y - 2 && r <= (long)Y);
  return r;
}
u64 c_years_to_days(u32 n) {
  u64 r = YTD(n);
  ASSUME(IMPL(n <= MAXYEAR, r <= 366UL * n && r >= 365UL * n));
  ASSUME(YTD(Y) == YTD(Y - 1) + 365 + leap(Y));
  ASSUME(IMPL(n <= MAXYEAR && n + 1 <= Y, r <= YTD(Y - 1)) && IMPL(n <= MAXYEAR && n >= Y, r >= YTD(Y)));
  return r;
}
ENTRY(cal_inverse) {
  setup_db();
  u32 y = ND_u32(), m = ND_u32(), d = ND_u32();
  ASSUME(y >= 1 && y <= MAXYEAR && m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, m));
  Y = y;
  u32 n = f_wg_ymd_to_date(DB, y, m, d);
  NUM = n;
  u64 a = STKBASE + 0x100000;
  f_wg_date_to_ymd(DB, n, a, a + 4, a + 8);
  CHECK(RD32(a) == y, "ens: year of the day number of a date is its year");
  CHECK(RD32(a + 4) == m, "ens: month of the day number of a date is its month");
  CHECK(RD32(a + 8) == d, "ens: day of the day number of a date is its day");
  COVER("cal_inverse");
}
