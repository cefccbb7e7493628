//@ roots: wg_ymd_to_date wg_date_to_ymd wg_hms_to_time wg_time_to_hms
//@ cut: *=unroll
//@ cbmc: --unwind 4
#include "common.h"
static u8 leap(u32 y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static u32 mdays(u32 y, u32 m) { return m == 2 ? (leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
#define MAXYEAR 22787   /* the last year whose every day number is encodable */
ENTRY(cal_next) {   /* consecutive calendar days get consecutive numbers */
  setup_db();
  u32 y = ND_u32(), m = ND_u32(), d = ND_u32();
  ASSUME(y >= 1 && y <= MAXYEAR && m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, m));
  u32 n = f_wg_ymd_to_date(DB, y, m, d);
  u32 y2 = y, m2 = m, d2 = d + 1;
  if (d2 > mdays(y, m)) { d2 = 1; m2++; if (m2 > 12) { m2 = 1; y2++; } }
  CHECK((s32)n >= 1, "ens: a calendar date has a positive day number");
  CHECK(f_wg_ymd_to_date(DB, y2, m2, d2) == n + 1, "ens: the next calendar day has the next day number");
  CHECK(IMPL(y == 1 && m == 1 && d == 1, n == 1), "ens: day one is 1 January of year 1");
  COVER("cal_next");
}
ENTRY(cal_reject) {
  setup_db();
  u32 y = ND_u32(), m = ND_u32(), d = ND_u32();
  ASSUME((s32)y < 0 || (s32)m < 1 || (s32)m > 12 || (s32)d < 1 || (s32)d > 31);
  CHECK(f_wg_ymd_to_date(DB, y, m, d) == (u32)-1, "ens: an impossible month or day is rejected");
  COVER("cal_reject");
}
ENTRY(cal_time) {
  setup_db();
  u32 h = ND_u32(), m = ND_u32(), s = ND_u32(), c = ND_u32();
  u32 t = f_wg_hms_to_time(DB, h, m, s, c);
  CHECK(IMPL((s32)h < 0 || (s32)h > 24 || (s32)m < 0 || (s32)m > 60 || (s32)s < 0 || (s32)s > 60 || (s32)c < 0 || (s32)c > 99, t == (u32)-1), "ens: an impossible time of day is rejected");
  if (!(h < 24 && m < 60 && s < 60 && c < 100)) return;
  CHECK(t == h * 360000 + m * 6000 + s * 100 + c, "ens: a time of day is its number of hundredths of a second");
  u64 a = STKBASE + 0x100000;
  f_wg_time_to_hms(DB, t, a, a + 4, a + 8, a + 12);
  CHECK(RD32(a) == h && RD32(a + 4) == m && RD32(a + 8) == s && RD32(a + 12) == c, "ens: a time of day converts back to its parts");
  COVER("cal_time");
}
