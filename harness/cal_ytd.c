//@ roots: years_to_days
//@ cut: *=unroll
#include "common.h"
#define MAXYEAR 22787
static u8 leap(u32 y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
ENTRY(ytd_step) {
  u32 n = ND_u32(); ASSUME(n <= MAXYEAR);
  u64 r = f_years_to_days(n);
  CHECK(r <= 366UL * n && r >= 365UL * n, "ens: days before a year lie between 365 and 366 per year");
  CHECK(f_years_to_days(n + 1) == r + 365 + leap(n + 1), "ens: each year adds 365 days and a leap day");
  COVER("ytd_step");
}
ENTRY(ytd_mono) {
  u32 a = ND_u32(), b = ND_u32(); ASSUME(a <= b && b <= MAXYEAR);
  CHECK(f_years_to_days(a) <= f_years_to_days(b), "ens: days before a year grow with the year");
  COVER("ytd_mono");
}
ENTRY(ytd_estimate) {
  u32 y = ND_u32(), k = ND_u32(); ASSUME(y >= 1 && y <= MAXYEAR && k >= 1 && k <= 365u + leap(y));
  u64 s = f_years_to_days(y - 1) + k;
  u64 q = s * 400 / 146097;
  CHECK(q + 2 >= y && q <= y, "ens: the estimated year is the year or one of the two before");
  COVER("ytd_estimate");
}
