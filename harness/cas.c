//@ roots: wg_compare_and_swap
//@ cut: *=unroll
#include "common.h"
ENTRY(cas) {
  setup_db();
  u64 p = ND_u64(), o = ND_u64(), n = ND_u64(), x = ND_u64();
  ASSUME(p >= DBBASE && p < DBBASE + DBSIZE && (p & 7) == 0 && x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  SNAPSHOT(M0);
  u64 r = f_wg_compare_and_swap(p, o, n);
  CHECK((r != 0) == (R0(p) == o), "ens: the swap succeeds exactly when the word holds the expected value");
  CHECK(RD(p) == (R0(p) == o ? n : R0(p)), "ens: the new value is stored exactly when the swap succeeds");
  CHECK(RD(x) == R0(x) || x == p, "ens: a swap changes no other word");
  COVER("cas");
}
