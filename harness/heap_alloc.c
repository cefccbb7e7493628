//@ engine: vx
//@ vx: {"storemerge":true,"autocut":true,"facts":["U","UN","UG","nu"]}
//@ roots: wg_alloc_gints
//@ contracts: wg_freebuckets_index extend_varlen_area wg_alloc_gints
//@ cut: *=unroll
#include "common.h"
#include "heapinv.h"
/* the harness learns about list heads when the program reads them */
void on_load(u64 a) {
  s64 o = a - (DBBASE + FB(0));
  if (o >= 0 && o < 8 * NB) {
    u64 h = head(o / 8);
    if (FORK(h != 0, 2)) { unfold(h, 8); unfold_next(h, 3); soft_free(NX_(h), NX_(h) != 0); }
  }
}
u64 c_wg_freebuckets_index(u64 db, u64 size) {
  CHECK(size >= 32 && (size & 7) == 0, "pre: bucket of a block size");
  return bidx(size);
}
static u64 NR, S, SN, UW;
/* the area could not be extended, or it could and the allocation is tried again on the larger heap: the state is
 * the one extend_varlen_area leaves (its own contract), to which this proof applies again */
u64 c_extend_varlen_area(u64 db, u64 area, u64 minbytes) {
  CHECK(area == SEG(AREA) && minbytes >= 8 * NR && minbytes >= 32 && minbytes <= 8 * NR + 32, "pre: the area is extended by at least the size asked for");
  u64 x = ND_u64();
  ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  CHECK(RD(x) == R0(x), "pre: the area is extended only when nothing has been changed yet");
  COVER("extend");
  return FORK(ND_u8(), 2);
}
u64 c_wg_alloc_gints(u64 db, u64 area, u64 nr) {
  CHECK(db == DB && area == SEG(AREA) && nr == NR, "pre: the allocation is repeated with the same size");
  ASSUME(0);
  return 0;
}
static u64 kind1(u64 w) {
  if (w == S) return 1;
  if (SN > UW && w == S + UW) return KIND_(S);
  u64 k = KIND_(w);
  if ((k == 1) | (k == 2)) return RD(A(w)) & 2 ? 2 : 1;
  return k;
}
static u64 n1(u64 w) { return w == S ? UW : (SN > UW && w == S + UW) ? SN - UW : N_(w); }
static u64 ln1(u64 w) { return w == S ? NR : LN_(w); }
static u64 prev1(u64 w) { return SN > UW && w == S + SN ? S + UW : PV_(w); }
static u8 changed(u64 w) { return (w == S) | ((SN > UW) & (w == S + UW)); }
#define GONE(w) 0
static u64 NDV;
#include "heappost.h"
static void go(u64 c) {
  heap_db();
  NR = ND_u64();
  ASSUME(NR >= 0 && NR <= DBW);
  UW = NR < 4 ? 4 : NR;
  DV = ND_u64(); dv_words();
  if (FORK(DV != 0, 2)) unfold(DV, 16);
  SNAPSHOT(M0);
  u64 r = f_wg_alloc_gints(DB, SEG(AREA), NR);
  if (r == 0) {
    u64 x = ND_u64();
    ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
    CHECK(RD(x) == R0(x), "ens: a refused allocation changes nothing");
    COVER("refused");
    return;
  }
  S = r / 8;
  CHECK(r == 8 * S && (KIND_(S) == 3 || KIND_(S) == 4), "ens: an allocation returns a block that was free");
  u64 k = FORKM(KIND_(S), 0x18);
  SN = N_(S);
  CHECK(SN >= UW && (SN == UW || SN >= UW + 4), "ens: the block was large enough");
  unfold_next(S, k);
  NDV = RD(SEG(DVO));
  CB[0] = S; ncb = 1;
  if (FORK(SN > UW, 2)) { CB[1] = S + UW; ncb = 2; }
  INS = k == 3 && SN > UW ? S + UW : 0;
  post_all(c);
}
ENTRY(alloc_self) { go(0); }
ENTRY(alloc_next) { go(1); }
ENTRY(alloc_prev) { go(2); }
ENTRY(alloc_links) { go(3); }
ENTRY(alloc_heads) { go(4); }
ENTRY(alloc_frame) { go(5); }
