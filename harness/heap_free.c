//@ engine: vx
//@ vx: {"storemerge":true}
//@ roots: wg_free_object
//@ contracts: wg_freebuckets_index
//@ cut: *=unroll
#include "common.h"
#include "heapinv.h"
u64 c_wg_freebuckets_index(u64 db, u64 size) {
  CHECK(size >= 32 && (size & 7) == 0, "pre: bucket of a block size");
  u64 b = bidx(size), h = head(b);
  soft_free(h, h != 0);
  return b;
}
/* post-state: the merged block [START,END), the number of its kind, and the blocks it absorbed */
static u64 OBJ, NXT, END, START, KN, KO, NDV;
static void before(u64 c, u64 mask) {
  heap_db();
  DV = ND_u64();
  if (c == 0) {        /* after a free block */
    u64 p = ND_u64();
    unfold(p, 8); OBJ = p + N_(p); START = p; soft_links(p);
    KO = 2;
    unfold(OBJ, 4); ASSUME(PV_(OBJ) == p); dv_words();
  } else if (c == 1) { /* after the designated victim */
    ASSUME(DV != 0); dv_words(); unfold(DV, 16); OBJ = DV + N_(DV); START = DV;
    KO = 1;
    unfold(OBJ, 2);
  } else {             /* after a block in use or the start marker */
    OBJ = ND_u64(); START = OBJ; KO = 1;
    unfold(OBJ, 2); dv_words(); ASSUME(DV == 0 || DV + N_(DV) != OBJ);
  }
  NXT = OBJ + N_(OBJ);
  ASSUME(mask >> 3 & 1 ? KIND_(NXT) == 3 : KIND_(NXT) != 3);
  KN = unfold_next(OBJ, KO);
  if (KN == 3) soft_links(NXT);
  if (c != 1 && KN != 4 && FORK(DV != 0, 2)) { unfold(DV, 16); unfold_next(DV, 4); }
  END = KN == 3 || KN == 4 ? NXT + N_(NXT) : NXT;
  if (KN == 3 || KN == 4) unfold_next(NXT, KN);
}
static void go(void) {
  SNAPSHOT(M0);
  u64 r = f_wg_free_object(DB, SEG(AREA), 8 * OBJ);
  CHECK(r == 0, "ens: freeing a block in use returns 0");
}

/* post-state view */
static u64 KS, NDV; static u8 ABS, OLDDV;
static void view(void) {
  ABS = KN == 3 || KN == 4;
  NDV = RD(SEG(DVO));
  KS = NDV == 8 * START ? 4 : 3;
  OLDDV = (DV != 0) & (DV != START) & !((KN == 4)) & (KS == 4);   /* the old victim went to a free list */
}
static u64 kind1(u64 w) {
  if (w == START) return KS;
  if (w == OBJ) return 0;
  if (ABS & (w == NXT)) return 0;
  if (OLDDV & (w == DV)) return 3;
  u64 k = KIND_(w);
  if ((k == 1) | (k == 2)) return RD(A(w)) & 2 ? 2 : 1;
  return k;
}
static u64 n1(u64 w) { return w == START ? END - START : N_(w); }
static u64 ln1(u64 w) { return LN_(w); }
static u64 prev1(u64 w) { return w == END ? START : (OLDDV && w == DV + N_(DV)) ? DV : PV_(w); }
static u8 changed(u64 w) { return w == START; }
#define GONE(w) ((w) == OBJ)
#include "heappost.h"
static void all(u64 c, u64 mask) {
  before(c, mask); go(); view();
  CB[0] = START; ncb = 1; INS = OLDDV ? DV : KS == 3 ? START : 0;
  post_all(FORK(ND_u8(), 6));
}
ENTRY(free_c0_1) { all(0, 0x1); }
ENTRY(free_c0_3) { all(0, 0x8); }
ENTRY(free_c1_1) { all(1, 0x1); }
ENTRY(free_c1_3) { all(1, 0x8); }
ENTRY(free_c2_1) { all(2, 0x1); }
ENTRY(free_c2_3) { all(2, 0x8); }
