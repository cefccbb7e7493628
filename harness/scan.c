//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_get_next_raw_record wg_get_first_raw_record
//@ loopinv: wg_get_next_raw_record 0 curoffset,freemarker,head
//@ loopinv: wg_get_next_raw_record 1 @n
#include "common.h"
/* Walking the record area.  SQ(0), SQ(1), ... are the blocks (word numbers) in memory order from the given one on, across
 * subareas: KIND 1 in use, 2 in use after a free block, 3 free, 4 designated victim, 5 start marker, 6 end marker.
 * SB(i): subarea of block i.  The walk must return the first block in use after the given one. */
GHOST(SQ, u64) GHOST(KD, u64) GHOST(SZ, u64) GHOST(SB, u64)
#define SUB(i) SEG(O_datarec_area_header + O_subarea_array + SUBSIZE * (u64)(i))
static u64 LAST, P, P2, K; static u8 inl, ini; static u64 FIRST;
static u64 wit(void) { u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); return x; }
static u8 used(u64 i) { u64 k = KD_(i); return (k == 1) | (k == 2); }
/* the block at position i: header, place in its subarea, where the next one is */
static void block(u64 i) {
  u64 w = SQ_(i), n = SZ_(i), s = SB_(i), k = FORKM(KD_(i), 0x7e);
  ASSUME(i >= 0 && w >= HDRSIZE / 8 && n >= 4 && (w + n) * 8 <= DBSIZE);
  ASSUME(s >= 0 && s <= LAST);
  u64 o = SEG(8 * w);
  if (k == 1 || k == 2) { u64 l = ND_u64(); ASSUME((l == n) | ((l >= 0) & (l < 4) & (n == 4))); DEF(o, 8 * l + (k == 2 ? 2 : 0)); }
  if (k == 3) DEF(o, 8 * n + 1);
  if (k == 4) { DEF(o, 8 * n + 3); DEF(o + 8, 1); }
  if (k >= 5) { ASSUME(n == 4); DEF(o, 35); DEF(o + 8, 0); }
  if (k != 6) { ASSUME(SQ_(i + 1) == w + n && SB_(i + 1) == s && KD_(i + 1) != 5); }
  else {
    u64 a = RD(SUB(s) + OS_alignedoffset), b = RD(SUB(s) + OS_offset), z = RD(SUB(s) + OS_size);
    ASSUME(a >= HDRSIZE && a <= 8 * w && 8 * w < b + z && b + z <= DBSIZE && a >= b);
    if (FORK(s < LAST, 2)) { u64 a2 = RD(SUB(s + 1) + OS_alignedoffset); ASSUME(a2 == 8 * SQ_(i + 1) && SB_(i + 1) == s + 1 && KD_(i + 1) == 5); }
  }
}
/* has the walk ended: block i is the last end marker */
static u8 end(u64 i) { return (KD_(i) == 6) & (SB_(i) == LAST); }
void LI_ASSERT_wg_get_next_raw_record_0(u64 cur, u64 fm, u64 head) {
  /* an end marker is passed in the iteration that reaches it */
  u64 i = !inl ? 0 : KD_(P + 1) == 6 ? P + 2 : P + 1;
  CHECK(cur == 8 * SQ_(i), "loop invariant: blocks are visited in memory order");
  CHECK((s64)fm == (KD_(i) == 3), "loop invariant: free blocks are told apart");
  CHECK(head == RD(SEG(cur)), "loop invariant: the header of the block is loaded");
  CHECK(!(K > 0 && K <= i) || !used(K), "loop invariant: no block in use is passed over");
  CHECK(i == 0 || !used(i), "loop invariant: the walk is not at a record");
}
void LI_HAVOC_wg_get_next_raw_record_0(u64 cur, u64 fm, u64 head) { P = ND_u64(); inl = 1; ini = 0; }
void LI_ASSUME_wg_get_next_raw_record_0(u64 cur, u64 fm, u64 head) {
  ASSUME(P >= 0 && P < ((u64)1 << 60) && cur == 8 * SQ_(P));
  block(P);
  ASSUME((s64)fm == (KD_(P) == 3) && KD_(P) != 6 && ((P == 0) | !used(P)));
  ASSUME(head == RD(SEG(cur)));
  ASSUME(!((K > 0) & (K <= P)) | !used(K));
  block(P + 1);
  if (KD_(P + 1) == 6) { if (SB_(P + 1) < LAST) block(P + 2); }
}
void LI_ASSERT_wg_get_next_raw_record_1(u64 i) { i = (u64)(s64)i; CHECK(i >= 0 && i <= SB_(P + 1), "loop invariant: the subarea of the end marker has not been passed"); }
void LI_HAVOC_wg_get_next_raw_record_1(u64 i) { }
void LI_ASSUME_wg_get_next_raw_record_1(u64 i) {
  u64 s = SB_(P + 1), w = SQ_(P + 1);
  ASSUME(i >= 0 && i <= s);
  /* subareas are disjoint (property A07): an earlier one does not contain the marker */
  if (FORK(i < s, 2)) { u64 a = RD(SUB(i) + OS_alignedoffset), b = RD(SUB(i) + OS_offset), z = RD(SUB(i) + OS_size); ASSUME((8 * w < a) | (8 * w >= b + z)); ASSUME(b >= 0 && z >= 0 && b + z <= DBSIZE); }
}
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  LAST = ND_u64(); K = ND_u64(); inl = 0; P = 0;
  ASSUME(LAST >= 0 && LAST < K_SUBAREA_ARRAY_SIZE);
  DEF(SEG(O_datarec_area_header + O_last_subarea_index), LAST);
}
static void post(u64 r, u64 x) {
  CHECK(RD(x) == R0(x), "ens: walking changes nothing");
  u64 i = P + 1;
  if (r != 0) {
    CHECK(r == SEG(8 * SQ_(i)) && used(i), "ens: the block returned is a record");
    CHECK(!(K > 0 && K < i) || !used(K), "ens: no record is passed over");
    COVER("next");
  } else {
    CHECK(end(i), "ens: the walk ends only at the end of the last subarea");
    CHECK(!(K > 0 && K <= i) || !used(K), "ens: no record is passed over");
    COVER("end");
  }
}
ENTRY(scan_next) {
  setup(); u64 x = wit();
  ASSUME(used(0)); block(0);
  SNAPSHOT(M0);
  post(f_wg_get_next_raw_record(DB, SEG(8 * SQ_(0))), x);
}
ENTRY(scan_first) {
  setup(); u64 x = wit();
  ASSUME(KD_(0) == 5 && SB_(0) == 0); block(0);
  DEF(SUB(0) + OS_alignedoffset, 8 * SQ_(0));
  SNAPSHOT(M0);
  post(f_wg_get_first_raw_record(DB), x);
}
ENTRY(scan_free) {
  setup(); u64 x = wit();
  ASSUME(KD_(0) == 3); block(0);
  SNAPSHOT(M0);
  CHECK(f_wg_get_next_raw_record(DB, SEG(8 * SQ_(0))) == 0, "ens: a freed record is refused");
  CHECK(RD(x) == R0(x), "ens: walking changes nothing");
  COVER("freed record");
}
