//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_alloc_fixlen_object extend_fixedlen_area make_subarea_freelist wg_free_listcell wg_free_shortstr wg_free_word wg_free_doubleword wg_free_tnode wg_free_fixlen_object
//@ contracts: init_db_subarea
//@ loopinv: extend_fixedlen_area 0 newsize
//@ loopinv: make_subarea_freelist 0 i
#include "common.h"
/* The free cells of an area are a list of any length: FC(i), i < FN, all different, none of them in use. */
GHOST(FC, u64)
static u64 AR, FN, OL, LAST, AO, AS, NS, LP, J; static u8 inl, ext, grew; static u64 Z0;
#define FREEL SEG(AR + O_freelist)
#define SUB(i) SEG(AR + O_subarea_array + SUBSIZE * (u64)(i))
static u8 inseg_(u64 o, u64 n) { return (o >= HDRSIZE) & (o + n <= DBSIZE) & ((o & 7) == 0); }
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  AR = ND_u64(); FN = ND_u64();
  ASSUME(AR >= 64 && (AR & 7) == 0 && AR + AREASIZE <= HDRSIZE && FN >= 0 && FN <= DBSIZE);
  u64 z = FORK(ND_u8(), 6);
  OL = z == 0 ? 8 : z == 1 ? SZ_gcell : z == 2 ? K_SHORTSTR_SIZE : z == 3 ? TNSIZE : z == 4 ? SZ_index_header : SZ_index_template;
  DEF(SEG(AR + O_objlength), OL);
  inl = ext = grew = 0; J = ND_u64();
}
static void list(void) {
  ASSUME(FN >= 1);
  DEF(FREEL, FC_(0));
  ASSUME(inseg_(FC_(0), OL));
  DEF(SEG(FC_(0)), FN > 1 ? FC_(1) : 0);
  ASSUME((FN <= 1) | (inseg_(FC_(1), OL) & (FC_(1) != FC_(0))));
}
static u64 wit(void) { u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); return x; }
ENTRY(fix_alloc) {
  setup(); list(); SNAPSHOT(M0);
  u64 r = f_wg_alloc_fixlen_object(DB, SEG(AR)), x = wit();
  CHECK(r == FC_(0), "ens: an allocation hands out a cell that was free");
  CHECK(RD(FREEL) == (FN > 1 ? FC_(1) : 0), "ens: the cell handed out is no longer free, all others still are");
  CHECK(RD(x) == R0(x) || x == FREEL, "ens: an allocation changes no other cell");
  COVER("pop");
}
/* growing the area: the new subarea lies in memory not used before (property A07) */
u64 c_init_db_subarea(u64 db, u64 area, u64 index, u64 size) {
  CHECK(db == DB && area == SEG(AR) && index == LAST + 1 && index < K_SUBAREA_ARRAY_SIZE, "pre: the next subarea of this area is initialised");
  CHECK(size >= K_MINIMAL_SUBAREA_SIZE && !ext, "pre: a subarea of valid size is asked for");
  if (FORK(ND_u8(), 2)) return -2;
  ext = 1; NS = size;
  AO = ND_u64(); AS = ND_u64();
  ASSUME(inseg_(AO, AS) && AS > 0 && AS <= size && AS + 64 >= size);
  WR(SUB(index) + OS_size, size); vx_havoc_word(SUB(index) + OS_offset);
  WR(SUB(index) + OS_alignedoffset, AO); WR(SUB(index) + OS_alignedsize, AS);
  WR(SEG(AR + O_last_subarea_index), index); WR(FREEL, 0);
  return 0;
}
void LI_ASSERT_extend_fixedlen_area_0(u64 n) { CHECK(n >= 0 && n <= 2 * Z0 && !ext, "loop invariant: sizes are tried downwards"); }
void LI_HAVOC_extend_fixedlen_area_0(u64 n) { }
void LI_ASSUME_extend_fixedlen_area_0(u64 n) { ASSUME(n >= 0 && n <= 2 * Z0); }
/* cells 0 .. LP-1 of the new subarea are linked */
void LI_ASSERT_make_subarea_freelist_0(u64 i) {
  u64 k = inl ? LP + 1 : 0;
  CHECK(i == AO + k * OL && (i + OL <= AO + AS), "loop invariant: the cell is in the subarea");
  CHECK(!(J >= 0 && J < k) || RD(SEG(AO + J * OL)) == AO + (J + 1) * OL, "loop invariant: cells before this one are linked to the next");
  CHECK(k == 0 || RD(SEG(AO)) == AO + OL, "loop invariant: the first cell is linked to the second");
  if (inl) { u64 x = wit(); CHECK(RD(x) == RK(1, x) || (x >= SEG(AO) && x < SEG(AO + AS)), "loop invariant: only the new subarea changes"); }
}
void LI_HAVOC_make_subarea_freelist_0(u64 i) { LP = ND_u64(); inl = 1; vx_havoc_range(SEG(AO), SEG(AO + AS)); SNAP(1); }
void LI_ASSUME_make_subarea_freelist_0(u64 i) {
  ASSUME(LP >= 0 && i == AO + LP * OL && (i + OL <= AO + AS));
  ASSUME(!(J >= 0 && J < LP) | (RD(SEG(AO + J * OL)) == AO + (J + 1) * OL));
  ASSUME((LP == 0) | (RD(SEG(AO)) == AO + OL));
}
ENTRY(fix_grow) {
  setup();
  DEF(FREEL, 0);
  LAST = ND_u64(); ASSUME(LAST >= 0 && LAST < K_SUBAREA_ARRAY_SIZE);
  DEF(SEG(AR + O_last_subarea_index), LAST);
  Z0 = RD(SUB(LAST) + OS_size);
  ASSUME(Z0 >= K_MINIMAL_SUBAREA_SIZE && Z0 <= DBSIZE);
  SNAPSHOT(M0);
  u64 r = f_wg_alloc_fixlen_object(DB, SEG(AR)), x = wit();
  if (!ext) {
    CHECK(r == 0 && RD(x) == R0(x), "ens: an allocation that cannot be served changes nothing");
    COVER("full");
    return;
  }
  CHECK(r == AO, "ens: an allocation hands out the first cell of the new subarea");
  /* the rest of the list: cell J of the new subarea, J < number of whole cells */
  ASSUME(J >= 1 && AO + (J + 1) * OL <= AO + AS);
  if (J == 1) CHECK(RD(FREEL) == AO + OL, "ens: the free list starts at the second cell");
  CHECK(RD(SEG(AO + J * OL)) == (AO + (J + 2) * OL <= AO + AS ? AO + (J + 1) * OL : 0), "ens: the free list consists of the other whole cells of the new subarea");
  CHECK((x >= SEG(AO) && x < SEG(AO + AS)) || RD(x) == R0(x) || x == FREEL || x == SEG(AR + O_last_subarea_index) || (x >= SUB(LAST + 1) && x < SUB(LAST + 1) + SUBSIZE),
    "ens: growing changes nothing outside the new subarea and its descriptor");
  COVER("grow");
}
static void freed(u64 ar, u64 off, u64 fl0, u64 x) {
  CHECK(RD(SEG(ar + O_freelist)) == off && RD(SEG(off)) == fl0, "ens: a freed cell is put in front of the free list");
  CHECK(RD(x) == R0(x) || x == SEG(ar + O_freelist) || x == SEG(off), "ens: freeing a cell changes no other cell");
  COVER("freed");
}
ENTRY(fix_free) {
  setup();
  u64 c = ND_u64(); ASSUME(inseg_(c, OL));
  u64 w = FORK(ND_u8(), 6), x = wit();
  SNAPSHOT(M0);
  u64 ar = w == 0 ? O_listcell_area_header : w == 1 ? O_shortstr_area_header : w == 2 ? O_word_area_header : w == 3 ? O_doubleword_area_header : w == 4 ? O_tnode_area_header : AR;
  u64 fl0 = RD(SEG(ar + O_freelist));
  if (w == 0) f_wg_free_listcell(DB, c);
  if (w == 1) f_wg_free_shortstr(DB, c);
  if (w == 2) f_wg_free_word(DB, c);
  if (w == 3) f_wg_free_doubleword(DB, c);
  if (w == 4) f_wg_free_tnode(DB, c);
  if (w == 5) f_wg_free_fixlen_object(DB, SEG(AR), c);
  freed(ar, c, fl0, x);
}
