//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: alloc_db_segmentchunk init_db_subarea wg_database_freesize wg_database_size
#include "common.h"
/* Growth of the segment: chunks are taken from the unused end [free, size). */
static u64 FREE, AR;
static u64 wit(void) { u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); return x; }
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 64 && DBSIZE <= ((u64)1 << 40));
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  DEF(SEG(O_size), DBSIZE);
  FREE = ND_u64();
  ASSUME(FREE >= HDRSIZE && FREE <= DBSIZE && FREE % K_SUBAREA_ALIGNMENT_BYTES == 0);
  DEF(SEG(O_free), FREE);
}
ENTRY(seg_chunk) {
  setup();
  u64 n = ND_u64(), x = wit();
  ASSUME(n >= 0 && n <= ((u64)1 << 60));
  SNAPSHOT(M0);
  u64 r = f_alloc_db_segmentchunk(DB, n), f = RD(SEG(O_free));
  if (r == 0) {
    CHECK(RD(x) == R0(x), "ens: a refused chunk changes nothing");
    CHECK(FREE + n + K_SUBAREA_ALIGNMENT_BYTES > DBSIZE, "ens: a chunk is refused only when it does not fit");
    COVER("refused");
    return;
  }
  CHECK(r == FREE, "ens: a chunk starts where the unused space started");
  CHECK(f >= r + n && f <= DBSIZE, "ens: a chunk lies inside the segment and is no longer unused");
  CHECK(f < r + n + K_SUBAREA_ALIGNMENT_BYTES && f % K_SUBAREA_ALIGNMENT_BYTES == 0, "ens: the unused space starts at an aligned offset");
  CHECK(RD(x) == R0(x) || x == SEG(O_free), "ens: nothing else changes");
  COVER("chunk");
}
ENTRY(seg_subarea) {
  setup();
  AR = ND_u64();
  u64 i = ND_u64(), n = ND_u64(), x = wit();
  ASSUME(i >= 0 && i < K_SUBAREA_ARRAY_SIZE && n <= ((u64)1 << 60));
  ASSUME(AR >= 64 && (AR & 7) == 0 && AR + AREASIZE <= HDRSIZE && (AR > O_free || AR + AREASIZE <= O_free) && (AR > O_size || AR + AREASIZE <= O_size));
  u64 s = SEG(AR + O_subarea_array + SUBSIZE * i);
  SNAPSHOT(M0);
  u64 r = f_init_db_subarea(DB, SEG(AR), i, n), f = RD(SEG(O_free));
  if (r != 0) { CHECK(RD(x) == R0(x), "ens: a refused subarea changes nothing"); COVER("refused"); return; }
  CHECK((s64)n >= (s64)K_MINIMAL_SUBAREA_SIZE, "ens: a subarea has at least the minimal size");
  CHECK(RD(s + OS_size) == n && RD(s + OS_offset) == FREE, "ens: the descriptor gives the chunk");
  u64 ao = RD(s + OS_alignedoffset), as = RD(s + OS_alignedsize);
  CHECK(ao >= FREE && ao % K_SUBAREA_ALIGNMENT_BYTES == 0 && as % K_MIN_VARLENOBJ_SIZE == 0 && as > 0 && ao + as <= FREE + n && as + 2 * K_SUBAREA_ALIGNMENT_BYTES + K_MIN_VARLENOBJ_SIZE > n, "ens: the usable part is aligned and inside the chunk");
  CHECK(FREE + n <= f && f <= DBSIZE, "ens: the chunk is inside the segment and no longer unused");
  CHECK(RD(SEG(AR + O_last_subarea_index)) == i && RD(SEG(AR + O_freelist)) == 0, "ens: the subarea is the last of its area and has no free cells yet");
  CHECK(RD(x) == R0(x) || x == SEG(O_free) || (x >= s && x < s + SUBSIZE) || x == SEG(AR + O_last_subarea_index) || x == SEG(AR + O_freelist), "ens: nothing else changes");
  COVER("subarea");
}
ENTRY(seg_sizes) {
  setup();
  u64 x = wit();
  SNAPSHOT(M0);
  CHECK(f_wg_database_size(DB) == DBSIZE, "ens: the database size is the segment size");
  u64 r = f_wg_database_freesize(DB);
  CHECK(r == (DBSIZE - FREE < K_MINIMAL_SUBAREA_SIZE ? 0 : DBSIZE - FREE), "ens: the free size is the unused space when a subarea fits, else zero");
  CHECK(RD(x) == R0(x), "ens: asking for sizes changes nothing");
  COVER("sizes");
}
