//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_idxhash_store wg_idxhash_remove wg_idxhash_find find_idxhash_bucket
//@ contracts: find_idxhash_bucket hash_bytes wg_alloc_gints wg_alloc_fixlen_object wg_free_listcell wg_free_object
//@ loopinv: find_idxhash_bucket 0 @n,bucket
//@ loopinv: wg_idxhash_store 0 @n
//@ loopinv: wg_idxhash_remove 0 next_offset
#include "common.h"
/* The chain of one hash value is the ghost sequence BK(i) (bucket), i < CN; EQ(i): bucket i holds the wanted key.
 * The records stored under the key of bucket T are the ghost sequence LC(j) (list cell), j < LN. */
static u64 D, LEN;
GHOST(BK, u64) GHOST(EQ, u64) GHOST(LC, u64)
u8 mok_extra(u64 a, u64 n) { return (a >= D) & (a + n <= D + LEN); }
#define META 1
#define RECL 2
#define NEXT 3
#define HW 4
static u64 W, CN, K, T, AS, AL, HASH, HA, LP, OFF, NB, CO, LN, LJ, J; static u8 inl, inr, inp, nhash, found, nalloc, ncell, nfree, ncfree, nfind;
static u8 okb(u64 b) { return (b >= HDRSIZE) & ((b & 7) == 0) & (b + 8 * HW + LEN + 64 <= DBSIZE); }
static u8 okc(u64 c) { return (c >= HDRSIZE) & ((c & 7) == 0) & (c + 16 <= DBSIZE); }
#define F(b, n) SEG((b) + 8 * (u64)(n))
static u64 SLOT(void) { return SEG(AS + 8 * HASH); }
static u64 LINK(u64 i) { return i == 0 ? SLOT() : F(BK_(i - 1), NEXT); }
#define APART(a, n, b, m) (((a) + (n) <= (b)) | ((b) + (m) <= (a)))
static void bucket(u64 i) { ASSUME(APART(F(BK_(i), 0), 8 * HW, SLOT(), 8)); ASSUME(okb(BK_(i)) & (RD(F(BK_(i), NEXT)) == (i + 1 < CN ? BK_(i + 1) : 0))); }
static void setup(void) {
  DBSIZE = ND_u64(); ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64; DEF(HEAPBASE, DBBASE); ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  CN = ND_u64(); LEN = ND_u64(); K = ND_u64(); AS = ND_u64(); AL = ND_u64(); HASH = ND_u64(); OFF = ND_u64(); D = ND_u64(); HA = ND_u64();
  ASSUME(CN >= 0 && CN <= DBSIZE && K >= 0 && K < CN + 1 && LEN >= 1 && LEN <= DBSIZE - HDRSIZE - 4096);
  ASSUME(AL >= 1 && AL <= ((u64)1 << 31) && AL <= DBSIZE / 8 && HASH >= 0 && HASH < AL && AS >= HDRSIZE && (AS & 7) == 0 && AS + 8 * AL <= DBSIZE);
  ASSUME(D > ((u64)1 << 46) && D < ((u64)1 << 46) + ((u64)1 << 45) && OFF > 0 && OFF < DBSIZE);
  /* the header of the hash is inside the index header, away from the chain */
  ASSUME(HA >= SEG(HDRSIZE) && HA + 64 <= SEG(DBSIZE) && (HA & 7) == 0);
  DEF(HA + OHA_arraystart, AS); DEF(HA + OHA_arraylength, AL);
  LP = T = 0; inl = inr = inp = nhash = found = nalloc = ncell = nfree = ncfree  = nfind = 0;
}
u64 c_hash_bytes(u64 db, u64 d, u64 n, u64 sz) { CHECK(db == DB && d == D && n == LEN && sz == AL, "pre: the whole key is hashed, to the size of the array"); nhash++; return HASH; }
/* ---- searching a chain */
u32 x_memcmp(u64 a, u64 b, u64 n) {
  CHECK(inl && n == LEN && ((b == D && a == F(BK_(LP), HW)) || (a == D && b == F(BK_(LP), HW))), "pre: the whole key is compared with that of the bucket");
  CHECK(RD(F(BK_(LP), META)) == LEN, "pre: the bucket has a key of this length");
  if (EQ_(LP)) return 0;
  u32 r = ND_u32(); ASSUME(r != 0); return r;
}
static u64 CP;
void LI_ASSERT_find_idxhash_bucket_0(u64 n, u64 b) {
  u64 i = inl ? LP + 1 : 0;
  CHECK(n == i && i <= CN && (i == CN ? b == 0 : b == BK_(i)) && RD(CP) + DBBASE == LINK(i), "loop invariant: the chain is searched in order, keeping the link to the bucket");
  CHECK(K >= i || !EQ_(K), "loop invariant: no bucket passed holds the key");
}
void LI_HAVOC_find_idxhash_bucket_0(u64 n, u64 b) { LP = ND_u64(); inl = 1; vx_havoc_word(CP); }
void LI_ASSUME_find_idxhash_bucket_0(u64 n, u64 b) {
  ASSUME(LP >= 0 && LP <= CN && n == LP && (K >= LP || !EQ_(K)));
  if (FORK(LP > 0, 2)) { bucket(LP - 1); ASSUME(RD(CP) + DBBASE == F(BK_(LP - 1), NEXT)); } else { ASSUME(LP == 0); ASSUME(RD(CP) + DBBASE == SLOT()); }
  if (FORK(LP < CN, 2)) { ASSUME(b == BK_(LP)); bucket(LP); ASSUME(EQ_(LP) == 0 || RD(F(BK_(LP), META)) == LEN); } else ASSUME(b == 0);
}
ENTRY(idx_find) {
  setup();
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  CP = HEAPBASE + 32; DEF(CP, AS + 8 * HASH); ASSUME(RD(SLOT()) == (CN ? BK_(0) : 0));
  SNAPSHOT(M0);
  u64 r = f_find_idxhash_bucket(DB, D, LEN, CP);
  CHECK(RD(x) == R0(x), "ens: searching changes nothing");
  if (r == 0) { CHECK(K >= CN || !EQ_(K), "ens: a bucket with the key is found"); COVER("none"); return; }
  CHECK(LP < CN && r == BK_(LP) && EQ_(LP) && RD(CP) + DBBASE == LINK(LP), "ens: the bucket found holds the key, and the link to it is known");
  COVER("found");
}
/* ---- what the callers know */
u64 c_find_idxhash_bucket(u64 db, u64 d, u64 n, u64 cp) {
  CHECK(db == DB && d == D && n == LEN && nhash && RD(cp) == AS + 8 * HASH && !nfind, "pre: the chain of the hash value is searched for the key"); nfind++;
  found = FORK(ND_u8(), 2);
  if (!found) { u64 z = ND_u64(); ASSUME(z > 0 && z < DBSIZE); WR(cp, z); return 0; }
  T = ND_u64(); ASSUME(T >= 0 && T < CN); bucket(T); if (ncell == 1) { ASSUME(APART(CO, 16, BK_(T), 8 * HW)); ASSUME(T == 0 || APART(CO, 16, BK_(T - 1), 8 * HW)); }
  if (FORK(T > 0, 2)) { bucket(T - 1); ASSUME(APART(BK_(T - 1), 8 * HW, BK_(T), 8 * HW)); WR(cp, BK_(T - 1) + 8 * NEXT); } else { ASSUME(T == 0); WR(cp, AS + 8 * HASH); }
  ASSUME(LN == 0 || okc(LC_(0))); ASSUME(RD(F(BK_(T), RECL)) == (LN ? LC_(0) : 0));
  return BK_(T);
}
ENTRY(idx_lookup) {
  setup(); LN = ND_u64(); ASSUME(LN >= 0);
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  SNAPSHOT(M0);
  u64 r = f_wg_idxhash_find(DB, HA, D, LEN);
  CHECK(nfind && r == (found ? RD(F(BK_(T), RECL)) : 0), "ens: the records stored under the key are returned");
  CHECK(RD(x) == R0(x), "frame: a search changes nothing");
  COVER("lookup");
}
/* ---- storing */
u64 c_wg_alloc_gints(u64 db, u64 area, u64 n) {
  CHECK(db == DB && area == SEG(O_indexhash_area_header) && nfind && !found && !nalloc, "pre: a bucket is made for a new key"); nalloc++;
  CHECK(8 * (n - HW) >= LEN && 8 * (n - HW) < LEN + 8, "pre: the bucket has room for the key");
  if (FORK(ND_u8(), 2)) { nalloc = 9; return 0; }
  NB = ND_u64(); ASSUME(okb(NB) && NB + 8 * n <= DBSIZE);
  ASSUME(SEG(NB + 8 * n) <= SLOT() || SEG(NB) > SLOT()); ASSUME(SEG(NB + 8 * n) <= HA || SEG(NB) >= HA + 64);
  if (ncell == 1) ASSUME(NB + 8 * n <= CO || NB >= CO + 16);
  vx_havoc_range(SEG(NB + 8), SEG(NB + 8 * n)); return NB;
}
u64 c_wg_alloc_fixlen_object(u64 db, u64 area) {
  CHECK(db == DB && area == SEG(O_listcell_area_header) && !ncell, "pre: one list cell is needed"); ncell++;
  if (FORK(ND_u8(), 2)) { ncell = 9; return 0; }
  CO = ND_u64(); ASSUME(okc(CO)); ASSUME(SEG(CO + 16) <= SLOT() || SEG(CO) > SLOT()); ASSUME(SEG(CO + 16) <= HA || SEG(CO) >= HA + 64);
  if (nalloc == 1) ASSUME(CO + 16 <= NB || CO >= NB + 8 * HW + LEN + 8);
  if (found) ASSUME(CO + 16 <= BK_(T) || CO >= BK_(T) + 8 * HW);
  vx_havoc_range(SEG(CO), SEG(CO + 16)); return CO;
}
void c_wg_free_listcell(u64 db, u64 off) {
  if (inr) {
    CHECK(db == DB && off == LC_(LJ) && !ncfree && RD(LJ == 0 ? F(BK_(T), RECL) : SEG(LC_(LJ - 1) + 8)) == R0(SEG(LC_(LJ) + 8)), "pre: the cell released is the one of the record, out of the list"); ncfree++; return;
  }
  CHECK(db == DB && ncell == 1 && off == CO && nalloc == 9 && !ncfree, "pre: an unused cell is released"); ncfree++;
}
/* the rest of the last word of a new bucket is cleared */
static u64 PADN;
void LI_ASSERT_wg_idxhash_store_0(u64 n) { CHECK(nalloc == 1 && n == (inp ? PADN + 1 : 0) && (n == 0 || (LEN & 7) + n <= 8), "loop invariant: only the rest of the last word of the key is cleared"); }
void LI_HAVOC_wg_idxhash_store_0(u64 n) { inp = 1; vx_havoc_range(F(NB, HW) + LEN, F(NB, HW) + LEN + 8 - (LEN & 7)); }
void LI_ASSUME_wg_idxhash_store_0(u64 n) { PADN = n; ASSUME(n >= 0 && (n == 0 || (LEN & 7) + n <= 8)); }
ENTRY(idx_store) {
  setup(); LN = ND_u64(); ASSUME(LN >= 0); W = ND_u64(); ASSUME(W >= 0 && W < LEN);
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  ASSUME(RD(SLOT()) == (CN ? BK_(0) : 0));
  SNAPSHOT(M0);
  u64 r = f_wg_idxhash_store(DB, HA, D, LEN, OFF);
  u8 inc = (ncell == 1) & (x >= SEG(CO)) & (x < SEG(CO + 16)), inb = (nalloc == 1) & (x >= SEG(NB)) & (x < SEG(NB + 8 * HW + LEN + 8));
  x = inb ? HA : x;
  if (r) {
    CHECK(r == -1 && (ncell == 9 || nalloc == 9), "ens: storing fails only when memory is used up");
    CHECK((ncell != 1 || ncfree) && nalloc != 1, "ens: what was allocated is released");
    CHECK(RD(x) == R0(x) || inc || inb, "ens: a failed store changes nothing"); COVER("oom"); return;
  }
  CHECK(nhash && nfind && ncell == 1 && !ncfree && (found || nalloc == 1), "ens: success means that everything was allocated");
  CHECK(RD(SEG(CO)) == OFF && RD(SEG(CO + 8)) == (found ? (LN ? LC_(0) : 0) : 0), "ens: the record is put before the others of its key");
  if (found) { CHECK(RD(F(BK_(T), RECL)) == CO, "ens: the bucket has the record"); CHECK(RD(x) == R0(x) || inc || x == F(BK_(T), RECL), "frame: nothing else changes"); COVER("known key"); return; }
  CHECK(RD(F(NB, META)) == LEN && RD(F(NB, RECL)) == CO && RD(F(NB, NEXT)) == (CN ? BK_(0) : 0) && RD(SLOT()) == NB, "ens: the new bucket is put before the others of its hash value");
  CHECK(RD8(F(NB, HW) + W) == RD8(D + W), "ens: every byte of the key is in the bucket");
  CHECK(RD(x) == R0(x) || inc || inb || x == SLOT(), "frame: nothing else changes"); COVER("new key");
}
/* ---- removing */
static u8 hit; 
static u64 CELLJ(u64 j) { return SEG(LC_(j)); }
static void lcell(u64 j) { ASSUME(APART(CELLJ(j), 16, LINK(T), 8)); ASSUME(APART(CELLJ(j), 16, F(BK_(T), 0), 8 * HW)); ASSUME(okc(LC_(j)) & (RD(CELLJ(j) + 8) == (j + 1 < LN ? LC_(j + 1) : 0))); }
void LI_ASSERT_wg_idxhash_remove_0(u64 p) {
  u64 j = inr ? LJ + 1 : 0;
  CHECK(found && j <= LN && p == (j == 0 ? F(BK_(T), RECL) : CELLJ(j - 1) + 8), "loop invariant: the list is walked in order, keeping the link to the cell");
  CHECK(RD(p) == (j < LN ? LC_(j) : 0), "loop invariant: the link leads to the next cell");
}
void LI_HAVOC_wg_idxhash_remove_0(u64 p) { LJ = ND_u64(); inr = 1; }
void LI_ASSUME_wg_idxhash_remove_0(u64 p) {
  ASSUME(LJ >= 0 && LJ <= LN);
  if (FORK(LJ > 0, 2)) { lcell(LJ - 1); ASSUME(p == CELLJ(LJ - 1) + 8); } else { ASSUME(LJ == 0); ASSUME(p == F(BK_(T), RECL)); ASSUME(RD(p) == (LN ? LC_(0) : 0)); }
  if (FORK(LJ < LN, 2)) { lcell(LJ); hit = FORK(LJ == J, 2); if (hit) ASSUME(RD(CELLJ(LJ)) == OFF); else { ASSUME(LJ < J); ASSUME(RD(CELLJ(LJ)) != OFF); } if (LJ + 1 < LN) ASSUME(okc(LC_(LJ + 1))); }
}
u64 c_wg_free_object(u64 db, u64 area, u64 off) {
  CHECK(db == DB && area == SEG(O_indexhash_area_header) && found && off == BK_(T) && !nfree, "pre: an empty bucket is released"); nfree++;
  CHECK(RD(F(BK_(T), RECL)) == 0 && RD(LINK(T)) == (T + 1 < CN ? BK_(T + 1) : 0), "pre: the bucket released is empty and out of its chain");
  return 0;
}
ENTRY(idx_remove) {
  setup(); LN = ND_u64(); J = ND_u64(); ASSUME(LN >= 0 && J >= 0 && J <= LN);
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  SNAPSHOT(M0);
  u64 r = f_wg_idxhash_remove(DB, HA, D, LEN, OFF);
  if (!found || !hit) { CHECK(r != 0 && RD(x) == R0(x) && !nfree && !ncfree, "ens: what is not in the index is not removed"); COVER("absent"); return; }
  CHECK(r == 0 && ncfree == 1, "ens: the record is removed once");
  u64 l = J == 0 ? F(BK_(T), RECL) : CELLJ(J - 1) + 8;
  CHECK(RD(l) == (J + 1 < LN ? LC_(J + 1) : 0), "ens: the list goes on with the next record");
  CHECK((nfree == 1) == (LN == 1), "ens: the bucket is released with its last record");
  CHECK(RD(x) == R0(x) || x == l || (nfree && x == LINK(T)), "frame: nothing else changes");
  COVER("removed");
}
