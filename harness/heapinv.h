/* ---- representation invariant of one variable-length area ------------------------------------------------
 * The area is described by ghost maps over word numbers w (offset = 8*w):
 *   KIND(w)  what starts at word w: 0 nothing, 1 block in use, 2 block in use right after a free block,
 *            3 free block, 4 designated victim, 5 start marker, 6 end marker
 *   N(w) size of the block in words, LN(w) the length stored in a block in use (in words),
 *   PV(w) the free block before a block of kind 2, NX(w)/PX(w) free-list neighbours (0 none),
 *   RANK(w) increases along every free list (so lists have no cycles)
 *   HD(i) first block of list i, BIDX(s) list number of size s (contract of wg_freebuckets_index)
 * The maps are arbitrary subject to the invariant, so a proof covers every reachable heap.
 * unfold(w) assumes the invariant at w and gives the words of the block their structured values. */
#ifndef AREA
#define AREA O_datarec_area_header
#endif
#define FB(i) (AREA + O_freebuckets + 8*(u64)(i))
#define NB (K_EXACTBUCKETS_NR + K_VARBUCKETS_NR)
#define DVO FB(K_DVBUCKET)
#define DVS FB(K_DVSIZEBUCKET)
#define HDRW (HDRSIZE / 8)
#define A(w) (DBBASE + 8*(w))
GHOST(KIND, u64) GHOST(N, u64) GHOST(LN, u64) GHOST(PV, u64) GHOST(NX, u64) GHOST(PX, u64) GHOST(HD, u64) GHOST(BIDX, u64) GHOST(RANK, u64)
static u64 DBW, DV;            /* segment size in words, designated victim (0 none) */
static u64 U[40], UN[40]; static u8 UG[40]; static int nu;
static inline u64 bidx(u64 s) { u64 r = BIDX_(s); ASSUME((r >= 0) & (r < NB)); ASSUME(s < K_EXACTBUCKETS_NR ? r == s : r >= K_EXACTBUCKETS_NR); return r; }
static inline void heap_db(void) {
  DBW = ND_u64();
  ASSUME(DBW >= HDRW + 512 && DBW <= ((u64)1 << 37));
  DBSIZE = 8 * DBW;
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  DEF(SEG(O_size), DBSIZE);
  nu = 0;
}
static inline u8 isfr(u64 w) { return KIND_(w) == 3; }
static inline u64 head(u64 b) { u64 h = HD_(b); DEF(SEG(FB(b)), 8 * h); ASSUME((h == 0) | (isfr(h) & (BIDX_(8 * N_(h)) == b))); return h; }
/* size, bounds and disjointness; g guards the facts */
static void place(u64 w, u8 g) {
  u64 n = N_(w);
  ASSUME(!g | ((w >= HDRW) & (n >= 4) & (w + n <= DBW)));
  for (int i = 0; i < nu; i++) ASSUME(!g | !UG[i] | (U[i] == w) | (U[i] + UN[i] <= w) | (w + n <= U[i]));
  U[nu] = w; UN[nu] = n; UG[nu] = g; nu++;
}
/* facts about a free block as assumptions, no case split */
static void soft_free(u64 w, u8 g) {
  u64 n = N_(w), b = bidx(8 * n), nx = NX_(w), px = PX_(w), h = HD_(b);
  place(w, g);
  ASSUME(!g | ((RD(A(w)) == 8 * n + 1) & (RD(A(w + 1)) == 8 * nx)));
  ASSUME(!g | (nx == 0) | (isfr(nx) & (BIDX_(8 * N_(nx)) == b) & (PX_(nx) == w) & (nx != h) & (RANK_(nx) > RANK_(w))));
  ASSUME(!g | (h == w ? RD(A(w + 2)) == FB(b) : ((RD(A(w + 2)) == 8 * px) & isfr(px) & (BIDX_(8 * N_(px)) == b) & (NX_(px) == w) & (RANK_(px) < RANK_(w)))));
}
static u64 unfold_k(u64 w, u64 k) {
  u64 n = N_(w);
  if (k == 0) return 0;
  place(w, 1);
  if (k == 1 || k == 2) {
    u64 l = LN_(w);
    ASSUME((l == n) | ((l >= 0) & (l < 4) & (n == 4)));
    DEF(A(w), 8 * l + (k == 1 ? 0 : 2));
    if (k == 2) { u64 p = PV_(w); ASSUME(isfr(p) & (p + N_(p) == w)); DEF(A(w) - 8, 8 * N_(p) + 1); }
  }
  if (k == 3) {
    u64 b = bidx(8 * n), nx = NX_(w), h = head(b), px = PX_(w);
    DEF(A(w), 8 * n + 1); DEF(A(w + n - 1), 8 * n + 1);
    DEF(A(w + 1), 8 * nx);
    ASSUME((nx == 0) | (isfr(nx) & (BIDX_(8 * N_(nx)) == b) & (PX_(nx) == w) & (nx != h) & (RANK_(nx) > RANK_(w))));
    if (FORK(h == w, 2)) DEF(A(w + 2), FB(b));
    else { DEF(A(w + 2), 8 * px); ASSUME(isfr(px) & (BIDX_(8 * N_(px)) == b) & (NX_(px) == w) & (RANK_(px) < RANK_(w))); }
  }
  if (k == 4) { ASSUME(w == DV); DEF(A(w), 8 * n + 3); DEF(A(w + 1), 1); }
  if (k >= 5) { ASSUME(n == 4); DEF(A(w), 35); DEF(A(w + 1), 0); }
  return k;
}
static u64 unfold(u64 w, u64 mask) { return unfold_k(w, FORKM(KIND_(w), mask)); }
/* what may follow a block: a block; free space is merged */
static u64 after_mask(u64 k) { return k == 3 ? 0x44 : k == 4 ? 0x42 : 0x5a; }
static u64 unfold_next(u64 w, u64 k) {
  u64 m = w + N_(w), km = FORKM(KIND_(m), after_mask(k));
  ASSUME(m < DBW);
  if (k == 3 && km == 2) ASSUME(PV_(m) == w);
  return unfold_k(m, km);
}
static void soft_links(u64 w) {
  u64 nx = NX_(w), px = PX_(w);
  soft_free(nx, nx != 0);
  soft_free(px, HD_(bidx(8 * N_(w))) != w);
}
static void dv_words(void) {
  DEF(SEG(DVO), 8 * DV);
  if (FORK(DV != 0, 2)) { ASSUME(KIND_(DV) == 4); DEF(SEG(DVS), 8 * N_(DV)); } else DEF(SEG(DVS), 0);
}
