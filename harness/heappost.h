/* ---- the invariant of heapinv.h, checked on the post-state --------------------------------------------------
 * The including harness defines kind1(w), n1(w), ln1(w), prev1(w) (the block structure after the operation),
 * changed(w) (blocks created or resized), GONE(w) (the block freed, if any) and lists the changed blocks in CB. */
static u64 W, CB[4]; static int ncb;
static u64 INS;   /* the block this operation put on a free list (0 none) */
static u64 rank1(u64 w) { return w == INS ? RANK_(RD(A(INS + 1)) / 8) - 1 : RANK_(w); }
static u8 isfr1(u64 w) { return kind1(w) == 3; }
static u64 bx(u64 w) { return BIDX_(8 * n1(w)); }
static void post_self(void) {
  W = ND_u64();
  u64 k0 = FORKM(KIND_(W), 0x7f);
  if (k0 == 0) { if (!changed(W)) return; } else unfold_k(W, k0);
  u64 k = kind1(W), n = n1(W), h = RD(A(W));
  CHECK(IMPL(k != 0, W >= HDRW && n >= 4 && W + n <= DBW), "ens: every block has a valid size inside the segment");
  CHECK(IMPL(k == 1, h == 8 * ln1(W)), "ens: blocks in use keep their length");
  CHECK(IMPL(k == 2, h == 8 * ln1(W) + 2), "ens: blocks in use keep their length");
  CHECK(IMPL(k == 3, h == 8 * n + 1 && RD(A(W + n - 1)) == h), "ens: a free block records its size at both ends");
  CHECK(IMPL(k == 4, h == 8 * n + 3 && RD(A(W + 1)) == 1 && NDV == 8 * W && RD(SEG(DVS)) == 8 * n), "ens: the designated victim is recorded in the area header");
  CHECK(IMPL(k >= 5, h == 35 && RD(A(W + 1)) == 0), "ens: markers stay");
  for (int j = 0; j < ncb; j++) CHECK(W == CB[j] || k == 0 || W + n <= CB[j] || CB[j] + n1(CB[j]) <= W, "ens: blocks do not overlap");
  COVER("post_self");
}
static void post_next(void) {
  W = ND_u64();
  u64 k0 = FORKM(KIND_(W), 0x7f);
  if (k0 == 0) { if (!changed(W)) return; } else unfold_k(W, k0);
  u64 k = kind1(W);
  if (k == 0) return;
  if (k0 != 6 && !changed(W)) unfold_next(W, k0);
  u64 m = W + n1(W), km = kind1(m);
  CHECK(k == 6 || m < DBW, "ens: the next block is inside the segment");
  CHECK(k == 6 || (k == 3 ? km == 2 || km == 6 : k == 4 ? km == 1 || km == 6 : km == 1 || km == 3 || km == 4 || km == 6), "ens: every block is followed by a block and free neighbours are merged");
  COVER("post_next");
}
static void post_prev(void) {
  W = ND_u64();
  u64 k0 = FORKM(KIND_(W), 0x7f);
  if (k0 == 0) { if (!changed(W)) return; } else unfold_k(W, k0);
  if (kind1(W) != 2) return;
  u64 f = RD(A(W) - 8), p = prev1(W);
  if (k0 == 2) soft_free(PV_(W), 1);
  CHECK(p + n1(p) == W && isfr1(p) && f == 8 * n1(p) + 1, "ens: a block marked as following a free block does");
  COVER("post_prev");
}
static void post_links(void) {
  W = ND_u64();
  u64 k0 = FORKM(KIND_(W), 0x7f);
  if (k0 == 0) { if (!changed(W)) return; } else unfold_k(W, k0);
  if (k0 == 3) soft_links(W);
  if (kind1(W) != 3) return;
  u64 n = RD(A(W + 1)), p = RD(A(W + 2)), b = bx(W), h = RD(SEG(FB(b)));
  u64 nw = n / 8, pw = p / 8;
  CHECK(n == 0 || (n == 8 * nw && isfr1(nw)), "ens: the next block of a free list is a free block");
  CHECK(n == 0 || bx(nw) == b, "ens: the next block of a free list has the same size class");
  CHECK(n == 0 || RD(A(nw + 2)) == 8 * W, "ens: the next block of a free list points back");
  CHECK(n == 0 || rank1(nw) > rank1(W), "ens: a free list has no cycle");
  CHECK(h == 0 || h != n, "ens: the first block of a free list is not the next of another");
  if (h == 8 * W) { CHECK(p == FB(b), "ens: the first block of a free list points to its list head"); }
  else { CHECK(p == 8 * pw && isfr1(pw) && bx(pw) == b && RD(A(pw + 1)) == 8 * W, "ens: every other free block is linked from the block before it"); }
  COVER("post_links");
}
static void post_heads(void) {
  u64 i = ND_u64();
  ASSUME(i >= 0 && i < NB);
  u64 h0 = head(i);
  soft_free(h0, h0 != 0);
  u64 h = RD(SEG(FB(i))), w = h / 8;
  CHECK(h == 0 || (h == 8 * w && isfr1(w) && bx(w) == i), "ens: every list head is a free block of its size class");
  u64 d = NDV / 8;
  CHECK(NDV == 0 ? RD(SEG(DVS)) == 0 : (NDV == 8 * d && kind1(d) == 4 && RD(SEG(DVS)) == 8 * n1(d)), "ens: the recorded designated victim is a block");
  COVER("post_heads");
}
static void post_frame(void) {
  W = ND_u64();
  unfold(W, 6);
  if (GONE(W)) return;
  u64 x = ND_u64();
  ASSUME(x > W && x < W + N_(W));
  CHECK(RD(A(x)) == R0(A(x)), "ens: contents of other blocks in use are unchanged");
  u64 k = kind1(W), y = ND_u64();
  CHECK(k == 1 || k == 2, "ens: other blocks stay in use");
  ASSUME(y >= 0 && y < DBSIZE && (y < AREA || y >= AREA + AREASIZE) && y < HDRSIZE && (y & 7) == 0);
  CHECK(RD(SEG(y)) == R0(SEG(y)), "ens: nothing else in the segment header changes");
  COVER("post_frame");
}
static void post_all(u64 p) {
  if (p == 0) post_self(); else if (p == 1) post_next(); else if (p == 2) post_prev(); else if (p == 3) post_links(); else if (p == 4) post_heads(); else post_frame();
}
