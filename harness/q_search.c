//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_search_ttree_rightmost wg_search_ttree_leftmost wg_search_tnode_first wg_search_tnode_last find_ttree_bounds
//@ contracts: wg_search_ttree_rightmost wg_search_ttree_leftmost wg_search_tnode_first wg_search_tnode_last wg_compare wg_get_field
//@ loopinv: wg_search_tnode_first 0 @n
//@ loopinv: wg_search_tnode_last 0 @n
#include "common.h"
/* The nodes of the tree, in order, are the ghost sequence NO(i), i < M; node i holds CT(i) rows, whose keys in the indexed
 * column have the ranks PK(i, s), in order. The order of wg_compare (A13) is represented by the rank KY of a value. */
GHOST(NO, u64) GHOST(CT, u64) GHOST(PK, u64) GHOST(KY, u64) GHOST(VF, u64)
#define AS K_WG_TNODE_ARRAY_SIZE
static u64 M, LO, HI, R, KEY, RES, NB, DIR, NODE, CNT, COL, G, ID, HDR, SB, EB, W, WI, WS, KW, IS, IE, TS, TE, NS, P1, P2; static u8 mode, rec, sinc, einc, phase, empty, inl;
u8 mok_extra(u64 a, u64 n) { return 0; }
static u64 P(u64 i, u64 s) { return PK_(i * AS + s); }
static u8 oko(u64 o) { return (o >= HDRSIZE) & ((o & 7) == 0) & (o + TNSIZE <= DBSIZE); }
static void nd(u64 i) { ASSUME(i < 0 || i >= M || oko(NO_(i))); }
#define NMIN(i) RD(SEG(NO_(i)) + O_current_min)
#define NMAX(i) RD(SEG(NO_(i)) + O_current_max)
u64 c_wg_compare(u64 db, u64 a, u64 b, u32 d) {
  CHECK(db == DB && (s32)d == 7, "pre: values are compared to the full depth");
  u8 l = FORK(KY_(a) < KY_(b), 2); if (l) return K_WG_LESSTHAN;
  return FORK(KY_(a) == KY_(b), 2) ? K_WG_EQUAL : K_WG_GREATER;
}
/* ---- the two searches in the tree: subtree = nodes LO..HI, root R */
static void setup0(void) {
  DBSIZE = ND_u64(); ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 512; DEF(HEAPBASE, DBBASE); ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  rec = phase = inl = 0; M = ND_u64(); ASSUME(M >= 1 && M <= ((u64)1 << 36));
}
static void tree(u8 right) {
  setup0(); mode = 0; DIR = right; LO = ND_u64(); HI = ND_u64(); R = ND_u64(); ASSUME(LO >= 0 && LO <= R && R <= HI && HI < M);
  nd(R); ASSUME(oko(NO_(R))); KEY = ND_u64(); RES = HEAPBASE + 256;
  u64 l = RD(SEG(NO_(R)) + O_left_child_offset), r = RD(SEG(NO_(R)) + O_right_child_offset);
  ASSUME((l != 0) == (LO < R)); ASSUME((r != 0) == (R < HI)); ASSUME(l == 0 || (oko(l) && l != r)); ASSUME(r == 0 || oko(r));
  ASSUME(NO_(R) != l && NO_(R) != r);
  u64 hk = KY_(KEY);
  if (LO > 0) { nd(LO - 1); ASSUME(oko(NO_(LO - 1))); } if (HI < M - 1) { nd(HI + 1); ASSUME(oko(NO_(HI + 1))); }
  if (right) { u8 b = FORK(LO > 0, 2); NB = b ? SEG(NO_(LO - 1)) : 0; if (b) ASSUME(hk >= KY_(NMIN(LO - 1))); if (HI < M - 1) ASSUME(hk < KY_(NMIN(HI + 1))); }
  else { u8 b = FORK(HI < M - 1, 2); NB = b ? SEG(NO_(HI + 1)) : 0; if (b) ASSUME(hk <= KY_(NMAX(HI + 1))); if (LO > 0) ASSUME(hk > KY_(NMAX(LO - 1))); }
}
#define DEAD_L K_DEAD_END_LEFT_NOT_BOUNDING
#define DEAD_R K_DEAD_END_RIGHT_NOT_BOUNDING
#define BOUNDS K_REALLY_BOUNDING_NODE
/* what a search promises about the node it names */
#define POST_TREE(right, t, i, A) do { u64 hk_ = KY_(KEY); \
  if ((t) == BOUNDS) { A(hk_ >= KY_(NMIN(i)) && hk_ <= KY_(NMAX(i))); if (right) { if ((i) < M - 1) A(hk_ < KY_(NMIN((i) + 1))); } else if ((i) > 0) A(hk_ > KY_(NMAX((i) - 1))); } \
  else if ((t) == DEAD_L) { A(hk_ < KY_(NMIN(i))); if ((i) > 0) A(hk_ > KY_(NMAX((i) - 1))); } \
  else { A((t) == DEAD_R); A(hk_ > KY_(NMAX(i))); if ((i) < M - 1) A(hk_ < KY_(NMIN((i) + 1))); } } while (0)
#define CK(x) CHECK(x, "ens: the node named is the one where the key belongs")
static u64 search(u64 db, u64 root, u64 key, u64 res, u64 nb, u8 right);
u64 c_wg_search_ttree_rightmost(u64 db, u64 root, u64 key, u64 res, u64 nb) { return search(db, root, key, res, nb, 1); }
u64 c_wg_search_ttree_leftmost(u64 db, u64 root, u64 key, u64 res, u64 nb) { return search(db, root, key, res, nb, 0); }
static u64 sub(u64 db, u64 root, u64 key, u64 res, u64 nb, u8 right) {
  CHECK(db == DB && right == DIR && !rec && key == KEY && res == RES, "pre: the search goes on for the same key"); rec = 1;
  u64 l = RD(SEG(NO_(R)) + O_left_child_offset), r = RD(SEG(NO_(R)) + O_right_child_offset), hk = KY_(KEY);
  u8 isl = FORK(root == l && l != 0, 2); CHECK(isl || (root == r && r != 0), "pre: the search goes on in a subtree");
  if (isl) HI = R - 1; else LO = R + 1;
  if (right) { CHECK(isl ? nb == NB : nb == SEG(NO_(R)), "pre: the closest node to the left is handed on"); CHECK(isl ? hk < KY_(NMIN(R)) : hk >= KY_(NMIN(R)), "pre: the key may be in the subtree"); }
  else { CHECK(isl ? nb == SEG(NO_(R)) : nb == NB, "pre: the closest node to the right is handed on"); CHECK(isl ? hk <= KY_(NMAX(R)) : hk > KY_(NMAX(R)), "pre: the key may be in the subtree"); }
  u64 i = ND_u64(); ASSUME(i >= 0 && i < M); ASSUME(oko(NO_(i))); if (i > 0) ASSUME(oko(NO_(i - 1))); if (i < M - 1) ASSUME(oko(NO_(i + 1)));
  u8 k = FORK(ND_u8(), 3); u64 t = k == 0 ? BOUNDS : k == 1 ? DEAD_L : DEAD_R; IS = i; TS = t; POST_TREE(right, t, i, ASSUME); WR(RES, t); return NO_(i);
}
static void tree_post(u8 right, u64 r) {
  u64 t = RD(RES);
  if (rec) { CHECK(r == NO_(IS) && t == TS, "ens: the result of the search in the subtree is handed on"); COVER("down"); return; }
  u64 i; if (FORK(r == NO_(R), 2)) { i = R; COVER("root"); } else { i = right ? LO - 1 : HI + 1; CHECK(NB && SEG(r) == NB && t == BOUNDS, "ens: a node that holds the key or a neighbour of it is named"); COVER("neighbour"); }
  POST_TREE(right, t, i, CK);
}
ENTRY(q_rightmost) { tree(1); u64 r = f_wg_search_ttree_rightmost(DB, NO_(R), KEY, RES, NB); tree_post(1, r); }
ENTRY(q_leftmost) { tree(0); u64 r = f_wg_search_ttree_leftmost(DB, NO_(R), KEY, RES, NB); tree_post(0, r); }
/* ---- the search inside a node */
static u64 CUR;
u64 c_wg_get_field(u64 db, u64 r, u64 c) { CHECK(db == DB && c == COL && inl && CUR >= 0 && CUR < CNT && r == SEG(RD(SEG(NODE) + O_array_of_values + 8 * CUR)), "pre: the indexed column of a row of the node is read"); return VF_(CUR); }
static u64 slot(u64 n) { return DIR ? CNT - 1 - n : n; }
static u8 miss(u64 s) { return DIR ? KY_(VF_(s)) > KY_(KEY) : KY_(VF_(s)) < KY_(KEY); }
static u8 seen(u64 s, u64 n) { return DIR ? s >= CNT - n : s < n; }
static void la(u64 n) { CHECK(n == (inl ? G + 1 : 0) && n <= CNT && (!seen(W, n) || miss(W)), "loop invariant: no row so far is in range"); }
static void lm(u64 n) { inl = 1; G = n; ASSUME(G >= 0 && G <= CNT && (!seen(W, G) || miss(W))); CUR = slot(G); }
void LI_ASSERT_wg_search_tnode_first_0(u64 n) { la(n); } void LI_HAVOC_wg_search_tnode_first_0(u64 n) { } void LI_ASSUME_wg_search_tnode_first_0(u64 n) { lm(n); }
void LI_ASSERT_wg_search_tnode_last_0(u64 n) { la(n); } void LI_HAVOC_wg_search_tnode_last_0(u64 n) { } void LI_ASSUME_wg_search_tnode_last_0(u64 n) { lm(n); }
static void node(u8 last) {
  setup0(); DIR = last; NODE = ND_u64(); ASSUME(oko(NODE)); CNT = ND_u64(); ASSUME(CNT >= 0 && CNT <= AS && RD16(SEG(NODE) + O_number_of_elements) == CNT);
  KEY = ND_u64(); COL = ND_u64(); ASSUME(COL >= 0 && COL <= K_MAX_INDEXED_FIELDNR); W = ND_u64(); ASSUME(W >= 0 && W < CNT);
}
static void node_post(u64 r) {
  if (FORK(r == (u64)-1, 2)) { CHECK(inl && G == CNT && miss(W), "ens: no slot is named only if no row is in range"); COVER("none"); return; }
  CHECK(r >= 0 && r < CNT && !miss(r), "ens: the slot named is in range"); CHECK((DIR ? W <= r : W >= r) || miss(W), "ens: no row is in range before it"); COVER("slot");
}
ENTRY(q_node_first) { node(0); node_post(f_wg_search_tnode_first(DB, NODE, KEY, COL)); }
ENTRY(q_node_last) { node(1); node_post(f_wg_search_tnode_last(DB, NODE, KEY, COL)); }
/* ---- the bounds of a query; W = (WI, WS) is any row of the index, KW the rank of its key */
static void link(u64 i) { /* what is known of node i and its neighbours in the chain */
  ASSUME(oko(NO_(i))); ASSUME(CT_(i) >= 1 && CT_(i) <= AS && RD16(SEG(NO_(i)) + O_number_of_elements) == CT_(i));
  ASSUME(RD(SEG(NO_(i)) + O_succ_offset) == (i < M - 1 ? NO_(i + 1) : 0)); ASSUME(RD(SEG(NO_(i)) + O_pred_offset) == (i > 0 ? NO_(i - 1) : 0));
}
static void srt(u64 i, u64 s) { /* the rows are in order: row (i, s) and the row W */
  u64 p = P(i, s); u8 lt = (i < WI) | ((i == WI) & (s <= WS)), gt = (i > WI) | ((i == WI) & (s >= WS));
  ASSUME(!lt || p <= KW); ASSUME(!gt || p >= KW);
}
static void node_facts(u64 i) { link(i); srt(i, 0); srt(i, CT_(i) - 1); }
static u64 search(u64 db, u64 root, u64 key, u64 res, u64 nb, u8 right) {
  if (mode == 0) return sub(db, root, key, res, nb, right);
  CHECK(db == DB && root == RD(HDR + O_offset_root_node) && nb == 0, "pre: the search starts at the root of the index"); u64 hk = KY_(key);
  u8 st = !phase && SB != K_WG_ILLEGAL; if (st) CHECK(key == SB && right == !sinc, "pre: the lower end is sought first"); else CHECK(phase != 2 && EB != K_WG_ILLEGAL && key == EB && right == einc, "pre: the upper end is sought");
  u64 i = ND_u64(); ASSUME(i >= 0 && i < M); u8 k = FORK(ND_u8(), 3); u64 t = k == 0 ? BOUNDS : k == 1 ? DEAD_L : DEAD_R; WR(res, t);
  if (empty) { ASSUME(i == 0 && k != 0); phase = st ? 1 : 2; if (st) { IS = 0; TS = t; } else { IE = 0; TE = t; } return NO_(0); }
  node_facts(i); u8 fst = FORK(i == 0, 2), lst = FORK(i == M - 1, 2); if (!fst) node_facts(i - 1); if (!lst) node_facts(i + 1);
  if (k == 0) { ASSUME(hk >= P(i, 0) && hk <= P(i, CT_(i) - 1)); if (right) { if (!lst) ASSUME(hk < P(i + 1, 0)); } else if (!fst) ASSUME(hk > P(i - 1, CT_(i - 1) - 1)); }
  else if (k == 1) { ASSUME(hk < P(i, 0)); if (!fst) ASSUME(hk > P(i - 1, CT_(i - 1) - 1)); }
  else { ASSUME(hk > P(i, CT_(i) - 1)); if (!lst) ASSUME(hk < P(i + 1, 0)); }
  if (st) { phase = 1; IS = i; TS = t; } else { phase = 2; IE = i; TE = t; } return NO_(i);
}
static u64 in_node(u64 db, u64 no, u64 key, u64 col, u8 last) {
  u8 st = phase == 1 && SB != K_WG_ILLEGAL; u64 i = st ? IS : IE, hk = KY_(key);
  CHECK(db == DB && col == COL && phase && no == NO_(i) && (st ? TS : TE) == BOUNDS && key == (st ? SB : EB) && last == (st ? !sinc : einc), "pre: the key is sought in the node that bounds it");
  u64 s = ND_u64(); ASSUME(s >= 0 && s < CT_(i)); srt(i, s);
  /* the first row is below the key or the last one above it: some row is in range, cf. q_node_* */
  if (!last) { ASSUME(P(i, s) >= hk); if (s > 0) { srt(i, s - 1); ASSUME(P(i, s - 1) < hk); } } else { ASSUME(P(i, s) <= hk); if (s < CT_(i) - 1) { srt(i, s + 1); ASSUME(P(i, s + 1) > hk); } }
  if (st) P1 = s; else P2 = s; return s;
}
u64 c_wg_search_tnode_first(u64 db, u64 no, u64 key, u64 col) { return in_node(db, no, key, col, 0); }
u64 c_wg_search_tnode_last(u64 db, u64 no, u64 key, u64 col) { return in_node(db, no, key, col, 1); }
static void bounds(void) {
  setup0(); mode = 1; ID = ND_u64(); ASSUME(ID >= HDRSIZE && (ID & 7) == 0 && ID + SZ_index_header <= DBSIZE); HDR = SEG(ID); COL = ND_u64(); ASSUME(COL >= 0 && COL <= K_MAX_INDEXED_FIELDNR);
  ASSUME(RD(HDR + O_offset_min_node) == NO_(0) && RD(HDR + O_offset_max_node) == NO_(M - 1)); IS = IE = 0; TS = TE = 99; P1 = P2 = 0;
  SB = FORK(ND_u8(), 2) ? ND_u64() : K_WG_ILLEGAL; EB = FORK(ND_u8(), 2) ? ND_u64() : K_WG_ILLEGAL;
  u8 hs = FORK(SB != K_WG_ILLEGAL, 2), he = FORK(EB != K_WG_ILLEGAL, 2); sinc = hs ? FORK(ND_u8(), 2) : 0; einc = he ? FORK(ND_u8(), 2) : 0;
  if (hs && he) ASSUME(KY_(SB) < KY_(EB) || (sinc && einc && KY_(SB) == KY_(EB)));
  WR(HEAPBASE + 64, 0); WR(HEAPBASE + 72, (u64)-1); WR(HEAPBASE + 80, 0); WR(HEAPBASE + 88, (u64)-1);
}
static u64 run(void) { return f_find_ttree_bounds(DB, ID, COL, SB, EB, sinc, einc, HEAPBASE + 64, HEAPBASE + 72, HEAPBASE + 80, HEAPBASE + 88); }
static void di(u64 x, u64 y) { ASSUME((x < 0) | (x >= M) | (y < 0) | (y >= M) | ((NO_(x) == NO_(y)) == (x == y))); }
static void dist(u64 x) { di(x, IE - 1); di(x, IE); di(x, IE + 1); }
ENTRY(q_bounds) {
  bounds(); empty = 0; WI = ND_u64(); WS = ND_u64(); ASSUME(WI >= 0 && WI < M); link(WI); ASSUME(WS >= 0 && WS < CT_(WI)); KW = P(WI, WS); node_facts(0); node_facts(M - 1);
  u8 hs = SB != K_WG_ILLEGAL, he = EB != K_WG_ILLEGAL; if (!he) IE = M - 1;
  u64 r = run(); u64 co = RD(HEAPBASE + 64), cs = RD(HEAPBASE + 72), eo = RD(HEAPBASE + 80), es = RD(HEAPBASE + 88);
  CHECK(r == 0, "ens: the ends of the range are found");
  u64 ks = KY_(SB), ke = KY_(EB); u8 sok = !hs | (sinc ? KW >= ks : KW > ks), eok = !he | (einc ? KW <= ke : KW < ke);
  /* different nodes have different offsets */
  dist(IS - 1); dist(IS); dist(IS + 1); di(IS, IS + 1); di(IE, IE - 1);
  CHECK((co != 0) == (eo != 0), "ens: both ends are set or none");
  if (!FORK(co != 0, 2)) { CHECK(!sok || !eok, "ens: a range is empty only if no row is within the bounds"); COVER("empty"); return; }
  u64 ci = FORK(co == NO_(IS), 2) ? IS : IS + 1, ei = FORK(eo == NO_(IE), 2) ? IE : IE - 1;
  CHECK(ci >= 0 && ci < M && ei >= 0 && ei < M && co == NO_(ci) && eo == NO_(ei), "ens: the range starts and ends in nodes of the index");
  CHECK(cs >= 0 && es >= 0 && cs < CT_(ci) && es < CT_(ei), "ens: the range starts and ends at rows");
  { /* the rows are in order: the row after the range and the row before it */
    u8 nl = es + 1 < CT_(ei), pf = cs > 0; u64 ai = nl ? ei : ei + 1, as = nl ? es + 1 : 0, bi = pf ? ci : ci - 1, bs = pf ? cs - 1 : CT_(bi) - 1;
    ASSUME((ai >= M) | (bi < 0) | (ai > bi) | ((ai == bi) & (as > bs)) | (P(ai, as) <= P(bi, bs))); }
  CHECK(ci < ei || (ci == ei && cs <= es), "ens: the range does not end before it starts");
  u8 in = ((WI > ci) | ((WI == ci) & (WS >= cs))) & ((WI < ei) | ((WI == ei) & (WS <= es)));
  CHECK(in == (sok & eok), "ens: the range holds a row if and only if it is within the bounds"); COVER("range");
}
ENTRY(q_bounds_empty) {
  bounds(); empty = 1; ASSUME(M == 1 && CT_(0) == 0); ASSUME(oko(NO_(0))); ASSUME(RD16(SEG(NO_(0)) + O_number_of_elements) == 0 && RD(SEG(NO_(0)) + O_succ_offset) == 0 && RD(SEG(NO_(0)) + O_pred_offset) == 0);
  u64 r = run(); CHECK(r == 0 && RD(HEAPBASE + 64) == 0 && RD(HEAPBASE + 80) == 0, "ens: an index without rows gives no range"); COVER("empty");
}
