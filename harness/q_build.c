//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: internal_build_query
//@ contracts: prepare_params most_restricting_column find_ttree_bounds wg_get_first_record wg_fetch wg_create_mpool wg_alloc_mpool wg_free_query wg_compare
//@ loopinv: internal_build_query 0 @n,start_bound,end_bound,start_inclusive,end_inclusive
//@ loopinv: internal_build_query 1 @n,cnt
//@ loopinv: internal_build_query 2 @n,j
//@ loopinv: internal_build_query 3 i,prevnext,currpage
#include "common.h"
/* KY: rank of a value in the order of wg_compare (A13). X: the rank of the key of any row. AC(n): X satisfies the first n
 * conditions on the column of the index, NE(n): one of these is an inequality, RC(n): number of the first n conditions on other columns. */
GHOST(KY, u64) GHOST(AC, u8) GHOST(NE, u8) GHOST(RC, u64) GHOST(QR, u64)
#define AL (HEAPBASE + ((u64)1 << 42))
#define A2 (HEAPBASE + ((u64)3 << 42))
#define PB (HEAPBASE + ((u64)5 << 42))
#define QY (HEAPBASE + 64)
#define SA SZ_wg_query_arg
#define PS K_QUERY_RESULTSET_PAGESIZE
#define PSZ (8 * PS + 8)
static u64 FC, COL, IX, X, I, CNT2, W, FB, CO, CS, EO, ES, R1, ML, NR, NP, SL, WP, WS, LIM, MATCH, RLEN, ARGL, ARGC, MP; static u8 inl, ph, prep, mrc, fb, qal, al2, fal, fq, fqq, pool, ended, perr, pf, sz0;
static u8 in(u64 a, u64 n, u64 b, u64 m) { return (a >= b) & (a + n <= b + m); }
u8 mok_extra(u64 a, u64 n) { return ((fal == 0) & in(a, n, AL, FC * SA)) | ((al2 == 1) & in(a, n, A2, CNT2 * SA)) | ((NP > 0) & in(a, n, PB, NP * PSZ)); }
#define A(i, f) RD(AL + SA * (i) + (f))
#define B(i, f) RD(A2 + SA * (i) + (f))
#define EQ_ K_WG_COND_EQUAL
static u8 oncol(u64 i) { return A(i, OA_column) == COL; }
static u8 cond(u64 i) { u64 k = A(i, OA_cond), b = KY_(A(i, OA_value)); u8 c = !(k == EQ_ & X != b) & !((k == K_WG_COND_LESSTHAN) & (X >= b)) & !((k == K_WG_COND_GREATER) & (X <= b)) & !((k == K_WG_COND_LTEQUAL) & (X > b)) & !((k == K_WG_COND_GTEQUAL) & (X < b)); return !oncol(i) | c; }
static u8 ac(u64 n) { return AC_(n) != 0; }
static u8 ne(u64 n) { return NE_(n) != 0; }
static void facts(u64 i) { ASSUME(i < 0 || ((ac(i + 1) == (ac(i) & cond(i))) & (ne(i + 1) == (ne(i) | (oncol(i) & (A(i, OA_cond) == K_WG_COND_NOT_EQUAL)))) & (RC_(i + 1) == RC_(i) + !oncol(i)))); ASSUME(i < 0 || (RC_(i) >= 0 && RC_(i) <= i)); }
static void facts0(void) { ASSUME(ac(0) && !ne(0) && RC_(0) == 0); }
static void mono(u64 a, u64 b) { ASSUME((a > b) | (RC_(a) <= RC_(b))); ASSUME((a >= b) | (RC_(a) + !oncol(a) <= RC_(b))); }
u64 c_wg_compare(u64 db, u64 a, u64 b, u32 d) {
  CHECK(db == DB && (s32)d == 7, "pre: values are compared to the full depth");
  if (FORK(KY_(a) < KY_(b), 2)) return K_WG_LESSTHAN; return FORK(KY_(a) == KY_(b), 2) ? K_WG_EQUAL : K_WG_GREATER;
}
u64 c_prepare_params(u64 db, u64 m, u64 rl, u64 a, u64 c, u64 fa, u64 fc) {
  CHECK(db == DB && !prep && m == MATCH && rl == RLEN && a == ARGL && c == ARGC, "pre: the parameters of the query are prepared"); 
  if (FORK(ND_u8(), 2)) { prep = 2; return ND_u64() | 1; } prep = 1; WR(fa, FC ? AL : 0); WR(fc, FC); return 0;
}
u64 x_malloc(u64 n) {
  if (!qal) { CHECK(prep == 1 && n >= SZ_wg_query, "pre: room for the query"); qal = FORK(ND_u8(), 2) ? 2 : 1; return qal == 1 ? QY : 0; }
  CHECK(!al2 && n >= SA * RC_(FC) && RC_(FC) > 0 && qal == 1, "pre: room for the conditions that remain"); CNT2 = RC_(FC); al2 = FORK(ND_u8(), 2) ? 2 : 1; return al2 == 1 ? A2 : 0;
}
void x_free(u64 p) {
  if (FORK(p == AL, 2)) { CHECK(FC > 0 && fal == 0, "pre: the list of conditions is released once"); fal = 1; return; }
  CHECK(p == QY && qal == 1 && !fq, "pre: the query is released once"); fq = 1;
}
u64 c_most_restricting_column(u64 db, u64 a, u64 c, u64 idp) {
  CHECK(db == DB && prep == 1 && qal == 1 && !mrc && a == AL && c == FC && FC > 0 && idp, "pre: an index is sought for the conditions"); mrc = 1;
  if (FORK(ND_u8(), 2)) { WR(idp, IX); return COL; } IX = RD(idp); CHECK(IX <= 0, "pre: no index is preset"); return -1;
}
#define Q(f) RD(QY + (f))
static u8 bounds_ok(u64 sb, u64 eb, u64 si, u64 ei) { return ((sb == K_WG_ILLEGAL) | (si ? X >= KY_(sb) : X > KY_(sb))) & ((eb == K_WG_ILLEGAL) | (ei ? X <= KY_(eb) : X < KY_(eb))); }
u64 c_find_ttree_bounds(u64 db, u64 ix, u64 col, u64 sb, u64 eb, u64 si, u64 ei, u64 pco, u64 pcs, u64 peo, u64 pes) {
  CHECK(db == DB && !fb && mrc && IX > 0 && ix == IX && col == COL, "pre: the range is sought in the index chosen");
  CHECK(pco == QY + O_curr_offset && pcs == QY + O_curr_slot && peo == QY + O_end_offset && pes == QY + O_end_slot, "pre: the range is stored in the query");
  CHECK(Q(O_curr_offset) == 0 && Q(O_end_offset) == 0, "pre: no range is set");
  u64 ks = KY_(sb), ke = KY_(eb); CHECK(sb == K_WG_ILLEGAL || eb == K_WG_ILLEGAL || ks < ke || (ks == ke && si && ei), "pre: the bounds do not exclude each other");
  CHECK(bounds_ok(sb, eb, si, ei) == ac(FC), "ens: a row is within the bounds if and only if it satisfies the conditions on the column");
  if (FORK(ND_u8(), 2)) { fb = 2; return -1; } fb = 1; CO = ND_u64(); CS = ND_u64(); EO = ND_u64(); ES = ND_u64(); WR(pco, CO); WR(pcs, CS); WR(peo, EO); WR(pes, ES); return 0;
}
u64 c_wg_get_first_record(u64 db) { CHECK(db == DB && qal == 1 && IX <= 0, "pre: without an index all records are scanned"); R1 = FORK(ND_u8(), 2) ? ND_u64() : 0; ASSUME(R1 == 0 || (R1 >= SEG(HDRSIZE) && R1 < SEG(DBSIZE))); return R1; }
static u64 step(u8 p) { if (ph != p) { ph = p; inl = 0; } return inl ? I + 1 : 0; }
static void at(u64 n, u64 m) { inl = 1; I = n; ASSUME(I >= 0 && I <= m); facts(I); }
#define L0 (n <= FC) && (s32)si >= 0 && (s32)si <= 1 && (s32)ei >= 0 && (s32)ei <= 1
void LI_ASSERT_internal_build_query_0(u64 n, u64 sb, u64 eb, u32 si, u32 ei) { facts0(); u64 s = step(1);
  CHECK(n == s && L0 && bounds_ok(sb, eb, si, ei) == ac(n), "loop invariant: the bounds say the same as the conditions so far");
  CHECK(Q(OQ_column) == (ne(n) ? (u64)-1 : COL), "loop invariant: the column stands for its conditions unless one is an inequality"); }
void LI_HAVOC_internal_build_query_0(u64 n, u64 sb, u64 eb, u32 si, u32 ei) { vx_havoc_word(QY + OQ_column); }
void LI_ASSUME_internal_build_query_0(u64 n, u64 sb, u64 eb, u32 si, u32 ei) { at(n, FC); ASSUME(L0); ASSUME(bounds_ok(sb, eb, si, ei) == ac(I)); ASSUME(Q(OQ_column) == (ne(I) ? (u64)-1 : COL)); ASSUME(I >= FC || A(I, OA_value) != K_WG_ILLEGAL); }
void LI_ASSERT_internal_build_query_1(u64 n, u32 c) { facts0(); u64 s = step(2); CHECK(n == s && n <= FC && c == RC_(n), "loop invariant: the conditions on other columns are counted"); }
void LI_HAVOC_internal_build_query_1(u64 n, u32 c) { }
void LI_ASSUME_internal_build_query_1(u64 n, u32 c) { at(n, FC); ASSUME(c == RC_(I)); }
static u8 kept(u64 n) { u64 k = RC_(W); return (W >= n) | oncol(W) | ((B(k, OA_column) == A(W, OA_column)) & (B(k, OA_cond) == A(W, OA_cond)) & (B(k, OA_value) == A(W, OA_value))); }
void LI_ASSERT_internal_build_query_2(u64 n, u32 j) { facts0(); u64 s = step(3); CHECK(n == s && n <= FC && j == RC_(n) && kept(n) && Q(O_arglist) == A2, "loop invariant: the conditions on other columns are kept"); }
void LI_HAVOC_internal_build_query_2(u64 n, u32 j) { vx_havoc_range(A2, A2 + CNT2 * SA); }
void LI_ASSUME_internal_build_query_2(u64 n, u32 j) { at(n, FC); ASSUME(j == RC_(I)); ASSUME(Q(O_arglist) == A2); ASSUME(kept(I)); mono(W, I); mono(I, FC); }
/* the query as it is once the way to its rows is set */
static u8 KEPT, SET;
static void is_set(u8 pre) {
  if (SET) return; SET = 1;
  if (IX <= 0) { CHECK(Q(OQ_qtype) == K_WG_QTYPE_SCAN && Q(O_curr_record) == (R1 ? R1 - DBBASE : 0) && Q(O_arglist) == (FC ? AL : 0) && Q(O_argc) == FC && !fal, "ens: a scan starts at the first record and checks all conditions"); COVER("scan"); return; }
  CHECK(Q(OQ_qtype) == K_WG_QTYPE_TTREE && Q(O_direction) == 1, "ens: a query of an index goes through a range upwards");
  if (fb) CHECK(fb == 1 && Q(O_curr_offset) == CO && Q(O_curr_slot) == CS && Q(O_end_offset) == EO && Q(O_end_slot) == ES, "ens: the range is the one found"); else CHECK(Q(O_curr_offset) == 0 && !ac(FC), "ens: without a range no row can satisfy the conditions");
  if (FORK(ne(FC), 2)) { CHECK(Q(O_arglist) == AL && Q(O_argc) == FC && !fal, "ens: all conditions are checked if one is an inequality"); COVER("ne"); return; }
  CHECK(fal == 1 && Q(O_argc) == RC_(FC), "ens: only the conditions on other columns are kept");
  if (al2) { CHECK(al2 == 1 && Q(O_arglist) == A2, "ens: the conditions on other columns are checked"); COVER("kept"); } else { CHECK(Q(O_arglist) == 0 && RC_(FC) == 0, "ens: nothing is checked if there is no other condition"); COVER("none"); }
}
u64 c_wg_create_mpool(u64 db, u32 n) { CHECK(db == DB && pf && !pool && n >= PSZ, "pre: room for the first rows"); pool = FORK(ND_u8(), 2) ? 2 : 1; return pool == 1 ? MP : 0; }
u64 c_wg_fetch(u64 db, u64 q) {
  CHECK(db == DB && q == QY && pool == 1 && !ended, "pre: the rows of the query are fetched one after the other"); is_set(0);
  CHECK(LIM == 0 || NR < LIM, "ens: no more rows than the limit are fetched");
  if (FORK(ND_u8(), 2)) { ended = 1; return 0; } ASSUME(QR_(NR) >= SEG(HDRSIZE) && QR_(NR) < SEG(DBSIZE)); NR++; return QR_(NR - 1); /* its effects on the cursor are kept until the query type changes */
}
u64 c_wg_alloc_mpool(u64 db, u64 mp, u32 n) { CHECK(db == DB && pool == 1 && mp == MP && n >= PSZ && !ended && NR == NP * PS + 1, "pre: a page is added when the last one is full"); if (FORK(ND_u8(), 2)) { perr = 1; return 0; } NP++; return PB + (NP - 1) * PSZ; }
void c_wg_free_query(u64 db, u64 q) { CHECK(db == DB && q == QY && qal == 1 && !fq && (pool == 2 || perr), "pre: a query that cannot be completed is released"); fqq = fq = 1; }
#define ROWAT(p, s) RD(PB + (p) * PSZ + 8 * (s))
#define NEXT(p) RD(PB + (p) * PSZ + 8 * PS)
static u8 pages(u64 np, u64 sl) { /* the witness place (WP, WS) holds its row, or is empty after the last row, and the pages are chained */
  u8 old = (WP < np - 1) | ((WP == np - 1) & (WS < sl)), emp = (WP == np - 1) & (WS >= sl);
  return (!old | (ROWAT(WP, WS) == QR_(WP * PS + WS) - DBBASE)) & (!emp | (ROWAT(WP, WS) == 0)) & ((WP >= np) | (NEXT(WP) == (WP == np - 1 ? 0 : PB + (WP + 1) * PSZ))); }
#define L3 CHK(np >= 0 && (np == 0 ? i == PS && pn == QY + O_curr_page && nr == 0 : (s32)i >= 1 && (s32)i <= PS && pn == NEXTA(np - 1) && pg == PB + (np - 1) * PSZ && nr == (np - 1) * PS + (s32)i)); CHK(Q(O_curr_page) == (np ? PB : 0)); CHK(Q(O_res_count) == nr && nr >= 0); CHK(LIM == 0 || nr < LIM || nr == 0); CHK(Q(O_curr_pidx) == 0); CHK(pages(np, (s32)i));
#define NEXTA(p) (PB + (p) * PSZ + 8 * PS)
void LI_ASSERT_internal_build_query_3(u32 i, u64 pn, u64 pg) { u64 np = NP, nr = NR; u8 e = 0;
#define CHK(c) CHECK(c, "loop invariant: the rows so far are on the pages, in order")
  L3
#undef CHK
  is_set(0); }
void LI_HAVOC_internal_build_query_3(u32 i, u64 pn, u64 pg) { vx_havoc_range(PB, PB + ((u64)1 << 42)); vx_havoc_word(QY + O_curr_page); vx_havoc_word(QY + O_res_count); }
void LI_ASSUME_internal_build_query_3(u32 i, u64 pn, u64 pg) { u64 np, nr; NP = ND_u64(); NR = ND_u64(); ASSUME(NP >= 0 && NP <= ((u64)1 << 30)); ASSUME(NR >= 0); if (!FORK(NP > 0, 2)) { NP = 0; NR = 0; } np = NP; nr = NR; 
#define CHK(c) ASSUME(c)
  L3
#undef CHK
}
ENTRY(q_build) {
  DBSIZE = ND_u64(); ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 512; DEF(HEAPBASE, DBBASE); ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  inl = ph = prep = mrc = fb = qal = al2 = fal = fq = fqq = pool = ended = perr = SET = 0; NP = NR = 0; CNT2 = 0; R1 = 0;
  MATCH = ND_u64(); RLEN = ND_u64(); ARGL = ND_u64(); ARGC = ND_u64(); LIM = ND_u64(); ASSUME(LIM >= 0); MP = ND_u64(); ASSUME(MP > 0);
  FC = ND_u64(); ASSUME(FC >= 0 && FC <= 0x3fffffff); u8 some = FORK(FC > 0, 2); if (!some) FC = 0; COL = ND_u64(); ASSUME(COL >= 0); IX = -1; if (some) { IX = ND_u64(); if (!FORK(IX > 0, 2)) ASSUME(IX <= 0); }
  X = ND_u64(); W = ND_u64(); WP = ND_u64(); WS = ND_u64(); ASSUME(W >= 0 && W < FC + !FC); ASSUME(WP >= 0 && WS >= 0 && WS < PS); facts(W); facts(FC);
  pf = FORK(ND_u8(), 2); u64 fl = ND_u64(); ASSUME(fl == (pf ? K_QUERY_FLAGS_PREFETCH : 0));
  u64 r = f_internal_build_query(DB, MATCH, RLEN, ARGL, ARGC, fl, LIM);
  if (r == 0) {
    CHECK(prep == 2 || qal == 2 || fb == 2 || al2 == 2 || pool == 2 || perr, "ens: a query fails only if its parameters are bad, the index is broken or memory is short");
    if (qal == 1) CHECK(fq, "ens: a failed query is released"); if (prep == 1 && FC && !fqq) CHECK(fal, "ens: the conditions of a failed query are released"); COVER("fail"); return; }
  CHECK(r == QY && qal == 1 && !fq, "ens: the query is returned"); is_set(1);
  if (al2 == 1) CHECK(kept(FC), "ens: the conditions on other columns are the ones given");
  if (!pf) { CHECK(!pool, "ens: rows are fetched when asked for"); COVER("lazy"); return; }
  CHECK(Q(OQ_qtype) == K_WG_QTYPE_PREFETCH && pool == 1 && Q(O_mpool) == MP && Q(O_curr_pidx) == 0 && Q(O_curr_page) == (NP ? PB : 0), "ens: the rows fetched are read from the first page");
  CHECK(Q(O_res_count) == NR && (ended || (LIM && NR == LIM)), "ens: all rows are fetched, or as many as the limit, and counted");
  CHECK(pages(NP, NR - (NP - 1) * PS), "ens: the pages hold the rows, in order"); COVER("rows");
}
