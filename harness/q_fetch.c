//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: check_arglist wg_fetch
//@ contracts: check_arglist wg_compare wg_get_field wg_get_record_len wg_get_next_record
//@ loopinv: check_arglist 0 @n
//@ loopinv: wg_fetch 0 @n
//@ loopinv: wg_fetch 1 @n
#include "common.h"
/* One record against a list of conditions: KY is the rank of a value in the order of wg_compare (A13), FL the field of a column. */
GHOST(KY, u64) GHOST(FL, u64) GHOST(RR, u64) GHOST(MA, u8) GHOST(NO, u64) GHOST(CT, u64)
#define AS K_WG_TNODE_ARRAY_SIZE
#define AL (HEAPBASE + ((u64)1 << 42))
#define QY (HEAPBASE + 64)
static u64 AC, LEN, REC, J, W, C0, N, M, PI, PS, EI, ES, WI, WS, ALN, SI, SS; static u8 mode, inl, ac, asked, ex, eq, lt;
u8 mok_extra(u64 a, u64 n) { return (a >= AL) & (a + n <= AL + ALN); }
static void setup(void) {
  DBSIZE = ND_u64(); ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 512; DEF(HEAPBASE, DBBASE); ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK); inl = asked = ex = 0; ALN = 0; N = M = 0;
}
static u8 okr(u64 r) { return (r >= SEG(HDRSIZE)) & (r + 24 <= SEG(DBSIZE)) & ((r & 7) == 0); }
/* ---- check_arglist */
#define ARG(i, f) RD(AL + SZ_wg_query_arg * (i) + (f))
u64 c_wg_get_field(u64 db, u64 r, u64 c) { CHECK(db == DB && r == REC && c >= 0 && c < LEN, "pre: a field of the record is read"); return FL_(c); }
u64 c_wg_get_record_len(u64 db, u64 r) { CHECK(db == DB && r == REC, "pre: the length of the record is asked"); return LEN; }
u64 c_wg_compare(u64 db, u64 a, u64 b, u32 d) {
  CHECK(db == DB && (s32)d == 7, "pre: values are compared to the full depth");
  if (FORK(KY_(a) < KY_(b), 2)) return K_WG_LESSTHAN;
  return FORK(KY_(a) == KY_(b), 2) ? K_WG_EQUAL : K_WG_GREATER;
}
static u8 holds(u64 i) {
  u64 c = ARG(i, OA_column), k = ARG(i, OA_cond), a = KY_(FL_(c)), b = KY_(ARG(i, OA_value));
  u8 known = (k == K_WG_COND_EQUAL) | (k == K_WG_COND_NOT_EQUAL) | (k == K_WG_COND_LESSTHAN) | (k == K_WG_COND_GREATER) | (k == K_WG_COND_LTEQUAL) | (k == K_WG_COND_GTEQUAL);
  u8 t = ((k == K_WG_COND_EQUAL) & (a == b)) | ((k == K_WG_COND_NOT_EQUAL) & (a != b)) | ((k == K_WG_COND_LESSTHAN) & (a < b)) | ((k == K_WG_COND_GREATER) & (a > b)) | ((k == K_WG_COND_LTEQUAL) & (a <= b)) | ((k == K_WG_COND_GTEQUAL) & (a >= b));
  return (c < LEN) & (!known | t);
}
void LI_ASSERT_check_arglist_0(u64 n) { CHECK(n == (inl ? J + 1 : 0) && n <= AC && (W >= n || holds(W)), "loop invariant: the conditions so far hold"); }
void LI_HAVOC_check_arglist_0(u64 n) { inl = 1; }
void LI_ASSUME_check_arglist_0(u64 n) { J = n; ASSUME(J >= 0 && J <= AC && (W >= J || holds(W))); u64 c = ARG(J, OA_column); ASSUME(J >= AC || c >= 0); }
ENTRY(q_conditions) {
  setup(); mode = 0; AC = ND_u64(); LEN = ND_u64(); REC = ND_u64(); ASSUME(AC >= 1 && AC <= 0x7fffffff && LEN >= 0 && LEN <= 0x7fffffff && okr(REC)); ALN = AC * SZ_wg_query_arg; W = ND_u64(); ASSUME(W >= 0 && W < AC);
  u64 r = f_check_arglist(DB, REC, AL, AC);
  if (r == 0) { CHECK(inl && J < AC && !holds(J), "ens: a record is refused only if a condition fails"); COVER("refused"); }
  else { CHECK(r == 1 && holds(W), "ens: a record is accepted only if every condition holds"); COVER("accepted"); }
}
/* ---- wg_fetch, all records: RR(k), k < N in the order of a scan; MA(k): record k satisfies the conditions */
static u64 cur(u64 k) { return k < N ? RR_(k) : 0; }
static u64 curo(u64 k) { return k < N ? RR_(k) - DBBASE : 0; }
static u64 RV(void) { return SEG(RD(SEG(NO_(PI)) + O_array_of_values + 8 * PS)); }
u64 c_wg_get_next_record(u64 db, u64 r) { CHECK(mode == 1 && db == DB && inl && J < N && r == RR_(J), "pre: the scan goes on from the current record"); return cur(J + 1); }
static u8 pas(u64 k) { return ac ? MA_(k) != 0 : 1; }
u64 c_check_arglist(u64 db, u64 r, u64 al, u64 c) {
  CHECK(ac && db == DB && al == AL && c == AC, "pre: the conditions of the query are checked");
  CHECK(inl && r == (mode == 1 ? RR_(J) : RV()), "pre: the current row is checked"); return MA_(mode == 1 ? J : PI * AS + PS) ? 1 : 0;
}
static void query(u64 type) {
  ac = FORK(ND_u8(), 2); AC = ND_u64(); DEF(QY + OQ_qtype, type); DEF(QY + O_arglist, ac ? AL : 0); DEF(QY + O_argc, AC);
}
static void rec_ok(u64 k) { ASSUME(k < 0 || k >= N || okr(RR_(k))); }
void LI_ASSERT_wg_fetch_0(u64 n) { u64 k = inl ? J + 1 : C0; CHECK(k <= N && RD(QY + O_curr_record) == curo(k) && (W < C0 || W >= k || !pas(W)), "loop invariant: no record so far satisfies the conditions and the next one is known"); }
void LI_HAVOC_wg_fetch_0(u64 n) { inl = 1; vx_havoc_word(QY + O_curr_record); }
void LI_ASSUME_wg_fetch_0(u64 n) { J = ND_u64(); ASSUME(J >= C0 && J <= N); rec_ok(J); rec_ok(J + 1); ASSUME(RD(QY + O_curr_record) == curo(J)); ASSUME(W < C0 || W >= J || !pas(W)); }
ENTRY(q_fetch_scan) {
  setup(); mode = 1; query(K_WG_QTYPE_SCAN); N = ND_u64(); C0 = ND_u64(); ASSUME(N >= 0 && C0 >= 0 && C0 <= N); rec_ok(C0); DEF(QY + O_curr_record, curo(C0)); W = ND_u64(); ASSUME(W >= 0 && W < N);
  u64 r = f_wg_fetch(DB, QY);
  if (r == 0) { CHECK(inl && J == N && RD(QY + O_curr_record) == 0 && (W < C0 || !pas(W)), "ens: a query ends when no record is left that satisfies the conditions"); COVER("end"); return; }
  CHECK(inl && J < N && r == RR_(J) && pas(J), "ens: the record returned satisfies the conditions"); CHECK(W < C0 || W >= J || !pas(W), "ens: no record that satisfies the conditions is passed over");
  CHECK(RD(QY + O_curr_record) == curo(J + 1), "ens: the query goes on with the next record"); COVER("row");
}
/* ---- wg_fetch, a range of a T-tree: nodes NO(i), i < M with CT(i) rows; the range goes on from (PI, PS) to (EI, ES) */
static void node(u64 i) { ASSUME(i < 0 || i >= M || ((NO_(i) >= HDRSIZE) & ((NO_(i) & 7) == 0) & (NO_(i) + TNSIZE <= DBSIZE) & (CT_(i) >= 1) & (CT_(i) <= AS))); }
static void node_here(void) {
  node(PI); node(PI + 1); ASSUME(RD16(SEG(NO_(PI)) + O_number_of_elements) == CT_(PI)); ASSUME(RD(SEG(NO_(PI)) + O_succ_offset) == (PI + 1 < M ? NO_(PI + 1) : 0)); ASSUME((NO_(PI) == NO_(EI)) == (PI == EI)); u64 v = RD(SEG(NO_(PI)) + O_array_of_values + 8 * PS); ASSUME(v >= HDRSIZE && (v & 7) == 0 && v + 24 <= DBSIZE);
}
static u8 before(u64 i, u64 s, u64 k, u64 t) { return (i < k) | ((i == k) & (s < t)); }
static u8 wpassed(void) { return !before(WI, WS, SI, SS) & (ex ? !before(EI, ES, WI, WS) : before(WI, WS, PI, PS)); }
/* the row after (PI, PS) in the range */
static void advance(void) { if (FORK(PI == EI, 2) && FORK(PS == ES, 2)) { ex = 1; return; } if (FORK(PS + 1 < CT_(PI), 2)) PS = PS + 1; else { PI = PI + 1; PS = 0; } }
static u8 at(void) { u64 co = RD(QY + O_curr_offset); return ex ? co == 0 : (co == NO_(PI)) & (RD(QY + O_curr_slot) == PS); }
void LI_ASSERT_wg_fetch_1(u64 n) { if (inl) advance(); CHECK(at() && (!wpassed() || !pas(WI * AS + WS)), "loop invariant: no row so far satisfies the conditions and the next one is known"); if (!ex) CHECK(!before(EI, ES, PI, PS), "loop invariant: the end of the range is not passed"); }
void LI_HAVOC_wg_fetch_1(u64 n) { inl = 1; vx_havoc_word(QY + O_curr_offset); vx_havoc_word(QY + O_curr_slot); }
void LI_ASSUME_wg_fetch_1(u64 n) {
  ex = FORK(ND_u8(), 2); PI = ND_u64(); PS = ND_u64(); node(EI); ASSUME(ES < CT_(EI)); 
  if (!ex) { ASSUME(PI >= SI && PI < M); node(PI); ASSUME(PS >= 0 && PS < CT_(PI) && !before(EI, ES, PI, PS) && !before(PI, PS, SI, SS)); node_here(); }
  ASSUME(at() && (!wpassed() || !pas(WI * AS + WS)));
}
ENTRY(q_fetch_range) {
  setup(); mode = 2; query(K_WG_QTYPE_TTREE); DEF(QY + O_direction, 1); M = ND_u64(); ASSUME(M >= 1 && M <= ((u64)1 << 36)); SI = ND_u64(); SS = ND_u64(); EI = ND_u64(); ES = ND_u64();
  ASSUME(EI >= 0 && EI < M && ES >= 0); node(EI); ASSUME(ES < CT_(EI)); ex = FORK(ND_u8(), 2); DEF(QY + O_end_offset, NO_(EI)); DEF(QY + O_end_slot, ES);
  if (ex) DEF(QY + O_curr_offset, 0); else { ASSUME(SI >= 0 && SI <= EI); node(SI); ASSUME(SS >= 0 && SS < CT_(SI) && !before(EI, ES, SI, SS)); PI = SI; PS = SS; node_here(); DEF(QY + O_curr_offset, NO_(SI)); DEF(QY + O_curr_slot, SS); }
  WI = ND_u64(); WS = ND_u64(); if (ex) { SI = EI; SS = ES + 1; } ASSUME(WI >= 0 && WI < M); node(WI); ASSUME(WS >= 0 && WS < CT_(WI));
  u64 r = f_wg_fetch(DB, QY);
  if (r == 0) { CHECK(inl && ex && RD(QY + O_curr_offset) == 0, "ens: a query ends at the end of the range"); CHECK(!wpassed() || !pas(WI * AS + WS), "ens: a query ends when no row is left that satisfies the conditions"); COVER("end"); return; }
  CHECK(inl && !ex && r == RV() && pas(PI * AS + PS), "ens: the row returned is in the range and satisfies the conditions");
  CHECK(!wpassed() || !pas(WI * AS + WS), "ens: no row that satisfies the conditions is passed over");
  advance(); CHECK(at(), "ens: the query goes on with the next row of the range"); COVER("row");
}
/* ---- wg_fetch, rows fetched before: pages of offsets */
ENTRY(q_fetch_page) {
  setup(); mode = 3; query(K_WG_QTYPE_PREFETCH); ALN = K_QUERY_RESULTSET_PAGESIZE * 8 + 8; u8 some = FORK(ND_u8(), 2); u64 p = ND_u64(); DEF(QY + O_curr_page, some ? AL : 0); DEF(QY + O_curr_pidx, p); u64 v = 0;
  if (some) { ASSUME(p >= 0 && p < K_QUERY_RESULTSET_PAGESIZE); v = RD(AL + 8 * p); ASSUME(v == 0 || (v >= HDRSIZE && v < DBSIZE)); }
  u64 nx = some ? RD(AL + 8 * K_QUERY_RESULTSET_PAGESIZE) : 0; u64 r = f_wg_fetch(DB, QY);
  if (!FORK(v != 0, 2)) { CHECK(r == 0 && RD(QY + O_curr_page) == 0, "ens: a query ends after the last row fetched"); COVER("end"); return; }
  CHECK(r == SEG(v), "ens: the rows are handed out in order");
  u8 full = FORK(p + 1 >= K_QUERY_RESULTSET_PAGESIZE, 2); CHECK(full ? RD(QY + O_curr_page) == nx && RD(QY + O_curr_pidx) == 0 : RD(QY + O_curr_page) == AL && RD(QY + O_curr_pidx) == p + 1, "ens: the query goes on with the next row"); COVER("row");
}
