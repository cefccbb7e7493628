//@ engine: vx
//@ vx: {"autocut":true,"facts":[],"overflow":false}
//@ roots: most_restricting_column
//@ contracts: wg_compare wg_get_field wg_get_record_len wg_get_encoded_type
//@ loopinv: most_restricting_column 0 @n
//@ loopinv: most_restricting_column 1 @n
//@ loopinv: most_restricting_column 2 @n,mrc,mrc_score
//@ loopinv: most_restricting_column 3 @n,ilist
//@ loopinv: most_restricting_column 4 @n
//@ loopinv: most_restricting_column 5 @n,match
#include "common.h"
/* Arbitrary predicates with the property that has to carry over to the result: ISC holds for the column of every condition;
 * IMP(c, k, j): column j of the template of the index in cell k of column c is a wild card or required by a condition; USE(c, id):
 * the index is one on column c, a T-tree, and all of its template is required (skolem column SK otherwise). */
GHOST(KY, u64) GHOST(ISC, u8) GHOST(CE, u64) GHOST(CN, u64) GHOST(IMP, u8) GHOST(USE, u8) GHOST(SK, u64) GHOST(TF, u64) GHOST(VA, u8)
#define AL (HEAPBASE + ((u64)1 << 42))
#define SC (HEAPBASE + ((u64)3 << 42))
#define SA SZ_wg_query_arg
#define IDP (HEAPBASE + 64)
#define O_col 0
#define O_iid 16
#define SS 24
static u64 FC, W, I, J, K, C, TJ, ML, TREC, IX, CELL, I2; static u8 mal, in0, in1, in2, in3, in4, in5, fr, cand, done3; static u64 ROW;
static u8 in(u64 a, u64 n, u64 b, u64 m) { return (a >= b) & (a + n <= b + m); }
u8 mok_extra(u64 a, u64 n) { return in(a, n, AL, FC * SA) | ((mal == 1) & in(a, n, SC, FC * SS)); }
#define A(i, f) RD(AL + SA * (i) + (f))
#define S(i, f) RD(SC + SS * (i) + (f))
static u8 isc(u64 c) { return ISC_(c) != 0; }
static u8 usab(u64 c, u64 id) { return USE_(id * 256 + c) != 0; }
static void arg(u64 i) { ASSUME(i < 0 || i >= FC || (A(i, OA_column) >= 0 && isc(A(i, OA_column)))); }
u64 x_malloc(u64 n) { CHECK(!mal && n >= FC * SS, "pre: room for the score of every column"); mal = FORK(ND_u8(), 2) ? 2 : 1; return mal == 1 ? SC : 0; }
void x_free(u64 p) { CHECK(p == SC && mal == 1 && !fr, "pre: the scores are released once"); fr = 1; }
static u8 colok(u64 w) { return (S(w, O_col) == (u64)-1) | ((S(w, O_col) >= 0) & isc(S(w, O_col))); }
static u8 fresh(u64 w) { return S(w, O_iid) == 0; }
/* filling the table of columns */
void LI_ASSERT_most_restricting_column_0(u64 n) { CHECK(n == (in0 ? I + 1 : 0) && n <= FC && (W >= n || (colok(W) && fresh(W))), "loop invariant: the columns noted so far are columns of conditions"); }
void LI_HAVOC_most_restricting_column_0(u64 n) { in0 = 1; vx_havoc_range(SC, SC + FC * SS); }
void LI_ASSUME_most_restricting_column_0(u64 n) { I = n; ASSUME(I >= 0 && I <= FC); arg(I); ASSUME(W >= I || (colok(W) && fresh(W))); in1 = 0; }
void LI_ASSERT_most_restricting_column_1(u64 n) { CHECK(n == (in1 ? J + 1 : 0) && n <= I && S(I, O_col) == (u64)-1 && (W > I || (colok(W) && fresh(W))), "loop invariant: there is a place for the column"); }
void LI_HAVOC_most_restricting_column_1(u64 n) { in1 = 1; }
void LI_ASSUME_most_restricting_column_1(u64 n) { J = n; ASSUME(J >= 0 && J <= I); ASSUME(J == I || colok(J)); }
/* the choice */
static u8 choice(u64 mrc) { u64 id = RD(IDP); return (id <= 0) | (isc(mrc) & (mrc >= 0) & usab(mrc, id)); }
void LI_ASSERT_most_restricting_column_2(u64 n, u64 mrc, u32 ms) { CHECK(n == (in2 ? I2 + 1 : 0) && n <= FC && colok(W) && (W < n || fresh(W)), "loop invariant: the columns are considered in order"); CHECK(choice(mrc), "loop invariant: the index chosen so far is usable"); }
void LI_HAVOC_most_restricting_column_2(u64 n, u64 mrc, u32 ms) { in2 = 1; vx_havoc_range(SC, SC + FC * SS); vx_havoc_word(IDP); }
void LI_ASSUME_most_restricting_column_2(u64 n, u64 mrc, u32 ms) {
  I2 = n; ASSUME(I2 >= 0 && I2 <= FC); ASSUME(colok(W) && (W < I2 || fresh(W))); ASSUME(I2 >= FC || (colok(I2) && fresh(I2))); ASSUME(choice(mrc)); in3 = 0; in4 = 0; C = I2 < FC ? S(I2, O_col) : 0; ASSUME(CN_(C) >= 0 && CN_(C) < DBSIZE);
}
/* the indexes of the column */
static u8 okc(u64 c) { return (c >= HDRSIZE) & ((c & 7) == 0) & (c + 16 <= DBSIZE); }
#define CID(k) ((k) * 256 + C)
static u64 HEAD(void) { return SEG(O_index_control_area_header + OI_index_table + 8 * C); }
static u64 PTR(u64 k) { return k == 0 ? HEAD() : SEG(CE_(CID(k - 1)) + 8); }
static u64 CNT(void) { return CN_(C); }
static void cell(u64 k) { ASSUME(CNT() >= 0 && CNT() < DBSIZE); if (FORK(k < CNT(), 2)) { ASSUME(okc(CE_(CID(k)))); ASSUME(RD(PTR(k)) == CE_(CID(k))); } else ASSUME(RD(PTR(k)) == 0); }
static u8 srest(void) { return colok(W) & (S(I2, O_col) == C) & fresh(I2) & ((W <= I2) | fresh(W)); }
void LI_ASSERT_most_restricting_column_3(u64 n, u64 p) { CHECK(C >= 0 && C <= K_MAX_INDEXED_FIELDNR && n == (in3 ? K + 1 : 0) && n <= CNT() && p == PTR(n) && srest(), "loop invariant: the indexes of the column are considered in order"); }
void LI_HAVOC_most_restricting_column_3(u64 n, u64 p) { vx_havoc_range(SC, SC + FC * SS); }
void LI_ASSUME_most_restricting_column_3(u64 n, u64 p) {
  in3 = 1; in4 = 0; K = n; ASSUME(CNT() >= 0 && CNT() < DBSIZE); ASSUME(K >= 0 && K <= CNT()); if (FORK(K > 0, 2)) { ASSUME(okc(CE_(CID(K - 1)))); ASSUME(p == SEG(CE_(CID(K - 1)) + 8)); } else { ASSUME(p == HEAD()); }
  ASSUME(srest()); ASSUME(isc(C)); IX = 0;
  if (!FORK(K < CNT(), 2)) { ASSUME(RD(p) == 0); return; }
  ASSUME(okc(CE_(CID(K)))); ASSUME(RD(p) == CE_(CID(K))); IX = RD(SEG(CE_(CID(K)))); if (!FORK(IX != 0, 2)) return;
  ASSUME(IX >= HDRSIZE && (IX & 7) == 0 && IX + SZ_index_header <= DBSIZE); u64 to = RD(SEG(IX) + O_template_offset); u8 t = FORK(to != 0, 2); u8 tt = FORK(RD(SEG(IX) + O_type) == K_WG_INDEX_TYPE_TTREE, 2);
  if (t) { ASSUME(to >= HDRSIZE && (to & 7) == 0 && to + SZ_index_template <= DBSIZE); u64 mo = RD(SEG(to) + OT_offset_matchrec); ASSUME(mo >= HDRSIZE && (mo & 7) == 0 && mo < DBSIZE); TREC = SEG(mo); ML = ND_u64(); ASSUME(ML >= 1 && ML <= K_MAX_INDEXED_FIELDNR + 1); } else ML = 0;
  /* what makes it usable */
  u64 sk = SK_(IX); ASSUME(!tt || usab(C, IX) || (t && sk >= 0 && sk < ML && !IMP_(IX * 256 + sk)));
}
u64 c_wg_get_record_len(u64 db, u64 r) { CHECK(db == DB && IX && ML && r == TREC, "pre: the length of the template is asked"); return ML; }
u64 c_wg_get_field(u64 db, u64 r, u64 f) { CHECK(db == DB && IX && ML && r == TREC && in4 && f == TJ && TJ < ML, "pre: the current field of the template is read"); return TF_(f); }
u64 c_wg_get_encoded_type(u64 db, u64 e) { CHECK(db == DB && in4 && e == TF_(TJ), "pre: the type of the current field is asked"); if (FORK(VA_(TJ) != 0, 2)) { ASSUME(IMP_(IX * 256 + TJ)); return K_WG_VARTYPE; } u64 t = ND_u64(); ASSUME(t != K_WG_VARTYPE); return t; }
u64 c_wg_compare(u64 db, u64 a, u64 b, u32 d) { CHECK(db == DB && (s32)d == 7, "pre: values are compared to the full depth"); if (FORK(KY_(a) == KY_(b), 2)) return K_WG_EQUAL; u64 v = ND_u64(); ASSUME(v != K_WG_EQUAL); return v; }
static u8 impw(u64 n) { u64 sk = SK_(IX); return (sk < 0) | (sk >= n) | (IMP_(IX * 256 + sk) != 0); }
void LI_ASSERT_most_restricting_column_4(u64 n) { CHECK(n == (in4 ? TJ + 1 : 0) && n <= ML && ML > 0 && impw(n) && srest(), "loop invariant: the columns of the template so far are required"); }
void LI_HAVOC_most_restricting_column_4(u64 n) { vx_havoc_range(SC, SC + FC * SS); }
void LI_ASSUME_most_restricting_column_4(u64 n) { in4 = 1; in5 = 0; TJ = n; ASSUME(TJ >= 0 && TJ <= ML && impw(TJ)); ASSUME(srest()); }
static void argimp(u64 k) { ASSUME(k >= FC || A(k, OA_column) != TJ || A(k, OA_cond) != K_WG_COND_EQUAL || KY_(A(k, OA_value)) != KY_(TF_(TJ)) || IMP_(IX * 256 + TJ)); }
void LI_ASSERT_most_restricting_column_5(u64 n, u32 m) { CHECK(n == (in5 ? ROW + 1 : 0) && n <= FC && (m == 0 || IMP_(IX * 256 + TJ)), "loop invariant: a column counts as required only if a condition requires it"); }
void LI_HAVOC_most_restricting_column_5(u64 n, u32 m) { in5 = 1; }
void LI_ASSUME_most_restricting_column_5(u64 n, u32 m) { ROW = n; ASSUME(ROW >= 0 && ROW <= FC && (m == 0 || IMP_(IX * 256 + TJ))); argimp(ROW); }
ENTRY(q_index) {
  DBSIZE = ND_u64(); ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 512; DEF(HEAPBASE, DBBASE); ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  FC = ND_u64(); ASSUME(FC >= 1 && FC <= 0x3fffffff); W = ND_u64(); ASSUME(W >= 0 && W < FC); mal = in0 = in1 = in2 = in3 = in4 = in5 = fr = 0; IX = 0; ML = 0; u64 i0 = ND_u64(); ASSUME(i0 <= 0); WR(IDP, i0);
  u64 r = f_most_restricting_column(DB, AL, FC, IDP); u64 id = RD(IDP);
  if (mal == 2) { CHECK(id <= 0, "ens: without memory no index is chosen"); COVER("nomem"); return; }
  CHECK(fr, "ens: the scores are released");
  CHECK(id <= 0 || (isc(r) && usab(r, id)), "ens: an index chosen is a tree on a column with a condition and holds all rows that satisfy the conditions");
  if (FORK(id > 0, 2)) COVER("index"); else COVER("scan");
}
