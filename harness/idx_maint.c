//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_index_add_field wg_index_del_field wg_index_add_rec wg_index_del_rec
//@ contracts: wg_match_template ttree_add_row ttree_remove_row hash_add_row hash_remove_row wg_get_record_len
//@ loopinv: wg_index_add_field 0 @n,ilist
//@ loopinv: wg_index_add_field 1 @n,ilist
//@ loopinv: wg_index_del_field 0 @n,ilist
//@ loopinv: wg_index_del_field 1 @n,ilist
//@ loopinv: wg_index_add_rec 0 @n
//@ loopinv: wg_index_add_rec 1 @n,ilist
//@ loopinv: wg_index_del_rec 0 @n
//@ loopinv: wg_index_del_rec 1 @n,ilist
#include "common.h"
/* The list of the indexes of a column (list 0: the column is indexed; list 1: it is fixed by the template of the index) is the
 * ghost sequence of cells CE(k), k < CN(column, list). Every call that adds or removes a row is checked against the index in
 * the cell of the current iteration; after every iteration exactly the due call was made, once. */
GHOST(CE, u64) GHOST(CN, u64)
static u64 REC, RLEN, META, COL, L, J, IX, HDR, TY, C; static u8 inl, ino, whole, rem, mt, want, done, failed, asked, ncalls, l0;
u8 mok_extra(u64 a, u64 n) { return 0; }
static u8 okc(u64 c) { return (c >= HDRSIZE) & ((c & 7) == 0) & (c + 16 <= DBSIZE); }
static u64 HEAD(u64 l, u64 c) { return SEG(O_index_control_area_header + (l ? OI_index_template_table : OI_index_table) + 8 * c); }
#define ID(l, c, k) (((k) << 8) | ((c) << 1) | (l))
static u64 N_(void) { return CN_((C << 1) | L); }
/* the pointer that reaches cell k */
static u64 PTR(u64 k) { return k == 0 ? HEAD(L, C) : SEG(CE_(ID(L, C, k - 1)) + 8); }
static void begin(u64 l, u64 c) { L = l; C = c; inl = 0; ASSUME(N_() >= 0 && N_() < DBSIZE); if (FORK(N_() > 0, 2)) { ASSUME(okc(CE_(ID(l, c, 0)))); ASSUME(RD(HEAD(l, c)) == CE_(ID(l, c, 0))); } else { ASSUME(N_() == 0); ASSUME(RD(HEAD(l, c)) == 0); } }
static void li_assert(u64 n, u64 p) {
  if (inl) CHECK(done == want, "ens: the row is put under (or removed from) exactly the indexes that apply to it");
  CHECK(n == (inl ? J + 1 : 0) && n <= N_() && p == PTR(n), "loop invariant: the indexes of the column are visited in order");
}
static void li_assume(u64 n, u64 p) {
  inl = 1; done = asked = 0; J = n; ASSUME(J >= 0 && J <= N_()); want = 0; IX = 0;
  if (FORK(J > 0, 2)) { ASSUME(okc(CE_(ID(L, C, J - 1)))); ASSUME(p == SEG(CE_(ID(L, C, J - 1)) + 8)); } else { ASSUME(J == 0); ASSUME(p == HEAD(L, C)); }
  if (!FORK(J < N_(), 2)) { ASSUME(RD(p) == 0); return; }
  ASSUME(okc(CE_(ID(L, C, J)))); ASSUME(RD(p) == CE_(ID(L, C, J)));
  u64 nx = J + 1 < N_() ? CE_(ID(L, C, J + 1)) : 0; ASSUME(nx == 0 || okc(nx)); ASSUME((J + 1 < N_()) == (nx != 0)); ASSUME(RD(SEG(CE_(ID(L, C, J)) + 8)) == nx);
  IX = RD(SEG(CE_(ID(L, C, J))));
  if (!FORK(IX != 0, 2)) return;
  ASSUME(IX >= HDRSIZE && (IX & 7) == 0 && IX + SZ_index_header <= DBSIZE); HDR = SEG(IX);
  u64 nf = RD(HDR + O_fields); ASSUME(nf >= 1 && nf <= K_MAX_INDEX_FIELDS);
  u64 last = RD(HDR + O_rec_field_index + 8 * (nf - 1)); ASSUME(last >= 0 && last <= K_MAX_INDEXED_FIELDNR);
  u64 to = RD(HDR + O_template_offset); u8 t = FORK(to != 0, 2); if (t) ASSUME(to >= HDRSIZE && (to & 7) == 0 && to + SZ_index_template <= DBSIZE);
  mt = t ? FORK(ND_u8(), 2) : 1;
  TY = FORK(ND_u8(), 5); TY = TY == 0 ? K_WG_INDEX_TYPE_TTREE : TY == 1 ? K_WG_INDEX_TYPE_TTREE_JSON : TY == 2 ? K_WG_INDEX_TYPE_HASH : TY == 3 ? K_WG_INDEX_TYPE_HASH_JSON : 7;
  ASSUME(RD(HDR + O_type) == TY);
  u8 in = FORK(whole ? last == C : last < RLEN, 2); u8 plain = FORK(META == 0, 2);
  want = mt && in && TY != 7 && (plain || (TY != K_WG_INDEX_TYPE_TTREE_JSON && TY != K_WG_INDEX_TYPE_HASH_JSON));
}
#define LIST(f, k) \
  void LI_ASSERT_##f##_##k(u64 n, u64 p) { li_enter_##f##_##k(n); li_assert(n, p); } \
  void LI_HAVOC_##f##_##k(u64 n, u64 p) { } \
  void LI_ASSUME_##f##_##k(u64 n, u64 p) { li_assume(n, p); }
/* one field: list 0, then list 1 */
#define FIELD(f) \
  static void li_enter_##f##_0(u64 n) { if (n == 0) begin(0, COL); } \
  static void li_enter_##f##_1(u64 n) { if (n == 0) { CHECK(inl && L == 0 && J == N_(), "ens: every index on the column was visited"); begin(1, COL); } } \
  LIST(f, 0) LIST(f, 1)
FIELD(wg_index_add_field) FIELD(wg_index_del_field)
/* whole record: the columns in order */
static void col_assert(u64 n) { if (ino) CHECK(inl && J == N_(), "ens: every index on the column was visited"); CHECK(n == (ino ? C + 1 : 0), "loop invariant: the columns are visited in order"); }
static void col_assume(u64 n) { u64 m = RLEN > K_MAX_INDEXED_FIELDNR ? K_MAX_INDEXED_FIELDNR + 1 : RLEN; ino = 1; C = n; ASSUME(n >= 0 && n <= m); if (FORK(n < m, 2)) l0 = 0; else l0 = 1; }
#define WHOLE(f) \
  void LI_ASSERT_##f##_0(u64 n) { col_assert(n); } \
  void LI_HAVOC_##f##_0(u64 n) { } \
  void LI_ASSUME_##f##_0(u64 n) { col_assume(n); } \
  static void li_enter_##f##_1(u64 n) { if (n == 0) { CHECK(ino && !l0, "pre: only columns of the record are looked at"); begin(0, C); } } \
  LIST(f, 1)
WHOLE(wg_index_add_rec) WHOLE(wg_index_del_rec)
/* callees */
u64 c_wg_get_record_len(u64 db, u64 r) { CHECK(db == DB && r == REC, "pre: the length of the record is asked"); return RLEN; }
u64 c_wg_match_template(u64 db, u64 t, u64 r) { CHECK(db == DB && inl && IX && t == SEG(RD(HDR + O_template_offset)) && r == REC, "pre: the record is compared with the template of the index"); return mt; }
static u64 row(u64 db, u64 id, u64 r, u8 rm, u8 hash) {
  CHECK(db == DB && r == REC && rm == rem && inl && want && !done && id == IX, "pre: the record goes to an index that applies to it, once");
  CHECK(hash == (TY == K_WG_INDEX_TYPE_HASH || TY == K_WG_INDEX_TYPE_HASH_JSON), "pre: the operation fits the kind of index");
  done = 1; u64 v = FORK(ND_u8(), 2) ? 0 : ND_u64(); 
  failed = rem ? FORK(v < -2, 2) : FORK(v != 0, 2); return v;
}
u64 c_ttree_add_row(u64 db, u64 id, u64 r) { return row(db, id, r, 0, 0); }
u64 c_hash_add_row(u64 db, u64 id, u64 r) { return row(db, id, r, 0, 1); }
u64 c_ttree_remove_row(u64 db, u64 id, u64 r) { return row(db, id, r, 1, 0); }
u64 c_hash_remove_row(u64 db, u64 id, u64 r) { return row(db, id, r, 1, 1); }
#define MSG (HEAPBASE + 4096)
u64 x_malloc(u64 n) { return 0; }
void x_free(u64 p) { CHECK(p == 0, "pre: only the message is released"); }
static void setup(u8 w, u8 r) {
  DBSIZE = ND_u64(); ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 512; DEF(HEAPBASE, DBBASE); ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  u64 ro = ND_u64(); ASSUME(ro >= HDRSIZE && (ro & 7) == 0 && ro + 64 <= DBSIZE); REC = SEG(ro); META = RD(REC + 8 * K_RECORD_META_POS);
  RLEN = ND_u64(); ASSUME(RLEN >= 0); COL = ND_u64(); ASSUME(COL >= 0);
  whole = w; rem = r; inl = ino = want = done = failed = asked = ncalls = l0 = mt = 0; J = IX = C = L = 0;
}
static void field(u8 r) {
  setup(0, r);
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); SNAPSHOT(M0);
  u8 sp = FORK((META & K_RECORD_META_NOTDATA) != 0, 2); u8 bad = FORK(COL > K_MAX_INDEXED_FIELDNR || COL >= RLEN, 2);
  u64 v = r ? f_wg_index_del_field(DB, REC, COL) : f_wg_index_add_field(DB, REC, COL);
  CHECK(RD(x) == R0(x), "frame: visiting the indexes changes nothing by itself");
  if (sp || bad) { CHECK(v == -1 && !inl, "ens: a record that is not data, or a column out of range, concerns no index"); COVER("refused"); return; }
  if (failed) { CHECK(v == -2, "ens: a failed update is reported"); COVER("failed"); return; }
  CHECK(v == 0 && inl && L == 1 && J == N_(), "ens: success means every index of the column was visited, also those with a template on it"); COVER("done");
}
static void record(u8 r) {
  setup(1, r);
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); SNAPSHOT(M0);
  u8 sp = FORK((META & K_RECORD_META_NOTDATA) != 0, 2);
  u64 v = r ? f_wg_index_del_rec(DB, REC) : f_wg_index_add_rec(DB, REC);
  CHECK(RD(x) == R0(x), "frame: visiting the indexes changes nothing by itself");
  if (sp) { CHECK(v == -1 && !inl && !ino, "ens: a record that is not data concerns no index"); COVER("refused"); return; }
  if (failed) { CHECK(v == -2, "ens: a failed update is reported"); COVER("failed"); return; }
  CHECK(v == 0 && ino && l0, "ens: success means every indexed column of the record was visited"); COVER("done");
}
ENTRY(idx_add_field) { field(0); }
ENTRY(idx_del_field) { field(1); }
ENTRY(idx_add_rec) { record(0); }
ENTRY(idx_del_rec) { record(1); }
