//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: create_hash_index create_ttree_index wg_match_template insert_into_list delete_from_list
//@ contracts: wg_create_hash wg_get_first_record wg_get_next_record wg_get_record_len wg_match_template hash_add_row ttree_add_row wg_alloc_fixlen_object wg_free_fixlen_object wg_get_field wg_get_encoded_type wg_compare
//@ loopinv: create_hash_index 0 rec,rowsprocessed
//@ loopinv: create_hash_index 1 rec
//@ loopinv: create_ttree_index 0 rec,rowsprocessed
//@ loopinv: create_ttree_index 1 rec
//@ loopinv: wg_match_template 0 @n
#include "common.h"
/* The data records in the order of a scan are the ghost sequence RR(k), k < N. */
GHOST(RR, u64) GHOST(RL, u64) GHOST(MT, u8) GHOST(TF, u64) GHOST(RF, u64) GHOST(VA, u8) GHOST(EQ, u8)
static u64 J0, ID, HDR, N, J, LAST, NO, G, ML, LEN, TREC, REC, I, NC, OLD, LINK; static u8 json, tmpl, hash, started, want, done, mk, ncre, nal, inl, K, NF;
u8 mok_extra(u64 a, u64 n) { return 0; }
static u64 cur(u64 k) { return k < N ? RR_(k) : 0; }
static void prep(void) {
  done = 0; want = 0; if (!FORK(J < N, 2)) { ASSUME(J == N); return; }
  ASSUME(RR_(J) >= SEG(HDRSIZE) && (RR_(J) & 7) == 0 && RR_(J) + 64 <= SEG(DBSIZE) && RL_(J) >= 0);
  u8 in = FORK(LAST < RL_(J), 2), m = tmpl ? FORK(MT_(J) != 0, 2) : 1, p = json ? FORK(RD(RR_(J) + 8 * K_RECORD_META_POS) == 0, 2) : 1;
  want = in && m && p;
}
u64 c_wg_create_hash(u64 db, u64 ha, u64 n) { CHECK(db == DB && ha == HDR + O_hasharea && n == 0 && hash && !ncre, "pre: the table of the index is made first"); ncre = FORK(ND_u8(), 2) ? 2 : 1; return ncre == 2 ? ND_u64() | 1 : 0; }
u64 c_wg_get_first_record(u64 db) {
  CHECK(db == DB && !started && (hash ? ncre == 1 : nal == 1), "pre: the scan starts once, with the index ready to take rows"); started = 1;
  if (!hash) { CHECK(RD(HDR + O_offset_root_node) == NO && RD(HDR + O_offset_min_node) == NO && RD(HDR + O_offset_max_node) == NO, "pre: the tree has one node");
    CHECK(RD16(SEG(NO) + O_number_of_elements) == 0 && RD(SEG(NO) + O_parent_offset) == 0 && RD(SEG(NO) + O_left_child_offset) == 0 && RD(SEG(NO) + O_right_child_offset) == 0 && RD(SEG(NO) + O_succ_offset) == 0 && RD(SEG(NO) + O_pred_offset) == 0, "pre: the node is empty and has no neighbours"); }
  J = 0; prep(); return cur(0);
}
u64 c_wg_get_next_record(u64 db, u64 r) {
  CHECK(db == DB && started && J < N && r == RR_(J), "pre: the scan goes on from the current record");
  CHECK(done == want, "ens: a record is entered if and only if it is long enough, matches and is of the right kind");
  J++; prep(); return cur(J);
}
u64 c_wg_get_record_len(u64 db, u64 r) {
  CHECK(db == DB, "pre: this database is asked");
  if (mk) { CHECK(r == TREC || r == REC, "pre: the length of the record or of the template is asked"); return r == TREC ? ML : LEN; }
  CHECK(started && J < N && r == RR_(J), "pre: the length of the current record is asked"); return RL_(J);
}
u64 c_wg_match_template(u64 db, u64 t, u64 r) { CHECK(db == DB && tmpl && t == SEG(RD(HDR + O_template_offset)) && started && J < N && r == RR_(J), "pre: the current record is compared with the template of the index"); return MT_(J) ? 1 : 0; }
static u64 row(u64 db, u64 id, u64 r) { CHECK(db == DB && id == ID && started && J < N && r == RR_(J) && want && !done, "pre: a record that belongs there is entered once"); done = 1; return ND_u64(); }
u64 c_hash_add_row(u64 db, u64 id, u64 r) { CHECK(hash, "pre: this is a hash index"); return row(db, id, r); }
u64 c_ttree_add_row(u64 db, u64 id, u64 r) { CHECK(!hash, "pre: this is a tree index"); return row(db, id, r); }
static void la0(u64 rec, u32 c) { CHECK((s32)c >= 0 && (s64)(s32)c <= J, "loop invariant: no more rows are counted than records were seen"); }
static void la(u64 rec) { CHECK(started && J >= J0 && J <= N && rec == cur(J) && !done, "loop invariant: all records before the current one were dealt with"); }
static void lm(u64 rec) { J = ND_u64(); ASSUME(J >= 0 && J <= N); prep(); ASSUME(rec == cur(J)); }
#define SCAN(f) void LI_ASSERT_##f##_0(u64 r, u32 c) { la(r); la0(r, c); } void LI_HAVOC_##f##_0(u64 r, u32 c) { } void LI_ASSUME_##f##_0(u64 r, u32 c) { lm(r); ASSUME((s32)c >= 0 && (s64)(s32)c <= J); J0 = J; } \
  void LI_ASSERT_##f##_1(u64 r) { la(r); } void LI_HAVOC_##f##_1(u64 r) { } void LI_ASSUME_##f##_1(u64 r) { lm(r); ASSUME(J >= J0); }
SCAN(create_hash_index) SCAN(create_ttree_index)
u64 c_wg_alloc_fixlen_object(u64 db, u64 area) {
  CHECK(db == DB && !nal, "pre: one cell is allocated"); nal = FORK(ND_u8(), 2) ? 2 : 1;
  if (K) { CHECK(area == SEG(O_listcell_area_header), "pre: a list cell"); if (nal == 2) return 0; NC = ND_u64(); ASSUME(NC >= HDRSIZE && (NC & 7) == 0 && NC + 16 <= DBSIZE && (SEG(NC) + 16 <= LINK || SEG(NC) >= LINK + 8)); return NC; }
  CHECK(area == SEG(O_tnode_area_header), "pre: a tree node"); if (nal == 2) return 0;
  NO = ND_u64(); ASSUME(NO >= HDRSIZE && (NO & 7) == 0 && NO + TNSIZE <= DBSIZE && (NO + TNSIZE <= ID || NO >= ID + SZ_index_header)); vx_havoc_range(SEG(NO), SEG(NO + TNSIZE)); return NO;
}
u64 x_malloc(u64 n) { return 0; }
void x_free(u64 p) { CHECK(p == 0, "pre: only the message is released"); }
static void setup0(void) {
  DBSIZE = ND_u64(); ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 512; DEF(HEAPBASE, DBBASE); ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  started = want = done = mk = ncre = nal = inl = K = 0; J = J0 = 0;
}
static void setup(u8 h) {
  setup0(); hash = h;
  ID = ND_u64(); ASSUME(ID >= HDRSIZE && (ID & 7) == 0 && ID + SZ_index_header <= DBSIZE); HDR = SEG(ID); N = ND_u64(); ASSUME(N >= 0 && N <= 0x7ffffffe); /* the number of rows in the message is a 32-bit one */
  u64 nf = RD(HDR + O_fields); ASSUME(nf >= 1 && nf <= K_MAX_INDEX_FIELDS); if (!h) ASSUME(nf == 1); LAST = RD(HDR + O_rec_field_index + 8 * (nf - 1)); ASSUME(LAST >= 0 && LAST <= K_MAX_INDEXED_FIELDNR);
  u64 to = RD(HDR + O_template_offset); tmpl = FORK(to != 0, 2); if (tmpl) ASSUME(to >= HDRSIZE && (to & 7) == 0 && to + SZ_index_template <= DBSIZE);
  json = h ? FORK(ND_u8(), 2) : 0; ASSUME(RD(HDR + O_type) == (!h ? K_WG_INDEX_TYPE_TTREE : json ? K_WG_INDEX_TYPE_HASH_JSON : K_WG_INDEX_TYPE_HASH));
}
ENTRY(idx_build_hash) {
  setup(1); u64 r = f_create_hash_index(DB, ID);
  if (ncre == 2) { CHECK((s64)r != 0 && !started, "ens: without a table there is no index"); COVER("nomem"); return; }
  CHECK(r == 0 && started && J == N, "ens: success means every record of the database was considered"); COVER("built");
}
ENTRY(idx_build_tree) {
  setup(0); u64 r = f_create_ttree_index(DB, ID);
  if (nal == 2) { CHECK(r != 0 && !started, "ens: without a node there is no index"); COVER("nomem"); return; }
  CHECK(r == 0 && started && J == N, "ens: success means every record of the database was considered"); COVER("built");
}
/* ---- a record and a template */
u64 c_wg_get_field(u64 db, u64 r, u64 f) { CHECK(db == DB && f >= 0 && ((r == TREC && f < ML) || (r == REC && f < LEN)), "pre: a field of the record or of the template is read"); return r == TREC ? TF_(f) : RF_(f); }
u64 c_wg_get_encoded_type(u64 db, u64 e) { CHECK(db == DB && inl && e == TF_(I), "pre: the type of the field of the template is asked"); if (VA_(I)) return K_WG_VARTYPE; u64 t = ND_u64(); ASSUME(t != K_WG_VARTYPE); return t; }
u64 c_wg_compare(u64 db, u64 a, u64 b, u32 d) {
  CHECK(db == DB && inl && ((a == TF_(I) && b == RF_(I)) || (b == TF_(I) && a == RF_(I))), "pre: the fields of the same column are compared"); CHECK((s32)d == 7, "pre: to the full depth");
  if (EQ_(I)) return K_WG_EQUAL; u64 v = ND_u64(); ASSUME(v != K_WG_EQUAL); return v;
}
static u8 mism(u64 k) { return !VA_(k) && !EQ_(k); }
void LI_ASSERT_wg_match_template_0(u64 n) { CHECK(n == (inl ? I + 1 : 0) && n <= ML && ML <= LEN && (G >= n || !mism(G)), "loop invariant: no column so far is fixed to another value"); }
void LI_HAVOC_wg_match_template_0(u64 n) { inl = 1; }
void LI_ASSUME_wg_match_template_0(u64 n) { I = n; ASSUME(I >= 0 && I <= ML && ML <= LEN && (G >= I || !mism(G))); ASSUME(TF_(I) != RF_(I) || EQ_(I)); }
ENTRY(idx_template) {
  setup0(); mk = 1; ML = ND_u64(); LEN = ND_u64(); ASSUME(ML >= 1 && ML <= K_MAX_INDEXED_FIELDNR + 1 && LEN >= 0); G = ND_u64(); ASSUME(G >= 0 && G < ML);
  u64 t = ND_u64(); ASSUME(t >= HDRSIZE && (t & 7) == 0 && t + SZ_index_template <= DBSIZE); REC = ND_u64(); ASSUME(REC >= SEG(HDRSIZE) && REC < SEG(DBSIZE));
  u64 mo = ND_u64(); ASSUME(mo > 0 && mo < DBSIZE); DEF(SEG(t) + OT_offset_matchrec, mo); TREC = SEG(mo); ASSUME(TREC != REC);
  u64 r = f_wg_match_template(DB, SEG(t), REC);
  if (r) { CHECK(r == 1 && ML <= LEN && !mism(G), "ens: a record that matches has the fixed value in every fixed column"); COVER("match"); }
  else { CHECK(ML > LEN || (inl && I < ML && mism(I)), "ens: a record that does not match is too short or differs in a fixed column"); COVER("mismatch"); }
}
/* ---- lists of indexes */
void c_wg_free_fixlen_object(u64 db, u64 area, u64 off) { CHECK(db == DB && area == SEG(O_listcell_area_header) && off == OLD && RD(LINK) == R0(SEG(OLD) + 8) && !nal, "pre: the cell is out of the list when it is released"); nal = 1; }
ENTRY(idx_list_insert) {
  setup0(); K = 1; LINK = ND_u64(); ASSUME(LINK >= SEG(0) + 16 && (LINK & 7) == 0 && LINK + 8 <= SEG(DBSIZE)); u64 v = ND_u64(); OLD = RD(LINK);
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); SNAPSHOT(M0);
  u64 r = f_insert_into_list(DB, LINK, v);
  if (nal == 2) { CHECK(r == 0 && RD(x) == R0(x), "ens: a failed insertion leaves the list as it was"); COVER("nomem"); return; }
  CHECK(nal == 1 && r && RD(LINK) == NC && RD(SEG(NC)) == v && RD(SEG(NC) + 8) == OLD, "ens: the new cell holds the value and is followed by the rest of the list");
  CHECK(x == LINK || (x >= SEG(NC) && x < SEG(NC) + 16) || RD(x) == R0(x), "frame: nothing else is changed"); COVER("inserted");
}
ENTRY(idx_list_delete) {
  setup0(); K = 1; LINK = ND_u64(); ASSUME(LINK >= SEG(0) + 16 && (LINK & 7) == 0 && LINK + 8 <= SEG(DBSIZE)); OLD = ND_u64(); ASSUME(OLD >= HDRSIZE && (OLD & 7) == 0 && OLD + 16 <= DBSIZE && (SEG(OLD) + 16 <= LINK || SEG(OLD) >= LINK + 8)); DEF(LINK, OLD);
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); SNAPSHOT(M0);
  f_delete_from_list(DB, LINK);
  CHECK(nal == 1 && RD(LINK) == R0(SEG(OLD) + 8), "ens: the list goes on after the cell removed, which is released");
  CHECK(x == LINK || RD(x) == R0(x), "frame: nothing else is changed"); COVER("deleted");
}
