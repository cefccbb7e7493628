//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_create_multi_index wg_drop_index wg_get_all_indexes wg_get_index_type
//@ contracts: sort_columns add_index_template insert_into_list delete_from_list create_ttree_index create_hash_index drop_ttree_index remove_index_template wg_alloc_fixlen_object wg_free_fixlen_object wg_get_record_len wg_get_field wg_get_encoded_type
//@ loopinv: wg_drop_index 0 @n,ilist
//@ loopinv: wg_drop_index 1 @n
//@ loopinv: wg_drop_index 2 @n,ilist
//@ loopinv: wg_drop_index 3 @n
//@ loopinv: wg_drop_index 4 @n,ilist
//@ loopinv: wg_get_all_indexes 0 @n
//@ loopinv: wg_get_all_indexes 1 @n,ilist
//@ loopinv: wg_get_index_type 0 @n,ilist
#include "common.h"
/* List L (0: all indexes, 1: the indexes of column C, 2: those with column C fixed) is the ghost sequence of cells CE, with the
 * indexes CA in them. */
GHOST(CE, u64) GHOST(CN, u64) GHOST(CA, u64) GHOST(VA, u8) GHOST(TF, u64) GHOST(PC, u64)
static u64 ID, HDR, NF, TY, TO, ML, L, C, J, FI, NI, REFC, RES, CP; static u8 inl, ino, calls, hit, del, mode, tmpl, found, dropped, dropfail, rmt, freed, phase, badtype, gen, mal, mfree;
static u64 TREC;
u8 mok_extra(u64 a, u64 n) { return (mal == 1) & (a >= RES) & (a + n <= RES + 8 * NI); }
static u64 key(u64 k) { return k * 1024 + C * 4 + L; }
static u64 N_(void) { return CN_(C * 4 + L); }
static u8 okc(u64 c) { return (c >= HDRSIZE) & ((c & 7) == 0) & (c + 16 <= DBSIZE); }
static u64 HEAD(void) { return L == 0 ? SEG(O_index_control_area_header + OI_index_list) : SEG(O_index_control_area_header + (L == 2 ? OI_index_template_table : OI_index_table) + 8 * C); }
static u64 PTR(u64 k) { return k == 0 ? HEAD() : SEG(CE_(key(k - 1)) + 8); }
static void begin(u64 l, u64 c) {
  L = l; C = c; inl = 0; hit = 0; ASSUME(N_() >= 0 && N_() < DBSIZE);
  if (FORK(N_() > 0, 2)) { ASSUME(okc(CE_(key(0)))); ASSUME(RD(HEAD()) == CE_(key(0))); } else { ASSUME(N_() == 0); ASSUME(RD(HEAD()) == 0); }
}
static void li_assert(u64 n, u64 p) { CHECK(n == (inl ? J + 1 : 0) && n <= N_() && p == PTR(n) && !hit && !del, "loop invariant: the list is searched in order, and the search goes on while the index is not found"); }
static void li_assume(u64 n, u64 p) {
  inl = 1; J = n; ASSUME(J >= 0 && J <= N_()); hit = 0; del = 0;
  if (FORK(J > 0, 2)) { ASSUME(okc(CE_(key(J - 1)))); ASSUME(p == SEG(CE_(key(J - 1)) + 8)); } else { ASSUME(J == 0); ASSUME(p == HEAD()); }
  if (!FORK(J < N_(), 2)) { ASSUME(RD(p) == 0); return; }
  ASSUME(okc(CE_(key(J)))); ASSUME(RD(p) == CE_(key(J))); ASSUME(RD(SEG(CE_(key(J)))) == CA_(key(J)));
  u64 nx = J + 1 < N_() ? CE_(key(J + 1)) : 0; ASSUME(nx == 0 || okc(nx)); ASSUME((J + 1 < N_()) == (nx != 0)); ASSUME(RD(SEG(CE_(key(J)) + 8)) == nx);
  hit = !gen ? FORK(CA_(key(J)) == ID, 2) : 0;
}
void c_delete_from_list(u64 db, u64 link) { CHECK(db == DB && mode == 1 && inl && hit && J < N_() && link == PTR(J) && !del && TY != K_WG_INDEX_TYPE_HASH && TY != K_WG_INDEX_TYPE_HASH_JSON, "pre: the cell of the index, and no other, leaves the list"); del = 1; }
/* ---- dropping an index */
void LI_ASSERT_wg_drop_index_0(u64 n, u64 p) { if (n == 0) { begin(0, 0); CHECK(phase == 0, "pre: the index is looked up first"); phase = 1; } li_assert(n, p); }
void LI_HAVOC_wg_drop_index_0(u64 n, u64 p) { }
void LI_ASSUME_wg_drop_index_0(u64 n, u64 p) { li_assume(n, p); found = hit; }
void LI_ASSERT_wg_drop_index_1(u64 n) { if (n == 0) { CHECK(found && del, "pre: only a known index is dropped"); phase = 2; ino = 0; } else { CHECK(inl && (del || J == N_()), "ens: the index is not in the list of the column any more"); } CHECK(n == (ino ? FI + 1 : 0), "loop invariant: the columns are done in order"); }
void LI_HAVOC_wg_drop_index_1(u64 n) { }
void LI_ASSUME_wg_drop_index_1(u64 n) { ino = 1; FI = n; ASSUME(n >= 0 && n <= NF); ASSUME(n == NF || (RD(HDR + O_rec_field_index + 8 * n) >= 0 && RD(HDR + O_rec_field_index + 8 * n) <= K_MAX_INDEXED_FIELDNR)); del = 0; }
void LI_ASSERT_wg_drop_index_2(u64 n, u64 p) { if (n == 0) { CHECK(phase == 2 && FI < NF, "pre: a column of the index"); begin(1, RD(HDR + O_rec_field_index + 8 * FI)); } li_assert(n, p); }
void LI_HAVOC_wg_drop_index_2(u64 n, u64 p) { }
void LI_ASSUME_wg_drop_index_2(u64 n, u64 p) { li_assume(n, p); }
void LI_ASSERT_wg_drop_index_3(u64 n) { if (n == 0) { CHECK(phase == 2 && FI == NF && tmpl, "pre: the template of the index follows the columns"); phase = 3; ino = 0; } else { CHECK(VA_(FI) || (inl && C == FI && L == 2 && (del || J == N_())), "ens: the index is not in the list of a fixed column any more"); } CHECK(n == (ino ? FI + 1 : 0), "loop invariant: the columns are done in order"); }
void LI_HAVOC_wg_drop_index_3(u64 n) { }
void LI_ASSUME_wg_drop_index_3(u64 n) { ino = 1; FI = n; ASSUME(n >= 0 && n <= ML); del = 0; }
void LI_ASSERT_wg_drop_index_4(u64 n, u64 p) { if (n == 0) { CHECK(phase == 3 && FI < ML && !VA_(FI), "pre: a fixed column of the template"); begin(2, FI); } li_assert(n, p); }
void LI_HAVOC_wg_drop_index_4(u64 n, u64 p) { }
void LI_ASSUME_wg_drop_index_4(u64 n, u64 p) { li_assume(n, p); }
u64 c_drop_ttree_index(u64 db, u64 id) { CHECK(db == DB && id == ID && mode == 1 && !dropped && FI == (tmpl ? ML : NF) && phase == (tmpl ? 3 : 2), "pre: the contents go when no list has the index any more"); dropped = 1; dropfail = FORK(ND_u8(), 2); return dropfail ? ND_u64() | 1 : 0; }
u64 c_remove_index_template(u64 db, u64 t) { CHECK(db == DB && dropped && !dropfail && tmpl && t == TO && REFC == 1 && !rmt, "pre: a template goes with its last index"); rmt = 1; return 0; }
void c_wg_free_fixlen_object(u64 db, u64 area, u64 off) { CHECK(db == DB && area == SEG(O_indexhdr_area_header) && off == ID && dropped && !dropfail && !freed, "pre: the header is released last"); freed = 1; }
u64 c_wg_get_record_len(u64 db, u64 r) { CHECK(db == DB && r == TREC, "pre: the template is read"); return ML; }
u64 c_wg_get_field(u64 db, u64 r, u64 f) { CHECK(db == DB && r == TREC && f >= 0 && f < ML, "pre: the template is read"); return TF_(f); }
u64 c_wg_get_encoded_type(u64 db, u64 e) { CHECK(db == DB && phase == 3 && e == TF_(FI), "pre: the type of the field of the template is asked"); if (VA_(FI)) return K_WG_VARTYPE; u64 t = ND_u64(); ASSUME(t != K_WG_VARTYPE); return t; }
u64 c_sort_columns(u64 db, u64 a, u64 n) { return ND_u64(); }
u64 c_add_index_template(u64 db, u64 m, u64 n) { CHECK(0, "ens: a refused index leaves no template"); return 0; }
u64 c_insert_into_list(u64 db, u64 h, u64 v) { CHECK(0, "ens: a refused index is in no list"); return 0; }
u64 c_create_ttree_index(u64 db, u64 i) { CHECK(0, "ens: a refused index has no contents"); return 0; }
u64 c_create_hash_index(u64 db, u64 i) { CHECK(0, "ens: a refused index has no contents"); return 0; }
u64 c_wg_alloc_fixlen_object(u64 db, u64 area) { CHECK(0, "ens: a refused index takes no memory"); return 0; }
#define RB (((u64)1 << 46) + ((u64)1 << 42))
u64 x_malloc(u64 n) { if (mode != 2 || mal) return 0; CHECK(n == 8 * NI, "pre: the list has room for every index"); mal = FORK(ND_u8(), 2) ? 2 : 1; RES = RB; return mal == 2 ? 0 : RES; }
void x_free(u64 p) { if (p == 0) return; CHECK(mode == 2 && mal == 1 && p == RES && !mfree, "pre: the list is released once"); mfree = 1; }
static void setup(void) {
  DBSIZE = ND_u64(); ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 512; DEF(HEAPBASE, DBBASE); ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  inl = ino = calls = hit = del = mode = tmpl = found = dropped = dropfail = rmt = freed = phase = badtype = gen = mal = mfree = 0; L = C = J = FI = 0;
}
ENTRY(idx_refused) {
  setup(); u64 cols = HEAPBASE + 128, n = ND_u64(), ty = ND_u64();
  ASSUME(ty != K_WG_INDEX_TYPE_TTREE && ty != K_WG_INDEX_TYPE_HASH && ty != K_WG_INDEX_TYPE_HASH_JSON);
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); SNAPSHOT(M0);
  u64 r = f_wg_create_multi_index(DB, cols, n, ty, FORK(ND_u8(), 2) ? cols : 0, ND_u64());
  CHECK(r == -1 && RD(x) == R0(x), "ens: an index of an unknown kind is refused, and the database stays as it was"); COVER("refused");
}
ENTRY(idx_drop) {
  setup(); mode = 1; ID = ND_u64(); ASSUME(ID >= HDRSIZE && (ID & 7) == 0 && ID + SZ_index_header <= DBSIZE); HDR = SEG(ID);
  NF = RD(HDR + O_fields); ASSUME(NF >= 1 && NF <= K_MAX_INDEX_FIELDS); TY = RD(HDR + O_type);
  TO = RD(HDR + O_template_offset); tmpl = FORK(TO != 0, 2); REFC = 0; TREC = 0; ML = 0;
  if (tmpl) { ASSUME(TO >= HDRSIZE && (TO & 7) == 0 && TO + SZ_index_template <= DBSIZE && (TO + SZ_index_template <= ID || TO >= ID + SZ_index_header)); REFC = RD(SEG(TO) + OT_refcount); ASSUME(REFC >= 1 && REFC < DBSIZE); u64 mo = RD(SEG(TO) + OT_offset_matchrec); ASSUME(mo > 0 && mo < DBSIZE); TREC = SEG(mo); ML = ND_u64(); ASSUME(ML >= 1 && ML <= K_MAX_INDEXED_FIELDNR + 1); }
  NI = RD(SEG(O_index_control_area_header + OI_number_of_indexes)); ASSUME(NI >= 1 && NI < DBSIZE);
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); SNAPSHOT(M0);
  u64 r = f_wg_drop_index(DB, ID);
  if (!found) { CHECK(r != 0 && RD(x) == R0(x) && !dropped && !freed && (phase != 1 || J == N_()), "ens: an unknown index is refused"); COVER("unknown"); return; }
  if (TY == K_WG_INDEX_TYPE_HASH || TY == K_WG_INDEX_TYPE_HASH_JSON) { CHECK(r != 0 && RD(x) == R0(x) && !del && !dropped && !freed, "ens: an index that cannot be dropped stays in use"); COVER("hash"); return; }
  if (r) { CHECK(!freed && (dropfail || (TY != K_WG_INDEX_TYPE_TTREE && TY != K_WG_INDEX_TYPE_TTREE_JSON)), "ens: only a failure to release the contents is reported"); COVER("failed"); return; }
  CHECK(dropped && freed && rmt == (tmpl && REFC == 1), "ens: the contents, the header and an unused template are released");
  CHECK(RD(SEG(O_index_control_area_header + OI_number_of_indexes)) == NI - 1 && (!tmpl || rmt || RD(SEG(TO) + OT_refcount) == REFC - 1), "ens: the index is not counted any more"); COVER("dropped");
}
/* ---- the list of all indexes: PC(column, k) = number of indexes first listed before cell k of the column */
static u8 rec; static u64 FC;
void LI_ASSERT_wg_get_all_indexes_0(u64 n) { if (n == 0) { phase = 1; ino = 0; } else CHECK(inl && J == N_(), "ens: every index of the column was looked at"); CHECK(n == (ino ? FI + 1 : 0), "loop invariant: the columns are done in order");
  if (n == 0) ASSUME(PC_(0) == 0); else { ASSUME(PC_(n * 2199023255552) == PC_(FI * 2199023255552 + J)); }
  CHECK(RD(CP) == PC_(n * 2199023255552), "loop invariant: every index of the columns so far is listed once"); }
void LI_HAVOC_wg_get_all_indexes_0(u64 n) { vx_havoc_word(CP); vx_havoc_range(RES, RES + 8 * NI); }
void LI_ASSUME_wg_get_all_indexes_0(u64 n) { ino = 1; FI = n; ASSUME(n >= 0 && n <= K_MAX_INDEXED_FIELDNR + 1); ASSUME(PC_(n * 2199023255552) >= 0 && PC_(n * 2199023255552) <= NI && (n <= K_MAX_INDEXED_FIELDNR || PC_(n * 2199023255552) == NI)); ASSUME(RD(CP) == PC_(n * 2199023255552)); }
void LI_ASSERT_wg_get_all_indexes_1(u64 n, u64 p) {
  if (n == 0) { CHECK(ino && FI <= K_MAX_INDEXED_FIELDNR, "pre: a column"); begin(1, FI); }
  li_assert(n, p);
  if (n) { CHECK(!rec || RD(RES + 8 * PC_(C * 2199023255552 + J)) == CA_(key(J)), "ens: the index is in the list"); }
  CHECK(RD(CP) == (n ? PC_(C * 2199023255552 + J) + rec : PC_(C * 2199023255552)), "loop invariant: an index is listed once, with its first column"); }
void LI_HAVOC_wg_get_all_indexes_1(u64 n, u64 p) { vx_havoc_word(CP); vx_havoc_range(RES, RES + 8 * NI); }
void LI_ASSUME_wg_get_all_indexes_1(u64 n, u64 p) {
  gen = 1; li_assume(n, p); rec = 0; u64 pc = PC_(C * 2199023255552 + J); ASSUME(RD(CP) == pc && pc >= 0 && pc <= NI);
  if (J < N_()) { u64 ix = CA_(key(J)); if (FORK(ix != 0, 2)) { ASSUME(ix >= HDRSIZE && (ix & 7) == 0 && ix + SZ_index_header <= DBSIZE); rec = FORK(RD(SEG(ix) + O_rec_field_index) == C, 2); } ASSUME(pc + rec <= NI); }
}
ENTRY(idx_all) {
  setup(); mode = 2; NI = RD(SEG(O_index_control_area_header + OI_number_of_indexes)); ASSUME(NI >= 0 && NI < ((u64)1 << 38)); CP = HEAPBASE + 256;
  u64 r = f_wg_get_all_indexes(DB, CP);
  if (r == 0) { CHECK(NI == 0 || mal == 2, "ens: the list is only missing if there is no index, or no memory for it"); CHECK(NI != 0 || RD(CP) == 0, "ens: no index is counted"); COVER("none"); return; }
  CHECK(r == RES && !mfree && RD(CP) == NI && ino && FI == K_MAX_INDEXED_FIELDNR + 1, "ens: all indexes are listed"); COVER("all");
}
/* ---- the kind of an index */
void LI_ASSERT_wg_get_index_type_0(u64 n, u64 p) { if (n == 0) begin(0, 0); li_assert(n, p); }
void LI_HAVOC_wg_get_index_type_0(u64 n, u64 p) { }
void LI_ASSUME_wg_get_index_type_0(u64 n, u64 p) { li_assume(n, p); }
ENTRY(idx_type) {
  setup(); ID = ND_u64(); ASSUME(ID >= HDRSIZE && (ID & 7) == 0 && ID + SZ_index_header <= DBSIZE); HDR = SEG(ID); ASSUME(RD(HDR + O_type) >= 0);
  u64 r = f_wg_get_index_type(DB, ID);
  if (hit) { CHECK(r == RD(HDR + O_type), "ens: the kind of the index is told"); COVER("known"); } else { CHECK(r == -1 && (!inl || J == N_()), "ens: an unknown index is refused"); COVER("unknown"); }
}
