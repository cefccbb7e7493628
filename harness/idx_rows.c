//@ engine: vx
//@ vx: {"autocut":true,"facts":[],"unrolled":["hash_add_row","hash_remove_row"]}
//@ roots: hash_recurse hash_extend_prefix hash_add_row hash_remove_row wg_search_hash
//@ contracts: hash_recurse hash_extend_prefix wg_decode_for_hashing wg_get_encoded_type wg_decode_record wg_get_record_len wg_get_field wg_idxhash_store wg_idxhash_remove wg_idxhash_find wg_get_index_type
//@ loopinv: hash_recurse 0 @n,retv
#include "common.h"
/* The key of a row is the keys of its column values in order, separated; with an array in a column, one key per element. */
#define PR ((u64)1 << 46)
#define FB (PR + ((u64)1 << 42))
#define NP (PR + ((u64)2 << 42))
GHOST(FV, u64)
static u64 HDR, PL, VALS, CNT, REC, OP, EXP, V0, FL, NL, RES, RR, RLEN, I, NF, ID, PFX; static u8 mode, arr, isrec, nrec, next, nfb, nnp, ffb, fnp, c1, c2, sep, ndec, decf, inl, ityp; static u64 LR;
u8 mok_extra(u64 a, u64 n) { return (nnp == 1 && !fnp && a >= NP && a + n <= NP + NL); }
static void setup(void) {
  DBSIZE = ND_u64(); ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 512; DEF(HEAPBASE, DBBASE); ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  ID = ND_u64(); ASSUME(ID >= HDRSIZE && (ID & 7) == 0 && ID + SZ_index_header <= DBSIZE); HDR = SEG(ID);
  VALS = HEAPBASE + 64; REC = ND_u64(); ASSUME(REC >= SEG(HDRSIZE) && REC < SEG(DBSIZE) && (REC & 7) == 0);
  PL = ND_u64(); ASSUME(PL >= 0 && PL <= ((u64)1 << 41)); PFX = 0; CNT = 0; V0 = ND_u64(); DEF(VALS, V0);
  nrec = next = nfb = nnp = ffb = fnp = c1 = c2 = sep = ndec = decf = inl = ityp = arr = isrec = 0; EXP = OP = 0; LR = 0;
}
u64 c_wg_get_encoded_type(u64 db, u64 e) { CHECK(db == DB && e == V0, "pre: the type of the value is asked"); return isrec ? K_WG_RECORDTYPE : K_WG_INTTYPE; }
u64 c_wg_decode_record(u64 db, u64 e) { CHECK(db == DB && e == V0 && isrec, "pre: a record is decoded"); return RR; }
u64 c_wg_get_record_len(u64 db, u64 r) { CHECK(db == DB && r == RR && arr, "pre: the length of the array is asked"); return RLEN; }
u64 c_wg_get_field(u64 db, u64 r, u64 f) {
  CHECK(db == DB, "pre: this database is read");
  if (mode == 0) { CHECK(arr && r == RR && f == I && f >= 0 && f < RLEN, "pre: an element of the array is read"); return FV_(f); }
  CHECK(mode == 2 && r == REC && f >= 0 && f < 128, "pre: an indexed column of the row is read"); return FV_(f);
}
static u64 fin(u64 db, u64 ha, u64 d, u64 n, u64 op, u64 off) {
  CHECK(db == DB && mode == 0 && CNT == 0 && OP == op && ha == HDR + O_hasharea && d == PFX && n == PL && !nrec, "pre: the complete key is used for what was asked"); nrec++;
  CHECK(op == 3 || off == REC - DBBASE, "pre: the row is told by its offset");
  RES = ND_u64(); return RES;
}
u64 c_wg_idxhash_store(u64 db, u64 ha, u64 d, u64 n, u64 off) { return fin(db, ha, d, n, 1, off); }
u64 c_wg_idxhash_remove(u64 db, u64 ha, u64 d, u64 n, u64 off) { return fin(db, ha, d, n, 2, off); }
u64 c_wg_idxhash_find(u64 db, u64 ha, u64 d, u64 n) { return fin(db, ha, d, n, 3, 0); }
u64 c_hash_extend_prefix(u64 db, u64 h, u64 p, u64 pl, u64 nv, u64 vs, u64 cnt, u64 rec, u64 op, u64 ex) {
  CHECK(mode == 0 && db == DB && h == HDR && p == PFX && pl == PL && vs == VALS + 8 && cnt == CNT - 1 && rec == REC && op == OP && ex == EXP, "pre: the key is extended by the next column, the others follow");
  CHECK(nv == (arr ? FV_(I) : V0), "pre: the key is extended by the value of the column, or by each element of the array in it"); 
  next = 1; RES = FORK(ND_u8(), 2) ? 0 : ND_u64(); LR = RES; return RES;
}
void LI_ASSERT_hash_recurse_0(u64 n, u64 r) { u64 i = inl ? I + 1 : 0; CHECK(arr && n == i && i <= RLEN && r == 0 && (!inl || (next && LR == 0)), "loop invariant: every element so far was done"); }
void LI_HAVOC_hash_recurse_0(u64 n, u64 r) { inl = 1; next = 0; I = ND_u64(); }
void LI_ASSUME_hash_recurse_0(u64 n, u64 r) { ASSUME(n == I && I >= 0 && I <= RLEN && r == 0); }
ENTRY(idx_recurse) {
  setup(); mode = 0;
  PFX = FORK(ND_u8(), 2) ? PR : 0; CNT = FORK(ND_u8(), 2) ? ND_u64() : 0; ASSUME(CNT >= 0 && CNT <= 10); OP = ND_u64(); ASSUME(OP >= 1 && OP <= 3); EXP = FORK(ND_u8(), 2);
  isrec = FORK(ND_u8(), 2); RR = ND_u64(); RLEN = ND_u64(); ASSUME(RR >= SEG(HDRSIZE) && RR + 64 <= SEG(DBSIZE) && (RR & 7) == 0 && RLEN >= 0);
  arr = EXP && isrec && CNT > 0 ? FORK((RD(RR + 8 * K_RECORD_META_POS) & K_RECORD_META_ARRAY) != 0, 2) : 0;
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); SNAPSHOT(M0);
  u64 r = f_hash_recurse(DB, HDR, PFX, PL, VALS, CNT, REC, OP, EXP);
  CHECK(RD(x) == R0(x), "frame: building a key changes nothing");
  if (CNT == 0) { CHECK(nrec == 1 && r == RES, "ens: the complete key is used"); COVER("complete"); return; }
  if (arr) { CHECK(r == (inl && next ? RES : 0) && (r != 0 || I == RLEN), "ens: one key per element"); COVER("array"); return; }
  CHECK(next && r == RES, "ens: the key is extended by the column"); COVER("column");
}
/* ---- one column */
u64 c_wg_decode_for_hashing(u64 db, u64 v, u64 p) {
  CHECK(db == DB && v == V0 && !ndec, "pre: the value of the column is turned into bytes"); ndec++;
  decf = FORK(ND_u8(), 2); if (decf) return FORK(ND_u8(), 2) ? 0 : -1;
  FL = ND_u64(); ASSUME(FL >= 1 && FL <= ((u64)1 << 41)); WR(p, FB); nfb = 1; return FL;
}
#define MSG (PR + ((u64)3 << 42))
u64 x_malloc(u64 n) { if (mode == 3 || decf || nnp) { return FORK(ND_u8(), 2) ? MSG : 0; } /* a message */ CHECK(ndec && !decf && !nnp && n == (PFX ? PL + 1 : 0) + FL, "pre: the new key has room for the old one, a separator and the column"); if (FORK(ND_u8(), 2)) { nnp = 9; return 0; } nnp = 1; NL = n; return NP; }
void x_free(u64 p) { if (p == MSG || p == 0) return; if (p == FB) { CHECK(nfb == 1 && !ffb, "pre: the bytes of the column are released once"); ffb = 1; return; } CHECK(p == NP && nnp == 1 && !fnp, "pre: the key is released once"); fnp = 1; }
u64 x_memcpy(u64 d, u64 s, u64 n, u8 v) {
  if (d == NP && PFX) { CHECK(s == PFX && n == PL && nnp == 1, "pre: the key so far comes first"); c1 = 1; return d; }
  CHECK(nnp == 1 && !ffb && s == FB && n == FL && d == NP + (NL - FL), "pre: the column comes last"); c2 = 1; return d;
}
u64 c_hash_recurse(u64 db, u64 h, u64 p, u64 pl, u64 vs, u64 cnt, u64 rec, u64 op, u64 ex) {
  CHECK(db == DB && h == HDR && rec == REC && op == OP, "pre: the same row and operation go on"); nrec++;
  if (mode == 1) {
    CHECK(nrec == 1 && p == NP && pl == NL && vs == VALS && cnt == CNT && ex == EXP && c2 && !fnp, "pre: the other columns follow with the longer key");
    CHECK(!PFX || (c1 && RD8(NP + PL) == 0), "pre: columns are separated");
  } else {
    CHECK(nrec == 1 && p == 0 && pl == 0 && cnt == NF, "pre: the key starts empty, with all columns");
    if (mode == 2) { for (u64 k = 0; k < 10; k++) if (k < NF) CHECK(RD(vs + 8 * k) == FV_(RD(HDR + O_rec_field_index + 8 * k)), "pre: the columns are those of the index, in order"); CHECK(ex == (ityp == K_WG_INDEX_TYPE_HASH_JSON), "pre: arrays are expanded by an index for documents"); }
    else CHECK(vs == VALS && ex == 0, "pre: the values given are looked up");
  }
  RES = ND_u64(); return RES;
}
ENTRY(idx_extend) {
  setup(); mode = 1; PFX = FORK(ND_u8(), 2) ? PR : 0; CNT = ND_u64(); OP = ND_u64(); EXP = ND_u64(); if (PFX) ASSUME(PL >= 1); else ASSUME(PL == 0);
  u64 r = f_hash_extend_prefix(DB, HDR, PFX, PL, V0, VALS, CNT, REC, OP, EXP);
  CHECK(nfb == ffb && (nnp != 1 || fnp), "ens: all buffers are released");
  if (nrec) { CHECK(r == RES, "ens: the result is handed on"); COVER("extended"); }
  else { CHECK(r == -1 && (decf || nnp == 9), "ens: only a value without a key or a lack of memory stops it"); COVER("failed"); }
}
static void rows(u8 rem) {
  setup(); mode = 2; NF = FORK(ND_u8(), 11); ASSUME(NF >= 1); DEF(HDR + O_fields, NF); ityp = FORK(ND_u8(), 2) ? K_WG_INDEX_TYPE_HASH : K_WG_INDEX_TYPE_HASH_JSON; DEF(HDR + O_type, ityp);
  OP = rem ? 2 : 1;
  for (u64 k = 0; k < 10; k++) if (k < NF) ASSUME(RD(HDR + O_rec_field_index + 8 * k) >= 0 && RD(HDR + O_rec_field_index + 8 * k) < 128);
  u64 r = rem ? f_hash_remove_row(DB, ID, REC) : f_hash_add_row(DB, ID, REC);
  CHECK(nrec == 1 && r == RES, "ens: the row is added or removed under the values of its columns"); COVER("row");
}
ENTRY(idx_add_row) { rows(0); }
ENTRY(idx_remove_row) { rows(1); }
u64 c_wg_get_index_type(u64 db, u64 id) { CHECK(db == DB && id == ID, "pre: the index is validated"); return ityp == 255 ? (u64)-1 : ityp; }
ENTRY(idx_search) {
  setup(); mode = 3; NF = RD(HDR + O_fields); OP = 3; REC = 0; ityp = FORK(ND_u8(), 4); ityp = ityp == 0 ? K_WG_INDEX_TYPE_HASH : ityp == 1 ? K_WG_INDEX_TYPE_HASH_JSON : ityp == 2 ? K_WG_INDEX_TYPE_TTREE : (u8)-1;
  u64 cnt = ND_u64();
  u64 r = f_wg_search_hash(DB, ID, VALS, cnt);
  if (nrec) { CHECK(r == RES && cnt == NF, "ens: the search result is handed on"); COVER("searched"); }
  else { CHECK((s64)r < 0 && (cnt != NF || (ityp != K_WG_INDEX_TYPE_HASH && ityp != K_WG_INDEX_TYPE_HASH_JSON)), "ens: only a wrong index or number of columns is refused"); COVER("refused"); }
}
