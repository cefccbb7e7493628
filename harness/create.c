//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_create_raw_record wg_create_record wg_get_next_record wg_get_first_record
//@ contracts: wg_alloc_gints wg_log_create_record wg_log_encval wg_index_add_rec wg_get_next_raw_record wg_get_first_raw_record
//@ loopinv: wg_create_raw_record 0 @n
//@ loopinv: wg_get_next_record 0 res
#include "common.h"
static u64 L, R, K, J; static u8 inl, nlog, nenc, nalloc, nidx, logging; static u64 LP;
static u64 wit(void) { u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); return x; }
#define FLD(f) SEG(R + 8 * (K_RECORD_HEADER_GINTS + (u64)(f)))
u64 c_wg_log_create_record(u64 db, u64 l) {
  CHECK(db == DB && l == L && !nalloc, "pre: the creation is journalled before it is made");
  nlog++;
  return FORK(ND_u8(), 2);
}
u64 c_wg_alloc_gints(u64 db, u64 area, u64 n) {
  CHECK(db == DB && area == SEG(O_datarec_area_header) && n == L + K_RECORD_HEADER_GINTS && !nalloc, "pre: storage for the header and all fields is asked for");
  CHECK(!logging || nlog == 1, "pre: the creation is journalled before it is made");
  nalloc++;
  if (FORK(ND_u8(), 2)) { R = 0; SNAP(0); return 0; }
  /* the allocator's contract (property A06): a block outside everything in use; its header is set, other free-space words change */
  vx_havoc_range(SEG(R), SEG(R + 8 * (L + K_RECORD_HEADER_GINTS)));
  u64 hb = ND_u8(); ASSUME(hb == 0 || hb == 2);
  WR(SEG(R), 8 * (L + K_RECORD_HEADER_GINTS) + hb);
  SNAP(0);
  return R;
}
u64 c_wg_log_encval(u64 db, u64 v) {
  CHECK(db == DB && v == R && logging && nalloc && !nenc, "pre: the journal is told where the record is");
  nenc++;
  return FORK(ND_u8(), 2);
}
u64 c_wg_index_add_rec(u64 db, u64 rec) {
  CHECK(db == DB && rec == SEG(R) && !nidx, "pre: the new record is put into the indexes");
  CHECK(L == 0 || RD(FLD(K)) == 0, "pre: the new record is put into the indexes when its fields are empty");
  nidx++;
  return FORK(ND_u8(), 2) ? -2 : 0;
}
static u8 frame(u64 x) { return (RD(x) == R0(x)) | (R != 0 && x > SEG(R) && x < SEG(R + 8 * (L + K_RECORD_HEADER_GINTS))); }
void LI_ASSERT_wg_create_raw_record_0(u64 i) {
  u64 k = inl ? LP + 1 : 0, x = wit();
  CHECK(i == k && k <= L, "loop invariant: fields are visited in order");
  CHECK(!(K < k) || RD(FLD(K)) == 0, "loop invariant: fields before this one are empty");
  CHECK(RD(SEG(R + 8 * K_RECORD_META_POS)) == 0 && RD(SEG(R + 8 * K_RECORD_BACKLINKS_POS)) == 0, "loop invariant: the record header is clear");
  CHECK(frame(x), "loop invariant: nothing outside the new record changes");
}
void LI_HAVOC_wg_create_raw_record_0(u64 i) { LP = ND_u64(); inl = 1; vx_havoc_range(SEG(R) + 8, SEG(R + 8 * (L + K_RECORD_HEADER_GINTS))); }
void LI_ASSUME_wg_create_raw_record_0(u64 i) {
  ASSUME(LP >= 0 && LP <= L && i == LP);
  DEF(SEG(R + 8 * (L + K_RECORD_HEADER_GINTS)), RD(SEG(R + 8 * (L + K_RECORD_HEADER_GINTS))));
  ASSUME(!(K < LP) | (RD(FLD(K)) == 0));
  ASSUME(RD(SEG(R + 8 * K_RECORD_META_POS)) == 0 && RD(SEG(R + 8 * K_RECORD_BACKLINKS_POS)) == 0);
}
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  L = ND_u64(); R = ND_u64(); K = ND_u64(); J = ND_u64();
  inl = nlog = nenc = nalloc = nidx = 0;
  logging = RD(SEG(O_logging + OG_active)) != 0;
}
static void crec(u8 indexed) {
  setup();
  u64 x = wit();
  if (FORK(L >= 0, 2)) {
    ASSUME(L <= DBSIZE / 8 && R >= HDRSIZE && (R & 7) == 0 && R + 8 * (L + K_RECORD_HEADER_GINTS) + 8 <= DBSIZE);
    ASSUME(K >= 0 && (L == 0 || K < L));
  }
  SNAPSHOT(M0);
  u64 r = indexed ? f_wg_create_record(DB, L) : f_wg_create_raw_record(DB, L);
  if (L < 0) { CHECK(r == 0 && !nlog && !nalloc && RD(x) == R0(x), "ens: a negative length is refused without any change"); COVER("negative"); return; }
  if (r == 0) { COVER("failed"); return; }
  CHECK(r == SEG(R) && nalloc == 1, "ens: the record is the storage allocated for it");
  CHECK(L == 0 || RD(FLD(K)) == 0, "ens: all fields of a new record are empty");
  CHECK(RD(SEG(R + 8 * K_RECORD_META_POS)) == 0 && RD(SEG(R + 8 * K_RECORD_BACKLINKS_POS)) == 0, "ens: a new record is a data record and has no referrers");
  CHECK(nlog == logging && nenc == logging, "ens: a creation is journalled exactly when the journal is on");
  CHECK(nidx == indexed, "ens: a new record is put into the indexes once");
  CHECK(frame(x), "ens: creating a record changes no other record");
  COVER("created");
}
ENTRY(create_raw) { crec(0); }
ENTRY(create_rec) { crec(1); }
/* ---- walking data records: Q(0), Q(1), ... are the records in memory order, QN of them */
GHOST(Q, u64) static u64 QN, P;
static u8 spec(u64 i) { return (RD(SEG(Q_(i) + 8 * K_RECORD_META_POS)) & K_RECORD_META_NOTDATA) != 0; }
static void recd(u64 i) { u64 q = Q_(i); ASSUME(q >= HDRSIZE && q + 32 <= DBSIZE && (q & 7) == 0); }
static u8 first;
u64 c_wg_get_first_raw_record(u64 db) { CHECK(db == DB, "pre: database"); first = 1; if (!FORK(QN > 0, 2)) return 0; recd(0); return SEG(Q_(0)); }
u64 c_wg_get_next_raw_record(u64 db, u64 rec) {
  u64 i = inl ? LP : 0;
  CHECK(db == DB && rec == SEG(Q_(i)), "pre: the walk goes on from the record it has reached");
  if (!FORK(i + 1 < QN, 2)) return 0;
  recd(i + 1);
  return SEG(Q_(i + 1));
}
void LI_ASSERT_wg_get_next_record_0(u64 res) {
  u64 i = inl ? LP + 1 : 0;
  CHECK(i < QN && res == SEG(Q_(i)), "loop invariant: the walk is at a record");
  CHECK(!(K > 0 && K <= i) || spec(K), "loop invariant: no data record is passed over");
}
void LI_HAVOC_wg_get_next_record_0(u64 res) { LP = ND_u64(); inl = 1; }
void LI_ASSUME_wg_get_next_record_0(u64 res) { ASSUME(LP >= 0 && LP < QN && res == SEG(Q_(LP))); recd(LP); ASSUME(!((K > 0) & (K <= LP)) | spec(K)); }
ENTRY(walk) {
  setup(); u64 x = wit();
  QN = ND_u64(); first = 0; LP = 0;
  ASSUME(QN >= 0 && QN <= DBSIZE && K >= 0 && K < (QN > 0 ? QN : 1));
  if (QN > 0) recd(K);
  u8 f = FORK(ND_u8(), 2);
  if (!f) { ASSUME(QN > 0); recd(0); }
  SNAPSHOT(M0);
  u64 r = f ? f_wg_get_first_record(DB) : f_wg_get_next_record(DB, SEG(Q_(0)));
  CHECK(RD(x) == R0(x), "ens: walking changes nothing");
  u64 i = inl ? LP + 1 : 0;
  if (r == 0) {
    CHECK(QN == 0 || i == QN, "ens: the walk ends only after the last record");
    CHECK(QN == 0 || (!f && K == 0) || spec(K), "ens: no data record is passed over");
    COVER("end");
  } else {
    CHECK(i < QN && r == SEG(Q_(i)) && !spec(i), "ens: the record returned is a data record");
    CHECK(!(K < i && (f || K > 0)) || spec(K), "ens: no data record is passed over");
    COVER("data record");
  }
}
