//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_set_field wg_set_new_field
//@ contracts: wg_index_del_field wg_index_add_field remove_backlink_index_entries restore_backlink_index_entries free_field_encoffset wg_free_listcell wg_alloc_fixlen_object wg_log_set_field
//@ loopinv: wg_set_field 0 next
//@ loopinv: wg_set_field 1 next_offset
//@ loopinv: wg_set_field 2 next_offset
//@ loopinv: wg_set_field 3 next
//@ loopinv: wg_set_new_field 0 next_offset
//@ loopinv: wg_set_new_field 1 next
#include "common.h"
/* Field update against the record, index and backlink state.
 * Chains of backlink cells are described by ghost sequences of any length:
 *   P*: referrers of the updated record (PC(i) cell, PR(i) referring record), i < PN
 *   O*: referrers of the record stored in the field before, i < ON; one of them is the updated record
 *   W*: referrers of the record stored afterwards, i < WN */
GHOST(PC, u64) GHOST(PR, u64) GHOST(OC, u64) GHOST(OR, u64) GHOST(WC, u64)
static u64 R, L, OLD, NEW, PN, ON, WN, NC, K, WP, POS; static s64 F; static u8 isnew; static u64 T;
static u8 indexed, special, logging;
static u8 ndel, nadd, nfreed, nlog, fcell, seen_rm, seen_rs; static u64 freedcell;
#define FLD(f) SEG(R + 8 * (K_RECORD_HEADER_GINTS + (u64)(f)))
static void place(u64 o, u64 n);
GHOST(CID, u64) GHOST(CIX, u64)   /* chain and position of a cell: 0 not in a chain, 1 P, 2 O, 3 W */
static u8 inseg_(u64 o, u64 n) { return (o >= HDRSIZE) & (o + n <= DBSIZE) & ((o & 7) == 0); }
static u8 inseg(u64 o, u64 n) { return o >= HDRSIZE && o + n <= DBSIZE && (o & 7) == 0; }
u64 c_wg_log_set_field(u64 db, u64 rec, u64 f, u64 d) {
  CHECK(db == DB && rec == SEG(R) && f == (u64)F && d == NEW, "pre: the journal is told about this update");
  CHECK(RD(FLD(F)) == OLD, "pre: the update is journalled before it is made");
  nlog++;
  return FORK(ND_u8(), 2);
}
u64 c_wg_index_del_field(u64 db, u64 rec, u64 col) {
  CHECK(db == DB && rec == SEG(R) && col == (u64)F, "pre: indexes of the updated field are told");
  CHECK(!isnew && RD(FLD(F)) == OLD && !ndel, "pre: index entries are removed once, while the old value is still there");
  ndel++;
  return FORK(ND_u8(), 2) ? -2 : 0;
}
u64 c_wg_index_add_field(u64 db, u64 rec, u64 col) {
  CHECK(db == DB && rec == SEG(R) && col == (u64)F, "pre: indexes of the updated field are told");
  CHECK(RD(FLD(F)) == NEW && !nadd && (isnew || ndel == 1), "pre: index entries are added once, when the new value is there");
  nadd++;
  return FORK(ND_u8(), 2) ? -2 : 0;
}
u64 c_remove_backlink_index_entries(u64 db, u64 rec, u64 value, u64 depth) {
  CHECK(db == DB && rec == SEG(PR_(POS)) && value == R, "pre: referring records are taken out of their indexes");
  CHECK(RD(FLD(F)) == OLD, "pre: referring records are taken out while the old value is still there");
  seen_rm |= POS == K;
  return FORK(ND_u8(), 2) ? -1 : 0;
}
u64 c_restore_backlink_index_entries(u64 db, u64 rec, u64 value, u64 depth) {
  CHECK(db == DB && rec == SEG(PR_(POS)) && value == R, "pre: referring records are put back into their indexes");
  CHECK(RD(FLD(F)) == NEW, "pre: referring records are put back when the new value is there");
  seen_rs |= POS == K;
  return FORK(ND_u8(), 2) ? -1 : 0;
}
u64 c_free_field_encoffset(u64 db, u64 enc) {
  CHECK(db == DB && enc == OLD && !nfreed, "pre: storage of the old value is released once");
  nfreed++;
  return 0;
}
void c_wg_free_listcell(u64 db, u64 off) {
  CHECK(!fcell, "pre: one backlink cell is released");
  fcell++; freedcell = off;
}
u64 c_wg_alloc_fixlen_object(u64 db, u64 area) {
  CHECK(db == DB && area == SEG(O_listcell_area_header), "pre: backlink cells come from the list cell area");
  u64 c = ND_u64();
  if (FORK(c == 0, 2)) return 0;
  ASSUME(CID_(c) == 0);
  place(c, 16);
  NC = c;
  return c;
}
/* ---- memory layout of the objects involved: cells and blocks are equal or disjoint */
static u64 U[24], UN[24]; static int nu;
static void place(u64 o, u64 n) {
  ASSUME(inseg(o, n));
  for (int i = 0; i < nu; i++) ASSUME(((U[i] == o) & (n == 16) & (UN[i] == 16)) | (U[i] + UN[i] <= o) | (o + n <= U[i]));
  U[nu] = o; UN[nu] = n; nu++;
}
static u64 cellof(u64 ch, u64 i) { return ch == 1 ? PC_(i) : ch == 2 ? OC_(i) : WC_(i); }
static u64 chlen(u64 ch) { return ch == 1 ? PN : ch == 2 ? ON : WN; }
static u64 owner(u64 ch) { return ch == 1 ? R : ch == 2 ? OLD : NEW; }
static void cell(u64 ch, u64 i) {
  u64 c = cellof(ch, i), n = chlen(ch);
  ASSUME(i >= 0 && i < n);
  ASSUME(CID_(c) == ch && CIX_(c) == i);
  place(c, 16);
  u64 r = ch == 1 ? PR_(i) : OR_(i);
  if (ch != 3) { DEF(SEG(c), r); ASSUME(inseg(r, 32)); }
  u64 nx = cellof(ch, i + 1);
  ASSUME((i + 1 >= n) | inseg_(nx, 16));
  DEF(SEG(c + 8), i + 1 < n ? nx : 0);
}
/* address of the word that points to cell i of a chain (or ends it) */
static u64 linkat(u64 ch, u64 i) { return i == 0 ? SEG(owner(ch) + 8 * K_RECORD_BACKLINKS_POS) : SEG(cellof(ch, i - 1) + 8); }
static u64 linkval(u64 ch, u64 i) { return i < chlen(ch) ? cellof(ch, i) : 0; }
static u64 LP[5]; static u8 inl[5];
/* loop at a cell (every pass handles one referrer) */
static void pl_assert(int l, u64 next, u8 seen) {
  u64 i = inl[l] ? LP[l] + 1 : 0;
  CHECK(i < PN && next == SEG(PC_(i)) && (seen == (i > K)), "loop invariant: all referrers before this one are done");
}
static void pl_havoc(int l) { LP[l] = ND_u64(); inl[l] = 1; POS = LP[l]; ASSUME(LP[l] >= 0 && LP[l] < PN); }
static void pl_assume(int l, u64 next) { ASSUME(next == SEG(PC_(LP[l]))); cell(1, LP[l]); }
/* loop at a link */
static void ll_assert(int l, u64 ch, u64 a) {
  u64 i = inl[l] ? LP[l] + 1 : 0;
  CHECK(i <= (ch == 2 ? T : chlen(ch)) && a == linkat(ch, i), "loop invariant: the walk is at a link of the chain");
}
static void ll_havoc(int l) { LP[l] = ND_u64(); inl[l] = 1; }
static void ll_assume(int l, u64 ch, u64 a) {
  u64 i = LP[l];
  ASSUME(i >= 0 && i <= (ch == 2 ? T : chlen(ch)));
  if (FORK(i > 0, 2)) cell(ch, i - 1); else { ASSUME(i == 0); DEF(linkat(ch, 0), linkval(ch, 0)); }
  ASSUME(a == linkat(ch, i));
  if (FORK(i < chlen(ch), 2)) cell(ch, i);
}
void LI_ASSERT_wg_set_field_0(u64 next) { pl_assert(0, next, seen_rm); }
void LI_HAVOC_wg_set_field_0(u64 next) { pl_havoc(0); seen_rm = LP[0] > K; }
void LI_ASSUME_wg_set_field_0(u64 next) { pl_assume(0, next); }
void LI_ASSERT_wg_set_field_3(u64 next) { pl_assert(3, next, seen_rs); }
void LI_HAVOC_wg_set_field_3(u64 next) { pl_havoc(3); seen_rs = LP[3] > K; }
void LI_ASSUME_wg_set_field_3(u64 next) { pl_assume(3, next); }
void LI_ASSERT_wg_set_field_1(u64 a) { ll_assert(1, 2, a); }
void LI_HAVOC_wg_set_field_1(u64 a) { ll_havoc(1); }
void LI_ASSUME_wg_set_field_1(u64 a) { ll_assume(1, 2, a); }
void LI_ASSERT_wg_set_field_2(u64 a) { ll_assert(2, 3, a); }
void LI_HAVOC_wg_set_field_2(u64 a) { ll_havoc(2); }
void LI_ASSUME_wg_set_field_2(u64 a) { ll_assume(2, 3, a); }
void LI_ASSERT_wg_set_new_field_0(u64 a) { ll_assert(2, 3, a); }
void LI_HAVOC_wg_set_new_field_0(u64 a) { ll_havoc(2); }
void LI_ASSUME_wg_set_new_field_0(u64 a) { ll_assume(2, 3, a); }
void LI_ASSERT_wg_set_new_field_1(u64 next) { pl_assert(3, next, seen_rs); }
void LI_HAVOC_wg_set_new_field_1(u64 next) { pl_havoc(3); seen_rs = LP[3] > K; }
void LI_ASSUME_wg_set_new_field_1(u64 next) { pl_assume(3, next); }
/* ---- state and specification */
static u8 isptr_(u64 d) { return (d != 0) & ((d & 3) != 3); }
/* kind of an encoded word: 0 null or immediate, 1 record, 2 long string, 3 other stored value */
static u64 kind(u64 d) { return !isptr_(d) ? 0 : (d & 7) == K_DATARECBITS ? 1 : (d & 7) == K_LONGSTRBITS ? 2 : 3; }
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  DEF(SEG(O_size), DBSIZE);
  ASSUME(RD(SEG(O_extdbs + OX_count)) == 0);
  R = ND_u64(); L = ND_u64(); F = ND_u64(); OLD = ND_u64(); NEW = ND_u64();
  PN = ND_u64(); ON = ND_u64(); WN = ND_u64(); K = ND_u64(); T = ND_u64();
  ASSUME(L >= 0 && L <= DBSIZE / 8 && PN >= 0 && ON >= 0 && WN >= 0 && PN <= DBSIZE && ON <= DBSIZE && WN <= DBSIZE);
  nu = 0; NC = 0; ndel = nadd = nfreed = nlog = fcell = seen_rm = seen_rs = 0; inl[0] = inl[1] = inl[2] = inl[3] = 0;
  place(R, 8 * (L + K_RECORD_HEADER_GINTS)); ASSUME(L >= 1);
  u64 hb = ND_u8(); ASSUME(hb == 0 || hb == 2);
  DEF(SEG(R), 8 * (L + K_RECORD_HEADER_GINTS) + hb);
}
static u64 ko, kn;
static void objects(void) {
  ASSUME(F >= 0 && F < (s64)L);
  DEF(FLD(F), OLD);
  ko = kind(OLD); kn = kind(NEW);
  u8 orec = FORK(ko == 1, 2), nrec = FORK(kn == 1, 2), nstr = nrec ? 0 : FORK(kn == 2, 2);
  if (orec) ko = 1;
  if (nrec) kn = 1; else if (nstr) kn = 2;
  if (orec) {   /* the record stored so far: it has this record among its referrers */
    ASSUME(OLD != R); place(OLD, 32);
    ASSUME(T >= 0 && T < ON && OR_(T) == R);
  } else { ASSUME(ko == 0 || (OLD >= HDRSIZE && OLD < DBSIZE - 64)); ASSUME(ko != 2 || (RD(SEG(OLD - 4 + 8 * K_LONGSTR_META_POS)) & K_LONGSTR_META_TYPEMASK) != K_WG_RECORDTYPE); }
  if (nrec) { ASSUME(NEW != R && (NEW == OLD || inseg(NEW, 32))); if (FORK(NEW != OLD, 2)) place(NEW, 32); }
  else { ASSUME(kn == 0 || (NEW >= HDRSIZE && NEW < DBSIZE - 64)); if (nstr) { u64 rc = RD(SEG(NEW - 4 + 8 * K_LONGSTR_REFCOUNT_POS)); ASSUME(rc >= 0 && rc < ((u64)1 << 40)); place(NEW - 4, 64); ASSUME((RD(SEG(NEW - 4 + 8 * K_LONGSTR_META_POS)) & K_LONGSTR_META_TYPEMASK) != K_WG_RECORDTYPE); } }
  ASSUME(K >= 0 && (PN == 0 || K < PN));
  if (FORK(PN > 0, 2)) DEF(SEG(R + 8 * K_RECORD_BACKLINKS_POS), PC_(0)); else DEF(SEG(R + 8 * K_RECORD_BACKLINKS_POS), 0);
  if (PN > 0) ASSUME(inseg(PC_(0), 16));
}
static void post(u64 r) {
  u64 x = ND_u64();
  ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  if (!isnew && OLD == NEW) {
    CHECK(r == 0 || logging, "ens: storing the value that is there succeeds");
    CHECK(RD(x) == R0(x) && !nfreed && !fcell, "ens: storing the value that is there changes nothing");
    COVER("same value");
    return;
  }
  if (r != 0) return;
  u8 idx = !special && F <= K_MAX_INDEXED_FIELDNR && indexed;
  CHECK(RD(FLD(F)) == NEW, "ens: the field holds the new value");
  CHECK(nlog == logging, "ens: an update is journalled exactly when the journal is on");
  CHECK((idx ? (ndel == !isnew && nadd == 1) : (ndel == 0 && nadd == 0)), "ens: indexes of the field are updated exactly when there are some");
  CHECK(nfreed == (!isnew && ko != 0), "ens: storage of the old value is released");
  CHECK(PN == 0 || ((isnew || seen_rm) && seen_rs), "ens: every record that refers to this one is reindexed");
  u64 ref = SEG(NEW - K_LONGSTRBITS + 8 * K_LONGSTR_REFCOUNT_POS), lo = 0, lw = 0;
  if (ko == 1 && !isnew) {
    u64 i = LP[1];
    lo = linkat(2, i);
    CHECK(fcell == 1 && freedcell == OC_(i) && OR_(i) == R, "ens: one backlink from the old value to this record is released");
    CHECK(RD(lo) == R0(SEG(OC_(i) + 8)), "ens: the released backlink is taken out of the chain");
  } else CHECK(!fcell, "ens: no backlink is released when the old value is no record");
  if (kn == 1) {
    u64 i = LP[2];
    lw = linkat(3, i);
    CHECK(NC != 0 && i == WN && RD(lw) == NC, "ens: a new backlink is added at the end of the chain of the new value");
    CHECK(RD(SEG(NC)) == R && RD(SEG(NC + 8)) == 0, "ens: the new backlink refers to this record");
  } else CHECK(NC == 0, "ens: no backlink is added when the new value is no record");
  if (kn == 2) { CHECK(RD(ref) == R0(ref) + 1, "ens: a string stored once more has one more reference"); }
  CHECK(RD(x) == R0(x) || x == FLD(F) || (ko == 1 && !isnew && x == lo) || (kn == 1 && (x == lw || x == SEG(NC) || x == SEG(NC + 8))) || (kn == 2 && x == ref),
    "ens: a field update changes no other field or record");
  COVER("updated");
}
static void flags(void) {
  logging = RD(SEG(O_logging + OG_active)) != 0;
  special = (RD(SEG(R + 8 * K_RECORD_META_POS)) & K_RECORD_META_NOTDATA) != 0;
  indexed = 0;
  if (F <= K_MAX_INDEXED_FIELDNR) {
    u64 t = RD(SEG(O_index_control_area_header + OI_index_table + 8 * F)), t2 = RD(SEG(O_index_control_area_header + OI_index_template_table + 8 * F));
    indexed = (t != 0) | (t2 != 0);
  }
}
ENTRY(set_field) {
  isnew = 0; setup(); objects(); flags(); SNAPSHOT(M0);
  post(f_wg_set_field(DB, SEG(R), F, NEW));
}
ENTRY(set_new_field) {
  isnew = 1; setup(); objects(); flags(); SNAPSHOT(M0);
  u64 r = f_wg_set_new_field(DB, SEG(R), F, NEW);
  if (OLD != 0) { CHECK(r != 0, "ens: a field that holds data is not initialised again"); return; }
  ko = 0;
  post(r);
}
ENTRY(set_refused) {
  isnew = FORK(ND_u8(), 2); setup();
  ASSUME(F < 0 || F >= (s64)L);
  SNAPSHOT(M0);
  u64 r = isnew ? f_wg_set_new_field(DB, SEG(R), F, NEW) : f_wg_set_field(DB, SEG(R), F, NEW);
  u64 x = ND_u64();
  ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  CHECK(r == -2, "ens: a field number outside the record is refused");
  CHECK(RD(x) == R0(x), "ens: a refused update changes nothing");
  COVER("refused");
}
