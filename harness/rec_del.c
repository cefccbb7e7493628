//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_delete_record wg_get_first_parent wg_get_next_parent
//@ contracts: wg_index_del_rec free_field_encoffset wg_free_listcell wg_free_object wg_log_delete_record
//@ loopinv: wg_delete_record 0 @n
//@ loopinv: wg_delete_record 1 next_offset
//@ loopinv: wg_get_next_parent 0 next
#include "common.h"
/* Deletion of record R with L fields.  At every field that holds a record, the referrers of that record are the ghost
 * sequence OC(i) (cell), OR(i) (referring record), i < ON, and R is one of them (at T): the invariant of backlinks,
 * assumed anew at every field because deletion changes other chains in between. */
GHOST(OC, u64) GHOST(OR, u64)
static u64 R, L, CH, ON, T, I, K; static s64 nidx, nlog, nfree, nobj, ncell; static u8 inl, inw, special; static u64 V, LP, nfreeK, ncellK, recK, FC;
static u8 inseg(u64 o, u64 n) { return o >= HDRSIZE && o + n <= DBSIZE && (o & 7) == 0; }
static u8 inseg_(u64 o, u64 n) { return (o >= HDRSIZE) & (o + n <= DBSIZE) & ((o & 7) == 0); }
#define FLD(f) SEG(R + 8 * (K_RECORD_HEADER_GINTS + (u64)(f)))
static u64 RW(void) { return 8 * (L + K_RECORD_HEADER_GINTS); }
static u8 isptr_(u64 d) { return (d != 0) & ((d & 3) != 3); }
u64 c_wg_log_delete_record(u64 db, u64 off) {
  CHECK(db == DB && off == R && !nidx && !nobj && !inl, "pre: the deletion is journalled before it is made");
  nlog++;
  return FORK(ND_u8(), 2);
}
u64 c_wg_index_del_rec(u64 db, u64 rec) {
  CHECK(db == DB && rec == SEG(R) && !inl && !nobj, "pre: index entries are removed while the record is intact");
  nidx++;
  return FORK(ND_u8(), 2) ? -2 : 0;
}
u64 c_free_field_encoffset(u64 db, u64 enc) {
  CHECK(db == DB && inl && enc == V && isptr_(V), "pre: storage of the field value is released");
  nfree++;
  if (I == K) nfreeK++;
  return 0;
}
void c_wg_free_listcell(u64 db, u64 off) {
  CHECK(db == DB && inw && off == OC_(LP) && OR_(LP) == R, "pre: the released backlink is one from the field value to this record");
  CHECK(RD(LP == 0 ? SEG(V + 8 * K_RECORD_BACKLINKS_POS) : SEG(OC_(LP - 1) + 8)) == R0(SEG(OC_(LP) + 8)), "pre: the released backlink is out of its chain");
  ncell++;
  if (I == K) ncellK++;
}
u64 c_wg_free_object(u64 db, u64 area, u64 off) {
  CHECK(db == DB && area == SEG(O_datarec_area_header) && off == R && !nobj, "pre: the storage of the record is released");
  CHECK((L == 0) | ((nfreeK == isptr_(RD(FLD(K)))) & (ncellK == recK)), "pre: every field is released before the record");
  nobj++;
  return FORK(ND_u8(), 2) ? -1 : 0;
}
/* fields, first to last */
void LI_ASSERT_wg_delete_record_0(u64 n) {
  u64 i = inl ? I + 1 : 0;
  CHECK(n == i && i <= L, "loop invariant: fields are visited in order");
  if (inl) {
    CHECK(nfree == isptr_(V), "loop invariant: a stored field value is released once");
    CHECK(ncell == ((V != 0) & ((V & 7) == K_DATARECBITS)), "loop invariant: the backlink of a record in a field is released once");
    u64 x = ND_u64();
    ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
    CHECK((x >= SEG(HDRSIZE) && (x < SEG(R) || x >= SEG(R) + RW())) || RD(x) == R0(x), "loop invariant: the record and the segment header stay as they are");
    CHECK(RD(x) == RK(1, x) || (ncell && (LP == 0 ? x == SEG(V + 8 * K_RECORD_BACKLINKS_POS) : x == SEG(OC_(LP - 1) + 8))), "loop invariant: only the chain of the field value changes");
  }
}
void LI_HAVOC_wg_delete_record_0(u64 n) { I = ND_u64(); inl = 1; nfree = ncell = 0; inw = 0; nfreeK = 0; ncellK = 0; SNAP(0); vx_havoc_range(SEG(HDRSIZE), SEG(R)); vx_havoc_range(SEG(R) + RW(), DBBASE + DBSIZE); SNAP(0); SNAP(1); }
void LI_ASSUME_wg_delete_record_0(u64 n) {
  ASSUME(I >= 0 && I <= L && n == I);
  V = RD(FLD(I));
  if (FORK(I < L, 2)) {
    if (FORK((V != 0) & ((V & 7) == K_DATARECBITS), 2)) ASSUME(V != R && inseg(V, 32) && (V + 32 <= R || V >= R + RW()));
    else { ASSUME(!isptr_(V) || (V >= HDRSIZE && V < DBSIZE - 64)); ASSUME((V & 7) != K_LONGSTRBITS || (RD(SEG(V - 4 + 8 * K_LONGSTR_META_POS)) & K_LONGSTR_META_TYPEMASK) != K_WG_RECORDTYPE); }
    ASSUME(T >= 0 && T < ON && OR_(T) == R);
  } else { /* after the last field: K was one of those visited */
    nfreeK = K < L ? isptr_(RD(FLD(K))) : 0; ncellK = recK;
  }
}
static void cell(u64 i) {
  u64 c = OC_(i);
  ASSUME(inseg(c, 16) && (c + 16 <= R || c >= R + RW()) && (c + 16 <= V || c >= V + 32));
  ASSUME(RD(SEG(c)) == OR_(i));
  ASSUME(RD(SEG(c + 8)) == (i + 1 < ON ? OC_(i + 1) : 0) && ((i + 1 >= ON) | inseg_(OC_(i + 1), 16)));
}
void LI_ASSERT_wg_delete_record_1(u64 a) {
  u64 i = inw ? LP + 1 : 0;
  CHECK(i <= T && a == (i == 0 ? SEG(V + 8 * K_RECORD_BACKLINKS_POS) : SEG(OC_(i - 1) + 8)), "loop invariant: the walk is at a link of the chain");
}
void LI_HAVOC_wg_delete_record_1(u64 a) { LP = ND_u64(); inw = 1; }
void LI_ASSUME_wg_delete_record_1(u64 a) {
  ASSUME(LP >= 0 && LP <= T);
  if (FORK(LP > 0, 2)) { cell(LP - 1); ASSUME(a == SEG(OC_(LP - 1) + 8) && OC_(LP) != OC_(LP - 1) && (OC_(LP) + 16 <= OC_(LP - 1) || OC_(LP) >= OC_(LP - 1) + 16)); }
  else { ASSUME(LP == 0 && a == SEG(V + 8 * K_RECORD_BACKLINKS_POS) && RD(a) == OC_(0)); }
  cell(LP);
}
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  DEF(SEG(O_size), DBSIZE);
  R = ND_u64(); L = ND_u64(); ON = ND_u64(); T = ND_u64(); K = ND_u64();
  ASSUME(L >= 0 && L <= DBSIZE / 8 && inseg(R, RW()) && ON >= 0 && ON <= DBSIZE);
  inl = inw = 0; nidx = nlog = nfree = nobj = ncell = 0; nfreeK = ncellK = 0; I = 0;
}
ENTRY(delete_record) {
  setup();
  u64 hb = ND_u8(); ASSUME(hb == 0 || hb == 2);
  DEF(SEG(R), 8 * (L + K_RECORD_HEADER_GINTS) + hb);
  ASSUME(K >= 0 && K < (L > 0 ? L : 1));
  u64 bl = RD(SEG(R + 8 * K_RECORD_BACKLINKS_POS));
  u8 logging = RD(SEG(O_logging + OG_active)) != 0, spec = (RD(SEG(R + 8 * K_RECORD_META_POS)) & K_RECORD_META_NOTDATA) != 0;
  recK = L > 0 ? (RD(FLD(K)) != 0) & ((RD(FLD(K)) & 7) == K_DATARECBITS) : 0;
  if (L == 0) ASSUME(!isptr_(RD(FLD(K))));
  SNAPSHOT(M0);
  u64 r = f_wg_delete_record(DB, SEG(R));
  if (bl != 0) {
    u64 x = ND_u64();
    ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
    CHECK(r == -1, "ens: a record that others refer to cannot be deleted");
    CHECK(RD(x) == R0(x) && !nlog && !nidx && !nobj, "ens: a refused deletion changes nothing");
    COVER("refused");
    return;
  }
  if (r != 0) return;
  CHECK(nobj == 1, "ens: the storage of a deleted record is released once");
  CHECK(nlog == logging, "ens: a deletion is journalled exactly when the journal is on");
  CHECK(nidx == !spec, "ens: a deleted data record is taken out of the indexes");
  COVER("deleted");
}
/* ---- walking the referrers */
static u64 P, PL;
static u8 inp;
static void pcell(u64 i) {
  u64 c = OC_(i);
  ASSUME(inseg(c, 16));
  DEF(SEG(c), OR_(i)); ASSUME(inseg(OR_(i), 32));
  DEF(SEG(c + 8), i + 1 < ON ? OC_(i + 1) : 0);
  ASSUME((i + 1 >= ON) | inseg_(OC_(i + 1), 16));
}
void LI_ASSERT_wg_get_next_parent_0(u64 next) {
  u64 i = inp ? PL + 1 : 0;
  CHECK(i < ON && next == SEG(OC_(i)), "loop invariant: the walk is at a referrer");
  CHECK(!inp || OR_(PL) != P, "loop invariant: the given referrer has not been passed");
}
void LI_HAVOC_wg_get_next_parent_0(u64 next) { PL = ND_u64(); inp = 1; }
void LI_ASSUME_wg_get_next_parent_0(u64 next) { ASSUME(PL >= 0 && PL < ON && next == SEG(OC_(PL))); pcell(PL); if (FORK(PL + 1 < ON, 2)) pcell(PL + 1); ASSUME(K < 0 || K >= PL || OR_(K) != P); }
static void psetup(void) {
  setup();
  P = ND_u64();
  u64 b = SEG(R + 8 * K_RECORD_BACKLINKS_POS);
  if (FORK(ON > 0, 2)) { DEF(b, OC_(0)); pcell(0); } else DEF(b, 0);
  SNAPSHOT(M0);
}
ENTRY(first_parent) {
  psetup();
  u64 r = f_wg_get_first_parent(DB, SEG(R));
  CHECK(r == (ON > 0 ? SEG(OR_(0)) : 0), "ens: the first referrer of a record is the first in its chain");
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  CHECK(RD(x) == R0(x), "ens: walking the referrers changes nothing");
  COVER("first");
}
ENTRY(next_parent) {
  psetup();
  inp = 0; ASSUME(inseg(P, 32));
  u64 r = f_wg_get_next_parent(DB, SEG(R), SEG(P));
  /* T: any position holding P, so the result is the referrer after the first one */
  if (ON == 0) { CHECK(r == 0, "ens: a record without referrers has no next referrer"); return; }
  if (r != 0) {
    CHECK(OR_(PL) == P && PL + 1 < ON && r == SEG(OR_(PL + 1)), "ens: the next referrer is the one after the given one");
    COVER("next");
  } else {
    CHECK(K < 0 || K + 1 >= ON || OR_(K) != P, "ens: there is a next referrer unless the given one is the last");
    COVER("last");
  }
}
