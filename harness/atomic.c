//@ engine: vx
//@ vx: {"autocut":true,"facts":[],"wrapshl":true}
//@ roots: wg_update_atomic_field wg_set_atomic_field wg_add_int_atomic_field
//@ contracts: wg_compare_and_swap
//@ loopinv: wg_set_atomic_field 0 i
//@ loopinv: wg_add_int_atomic_field 0 i
#include "common.h"
/* Updates without a lock: other processes may change the field at any time.  The contract of the compare-and-swap
 * lets the field take any value of an immediate type just before the swap; OLDV is the value it really replaced. */
static u64 R, L, DATA, OLD, OLDV, NEWV; static s64 F; static u64 ncas; static u8 special, indexed, logging, inl, other;
#define FLD(f) SEG(R + 8 * (K_RECORD_HEADER_GINTS + (u64)(f)))
static u64 wit(void) { u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); return x; }
static u8 imm(u64 d) { return (d == 0) | ((d & 3) == 3); }
static u64 interfere(void) { u64 v = ND_u64(); ASSUME(imm(v)); vx_inrange(v); return v; }
u64 c_wg_compare_and_swap(u64 p, u64 ov, u64 nv) {
  CHECK(p == FLD(F), "pre: only the field asked for is swapped");
  CHECK(imm(ov) && imm(nv), "pre: only values stored in the word itself are swapped without a lock");
  CHECK(ncas == 0, "pre: a successful swap is the last one");
  if (FORK(ND_u8(), 2)) { WR(FLD(F), interfere()); other = 1; }
  u64 cur = RD(FLD(F));
  if (cur == ov) { OLDV = cur; NEWV = nv; ncas++; WR(FLD(F), nv); return 1; }
  return 0;
}
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  R = ND_u64(); L = ND_u64(); F = ND_u64(); DATA = ND_u64();
  ASSUME(L >= 0 && L <= DBSIZE / 8 && R >= HDRSIZE && (R & 7) == 0 && R + 8 * (L + K_RECORD_HEADER_GINTS) <= DBSIZE);
  u64 hb = ND_u8(); ASSUME(hb == 0 || hb == 2);
  DEF(SEG(R), 8 * (L + K_RECORD_HEADER_GINTS) + hb);
  special = (RD(SEG(R + 8 * K_RECORD_META_POS)) & K_RECORD_META_NOTDATA) != 0;
  logging = RD(SEG(O_logging + OG_active)) != 0;
  indexed = 0; ncas = 0; inl = 0; other = 0;
  if (F >= 0 && F <= K_MAX_INDEXED_FIELDNR) {
    u64 t = RD(SEG(O_index_control_area_header + OI_index_table + 8 * F)), t2 = RD(SEG(O_index_control_area_header + OI_index_template_table + 8 * F));
    indexed = (t != 0) | (t2 != 0);
  }
  if (F >= 0 && F < (s64)L) vx_inrange(RD(FLD(F)));
  OLD = OLDV = NEWV = 0;
}
static void common(u64 r, u64 x) {
  CHECK((r == 0) == (ncas == 1), "ens: success is reported exactly when the field was swapped");
  CHECK(F >= 0 && F < (s64)L || r == -2, "ens: a field number outside the record is refused");
  CHECK(RD(x) == R0(x) || (x == FLD(F) && (ncas || other)), "ens: nothing but the field changes");
  if (r == 0) {
    CHECK(!logging && (special || !indexed), "ens: a field that is indexed or journalled is not changed without a lock");
    CHECK(RD(FLD(F)) == NEWV, "ens: the field holds the new value");
  }
}
ENTRY(atomic_update) {
  setup(); OLD = ND_u64(); u64 x = wit(); SNAPSHOT(M0);
  u64 r = f_wg_update_atomic_field(DB, SEG(R), F, DATA, OLD);
  common(r, x);
  if (r == 0) { CHECK(OLDV == OLD && NEWV == DATA, "ens: the update replaces exactly the value given as old"); COVER("updated"); }
  else {
    CHECK(imm(DATA) || r == -10 || r == -2, "ens: a new value that needs storage is refused");
    CHECK(r == -15 || F < 0 || F >= (s64)L || !imm(DATA) || !imm(OLD) || logging || (!special && indexed), "ens: an update is refused only for a reason");
    COVER("refused");
  }
}
ENTRY(atomic_set) {
  setup(); u64 x = wit(); SNAPSHOT(M0);
  u64 r = f_wg_set_atomic_field(DB, SEG(R), F, DATA);
  common(r, x);
  if (r == 0) { CHECK(NEWV == DATA, "ens: the field is set to the value given"); COVER("set"); }
  else COVER("set refused");
}
/* value of a small integer word */
#define VAL(d) (((s64)((d) - 3)) / 8)
#define SMALL(d) (((d) & 7) == 3)
ENTRY(atomic_add) {
  setup(); u64 x = wit(); SNAPSHOT(M0);
  s64 a = (s64)DATA; ASSUME(a >= -2147483648L && a <= 2147483647L);
  u64 r = f_wg_add_int_atomic_field(DB, SEG(R), F, (u32)a);
  common(r, x);
  if (r == 0) {
    CHECK(SMALL(OLDV) && SMALL(NEWV) && VAL(NEWV) == VAL(OLDV) + a, "ens: exactly the amount given is added to the value replaced, no update by another process is lost");
    COVER("added");
  } else COVER("add refused");
}
void LI_ASSERT_wg_set_atomic_field_0(u64 i) { i = (s32)i; u64 x = wit(); CHECK(i >= 0 && i <= 1002 && !ncas, "loop invariant: the field has not been swapped yet"); CHECK(RD(x) == R0(x) || (other && x == FLD(F)), "loop invariant: nothing has been changed"); }
void LI_HAVOC_wg_set_atomic_field_0(u64 i) { if (FORK(ND_u8(), 2)) { other = 1; WR(FLD(F), interfere()); } }
void LI_ASSUME_wg_set_atomic_field_0(u64 i) { i = (s32)i; ASSUME(i >= 0 && i <= 1002); }
void LI_ASSERT_wg_add_int_atomic_field_0(u64 i) { LI_ASSERT_wg_set_atomic_field_0(i); }
void LI_HAVOC_wg_add_int_atomic_field_0(u64 i) { LI_HAVOC_wg_set_atomic_field_0(i); }
void LI_ASSUME_wg_add_int_atomic_field_0(u64 i) { LI_ASSUME_wg_set_atomic_field_0(i); }
