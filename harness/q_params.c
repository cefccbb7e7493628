//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: prepare_params
//@ contracts: wg_get_encoded_type wg_get_record_len wg_get_record_dataarray
//@ loopinv: prepare_params 0 @n
//@ loopinv: prepare_params 1 @n
//@ loopinv: prepare_params 2 @n,j
#include "common.h"
/* NW(i): field i of the match record is not a wild card; RC(i): number of such fields before field i */
GHOST(NW, u8) GHOST(RC, u64)
#define AL (HEAPBASE + ((u64)1 << 42))
#define MR (HEAPBASE + ((u64)2 << 42))
#define TM (HEAPBASE + ((u64)3 << 42))
#define SA SZ_wg_query_arg
#define FA (HEAPBASE + 64)
#define FC (HEAPBASE + 72)
static u64 ARGC, RL, I, W, V, REC, TOT; static u8 hm, nat, inl, mal, ph;
static u8 in(u64 a, u64 n, u64 b, u64 m) { return (a >= b) & (a + n <= b + m); }
u8 mok_extra(u64 a, u64 n) { return in(a, n, AL, ARGC * SA) | ((hm != 0) & in(a, n, MR, RL * 8)) | ((mal == 1) & in(a, n, TM, TOT * SA)); }
static u8 nw(u64 i) { return NW_(i) != 0; }
static void rc(u64 i) { ASSUME(RC_(0) == 0); ASSUME(i < 0 || (RC_(i) >= 0 && RC_(i) <= i && RC_(i + 1) == RC_(i) + nw(i))); }
u64 c_wg_get_record_len(u64 db, u64 r) { CHECK(db == DB && nat && r == REC, "pre: the length of a record of the database"); return RL; }
u64 c_wg_get_record_dataarray(u64 db, u64 r) { CHECK(db == DB && nat && r == REC, "pre: the fields of a record of the database"); return MR; }
u64 c_wg_get_encoded_type(u64 db, u64 e) { CHECK(db == DB && inl && I < RL && e == RD(MR + 8 * I), "pre: the type of the current field"); if (!FORK(nw(I), 2)) return K_WG_VARTYPE; u64 t = ND_u64(); ASSUME(t != K_WG_VARTYPE); return t; }
u64 x_malloc(u64 n) { CHECK(!mal && n >= SA * RD(FC) && n > 0, "pre: room for all conditions is asked"); CHECK(RD(FC) == ARGC + (hm ? RC_(RL) : 0), "ens: all conditions are counted"); TOT = RD(FC); mal = FORK(ND_u8(), 2) ? 2 : 1; return mal == 1 ? TM : 0; }
#define T(i, f) RD(TM + SA * (i) + (f))
#define A(i, f) RD(AL + SA * (i) + (f))
static u8 argw(u64 n) { return (W >= n) | ((T(W, OA_column) == A(W, OA_column)) & (T(W, OA_cond) == A(W, OA_cond)) & (T(W, OA_value) == A(W, OA_value))); }
static u8 matw(u64 n) { u64 k = ARGC + RC_(V); return (V >= n) | !nw(V) | ((T(k, OA_column) == V) & (T(k, OA_cond) == K_WG_COND_EQUAL) & (T(k, OA_value) == RD(MR + 8 * V))); }
static u64 step(u8 p, u64 n) { if (ph != p) { ph = p; inl = 0; } return inl ? I + 1 : 0; }
static void at(u64 n, u64 m) { inl = 1; I = n; ASSUME(I >= 0 && I <= m); rc(I); }
void LI_ASSERT_prepare_params_0(u64 n) { CHECK(n == step(1, n) && hm && n <= RL && RD(FC) == ARGC + RC_(n), "loop invariant: the fields so far that are not wild cards are counted"); }
void LI_HAVOC_prepare_params_0(u64 n) { vx_havoc_word(FC); }
void LI_ASSUME_prepare_params_0(u64 n) { at(n, RL); ASSUME(RD(FC) == ARGC + RC_(I)); }
void LI_ASSERT_prepare_params_1(u64 n) { CHECK(n == step(2, n) && n <= ARGC && argw(n), "loop invariant: the conditions so far are copied"); }
void LI_HAVOC_prepare_params_1(u64 n) { vx_havoc_range(TM, TM + TOT * SA); }
void LI_ASSUME_prepare_params_1(u64 n) { at(n, ARGC); ASSUME(argw(I)); }
void LI_ASSERT_prepare_params_2(u64 n, u32 j) { CHECK(n == step(3, n) && n <= RL && j == ARGC + RC_(n) && argw(ARGC) && matw(n), "loop invariant: the conditions and the fields so far are copied"); }
void LI_HAVOC_prepare_params_2(u64 n, u32 j) { vx_havoc_range(TM, TM + TOT * SA); }
static void mono(u64 a, u64 b) { ASSUME((a > b) | (RC_(a) <= RC_(b))); ASSUME((a >= b) | (RC_(a) + nw(a) <= RC_(b))); }
void LI_ASSUME_prepare_params_2(u64 n, u32 j) { at(n, RL); ASSUME(j == ARGC + RC_(I)); ASSUME(argw(ARGC)); ASSUME(matw(I)); mono(V, I); mono(I, RL); ASSUME(RC_(RL) >= 0 && RC_(RL) <= RL); }
ENTRY(q_params) {
  DBSIZE = ND_u64(); ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 512; DEF(HEAPBASE, DBBASE); ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK); inl = mal = ph = 0;
  u8 ha = FORK(ND_u8(), 2); ARGC = ha ? ND_u64() : 0; ASSUME(ARGC >= 0 && ARGC <= 0x3fffffff); hm = FORK(ND_u8(), 2); nat = hm ? FORK(ND_u8(), 2) : 0; RL = hm ? ND_u64() : 0; ASSUME(RL >= 0 && RL <= 0x3fffffff); REC = ND_u64(); ASSUME(REC > 0);
  if (hm && !nat) ASSUME(RL > 0);
  W = ND_u64(); V = ND_u64(); ASSUME(W >= 0 && W < ARGC + !ARGC && V >= 0 && V < RL + !RL); rc(V); rc(RL); ASSUME(RC_(V) + nw(V) <= RC_(RL) || V >= RL);
  u64 ac = FORK(ND_u8(), 2) ? ARGC : (ha ? 0 : 1); if (hm && ac) ASSUME(1);
  u64 r = f_prepare_params(DB, hm ? nat ? REC : MR : 0, nat ? 0 : RL, ha ? AL : 0, ac, FA, FC);
  if (FORK(r != 0, 2)) { CHECK(mal == 2 || (ha && !ac) || (!ha && ac) || (hm && RL == 0), "ens: parameters are refused only if they make no sense or memory is short"); COVER("refused"); return; }
  ASSUME(ac == ARGC);
  CHECK(!(ha && !ARGC), "ens: an empty list of conditions is refused");
  u64 n = RD(FC); CHECK(n == ARGC + (hm ? RC_(RL) : 0), "ens: every condition and every field that is not a wild card counts");
  if (!FORK(n != 0, 2)) { CHECK(RD(FA) == 0, "ens: without conditions there is no list"); COVER("none"); return; }
  CHECK(RD(FA) == TM && mal == 1, "ens: the list is a copy"); if (ha) CHECK(argw(ARGC), "ens: every condition given is in the list"); if (hm) CHECK(matw(RL), "ens: every field of the match record that is not a wild card is a condition"); COVER("list");
}
