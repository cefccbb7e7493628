//@ engine: vx
//@ vx: {"autocut":true,"facts":[],"wrapshl":true,"unrolled":["find_create_longstr"]}
//@ roots: find_create_longstr
//@ contracts: wg_hash_typedstr wg_find_strhash_bucket wg_alloc_gints wg_encode_str
#include "common.h"
/* Storing a long string of LEN bytes (terminator included) with an optional second string E. */
#define LOGACT SEG(O_logging + OG_active)
static u64 D, E, TYPE, LEN, HASH, AS, AL, O, EV, OLDS; static u8 el, nfind, nalloc, nenc, gothash; static u64 HN, ER;
static u64 SLOT(void) { return SEG(AS + 8 * HASH); }
static u64 Q, REST;   /* LEN = 8 * Q + REST */
static u64 ND8(void) { return REST ? Q + 1 : Q; }
static u8 out_(u64 a, u64 n, u64 b, u64 m) { return (a + n <= b) | (b + m <= a); }
u8 mok_extra(u64 a, u64 n) { return (a >= D) & (a + n <= D + LEN); }
u32 c_wg_hash_typedstr(u64 db, u64 d, u64 e, u64 t, u64 n) {
  CHECK(db == DB && d == D && e == E && n == LEN, "pre: the hash is taken of the whole value");
  gothash = 1;
  return (u32)HASH;
}
u64 c_wg_find_strhash_bucket(u64 db, u64 d, u64 e, u64 t, u64 n, u64 ch) {
  CHECK(db == DB && d == D && e == E && t == TYPE && n == LEN, "pre: the value itself is looked for");
  CHECK(gothash && ch == RD(SLOT()) && ch != 0, "pre: it is looked for in the chain of its hash");
  nfind++;
  if (FORK(ND_u8(), 2)) { OLDS = ND_u64(); ASSUME(OLDS != 0); return OLDS; }
  return 0;
}
u64 c_wg_alloc_gints(u64 db, u64 area, u64 n) {
  CHECK(db == DB && area == SEG(O_longstr_area_header) && !nalloc && n == ND8() + K_LONGSTR_HEADER_GINTS, "pre: storage for the header and the bytes is asked for");
  nalloc++;
  if (FORK(ND_u8(), 2)) return 0;
  u64 hb = ND_u8(); ASSUME(hb == 0 || hb == 2);
  vx_havoc_range(SEG(O), SEG(O + 8 * n));
  WR(SEG(O), 8 * n + hb);
  SNAP(5);
  return O;
}
u64 c_wg_encode_str(u64 db, u64 s, u64 l) {
  CHECK(db == DB && s == E && E != 0 && l == 0 && !nenc, "pre: the second string is stored as a plain string");
  CHECK(RD(LOGACT) == 0, "pre: the second string is part of the journal entry of the whole");
  nenc++;
  u64 w = FORK(ND_u8(), 3);
  if (w == 2) return K_WG_ILLEGAL;
  EV = ND_u64();
  if (w == 0) { ASSUME((EV & 7) == K_SHORTSTRBITS && EV >= HDRSIZE && EV < DBSIZE); return EV; }
  /* a long string: an old one, or a new one at the head of some chain */
  ASSUME((EV & 7) == K_LONGSTRBITS && EV - 4 >= HDRSIZE && EV - 4 + 56 <= DBSIZE && out_(EV - 4, 56, O, 8 * (ND8() + 6)) && out_(EV - 4, 56, AS, 8 * AL));
  if (FORK(ND_u8(), 2)) {
    u64 b = ND_u64(); ASSUME(b >= 0 && b < AL);
    WR(SEG(AS + 8 * b), EV);
    vx_havoc_range(SEG(EV - 4), SEG(EV - 4 + 56));
  }
  el = 1;
  ER = RD(SEG(EV - 4 + 8 * K_LONGSTR_REFCOUNT_POS)); ASSUME(ER >= 0 && ER < ((u64)1 << 40));
  SNAP(5);
  return EV;
}
ENTRY(str_create) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  D = ND_u64(); E = ND_u64(); TYPE = ND_u64(); Q = ND_u64(); REST = FORK(ND_u8(), 8); LEN = 8 * Q + REST; HASH = ND_u64(); AS = ND_u64(); AL = ND_u64(); O = ND_u64();
  el = nfind = nalloc = nenc = gothash = 0; EV = OLDS = ER = HN = 0;
  ASSUME(Q >= 0 && LEN < DBSIZE && D >= 4096 && ((D + LEN <= DBBASE) | (D >= DBBASE + DBSIZE)) && D < ((u64)1 << 47));
  ASSUME(out_(D, LEN, HEAPBASE, 64));
  ASSUME(TYPE >= 1 && TYPE < 16 && HASH >= 0 && HASH < AL && AL <= ((u64)1 << 31) && AL <= DBSIZE / 8 && AS >= HDRSIZE && (AS & 7) == 0 && AS + 8 * AL <= DBSIZE);
  ASSUME(O >= HDRSIZE && (O & 7) == 0 && O + 8 * (ND8() + 6) <= DBSIZE && out_(O, 8 * (ND8() + 6), AS, 8 * AL));
  DEF(SEG(O_strhash_area_header + OHA_arraystart), AS); DEF(SEG(O_strhash_area_header + OHA_arraylength), AL);
  u64 x = ND_u64(), y = ND_u64();
  ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0 && y >= 0 && y < LEN);
  ASSUME((x < SEG(O)) | (x >= SEG(O + 8 * (ND8() + 6))));
  u64 h0 = RD(SLOT());
  SNAPSHOT(M0);
  u64 r = f_find_create_longstr(DB, D, E, TYPE, LEN);
  CHECK(RD(LOGACT) == R0(LOGACT), "ens: journalling is on as before");
  if (OLDS) { CHECK(r == OLDS && RD(x) == R0(x) && !nalloc, "ens: a value that is stored already is not stored again"); COVER("shared"); return; }
  CHECK(nfind == (h0 != 0), "ens: a stored value is looked for first");
  if (r == 0) { COVER("failed"); return; }
  CHECK(r == O + K_LONGSTRBITS, "ens: the word refers to the new string");
  CHECK((RD(SEG(O)) & ~(u64)7) == 8 * (ND8() + 6), "ens: the length of the block is as allocated");
  u64 m = RD(SEG(O + 8 * K_LONGSTR_META_POS));
  CHECK((m & K_LONGSTR_META_TYPEMASK) == TYPE, "ens: the type is stored");
  CHECK(8 * (ND8() + 6) - ((m & K_LONGSTR_META_LENDIFMASK) >> K_LONGSTR_META_LENDIFSHFT) == LEN, "ens: the length is stored");
  CHECK(RD(SEG(O + 8 * K_LONGSTR_REFCOUNT_POS)) == 0, "ens: a new string is not referred to yet");
  CHECK(RD8(SEG(O + 48 + y)) == RD8(D + y), "ens: the bytes are stored");
  if (E == 0) CHECK(RD(SEG(O + 8 * K_LONGSTR_EXTRASTR_POS)) == 0 && !nenc, "ens: without a second string none is stored");
  else CHECK(nenc == 1 && RD(SEG(O + 8 * K_LONGSTR_EXTRASTR_POS)) == EV, "ens: the second string is stored");
  CHECK(RD(SLOT()) == r, "ens: the new string is first in the chain of its hash");
  CHECK(RD(SEG(O + 8 * K_LONGSTR_HASHCHAIN_POS)) == RK(5, SLOT()), "ens: the strings that were in the chain follow it");
  u64 rc = SEG(EV - 4 + 8 * K_LONGSTR_REFCOUNT_POS);
  if (el) CHECK(RD(rc) == ER + 1, "ens: the second string has one more reference");
  CHECK(RD(x) == RK(5, x) || x == SLOT() || (el && x == rc) || x == LOGACT, "ens: nothing else changes");
  COVER("created");
}
