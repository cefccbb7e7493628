//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_find_strhash_bucket wg_remove_from_strhash
//@ contracts: wg_right_strhash_bucket wg_hash_typedstr
//@ loopinv: wg_find_strhash_bucket 0 hashchain
//@ loopinv: wg_remove_from_strhash 0 chainoffset,hashchain
#include "common.h"
/* The chain of one hash value is the ghost sequence CS(i) (encoded string), i < CN; EQ(i): string i has the wanted value. */
GHOST(CS, u64) GHOST(EQ, u64)
static u64 CN, D, E, TYPE, LEN, K, T, AS, AL, HASH, XV; static u64 LP; static u8 inl, nhash;
static u8 okstr(u64 v) { return ((v & 7) == K_LONGSTRBITS) & (v - K_LONGSTRBITS >= HDRSIZE) & (v - K_LONGSTRBITS + 8 * K_LONGSTR_HEADER_GINTS <= DBSIZE); }
#define NEXTF(v) SEG((v) - K_LONGSTRBITS + 8 * K_LONGSTR_HASHCHAIN_POS)
static u64 SLOT(void) { return SEG(AS + 8 * HASH); }
static void cell(u64 i) {
  ASSUME(okstr(CS_(i)));
  ASSUME(RD(NEXTF(CS_(i))) == (i + 1 < CN ? CS_(i + 1) : 0));
}
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  CN = ND_u64(); D = ND_u64(); E = ND_u64(); TYPE = ND_u64(); LEN = ND_u64(); K = ND_u64();
  ASSUME(CN >= 0 && CN <= DBSIZE && K >= 0 && K < CN + 1);
  inl = nhash = 0; LP = 0;
}
/* ---- searching a chain */
u32 c_wg_right_strhash_bucket(u64 db, u64 s, u64 d, u64 e, u64 t, u64 n) {
  CHECK(db == DB && inl && s == CS_(LP), "pre: the string in turn is compared");
  CHECK(d == D && e == E && t == TYPE && n == LEN, "pre: it is compared with the wanted value");
  return EQ_(LP) != 0;
}
void LI_ASSERT_wg_find_strhash_bucket_0(u64 h) {
  u64 i = inl ? LP + 1 : 0;
  CHECK(i <= CN && (i == CN ? h == 0 : h == CS_(i)), "loop invariant: the chain is searched in order");
  CHECK(K >= i || !EQ_(K), "loop invariant: no string passed has the wanted value");
}
void LI_HAVOC_wg_find_strhash_bucket_0(u64 h) { LP = ND_u64(); inl = 1; }
void LI_ASSUME_wg_find_strhash_bucket_0(u64 h) {
  ASSUME(LP >= 0 && LP <= CN);
  ASSUME(K >= LP || !EQ_(K));
  if (FORK(LP < CN, 2)) { ASSUME(h == CS_(LP)); cell(LP); } else ASSUME(h == 0);
}
ENTRY(str_find) {
  setup();
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  u64 h = CN ? CS_(0) : 0;
  SNAPSHOT(M0);
  u64 r = f_wg_find_strhash_bucket(DB, D, E, TYPE, LEN, h);
  CHECK(RD(x) == R0(x), "ens: searching changes nothing");
  if (r == 0) { CHECK(K >= CN || !EQ_(K), "ens: a stored string with the wanted value is found"); COVER("none"); return; }
  CHECK(LP < CN && r == CS_(LP) && EQ_(LP), "ens: the string found has the wanted value");
  COVER("found");
}
/* ---- taking string T out of its chain */
u32 c_wg_hash_typedstr(u64 db, u64 d, u64 e, u64 t, u64 n) {
  u64 s = CS_(T) - K_LONGSTRBITS;
  CHECK(db == DB && d == SEG(s + 8 * K_LONGSTR_HEADER_GINTS), "pre: the hash of the stored bytes is taken");
  CHECK(n == LEN, "pre: all of the stored bytes are hashed");
  CHECK(XV == 0 ? e == 0 : (XV & 7) == K_LONGSTRBITS ? e == SEG(XV - K_LONGSTRBITS + 8 * K_LONGSTR_HEADER_GINTS) : e == SEG(XV - K_SHORTSTRBITS), "pre: the second string is hashed too");
  nhash++;
  return (u32)HASH;
}
void LI_ASSERT_wg_remove_from_strhash_0(u64 c, u64 h) {
  u64 i = inl ? LP + 1 : 0;
  CHECK(i <= T && c + DBBASE == (i == 0 ? SLOT() : NEXTF(CS_(i - 1))) && h == CS_(i), "loop invariant: the chain is walked in order, keeping the link to the string");
}
void LI_HAVOC_wg_remove_from_strhash_0(u64 c, u64 h) { LP = ND_u64(); inl = 1; }
void LI_ASSUME_wg_remove_from_strhash_0(u64 c, u64 h) {
  ASSUME(LP >= 0 && LP <= T && h == CS_(LP));
  if (FORK(LP > 0, 2)) { cell(LP - 1); ASSUME(c + DBBASE == NEXTF(CS_(LP - 1))); } else { ASSUME(LP == 0 && c + DBBASE == SLOT()); }
  cell(LP);
  ASSUME(LP + 1 >= CN || okstr(CS_(LP + 1)));
  if (FORK(LP < T, 2)) ASSUME(CS_(LP) != CS_(T)); else ASSUME(LP == T);
}
ENTRY(str_unhash) {
  setup();
  T = ND_u64(); AS = ND_u64(); AL = ND_u64(); HASH = ND_u64();
  ASSUME(T >= 0 && T < CN);
  ASSUME(AL >= 1 && AL <= ((u64)1 << 31) && AL <= DBSIZE / 8 && HASH >= 0 && HASH < AL && AS >= HDRSIZE && (AS & 7) == 0 && AS + 8 * AL <= DBSIZE);
  DEF(SEG(O_strhash_area_header + OHA_arraystart), AS); DEF(SEG(O_strhash_area_header + OHA_arraylength), AL);
  u64 s = CS_(T), o = s - K_LONGSTRBITS, nd = ND_u64(), hb = ND_u8(), dif = ND_u8();
  cell(T);
  ASSUME((hb == 0 || hb == 2) && nd >= K_LONGSTR_HEADER_GINTS && 8 * nd <= DBSIZE - o && dif >= 48 && dif < 56);
  DEF(SEG(o), 8 * nd + hb);
  DEF(SEG(o + 8 * K_LONGSTR_META_POS), 256 * dif + TYPE);
  ASSUME(TYPE >= 0 && TYPE < 16 && LEN == 8 * nd - dif && LEN >= 0);
  XV = RD(SEG(o + 8 * K_LONGSTR_EXTRASTR_POS));
  u64 c = FORK(ND_u8(), 3);
  if (c == 0) ASSUME(XV == 0);
  else ASSUME((XV & 7) == (c == 1 ? K_LONGSTRBITS : K_SHORTSTRBITS) && XV >= HDRSIZE && XV <= DBSIZE - 64);
  DEF(SLOT(), CS_(0));
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  SNAPSHOT(M0);
  u64 r = f_wg_remove_from_strhash(DB, s);
  CHECK(r == 0, "ens: a string in its chain is found there");
  u64 l = T == 0 ? SLOT() : NEXTF(CS_(T - 1));
  CHECK(nhash == 1 && RD(l) == (T + 1 < CN ? CS_(T + 1) : 0), "ens: the link to the string goes to the next one");
  CHECK(RD(x) == R0(x) || x == l, "ens: nothing else changes");
  COVER("unhash");
}
