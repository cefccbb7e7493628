//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: wg_right_strhash_bucket
#include "common.h"
/* Comparing the stored long string S with a value (bytes at D, second string E, TYPE, LEN bytes). */
static u64 S_, D, E, TYPE, LEN, STY, SLEN, XV; static u8 CM, CC;
static u64 XP(void) { return (XV & 7) == K_LONGSTRBITS ? SEG(XV - K_LONGSTRBITS + 8 * K_LONGSTR_HEADER_GINTS) : SEG(XV - K_SHORTSTRBITS); }
/* library: sign of the comparison of n bytes, of two strings */
u32 x_memcmp(u64 a, u64 b, u64 n) {
  u64 d = SEG(S_ - K_LONGSTRBITS + 8 * K_LONGSTR_HEADER_GINTS);
  CHECK((a == d && b == D) || (a == D && b == d), "pre: the stored bytes are compared with the given ones");
  CHECK(n == LEN && n <= SLEN, "pre: all bytes are compared");
  if (CM == 0) return 0;
  u32 r = ND_u32(); ASSUME(r != 0); return r;
}
u32 x_strcmp(u64 a, u64 b) {
  CHECK(XV != 0 && E != 0 && ((a == XP() && b == E) || (a == E && b == XP())), "pre: the stored second string is compared with the given one");
  if (CC == 0) return 0;
  u32 r = ND_u32(); ASSUME(r != 0); return r;
}
ENTRY(str_eq) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  D = ND_u64(); E = ND_u64(); TYPE = ND_u64(); LEN = ND_u64(); STY = ND_u64();
  u64 o = ND_u64(), nd = ND_u64(), hb = ND_u8(), dif = ND_u8();
  S_ = o + K_LONGSTRBITS;
  ASSUME(o >= HDRSIZE && (o & 7) == 0 && (hb == 0 || hb == 2) && nd >= K_LONGSTR_HEADER_GINTS && 8 * nd <= DBSIZE - o && dif >= 48 && dif < 56 && STY >= 0 && STY < 16);
  DEF(SEG(o), 8 * nd + hb); DEF(SEG(o + 8 * K_LONGSTR_META_POS), 256 * dif + STY);
  SLEN = 8 * nd - dif;
  ASSUME(SLEN >= 0 && LEN >= 0 && D > 0 && D < ((u64)1 << 47) && E >= 0 && E < ((u64)1 << 47));
  XV = RD(SEG(o + 8 * K_LONGSTR_EXTRASTR_POS));
  u64 c = FORK(ND_u8(), 3);
  if (c == 0) ASSUME(XV == 0);
  else ASSUME((XV & 7) == (c == 1 ? K_LONGSTRBITS : K_SHORTSTRBITS) && XV >= HDRSIZE && XV <= DBSIZE - 64);
  CM = FORK(ND_u8(), 2); CC = FORK(ND_u8(), 2);
  SNAPSHOT(M0);
  u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0);
  u32 r = f_wg_right_strhash_bucket(DB, S_, D, E, TYPE, LEN);
  u8 same = (STY == TYPE) & (SLEN == LEN) & (CM == 0) & ((XV == 0) == (E == 0)) & ((E == 0) | (CC == 0));
  CHECK((r != 0) == same, "ens: strings are the same exactly if type, length, bytes and second string agree");
  CHECK(RD(x) == R0(x), "ens: comparing changes nothing");
  COVER("compared");
}
