//@ engine: vx
//@ vx: {"autocut":true,"facts":[],"unrolled":["wg_encode_unistr"]}
//@ roots: wg_encode_str wg_encode_xmlliteral wg_encode_uri wg_encode_blob wg_encode_anonconst
//@ contracts: find_create_longstr wg_alloc_fixlen_object wg_log_encode wg_log_encval
#include "common.h"
/* Encoding a string of LEN bytes at D with an optional second string E (XLEN bytes). */
static u64 D, E, LEN, XLEN, TY, O, NEWV; static u8 nlong, ncell, nenc, nval, logon, blob, encfail, valfail;
u8 mok_extra(u64 a, u64 n) { return (a >= D) & (a + n <= D + LEN + 1); }
u64 x_strlen(u64 a) {
  CHECK((a == D && !blob) || (a == E && E != 0), "pre: the length of the given strings is taken");
  return a == D ? LEN : XLEN;
}
u64 c_wg_log_encode(u64 db, u64 t, u64 d, u64 n, u64 e, u64 en) {
  CHECK(db == DB && logon && !nlong && !ncell && !nenc, "pre: encoding is journalled before it is done");
  CHECK(t == TY && d == D && n == LEN && e == E && en == (E ? XLEN + 1 : 0), "pre: the whole value is journalled");
  nenc++;
  encfail = FORK(ND_u8(), 2);
  return encfail ? -1 : 0;
}
u64 c_wg_log_encval(u64 db, u64 v) {
  CHECK(db == DB && logon && nenc == 1 && !nval && v == NEWV, "pre: the result is journalled");
  nval++;
  valfail = FORK(ND_u8(), 2);
  return valfail ? -1 : 0;
}
u64 c_find_create_longstr(u64 db, u64 d, u64 e, u64 t, u64 n) {
  CHECK(db == DB && d == D && e == E && t == TY && n == (blob ? LEN : LEN + 1), "pre: the whole value, terminator included, is stored");
  CHECK(!ncell && !nlong, "pre: a value is stored once");
  nlong++;
  vx_havoc_range(SEG(HDRSIZE), DBBASE + DBSIZE);
  SNAP(1);
  if (FORK(ND_u8(), 2)) { NEWV = K_WG_ILLEGAL; return 0; }
  u64 o = ND_u64(); ASSUME(o >= HDRSIZE && o < DBSIZE && (o & 7) == 0);
  NEWV = o + K_LONGSTRBITS;
  return NEWV;
}
u64 c_wg_alloc_fixlen_object(u64 db, u64 area) {
  CHECK(db == DB && area == SEG(O_shortstr_area_header) && !nlong && !ncell, "pre: a short string gets a cell of its area");
  ncell++;
  if (FORK(ND_u8(), 2)) { NEWV = K_WG_ILLEGAL; return 0; }
  O = ND_u64(); ASSUME(O >= HDRSIZE && O + K_SHORTSTR_SIZE <= DBSIZE && (O & 7) == 0);
  NEWV = O + K_SHORTSTRBITS;
  return O;
}
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  D = ND_u64(); E = ND_u64(); XLEN = ND_u64(); O = 0;
  nlong = ncell = nenc = nval = blob = encfail = valfail = 0; NEWV = 0;
  logon = FORK(ND_u8(), 2);
  if (logon) ASSUME(RD(SEG(O_logging + OG_active)) != 0); else DEF(SEG(O_logging + OG_active), 0);
  u64 t = FORK(ND_u8(), 5);
  TY = t == 0 ? K_WG_STRTYPE : t == 1 ? K_WG_XMLLITERALTYPE : t == 3 ? K_WG_BLOBTYPE : K_WG_URITYPE;
  if (t == 4 || FORK(ND_u8(), 2)) { E = 0; if (t == 1) { TY = K_WG_STRTYPE; t = 0; } } else ASSUME(E >= 4096);
  blob = t == 3;
  if (!blob && E == 0 && t == 0 && FORK(ND_u8(), 2)) {
    LEN = FORK(ND_u8(), K_SHORTSTR_SIZE);
    for (u64 j = 0; j < LEN; j++) ASSUME(RD8(D + j) != 0);
    ASSUME(RD8(D + LEN) == 0);
  } else {
    LEN = ND_u64();
    ASSUME(LEN >= (t == 0 && E == 0 ? K_SHORTSTR_SIZE : 0) && LEN <= ((u64)1 << 40));
  }
  ASSUME(XLEN >= 0 && XLEN <= ((u64)1 << 40) && ((E != D) | (XLEN == LEN)));
  ASSUME(D >= 4096 && ((D + LEN < DBBASE) | ((D >= DBBASE + DBSIZE) & (D + LEN < 2 * DBBASE))));
}
ENTRY(str_encode) {
  setup();
  u8 sh = !blob && E == 0 && TY == K_WG_STRTYPE && LEN < K_SHORTSTR_SIZE;
  u8 anon = FORK(ND_u8(), 2);
  u64 y = ND_u64(), x = ND_u64();
  ASSUME(y >= 0 && y < K_SHORTSTR_SIZE && x >= DBBASE && x < DBBASE + DBSIZE);
  SNAPSHOT(M0);
  u64 r;
  if (TY == K_WG_STRTYPE) r = f_wg_encode_str(DB, D, E);
  else if (TY == K_WG_XMLLITERALTYPE) r = f_wg_encode_xmlliteral(DB, D, E);
  else if (blob) r = f_wg_encode_blob(DB, D, E, LEN);
  else if (E == 0 && anon) r = f_wg_encode_anonconst(DB, D);
  else r = f_wg_encode_uri(DB, D, E);
  if (encfail) { CHECK(r == K_WG_ILLEGAL && !nlong && !ncell, "ens: nothing is stored when the journal cannot be written"); COVER("nolog"); return; }
  CHECK(ncell == sh && nlong == !sh, "ens: plain strings shorter than a cell go to a cell, others are shared");
  CHECK((nenc == logon && nval == logon), "ens: encoding and its result are journalled");
  if (r == K_WG_ILLEGAL) { CHECK(NEWV == K_WG_ILLEGAL || valfail, "ens: encoding fails only when storage or the journal fails"); COVER("failed"); return; }
  CHECK(!valfail && (sh ? r == NEWV : r == NEWV || r == (NEWV | K_LONGSTRBITS)), "ens: the word refers to the stored value");
  if (!sh) { CHECK(RD8(x) == RK8(1, x), "ens: nothing else changes"); COVER("long"); return; }
  CHECK(y <= LEN ? RD8(SEG(O + y)) == R08(D + y) : RD8(SEG(O + y)) == 0, "ens: the bytes are stored and the rest of the cell is zero");
  CHECK(RD8(x) == R08(x) || (x >= SEG(O) && x < SEG(O + K_SHORTSTR_SIZE)), "ens: nothing else changes");
  COVER("short");
}
