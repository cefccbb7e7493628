//@ roots: add_tran_enc add_tran_offset translate_encoded translate_offset
//@ contracts: wg_ginthash_addkey wg_ginthash_getkey
//@ cut: *=unroll
#include "common.h"
/* The translation table is a map from the offsets of the journal to offsets of the database. */
static u64 OLDO, NEWO, KEY; static u8 found, nadd, addfail, nget;
#define TBL GLOBASE
u64 c_wg_ginthash_addkey(u64 db, u64 t, u64 k, u64 v) {
  CHECK(t == TBL && k == OLDO && v == NEWO, "pre: the journal's offset is mapped to the new offset");
  nadd++; return addfail ? (u64)-1 : 0;
}
u64 c_wg_ginthash_getkey(u64 db, u64 t, u64 k, u64 pv) {
  CHECK(t == TBL && k == OLDO, "pre: the journal's offset is looked up");
  nget++;
  if (!found) return (u64)-1;
  WR(pv, NEWO); return 0;
}
static u64 off(u64 o) { ASSUME(o >= HDRSIZE && o < DBSIZE && (o & 7) == 0); return o; }
static u64 enc(u64 o, u8 k) { ASSUME(k <= 4); return o | (k == 0 ? K_DATARECBITS : k == 1 ? K_LONGSTRBITS : k == 2 ? K_SHORTSTRBITS : k == 3 ? K_FULLDOUBLEBITS : K_FULLINTBITS); }
static void setup(void) { setup_db(); OLDO = off(ND_u64()); NEWO = off(ND_u64()); found = ND_u8() & 1; addfail = ND_u8() & 1; nadd = nget = 0; }
ENTRY(tran_add) {
  setup(); u8 k = ND_u8(); ASSUME(k >= 1);
  u64 r = f_add_tran_enc(DB, TBL, enc(OLDO, k), enc(NEWO, k));
  CHECK(nadd == 1, "ens: the place of a stored value is recorded");
  CHECK((r != 0) == addfail, "ens: a full table is reported");
  COVER("add");
}
ENTRY(tran_addoff) {
  setup();
  u64 r = f_add_tran_offset(DB, TBL, OLDO, NEWO);
  CHECK(nadd == 1 && (r != 0) == addfail, "ens: the place of a record is recorded");
  COVER("add");
}
ENTRY(tran_get) {
  setup(); u8 k = ND_u8();
  u64 t = found ? NEWO : OLDO;
  u64 e = enc(OLDO, k), r = f_translate_encoded(DB, TBL, e);
  CHECK(r == enc(t, k), "ens: a value that refers to storage keeps its type and refers to the new place");
  CHECK(f_translate_offset(DB, TBL, OLDO) == t, "ens: an offset is translated to the recorded place, or kept if there is none");
  COVER("get");
}
ENTRY(tran_imm) {
  setup(); u64 e = ND_u64();
  ASSUME(e == 0 || (e & 3) == 3);
  CHECK(f_translate_encoded(DB, TBL, e) == e && nget == 0, "ens: a value stored in the word itself is not changed");
  CHECK(f_add_tran_enc(DB, TBL, e, e) == 0 && nadd == 0, "ens: nothing is recorded for a value stored in the word itself");
  COVER("imm");
}
