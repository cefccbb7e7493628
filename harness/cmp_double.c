//@ roots: wg_compare wg_get_encoded_type
//@ contracts: wg_decode_str wg_decode_uri wg_decode_uri_prefix wg_decode_xmlliteral wg_decode_xmlliteral_xsdtype wg_decode_blob wg_decode_blob_len wg_decode_fixpoint wg_decode_double wg_get_record_len wg_get_rec_owner wg_get_field wg_translate_hdroffset
//@ cut: *=unroll
//@ cbmc: --unwind 3
#include "common.h"
/* Ordering of numbers stored as doubles, bit-precise. */
#define NO CHECK(0, "pre: numbers are not compared as anything else"); return 0
u64 c_wg_decode_str(u64 db, u64 v) { NO; }
u64 c_wg_decode_uri(u64 db, u64 v) { NO; }
u64 c_wg_decode_xmlliteral(u64 db, u64 v) { NO; }
u64 c_wg_decode_blob(u64 db, u64 v) { NO; }
u64 c_wg_decode_uri_prefix(u64 db, u64 v) { NO; }
u64 c_wg_decode_xmlliteral_xsdtype(u64 db, u64 v) { NO; }
u64 c_wg_decode_blob_len(u64 db, u64 v) { NO; }
double c_wg_decode_fixpoint(u64 db, u64 v) { return (double)((s64)v >> 8); }  /* scaled: only the order matters */
u64 c_wg_get_record_len(u64 db, u64 r) { NO; }
u64 c_wg_get_rec_owner(u64 db, u64 r) { NO; }
u64 c_wg_get_field(u64 db, u64 r, u64 f) { NO; }
u64 c_wg_translate_hdroffset(u64 db, u64 h, u64 e) { NO; }
static u64 V[2]; static double D[2];
double c_wg_decode_double(u64 db, u64 v) { CHECK(v == V[0] || v == V[1], "pre: one of the numbers"); return v == V[0] ? D[0] : D[1]; }
static void value(int i) {
  V[i] = ND_u64(); D[i] = ND_double();
  ASSUME((V[i] & 7) == K_FULLDOUBLEBITS);
  u64 o = V[i] & ~(u64)7; ASSUME(o >= HDRSIZE && o < DBSIZE - 64);
}
static s64 cmp(int i, int j) { s64 r = f_wg_compare(DB, V[i], V[j], 0); CHECK(r == 0 || r == 1 || r == -1, "ens: the result is less, equal or greater"); return r; }
static s64 sg(s64 a, s64 b) { return a > b ? 1 : a < b ? -1 : 0; }
ENTRY(cmp_double) {
  setup_db(); value(0); value(1);
  ASSUME(V[0] != V[1]);
  s64 r = cmp(0, 1);
  double p = D[0], q = D[1];
  if (p == p && q == q) CHECK(r == (p > q ? 1 : p < q ? -1 : 0), "ens: numbers are in numerical order");
  else CHECK(r == sg(p != p, q != q), "ens: a NaN comes after all numbers");
  COVER("double");
}
ENTRY(cmp_fixpoint) {
  setup_db();
  for (int i = 0; i < 2; i++) {
    V[i] = ND_u64(); ASSUME((V[i] & 3) == 3);
    ASSUME(f_wg_get_encoded_type(DB, V[i]) == K_WG_FIXPOINTTYPE && (s64)V[i] >> 8 < ((s64)1 << 40) && (s64)V[i] >> 8 > -((s64)1 << 40));
  }
  ASSUME(V[0] != V[1]);
  CHECK(cmp(0, 1) == sg((s64)V[0] >> 8, (s64)V[1] >> 8), "ens: fixed-point numbers are in order");
  COVER("fixpoint");
}
