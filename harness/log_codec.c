//@ roots: enc_varint fget_varint
//@ cut: *=unroll
#include "common.h"
/* A number written to the journal is read back as the same number, consuming exactly the bytes written. */
static u64 BUF, pos; static u8 fileend;
u32 x_fgetc(u64 f) {
  CHECK(f == GLOBASE, "pre: the journal is read");
  if (fileend) return (u32)-1;
  return RD8(BUF + pos++);
}
ENTRY(log_varint) {
  setup_db(); HEAPTOP = HEAPBASE + 64 + 128; BUF = HEAPBASE + 64; pos = 0; fileend = 0;
  u64 v = ND_u64();
  u64 n = f_enc_varint(BUF, v);
  CHECK(n >= 1 && n <= 9, "ens: a number takes one to nine bytes");
  u64 r = f_fget_varint(DB, GLOBASE, HEAPBASE + 128);
  CHECK(r == 0 && RD(HEAPBASE + 128) == v, "ens: a number written to the journal is read back unchanged");
  CHECK(pos == n, "ens: reading a number consumes exactly the bytes written for it");
  COVER("varint");
}
ENTRY(log_varint_end) {
  setup_db(); HEAPTOP = HEAPBASE + 64 + 128; BUF = HEAPBASE + 64; pos = 0; fileend = 1;
  CHECK(f_fget_varint(DB, GLOBASE, HEAPBASE + 128) != 0, "ens: the end of the journal within a number is an error");
  COVER("end");
}
