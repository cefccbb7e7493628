#ifndef COMMON_H
#define COMMON_H
#include "mm.h"
#include "offs.h"
#include GEN_H
#define ENTRY(n) void n(void)
#define DB HEAPBASE               /* address of the database handle */
#define SEG(o) (DBBASE + (u64)(o))   /* offset -> address */
#define S(x) ((s64)(x))
#define IMPL(a,b) (!(a) || (b))
/* arbitrary segment contents, arbitrary segment size up to 2^40 bytes, valid handle */
static inline void setup_db(void) {
  u64 n = ND_u64();
  ASSUME(n >= HDRSIZE + 4096 && n <= ((u64)1 << 40) && (n & 7) == 0);
  DBSIZE = n;
  HEAPTOP = HEAPBASE + 64;
  WR(HEAPBASE, DBBASE);             /* handle->db */
  WR(HEAPBASE + 8, ND_u64());       /* handle->logdata */
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
}
#endif
