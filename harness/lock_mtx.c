//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: lock_queue unlock_queue wg_init_locks wg_start_write wg_end_write wg_start_read wg_end_read
//@ contracts: wg_compare_and_swap db_tfqueue_wlock db_tfqueue_wulock db_tfqueue_rlock db_tfqueue_rulock
//@ loopinv: lock_queue 0 @n
//@ loopinv: lock_queue 1 @n
//@ loopinv: wg_init_locks 0 @n,tmp
#include "common.h"
/* The queue mutex (a spin lock on one word), the initial state of the queue, and the public lock calls. */
#define PAD K_SYN_VAR_PADDING
static u64 ST, NM, QLO, K, RES, ARG, LP; static u8 acq, ncall, what, inl;
#define QLOCK SEG(QLO)
static u64 wit(void) { u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); return x; }
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK || RD32(DBBASE) == K_MEMSEGMENT_MAGIC_INIT);
  ST = ND_u64(); NM = ND_u64(); QLO = ND_u64(); K = ND_u64();
  ASSUME(NM >= 1 && NM <= 65536 && (ST & (PAD - 1)) == 0 && ST >= HDRSIZE && ST <= DBSIZE && ST + NM * PAD <= DBSIZE);
  ASSUME(QLO >= HDRSIZE && QLO + PAD <= ST && (QLO & 7) == 0);
  DEF(SEG(O_locks + OL_storage), ST); DEF(SEG(O_locks + OL_max_nodes), NM); DEF(SEG(O_locks + OL_queue_lock), QLO);
  acq = ncall = what = inl = 0; LP = 0;
}
u64 c_wg_compare_and_swap(u64 p, u64 o, u64 n) {
  CHECK(p == QLOCK && o == 0 && n == 1 && !acq, "pre: the mutex word is changed from free to taken, atomically and once");
  if (FORK(ND_u8(), 2)) { acq = 1; return 1; }
  return 0;
}
u32 x_nanosleep(u64 a, u64 b) { return ND_u32(); }
void LI_ASSERT_lock_queue_0(u64 n) { CHECK(!acq, "loop invariant: it tries until it has the mutex"); }
void LI_HAVOC_lock_queue_0(u64 n) { vx_havoc_word(QLOCK); SNAP(0); }
void LI_ASSUME_lock_queue_0(u64 n) { }
void LI_ASSERT_lock_queue_1(u64 n) { CHECK(!acq, "loop invariant: it tries until it has the mutex"); }
void LI_HAVOC_lock_queue_1(u64 n) { vx_havoc_word(QLOCK); SNAP(0); }
void LI_ASSUME_lock_queue_1(u64 n) { }
ENTRY(mtx_lock) {
  setup(); SNAPSHOT(M0); u64 x = wit();
  f_lock_queue(DB);
  CHECK(acq, "ens: whoever passes holds the mutex");
  CHECK(RD(x) == R0(x), "frame: nothing but the mutex word is changed");
  COVER("mutex taken");
}
ENTRY(mtx_unlock) {
  setup(); SNAPSHOT(M0); u64 x = wit();
  f_unlock_queue(DB);
  CHECK(RD(QLOCK) == 0, "ens: the mutex is free");
  CHECK(RD(x) == R0(x) || x == QLOCK, "frame: nothing but the mutex word is changed");
  COVER("mutex released");
}
/* nodes 0 .. i-1 are linked to the next one */
static u64 nd(u64 i) { return ST + i * PAD; }
static u8 last;
void LI_ASSERT_wg_init_locks_0(u64 i, u64 tmp) {
  u64 x = wit();
  CHECK(tmp == (i > 0 ? SEG(nd(i - 1)) : 0), "loop invariant: the last node passed");
  CHECK(i >= 0 && i <= NM, "loop invariant: only the nodes there are");
  CHECK(!(K >= 0 && K < i) || RD(SEG(nd(K) + OQ_next_cell)) == nd(K + 1), "loop invariant: nodes before this one are linked to the next");
  CHECK(RD(x) == R0(x) || (x >= SEG(ST) && x < SEG(ST + NM * PAD)) || (x >= SEG(O_locks) && x < SEG(O_locks + SZ_locks)), "loop invariant: only the nodes change");
}
void LI_HAVOC_wg_init_locks_0(u64 i, u64 tmp) { inl = 1; vx_havoc_range(SEG(ST), SEG(ST + NM * PAD)); LP = i; }
void LI_ASSUME_wg_init_locks_0(u64 i, u64 tmp) {
  ASSUME(tmp == (i > 0 ? SEG(nd(i - 1)) : 0)); ASSUME(i >= 0 && i <= NM);
  ASSUME(!(K < i) | (RD(SEG(nd(K) + OQ_next_cell)) == nd(K + 1)));
}
ENTRY(lock_init) {
  setup(); u64 x = wit(); ASSUME(K >= 0 && K < NM); SNAPSHOT(M0);
  u64 r = f_wg_init_locks(DB);
  CHECK(r == 0, "ens: the locks are initialised");
  CHECK(RD(SEG(O_locks + OL_tail)) == 0 && RD(QLOCK) == 0, "ens: the queue is empty and the mutex free");
  CHECK(RD(SEG(O_locks + OL_freelist)) == ST, "ens: the first node is free");
  CHECK(RD(SEG(nd(K) + OQ_next_cell)) == (K + 1 < NM ? nd(K + 1) : 0), "ens: all nodes are free");
  CHECK(RD(x) == R0(x) || (x >= SEG(ST) && x < SEG(ST + NM * PAD)) || x == QLOCK || x == SEG(O_locks + OL_tail) || x == SEG(O_locks + OL_freelist), "frame: nothing else changes");
  COVER("initialised");
}
/* ---- public calls */
static u64 call(u8 w, u64 db, u64 a) { CHECK(db == DB && !ncall, "pre: the lock of this database is used once"); ncall = 1; what = w; ARG = a; RES = ND_u64(); return RES; }
u64 c_db_tfqueue_wlock(u64 db, u64 t) { return call(1, db, t); }
u64 c_db_tfqueue_wulock(u64 db, u64 l) { return call(2, db, l); }
u64 c_db_tfqueue_rlock(u64 db, u64 t) { return call(3, db, t); }
u64 c_db_tfqueue_rulock(u64 db, u64 l) { return call(4, db, l); }
ENTRY(lock_api) {
  setup(); u64 l = ND_u64(), r; u8 w = FORK(ND_u8(), 4);
  if (w == 0) { r = f_wg_start_write(DB); CHECK(ncall && what == 1 && ARG == K_DEFAULT_LOCK_TIMEOUT && r == RES, "ens: a write transaction takes the exclusive lock"); }
  else if (w == 1) { r = f_wg_end_write(DB, l); CHECK(ncall && what == 2 && ARG == l && r == RES, "ens: the end of a write transaction releases its lock"); }
  else if (w == 2) { r = f_wg_start_read(DB); CHECK(ncall && what == 3 && ARG == K_DEFAULT_LOCK_TIMEOUT && r == RES, "ens: a read transaction takes the shared lock"); }
  else { r = f_wg_end_read(DB, l); CHECK(ncall && what == 4 && ARG == l && r == RES, "ens: the end of a read transaction releases its lock"); }
  COVER("transaction");
}
