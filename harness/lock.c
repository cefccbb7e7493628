//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: db_tfqueue_wlock db_tfqueue_wulock db_tfqueue_rlock db_tfqueue_rulock
//@ contracts: lock_queue unlock_queue
//@ loopinv: db_tfqueue_wlock 0 @n
//@ loopinv: db_tfqueue_rlock 0 @n
#include "common.h"
/* Rely/guarantee proof of the queued lock. The shared state is a queue of nodes (any length) and a list of free
 * nodes; it is only changed between taking and releasing the queue mutex. Whenever the mutex is taken the state is
 * arbitrary except for the invariant (what the other threads did); whenever it is released the invariant and the
 * guarantee to the other threads are checked.
 * Node i of the queue in state g: QN(g,i), i < LEN; free node j: FN(g,j), j < NF; position QP and kind KD make all
 * of them different. */
GHOST(QN, u64) GHOST(QP, u64) GHOST(FN, u64) GHOST(FP, u64) GHOST(KD, u8)
#define READC 2
#define WRITEC 4
#define PAD K_SYN_VAR_PADDING
#define TAIL SEG(O_locks + OL_tail)
#define FREEL SEG(O_locks + OL_freelist)
#define QLOCK SEG(RD(SEG(O_locks + OL_queue_lock)))
#define G_(i) (((u64)gen << 48) + (u64)(i))
static u64 ONK, ST, NM, LEN, NF, OWN, MI, OWC, J, K, TMO, PEND, WOKE, QLO; static u8 gen, locked, nsec, inq, eff, waited, casc, real, acq, woke, errn, part, late;
enum { NONE, APPEND, REMOVE };
static u64 fld(u64 n, u64 f) { return RD(SEG(n + f)); }
static u8 isnode(u64 k) { return (k >= 0) & (k < NM); }
static u64 nd(u64 k) { return ST + (k << 7); }  /* SYN_VAR_PADDING is 128 */
static u64 qk(u64 i) { return QN_(G_(i)); }
static u64 fk(u64 i) { return FN_(G_(i)); }
static u64 q(u64 i) { return nd(qk(i)); }
static u64 fr(u64 i) { return nd(fk(i)); }
static u64 wit(void) { u64 x = ND_u64(); ASSUME(x >= DBBASE && x < DBBASE + DBSIZE && (x & 7) == 0); return x; }
static void setup(void) {
  DBSIZE = ND_u64();
  ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 64;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  ST = ND_u64(); NM = ND_u64(); QLO = ND_u64();
  ASSUME(NM >= 1 && NM <= 65536 && (ST & 7) == 0 && PAD == 128 && ST >= HDRSIZE && ST <= DBSIZE && ST + NM * PAD <= DBSIZE);
  ASSUME(QLO >= HDRSIZE && QLO + PAD <= ST && (QLO & 7) == 0);
  DEF(SEG(O_locks + OL_storage), ST); DEF(SEG(O_locks + OL_max_nodes), NM); DEF(SEG(O_locks + OL_queue_lock), QLO);
  gen = locked = nsec = inq = eff = waited = casc = real = acq = woke = errn = 0;
  part = late = 0; OWN = PEND = WOKE = 0; MI = LEN = NF = 0; J = ND_u64(); K = ND_u64(); TMO = 0; SNAP(2);
}
/* what is known of queue node i (valid for i < LEN) */
static void qat(u64 i) {
  u8 in = (i >= 0) & (i < LEN); u64 k = in ? qk(i) : 0, n = nd(k), p = nd(in & (i > 0) ? qk(i - 1) : 0), x = nd(in & (i + 1 < LEN) ? qk(i + 1) : 0);
  ASSUME(isnode(k) & isnode(in & (i > 0) ? qk(i - 1) : 0) & isnode(in & (i + 1 < LEN) ? qk(i + 1) : 0));
  ASSUME(!in | ((QP_(G_(k)) == i) & (KD_(G_(k)) == 1)));
  ASSUME(!in | (fld(n, OQ_prev) == (i > 0 ? p : 0)));
  ASSUME(!in | (fld(n, OQ_next) == (i + 1 < LEN ? x : 0)));
  ASSUME(!in | (((fld(n, OQ_waiting) == 0) | (fld(n, OQ_waiting) == 1)) & ((fld(n, OQ_class) == READC) | (fld(n, OQ_class) == WRITEC))));
  ASSUME(!in | (i > 0) | (fld(n, OQ_waiting) == 0));
  ASSUME(!in | (i == 0) | (fld(n, OQ_waiting) != 0) | ((fld(n, OQ_class) == READC) & (fld(p, OQ_class) == READC) & (fld(p, OQ_waiting) == 0)));
}
static void fat(u64 j) {
  u8 in = (j >= 0) & (j < NF); u64 k = in ? fk(j) : 0, n = nd(k), x = nd(in & (j + 1 < NF) ? fk(j + 1) : 0);
  ASSUME(isnode(k) & isnode(in & (j + 1 < NF) ? fk(j + 1) : 0));
  ASSUME(!in | ((FP_(G_(k)) == j) & (KD_(G_(k)) == 2)));
  ASSUME(!in | (fld(n, OQ_next_cell) == (j + 1 < NF ? x : 0)));
}
static void havocnodes(void) { vx_havoc_range(SEG(ST), SEG(ST + NM * PAD)); vx_havoc_word(TAIL); vx_havoc_word(FREEL); }
/* other threads run: my own node stays queued with its class, and can only stop waiting */
static void interfere(void) {
  u64 w = inq ? fld(OWN, OQ_waiting) : 0;
  havocnodes();
  if (inq) { ASSUME((fld(OWN, OQ_class) == OWC)); ASSUME((fld(OWN, OQ_waiting) == 0) | ((w != 0) & (fld(OWN, OQ_waiting) == 1))); }
}
static void state(void) {
  gen++;
  LEN = ND_u64(); NF = ND_u64();
  ASSUME(LEN >= 0 && LEN <= NM && NF >= 0 && NF <= NM);
  ASSUME(RD(TAIL) == (LEN > 0 ? q(LEN - 1) : 0));
  ASSUME(RD(FREEL) == (NF > 0 ? fr(0) : 0));
  if (late && nsec == 1) { if (FORK(LEN > 0, 2)) ASSUME(isnode(qk(LEN - 1))); fat(0); fat(1); return; }
  qat(LEN - 1); fat(0); fat(1);
  if (inq) { MI = ND_u64(); ASSUME(MI >= 0 && MI < LEN && qk(MI) == ONK); qat(MI); qat(MI - 1); qat(MI + 1); qat(MI + 2); }
  if (part == 1) { qat(J - 1); qat(J); qat(J + 1); qat(J + 2); }
  if (part == 2) { fat(K - 1); fat(K); fat(K + 1); fat(K + 2); }
  if (part == 0) qat(0);
}
void c_lock_queue(u64 db) {
  CHECK(db == DB && !locked, "pre: the queue mutex is taken once"); locked = 1; nsec++;
  interfere(); state();
  SNAP(1);
}
static u64 nq(u64 i) { return eff == APPEND ? (i < LEN ? q(i) : OWN) : eff == REMOVE ? (i < MI ? q(i) : q(i + 1)) : q(i); }
static u64 nf(u64 i) { return eff == APPEND ? fr(i + 1) : eff == REMOVE ? (i == 0 ? OWN : fr(i - 1)) : fr(i); }
void c_unlock_queue(u64 db) {
  CHECK(db == DB && locked, "pre: the queue mutex is released by its holder"); locked = 0;
  eff = NONE;
  if (!inq) { if (FORK((NF > 0) & (RD(FREEL) != fr(0)), 2)) { eff = APPEND; ONK = fk(0); OWN = nd(ONK); inq = 1; OWC = fld(OWN, OQ_class); } }
  else if (FORK(RD(FREEL) == OWN, 2)) { eff = REMOVE; inq = 0; }
  if (late && nsec == 1) { interfere(); SNAP(2); return; }
  u64 L = eff == APPEND ? LEN + 1 : eff == REMOVE ? LEN - 1 : LEN, F = eff == APPEND ? NF - 1 : eff == REMOVE ? NF + 1 : NF;
  u64 j = J, x = wit();
  if (part == 0) {
  CHECK(RD(TAIL) == (L > 0 ? nq(L - 1) : 0), "inv: the tail is the last node of the queue");
  CHECK(RD(FREEL) == (F > 0 ? nf(0) : 0) , "inv: exactly the node that left the queue is free now, or the first free one was taken");
  CHECK((x >= SEG(ST) && x < SEG(ST + NM * PAD)) || x == TAIL || x == FREEL || RD(x) == RK(1, x), "frame: nothing else is changed under the queue mutex");
  CHECK(NF == 0 || (eff != NONE) || nsec > 1, "ens: a lock is queued when there is a free node");
  }
  if (part == 2) if (FORK((K >= 0) & (K < F), 2)) CHECK(fld(nf(K), OQ_next_cell) == (K + 1 < F ? nf(K + 1) : 0), "inv: the free nodes form a list");
  if (part == 1) if (FORK((j >= 0) & (j < L), 2)) {
    u8 c1 = eff == REMOVE ? FORK(j < MI, 2) + 2 * FORK(j == MI, 2) : 0, c2 = FORK(j > 0, 2), c3 = FORK(j + 1 < L, 2);
    u64 n = eff == REMOVE ? (c1 == 1 ? q(j) : q(j + 1)) : eff == APPEND && !c3 ? OWN : q(j);
    u64 p = !c2 ? ST : eff == REMOVE ? (c1 != 0 ? q(j - 1) : q(j)) : q(j - 1);
    CHECK(fld(n, OQ_prev) == (c2 ? p : 0) && fld(n, OQ_next) == (c3 ? nq(j + 1) : 0), "inv: the queue is linked both ways");
    u64 w = fld(n, OQ_waiting), c = fld(n, OQ_class);
    CHECK((w == 0 || w == 1) && (c == READC || c == WRITEC), "inv: a queued node is a waiting or granted reader or writer");
    CHECK(c2 || w == 0, "inv: the head of the queue is never left waiting");
    CHECK(!c2 || w != 0 || (c == READC && fld(p, OQ_class) == READC && fld(p, OQ_waiting) == 0), "inv: only readers behind granted readers are granted next to the head");
    if (eff != APPEND || c3) {
      u64 w1 = RK(1, SEG(n + OQ_waiting));
      CHECK(c == RK(1, SEG(n + OQ_class)), "guar: nobody's kind of lock changes");
      CHECK(w == w1 || w == 0, "guar: a lock that is held is not taken away");
      if (n != OWN && w != w1) { PEND = n; }
    }
  }
  u64 m = inq & (MI + 1 < LEN) ? q(MI + 1) : ST;
  casc = inq && eff == NONE && !(MI + 1 < LEN && fld(m, OQ_class) == READC && fld(m, OQ_waiting) != 0);
  interfere(); SNAP(2);
}
/* nothing is written outside the mutex */
static void quiet(void) { u64 x = wit(); CHECK(!locked && (nsec == 0 || RD(x) == RK(2, x)), "frame: the queue is only changed under its mutex"); }
u64 x_syscall_n5(u64 nr, u64 a, u64 op, u64 val, u64 ts) {
  CHECK(nr == K_SYS_futex && (u32)op == K_FUTEX_WAIT && (u32)val == 1 && inq && a == SEG(OWN + OQ_waiting), "pre: it waits until its own node stops waiting");
  CHECK(RD(ts) == (u64)((s64)TMO / 1000) && RD(ts + 8) == (u64)(((s64)TMO % 1000) * 1000000), "pre: it waits for as long as it was told");
  quiet(); waited = 1;
  interfere(); SNAP(2);
  if (FORK(ND_u8(), 2)) return 0;
  errn = 1; u32 e = ND_u32(); WR32(HEAPBASE + 32, e); return -1;
}
u64 x_syscall_n4(u64 nr, u64 a, u64 op, u64 val) {
  CHECK(nr == K_SYS_futex && (u32)op == K_FUTEX_WAKE && (s32)val >= 1 && !locked, "pre: a waiting thread is woken");
  woke = 1; WOKE = a; return 1;
}
u64 x___errno_location(void) { return HEAPBASE + 32; }
static void LA(void) { quiet(); CHECK(inq, "loop invariant: it waits with its node queued"); }
static void LH(void) { if (!late) vx_assume(0); havocnodes(); waited = 1; casc = 0; SNAP(2); }
static void LS(void) { ASSUME((fld(OWN, OQ_class) == OWC) & ((fld(OWN, OQ_waiting) == 0) | (fld(OWN, OQ_waiting) == 1))); }
void LI_ASSERT_db_tfqueue_wlock_0(u64 n) { LA(); }
void LI_HAVOC_db_tfqueue_wlock_0(u64 n) { LH(); }
void LI_ASSUME_db_tfqueue_wlock_0(u64 n) { LS(); }
void LI_ASSERT_db_tfqueue_rlock_0(u64 n) { LA(); }
void LI_HAVOC_db_tfqueue_rlock_0(u64 n) { LH(); }
void LI_ASSUME_db_tfqueue_rlock_0(u64 n) { LS(); }
static void done(void) {
  CHECK(PEND == 0 || (woke && WOKE == SEG(PEND + OQ_waiting)), "ens: a thread whose lock is granted is woken");
}
static void acquired(u64 r, u64 cls) {
  quiet();
  if (r != 0) {
    CHECK(inq && r == OWN && OWC == cls, "ens: a lock that is handed out is in the queue with its kind");
    CHECK(fld(OWN, OQ_waiting) == 0, "ens: a lock is handed out only when it is granted");
    if (cls == READC && waited) { CHECK(casc, "ens: a reader lets in the reader behind it"); }
    if (waited) { COVER("granted later"); } else { COVER("granted at once"); }
  } else {
    CHECK(!inq, "ens: a lock that is not obtained leaves nothing in the queue");
    if (waited) { COVER("timed out"); } else { COVER("no node"); }
  }
  done();
}
ENTRY(lock_write) { setup(); part = FORK(ND_u8(), 3); late = FORK(ND_u8(), 2); TMO = ND_u64(); acquired(f_db_tfqueue_wlock(DB, TMO), WRITEC); }
static void rd(u8 p, u8 l) { setup(); part = p; late = l; TMO = ND_u64(); acquired(f_db_tfqueue_rlock(DB, TMO), READC); }
ENTRY(lock_read) { rd(FORK(ND_u8(), 3), 0); }
ENTRY(lock_read_end) { rd(0, 1); }
ENTRY(lock_read_queue) { rd(1, 1); }
ENTRY(lock_read_free) { rd(2, 1); }
static void holder(u64 cls) { ONK = ND_u64(); ASSUME(isnode(ONK)); OWN = nd(ONK); OWC = cls; inq = 1; ASSUME((fld(OWN, OQ_class) == cls) & (fld(OWN, OQ_waiting) == 0)); }
static void released(u64 r) {
  quiet();
  CHECK(r != 0 && !inq && nsec == 1, "ens: a released lock is no longer in the queue");
  done(); COVER("released");
  if (woke) { COVER("next one woken"); }
}
ENTRY(unlock_write) { setup(); part = FORK(ND_u8(), 3); holder(WRITEC); released(f_db_tfqueue_wulock(DB, OWN)); }
ENTRY(unlock_read) { setup(); part = FORK(ND_u8(), 3); holder(READC); released(f_db_tfqueue_rulock(DB, OWN)); }
/* granted nodes: a writer is granted only alone. By induction on j: a granted node j > 0 implies that the head is a reader */
ENTRY(lock_excl) {
  setup(); part = 1; havocnodes(); state(); qat(0);
  u64 j = J; ASSUME(j > 0 && j < LEN); ASSUME(fld(q(j), OQ_waiting) == 0);
  u8 hyp = j - 1 == 0 || fld(q(j - 1), OQ_waiting) != 0 || fld(q(0), OQ_class) == READC;  /* induction hypothesis for j-1 */
  ASSUME(hyp);
  CHECK(fld(q(j), OQ_class) == READC, "lemma: next to another lock only a reader is granted");
  CHECK(fld(q(0), OQ_class) == READC, "lemma: when another lock is granted the head of the queue is a reader");
  COVER("exclusion");
}
