//@ engine: vx
//@ vx: {"autocut":true,"facts":[]}
//@ roots: recover_journal
//@ contracts: fget_varint recover_encode translate_offset translate_encoded add_tran_offset add_tran_enc wg_create_record wg_delete_record wg_set_field
//@ loopinv: recover_journal 0 
#include "common.h"
/* Replaying: every entry of the file is turned into exactly one call of the operation it describes, with the
   numbers of the entry, translated; the first thing that cannot be done ends the replay with an error. */
enum { CRE, DEL, ENC, SET, META, BAD };
#define FILEP (HEAPBASE + 5000)
#define TBLP (HEAPBASE + 5008)
static u64 V0, V1, V2, TY, TR, TE, NE, REC, MADD; static u8 cls, ncmd, nv, nop, nadd, ntr, nte, eof, err, fail, ioerr, metaw;
static u64 off(u64 o) { ASSUME(o >= HDRSIZE && o <= DBSIZE - 64 && (o & 7) == 0); return o; }
static u64 big(void) { u64 v = ND_u64(); vx_inrange(v); return v; }
static void fresh(void) {
  ncmd = nv = nop = nadd = ntr = nte = eof = err = fail = ioerr = 0; cls = BAD;
  V0 = big(); V1 = big(); V2 = big(); NE = big(); TE = big(); TY = 0;
  TR = off(ND_u64()); REC = DBBASE + off(ND_u64());
}
u32 x_fgetc(u64 f) {
  CHECK(f == FILEP && !ncmd, "pre: one entry is read at a time"); ncmd++;
  u8 k = FORK(ND_u8(), 8);
  if (k == 6) { eof = 1; return (u32)-1; }
  if (k == 7) { err = 1; return (u32)-1; }
  cls = k;
  u64 b = ND_u64(); ASSUME(b >= 0 && b < 32);
  TY = b;
  if (cls == CRE) return (u32)(K_WG_JOURNAL_ENTRY_CRE + b);
  if (cls == DEL) return (u32)(K_WG_JOURNAL_ENTRY_DEL + b);
  if (cls == SET) return (u32)(K_WG_JOURNAL_ENTRY_SET + b);
  if (cls == META) return (u32)(K_WG_JOURNAL_ENTRY_META + b);
  if (cls == ENC) return (u32)(K_WG_JOURNAL_ENTRY_ENC + b);
  u8 o = FORK(ND_u8(), 3);
  return (u32)((o == 0 ? 0x60 : o == 1 ? 0xa0 : 0xe0) + b);
}
u32 x_feof(u64 f) { CHECK(f == FILEP, "pre: the stream is asked"); return eof; }
static u8 want(void) { return cls == CRE ? 2 : cls == DEL ? 1 : cls == ENC ? 1 : cls == SET ? 3 : cls == META ? 2 : 0; }
u32 c_fget_varint(u64 db, u64 f, u64 pv) {
  CHECK(f == FILEP && ncmd && !eof && !err && !ioerr && (!fail || cls == ENC) && nv < want() && (cls == ENC ? nop : !nop), "pre: exactly the numbers of the entry are read");
  ioerr = FORK(ND_u8(), 2);
  if (ioerr) return (u32)-1;
  if (nv == 0) WR(pv, V0);
  if (nv == 1) WR(pv, V1);
  if (nv == 2) WR(pv, V2);
  nv++; return 0;
}
u8 ready(u64 db) { return db == DB && nv == want() && !ioerr && !nop && !fail; }
u64 c_translate_offset(u64 db, u64 t, u64 o) {
  CHECK(db == DB && t == TBLP && nv == want() && !ioerr && !ntr && ((cls == DEL && o == V0) || (cls == SET && o == V0) || (cls == META && o == V0)), "pre: the record's offset is translated"); ntr++;
  return TR;
}
u64 c_translate_encoded(u64 db, u64 t, u64 e) { CHECK(db == DB && t == TBLP && cls == SET && nv == 3 && !ioerr && e == V2 && !nte, "pre: the value is translated"); nte++; return TE; }
u64 c_recover_encode(u64 db, u64 f, u64 ty) {
  CHECK(db == DB && f == FILEP && cls == ENC && !nv && !nop && ty == TY, "pre: a value is encoded with the type of the entry"); nop++;
  vx_havoc_range(SEG(HDRSIZE), DBBASE + DBSIZE);
  if (FORK(NE == K_WG_ILLEGAL, 2)) { fail = 1; NE = K_WG_ILLEGAL; }
  return NE;
}
u64 c_wg_create_record(u64 db, u64 len) {
  CHECK(ready(db) && cls == CRE && len == V0, "pre: a record of the given length is created"); nop++;
  vx_havoc_range(SEG(HDRSIZE), DBBASE + DBSIZE);
  if (FORK(ND_u8(), 2)) { fail = 1; return 0; }
  return REC;
}
u64 c_add_tran_offset(u64 db, u64 t, u64 o, u64 n) {
  CHECK(db == DB && t == TBLP && cls == CRE && nop && !fail && o == V1 && n == REC - DBBASE && !nadd, "pre: the place of the new record is recorded"); nadd++;
  if (FORK(ND_u8(), 2)) { ioerr = 1; return -1; }
  return 0;
}
u64 c_add_tran_enc(u64 db, u64 t, u64 o, u64 n) {
  CHECK(db == DB && t == TBLP && cls == ENC && nop && !fail && nv == 1 && o == V0 && n == NE && !nadd, "pre: the place of the new value is recorded"); nadd++;
  if (FORK(ND_u8(), 2)) { ioerr = 1; return -1; }
  return 0;
}
u64 c_wg_delete_record(u64 db, u64 rec) {
  CHECK(ready(db) && cls == DEL && rec == DBBASE + TR && ntr, "pre: the translated record is deleted"); nop++;
  vx_havoc_range(SEG(HDRSIZE), DBBASE + DBSIZE);
  u8 k = FORK(ND_u8(), 3);
  if (k == 0) return 0;
  if (k == 1) return -1;
  fail = 1; u64 r = big(); ASSUME(r < -1); return r;
}
u64 c_wg_set_field(u64 db, u64 rec, u64 col, u64 e) {
  CHECK(ready(db) && cls == SET && rec == DBBASE + TR && ntr && nte && col == V1 && e == TE, "pre: the field of the translated record is set to the translated value"); nop++;
  vx_havoc_range(SEG(HDRSIZE), DBBASE + DBSIZE);
  if (FORK(ND_u8(), 2)) { fail = 1; u64 r = big(); ASSUME(r != 0); return r; }
  return 0;
}
static u64 XW;
static u8 started;
static void frame(u8 done) {
  u8 meta = cls == META && done;
  if (nop && cls != META) CHECK(RD(XW) == RK(1, XW) || XW >= SEG(HDRSIZE), "ens: only the operation changes the database");
  else if (meta) { CHECK(RD(XW) == (XW == DBBASE + TR + 8 * K_RECORD_META_POS ? V1 : RK(1, XW)), "ens: the meta word of the translated record is set"); }
  else CHECK(RD(XW) == RK(1, XW), "ens: nothing else changes");
}
void LI_ASSERT_recover_journal_0(void) {
  if (!started) return;
  CHECK(ncmd == 1 && !eof && !err && !ioerr && cls != BAD, "loop invariant: an entry was read");
  CHECK(nv == want(), "loop invariant: the whole entry was read");
  if (cls == META) CHECK(ntr == 1, "loop invariant: the record is found by translation");
  else CHECK(nop == 1, "loop invariant: exactly one operation is made of an entry");
  if (cls == CRE && V1 != 0) CHECK(!fail && nadd == 1, "loop invariant: the place of the new record is known");
  if (cls == ENC && V0 != K_WG_ILLEGAL) CHECK(!fail && nadd == 1, "loop invariant: the place of the new value is known");
  if (cls == DEL || cls == SET) CHECK(!fail, "loop invariant: the operation succeeded");
  frame(1);
}
void LI_HAVOC_recover_journal_0(void) { vx_havoc_range(DBBASE, DBBASE + DBSIZE); vx_havoc_range(STKBASE, STKBASE + STKSIZE); ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK); fresh(); started = 1; }
void LI_ASSUME_recover_journal_0(void) { XW = DBBASE + ND_u64(); ASSUME(XW >= DBBASE && XW < DBBASE + DBSIZE && (XW & 7) == 0); vx_inrange(RD(XW)); SNAP(1); }
ENTRY(log_replay) {
  DBSIZE = ND_u64(); ASSUME(DBSIZE >= HDRSIZE + 4096 && DBSIZE <= ((u64)1 << 40) && (DBSIZE & 7) == 0);
  HEAPTOP = HEAPBASE + 8192;
  DEF(HEAPBASE, DBBASE);
  ASSUME(RD32(DBBASE) == K_MEMSEGMENT_MAGIC_MARK);
  started = 0; fresh();
  SNAPSHOT(M0);
  u64 r = f_recover_journal(DB, FILEP, TBLP);
  CHECK(ncmd == 1, "ens: replay ends only at an entry");
  CHECK((r == 0) == (eof != 0), "ens: success is reported exactly at the end of the file");
  if (eof || err || cls == BAD) CHECK(!nop && !nv, "ens: nothing is made of what is not an entry");
  if (!eof && !err && cls != BAD) {
    CHECK(ioerr || fail, "ens: replay stops only when an entry cannot be read or repeated");
    if (cls == CRE && fail) CHECK(V1 != 0, "ens: a record that was not created then may be impossible now");
    if (cls == ENC && fail && !ioerr) CHECK(V0 != K_WG_ILLEGAL, "ens: a value that was not encoded then may be impossible now");
  }
  frame(0);
  if (eof) { COVER("end"); } else if (cls == BAD) { COVER("bad"); } else { COVER("stopped"); }
}
