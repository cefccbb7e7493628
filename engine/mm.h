/* Memory model and assertion vocabulary shared by translated code and harnesses. */
#ifndef MM_H
#define MM_H
#ifdef VX
/* words are mathematical integers in the path-wise back end */
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef long u64;
#else
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
#endif
typedef signed char s8; typedef short s16; typedef int s32; typedef long s64;
typedef unsigned __int128 u128;
#define DBBASE   ((u64)0x0000100000000000L)
#define STKBASE  ((u64)0x0000300000000000L)
#define STKSIZE  ((u64)0x0000000010000000L)
#define HEAPBASE ((u64)0x0000400000000000L)
#define GLOBASE  ((u64)0x0000200000000000L)
#if defined(VX) /* path-wise back end: the intrinsics are interpreted by vx.py */
u8 vx_nd8(void); u16 vx_nd16(void); u32 vx_nd32(void); u64 vx_nd64(void);
void vx_assume(u64); void vx_check(u64, const char *); void vx_cover(const char *);
u64 vx_rd(u64); u32 vx_rd32(u64); u8 vx_rd8(u64); u16 vx_rd16(u64); u64 vx_rk(u64, u64); u32 vx_rk32(u64, u64); u8 vx_rk8(u64, u64);
void vx_wr(u64, u64); void vx_wr32(u64, u32); void vx_wr8(u64, u8); void vx_snapshot(u64);
u64 vx_fork(u64, u64); u64 vx_forkm(u64, u64); void vx_def(u64, u64);
#define FORK(x,n) vx_fork(x,n)   /* case split on the value of x in 0..n-1 */
#define FORKM(x,m) vx_forkm(x,m) /* ... over the values in the bit mask m; assumes x is one of them */
#define DEF(a,v) vx_def(a,v)     /* assume the initial memory word at a is v */
u64 vx_stkend(u64); /* end of the local variable of the code under contract that contains the address, else 0 */
void vx_inrange(u64); /* its argument is a 64-bit number */
void vx_havoc_all(void); void vx_havoc_range(u64, u64); void vx_havoc_word(u64);
#define ND_u8() vx_nd8()
#define ND_u16() vx_nd16()
#define ND_u32() vx_nd32()
#define ND_u64() vx_nd64()
#define ASSUME(c) vx_assume((c) != 0)
#define CHECK(c, m) vx_check((c) != 0, m)
#define COVER(m) vx_cover(m)
#define SNAPSHOT(dst) vx_snapshot(0)
#define SNAP(k) vx_snapshot(k)
#define RK(k,a) vx_rk(k,a)
#define RK8(k,a) vx_rk8(k,a)
#define HAVOC_MARK()
#define RD(a) vx_rd(a)
#define RD32(a) vx_rd32(a)
#define RD16(a) vx_rd16(a)
#define RD8(a) vx_rd8(a)
#define R0(a) vx_rk(0,a)
#define R032(a) vx_rk32(0,a)
#define R08(a) vx_rk8(0,a)
#define WR(a,v) vx_wr(a,v)
#define WR32(a,v) vx_wr32(a,v)
#define WR8(a,v) vx_wr8(a,v)
#define GHOST(n,t) t vx_ghost_##n(u64); static inline t n##_(u64 i) { return vx_ghost_##n(i); }
u64 DBSIZE, HEAPTOP;
static inline void init_globals(void) {}
#elif !defined(REPLAY)
u8 nondet_u8(void); u16 nondet_u16(void); u32 nondet_u32(void); u64 nondet_u64(void); double nondet_double(void);
#define ND_u8() nondet_u8()
#define ND_u16() nondet_u16()
#define ND_u32() nondet_u32()
#define ND_u64() nondet_u64()
#define ND_double() nondet_double()
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, m) __CPROVER_assert(c, m)
#define CAND_ASSERT(c, m) __CPROVER_assert(c, m)
#define COVER(m) __CPROVER_assert(0, "COVER " m)
extern u64 MEM[__CPROVER_constant_infinity_uint];
extern u64 M0[__CPROVER_constant_infinity_uint];
static u64 SP = STKBASE;
u64 DBSIZE; u64 HEAPTOP;
#define SNAPSHOT(dst) __CPROVER_array_copy(dst, MEM)
#ifndef AXIOM
#define AXIOM(i)
#endif
#ifndef MOK_EXTRA
#define MOK_EXTRA(a,n) 0
#endif
#define MOK(a,n) (((a) >= DBBASE && (a) <= DBBASE + DBSIZE - (n)) || ((a) >= STKBASE && (a) < STKBASE + STKSIZE) \
   || ((a) >= HEAPBASE && (a) + (n) <= HEAPTOP) || ((a) >= GLOBASE && (a) < GLOBASE + 0x1000000UL) || MOK_EXTRA(a,n))
#ifdef NO_MEMCHECK
#define MEMCHK(a,n,w)
#else
#define MEMCHK(a,n,w) __CPROVER_assert(MOK(a,n) && ((a) & ((n)-1)) == 0, "mem: access inside live memory and aligned at " w)
#endif
static inline double BITS2D(u64 b) { union { u64 u; double d; } x; x.u = b; return x.d; }
static inline u64 D2BITS(double d) { union { u64 u; double d; } x; x.d = d; return x.u; }
#ifdef TRACE
u64 TR_A, TR_V, TR0_A, TR0_V, TW_A; u8 TR_HAVOC;
#define TRR(a) do { u64 _q = (a); TR_A = _q; TR_V = MEM[_q]; } while(0)
#define TRR0(a) do { u64 _q = (a); TR0_A = _q; TR0_V = M0[_q]; } while(0)
#define TRW(a) do { TW_A = (a); } while(0)
#define HAVOC_MARK() do { TR_HAVOC = 1; } while(0)
#else
#define TRR(a)
#define TRR0(a)
#define TRW(a)
#define HAVOC_MARK()
#endif
#define LD64(d,a,w) do { u64 _a = (a); MEMCHK(_a,8,w); AXIOM(_a); TRR(_a); d = MEM[_a]; } while(0)
#define LD32(d,a,w) do { u64 _a = (a); MEMCHK(_a,4,w); AXIOM(_a&~7UL); TRR(_a&~7UL); d = (u32)(MEM[_a&~7UL] >> ((_a&4)*8)); } while(0)
#define LD16(d,a,w) do { u64 _a = (a); MEMCHK(_a,2,w); AXIOM(_a&~7UL); TRR(_a&~7UL); d = (u16)(MEM[_a&~7UL] >> ((_a&6)*8)); } while(0)
#define LD8(d,a,w) do { u64 _a = (a); MEMCHK(_a,1,w); AXIOM(_a&~7UL); TRR(_a&~7UL); d = (u8)(MEM[_a&~7UL] >> ((_a&7)*8)); } while(0)
#define LDD(d,a,w) do { u64 _a = (a); MEMCHK(_a,8,w); AXIOM(_a); TRR(_a); d = BITS2D(MEM[_a]); } while(0)
#define ST64(a,v,w) do { u64 _a = (a); MEMCHK(_a,8,w); TRW(_a); MEM[_a] = (v); } while(0)
#define ST32(a,v,w) do { u64 _a = (a); MEMCHK(_a,4,w); u64 _s = (_a&4)*8; AXIOM(_a&~7UL); TRR(_a&~7UL); TRW(_a&~7UL); MEM[_a&~7UL] = (MEM[_a&~7UL] & ~(0xffffffffUL<<_s)) | ((u64)(u32)(v) << _s); } while(0)
#define ST16(a,v,w) do { u64 _a = (a); MEMCHK(_a,2,w); u64 _s = (_a&6)*8; AXIOM(_a&~7UL); TRR(_a&~7UL); TRW(_a&~7UL); MEM[_a&~7UL] = (MEM[_a&~7UL] & ~(0xffffUL<<_s)) | ((u64)(u16)(v) << _s); } while(0)
#define ST8(a,v,w) do { u64 _a = (a); MEMCHK(_a,1,w); u64 _s = (_a&7)*8; AXIOM(_a&~7UL); TRR(_a&~7UL); TRW(_a&~7UL); MEM[_a&~7UL] = (MEM[_a&~7UL] & ~(0xffUL<<_s)) | ((u64)(u8)(v) << _s); } while(0)
#define STD(a,v,w) do { u64 _a = (a); MEMCHK(_a,8,w); TRW(_a); MEM[_a] = D2BITS(v); } while(0)
#define ALLOCA(d,n) do { d = SP; SP += (n); } while(0)
#define ALLOCA_VAR(d,n,c) do { d = SP; SP += 65536; } while(0)
#define NSW_add(w,a,b,l) __CPROVER_assert(!__CPROVER_overflow_plus((s##w)a,(s##w)b), "no signed overflow in + at " l)
#define NSW_sub(w,a,b,l) __CPROVER_assert(!__CPROVER_overflow_minus((s##w)a,(s##w)b), "no signed overflow in - at " l)
#define NSW_mul(w,a,b,l) __CPROVER_assert(!__CPROVER_overflow_mult((s##w)a,(s##w)b), "no signed overflow in * at " l)
#ifdef CHECK_F2S
#define F2SCHK(d,lo,hi) __CPROVER_assert((d) > (lo) && (d) < (hi), "float to integer conversion in range")
#else
#define F2SCHK(d,lo,hi)
#endif
static inline u64 F2S64(double d) { F2SCHK(d,-9223372036854777856.0,9223372036854775808.0); return (u64)(s64)d; }
static inline u32 F2S32(double d) { F2SCHK(d,-2147483649.0,2147483648.0); return (u32)(s32)d; }
#ifndef FP_MUL
#define FP_MUL(a,b) ((a)*(b))
#endif
#ifndef FP_DIV
#define FP_DIV(a,b) ((a)/(b))
#endif
#ifndef SDIV64
#define SDIV64(a,b) ((a)/(b))
#endif
#define FP_ADD(a,b) ((a)+(b))
#define FP_SUB(a,b) ((a)-(b))
#define SMALLD(d) ((d) > -2251799813685248.0 && (d) < 2251799813685248.0)
static inline double mm_fabs(double d) { return BITS2D(D2BITS(d) & 0x7fffffffffffffffUL); }
static inline double mm_trunc(double d) { return SMALLD(d) ? (double)(s64)d : d; }
static inline double mm_floor(double d) { double t = mm_trunc(d); return t > d ? t - 1.0 : t; }
static inline double mm_ceil(double d) { double t = mm_trunc(d); return t < d ? t + 1.0 : t; }
static inline double mm_round(double d) { double t = mm_trunc(d); return d - t >= 0.5 ? t + 1.0 : t - d >= 0.5 ? t - 1.0 : t; }
/* harness side accessors (no obligation attached) */
static inline u64 RD(u64 a) { AXIOM(a); TRR(a); return MEM[a]; }
static inline u32 RD32(u64 a) { AXIOM(a&~7UL); TRR(a&~7UL); return (u32)(MEM[a&~7UL] >> ((a&4)*8)); }
static inline u8 RD8(u64 a) { AXIOM(a&~7UL); TRR(a&~7UL); return (u8)(MEM[a&~7UL] >> ((a&7)*8)); }
static inline u64 R0(u64 a) { AXIOM(a); TRR0(a); return M0[a]; }
static inline u8 R08(u64 a) { AXIOM(a&~7UL); TRR0(a&~7UL); return (u8)(M0[a&~7UL] >> ((a&7)*8)); }
static inline u32 R032(u64 a) { AXIOM(a&~7UL); TRR0(a&~7UL); return (u32)(M0[a&~7UL] >> ((a&4)*8)); }
static inline void WR(u64 a, u64 v) { TRW(a); MEM[a] = v; }
static inline void WR32(u64 a, u32 v) { u64 s = (a&4)*8; TRR(a&~7UL); TRW(a&~7UL); MEM[a&~7UL] = (MEM[a&~7UL] & ~(0xffffffffUL<<s)) | ((u64)v << s); }
static inline void WR8(u64 a, u8 v) { u64 s = (a&7)*8; TRR(a&~7UL); TRW(a&~7UL); MEM[a&~7UL] = (MEM[a&~7UL] & ~(0xffUL<<s)) | ((u64)v << s); }
/* ghost arrays */
#ifdef TRACE
#define GHOST(n,t) extern t n[__CPROVER_constant_infinity_uint]; u64 TRG_A_##n; t TRG_V_##n; \
  static inline t n##_(u64 i) { t v = n[i]; TRG_A_##n = i; TRG_V_##n = v; return v; }
#else
#define GHOST(n,t) extern t n[__CPROVER_constant_infinity_uint]; static inline t n##_(u64 i) { return n[i]; }
#endif
#define CMPXCHG64(o,ok,p,ov,nv,w) do { u64 _p=(p); LD64(o,_p,w); ok = (o == (ov)); if (ok) ST64(_p,nv,w); } while(0)
#define CMPXCHG32(o,ok,p,ov,nv,w) do { u64 _p=(p); LD32(o,_p,w); ok = (o == (ov)); if (ok) ST32(_p,nv,w); } while(0)
#define OP_ADD(x,y) ((x)+(y))
#define OP_SUB(x,y) ((x)-(y))
#define OP_AND(x,y) ((x)&(y))
#define OP_OR(x,y) ((x)|(y))
#define OP_XOR(x,y) ((x)^(y))
#define OP_XCHG(x,y) (y)
#define RMW64(d,op,p,v,w) do { u64 _p=(p); u64 _v=(v); LD64(d,_p,w); ST64(_p,OP_##op(d,_v),w); } while(0)
#define RMW32(d,op,p,v,w) do { u64 _p=(p); u32 _v=(v); LD32(d,_p,w); ST32(_p,OP_##op(d,_v),w); } while(0)
#define FENCE()
#else /* REPLAY: the same harness, run natively against the compiled functions of /repo */
#include <stdlib.h>
#include <stdio.h>
extern u64 rp_next(void); extern u64 rp_r0(u64); extern void rp_snapshot(void); extern void rp_map(u64 a, u64 n);
extern int rp_ok(u64);
#define SNAP(k) do { if ((k) == 0) rp_snapshot(); } while(0)
#define RK(k,a) rp_r0(a)
#define RK8(k,a) R08(a)
extern void rp_fail(const char *m); extern u64 rp_ghost(const char *n, u64 i);
#define ND_u8() ((u8)rp_next())
#define ND_u16() ((u16)rp_next())
#define ND_u32() ((u32)rp_next())
#define ND_u64() rp_next()
static inline double BITS2D(u64 b) { union { u64 u; double d; } x; x.u = b; return x.d; }
static inline u64 D2BITS(double d) { union { u64 u; double d; } x; x.d = d; return x.u; }
#define ND_double() BITS2D(rp_next())
#define ASSUME(c) do { if (!(c)) { printf("ASSUMPTION NOT MET %s:%d\n", __FILE__, __LINE__); fflush(stdout); exit(77); } } while(0)
#define CHECK(c,m) do { if (!(c)) rp_fail(m); } while(0)
#define CAND_ASSERT(c,m)
#define COVER(m)
#define HAVOC_MARK()
#define vx_inrange(x)
#define vx_havoc_all()
#define FORK(x,n) (x)
static inline u64 FORKM(u64 x, u64 m) { if (x > 15 || !(m >> x & 1)) { printf("ASSUMPTION NOT MET case\n"); exit(77); } return x; }
#define DEF(a,v) ASSUME(RD(a) == (u64)(v))
#define vx_havoc_range(a,b)
#define vx_havoc_word(a)
static u64 DBSIZE, HEAPTOP, SP;
#define SNAPSHOT(d) rp_snapshot()
static inline u64 RD(u64 a) { return rp_ok(a) ? *(u64*)a : 0; }
static inline u32 RD32(u64 a) { return rp_ok(a) ? *(u32*)a : 0; }
static inline u16 RD16(u64 a) { return rp_ok(a) ? *(u16*)a : 0; }
static inline u8 RD8(u64 a) { return rp_ok(a) ? *(u8*)a : 0; }
static inline u64 R0(u64 a) { return rp_r0(a); }
static inline u8 R08(u64 a) { return (u8)(rp_r0(a&~7UL) >> ((a&7)*8)); }
static inline u32 R032(u64 a) { return (u32)(rp_r0(a&~7UL) >> ((a&4)*8)); }
static inline void WR(u64 a, u64 v) { if (rp_ok(a)) *(u64*)a = v; }
static inline void WR32(u64 a, u32 v) { if (rp_ok(a)) *(u32*)a = v; }
static inline void WR8(u64 a, u8 v) { if (rp_ok(a)) *(u8*)a = v; }
#define GHOST(n,t) static inline t n##_(u64 i) { return (t)rp_ghost(#n, i); }
static inline double mm_round(double d) { return __builtin_round(d); }
static inline void init_globals(void) {}
#endif
#endif
