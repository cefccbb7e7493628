"""Replay a CBMC counterexample against the real compiled functions of /repo.

The harness is compiled natively (-DREPLAY): f_<name>() calls the real function, memory is real memory mapped at
the addresses of the memory model and initialised from the counterexample, and the same CHECKs are evaluated.
Result: 'confirmed' when a CHECK fails (or the real code crashes); otherwise not."""
import os, re, subprocess
import ll2c
HERE = os.path.dirname(os.path.abspath(__file__))

RT = r'''
#define _GNU_SOURCE
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
typedef unsigned long u64;
static const u64 nd[] = { %(nd)s 0 };
static const u64 ma[] = { %(ma)s 0 };
static const u64 mv[] = { %(mv)s 0 };
static const struct { const char *n; u64 i, v; } gh[] = { %(gh)s {0,0,0} };
static int ndp; static const int ndn = %(ndn)d, mn = %(mn)d;
static u64 pga[65536]; static u64 *pgc[65536]; static int npg;
u64 rp_next(void) { return ndp < ndn ? nd[ndp++] : 0; }
u64 rp_ghost(const char *n, u64 i) { for (int k = 0; gh[k].n; k++) if (!strcmp(gh[k].n, n) && gh[k].i == i) return gh[k].v; return 0; }
void rp_fail(const char *m) { printf("REPLAY-FAILED: %%s\n", m); fflush(stdout); _exit(1); }
int rp_ok(u64 a) { return (a >= 0x100000000000UL && a < 0x100000000000UL + %(dbsize)dUL) || (a >= 0x300000000000UL && a < 0x300010000000UL) || (a >= 0x400000000000UL && a < 0x400004000000UL) || (a >= 0x200000000000UL && a < 0x200001000000UL); }
u64 rp_r0(u64 a) { for (int i = 0; i < npg; i++) if (pga[i] == (a & ~4095UL)) return pgc[i][(a & 4095) / 8]; return 0; }
void rp_snapshot(void) {
  npg = 0;
  for (int i = 0; i < mn; i++) { u64 p = ma[i] & ~4095UL; int k; for (k = 0; k < npg; k++) if (pga[k] == p) break;
    if (k == npg) { pga[k] = p; pgc[k] = malloc(4096); memcpy(pgc[k], (void*)p, 4096); npg++; } }
}
static void seg(int s) { static const char m[] = "REPLAY-FAILED: the real code crashed (SIGSEGV)\n"; if (write(1, m, sizeof m - 1)) {} _exit(1); }
static void alrm(int s) { static const char m[] = "REPLAY: timeout\n"; if (write(1, m, sizeof m - 1)) {} _exit(78); }
extern void %(entry)s(void);
int main(void) {
  struct { u64 a, n; } reg[] = { {0x100000000000UL, %(dbsize)dUL}, {0x300000000000UL, 0x10000000}, {0x400000000000UL, 0x4000000}, {0x200000000000UL, 0x1000000} };
  for (int i = 0; i < 4; i++) if (mmap((void*)reg[i].a, reg[i].n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE, -1, 0) == MAP_FAILED) { printf("REPLAY: cannot map\n"); return 79; }
  for (int i = 0; i < mn; i++) { int ok = 0; for (int k = 0; k < 4; k++) if (ma[i] >= reg[k].a && ma[i] + 8 <= reg[k].a + reg[k].n) ok = 1; if (ok) *(u64*)ma[i] = mv[i]; }
  signal(SIGSEGV, seg); signal(SIGBUS, seg); signal(SIGALRM, alrm); alarm(10);
  %(entry)s();
  printf("REPLAY-PASSED\n");
  return 0;
}
'''


def num(v):
    d = v.get('data')
    if d is None:
        return None
    if v.get('binary') and v.get('name') in ('integer', 'float', 'boolean', 'unknown', 'pointer'):
        b = v['binary']
        if set(b) <= {'0', '1'} and len(b) <= 64:
            return int(b, 2)
    m = re.match(r'^(0x[0-9A-Fa-f]+|-?\d+)', str(d))
    if m:
        return int(m.group(1), 0) & ((1 << 64) - 1)
    return None


def extract(trace):
    """(harness nondets in order, initial memory words, ghosts)"""
    nds, mem, written, ghosts = [], {}, set(), {}
    stack = []
    havoc = False
    pa = p0 = None
    ga = {}
    for st in trace:
        ty = st['stepType']
        if ty == 'function-call':
            stack.append(st.get('function', {}).get('displayName', '?'))
        elif ty == 'function-return':
            if stack:
                stack.pop()
        elif ty == 'assignment':
            lhs = st.get('lhs') or ''
            v = num(st.get('value', {}))
            if v is None:
                continue
            inner = False
            for fr in reversed(stack):
                if fr.startswith(('f_', 'x_')):
                    inner = True
                    break
                if fr.startswith('c_'):
                    break
            if re.match(r'(return_value_)?nondet_(u\d+|double)', lhs) or lhs.startswith('return_value_nondet_'):
                if not inner and not st.get('hidden'):
                    nds.append(v)
            elif lhs == 'TR_A':
                pa = v
            elif lhs == 'TR_V':
                if pa is not None and pa not in written and not havoc:
                    mem.setdefault(pa, v)
            elif lhs == 'TR0_A':
                p0 = v
            elif lhs == 'TR0_V':
                if p0 is not None:
                    mem.setdefault(p0, v)
            elif lhs == 'TW_A':
                written.add(v)
            elif lhs == 'TR_HAVOC':
                havoc = havoc or v == 1
            elif lhs.startswith('TRG_A_'):
                ga[lhs[6:]] = v
            elif lhs.startswith('TRG_V_'):
                n = lhs[6:]
                if n in ga:
                    ghosts.setdefault((n, ga[n]), v)
    ok = [(0x100000000000, 1 << 40), (0x300000000000, 0x10000000), (0x400000000000, 0x4000000), (0x200000000000, 0x1000000)]
    mem = {a: v for a, v in mem.items() if any(b <= a <= b + n - 8 for b, n in ok)}
    return nds, mem, ghosts


def replay(I, entry, p, r, tmp):
    if p.get('cex'):
        c = p['cex']
        if c.get('dbsize') is None:
            return None, 'no model'
        nds = c['nd']
        mem = {int(a): v for a, v in c['mem'].items()}
        ok = [(0x100000000000, 1 << 40), (0x300000000000, 0x10000000), (0x400000000000, 0x4000000), (0x200000000000, 0x1000000)]
        mem = {a: v for a, v in mem.items() if a % 8 == 0 and any(b <= a <= b + n - 8 for b, n in ok)}
        ghosts = {(n, i): v for n, i, v in c['ghosts']}
        return native(I, entry, nds, mem, ghosts)
    trace = None
    for q in r['props']:
        if q.get('trace'):
            trace = q['trace']
    if not trace:
        return None, 'no counterexample trace'
    nds, mem, ghosts = extract(trace)
    return native(I, entry, nds, mem, ghosts)


def native(I, entry, nds, mem, ghosts):
    td = I['td']
    mod = I['mod']
    tr = I['info']['tr']
    base = os.path.basename(I['hpath'])
    # real code, all functions visible
    ll = open(os.path.join(td, 'all.ll')).read()
    rl = os.path.join(td, 'real.ll')
    contracts = set(tr.contracts)
    robj = os.path.join(td, base + '.real.o')
    if not os.path.exists(robj):
        ll = re.sub(r'^define internal ', 'define ', ll, flags=re.M)
        for c in contracts:
            ll = re.sub(r'^define (?=[^\n]*@%s\()' % re.escape(c), 'define weak ', ll, flags=re.M)
        open(rl, 'w').write(ll)
        q = subprocess.run(['clang', '-w', '-O0', '-c', rl, '-o', robj], capture_output=True)
        if q.returncode:
            return None, 'cannot compile the real code: ' + q.stderr.decode()[:300]
    # wrappers
    w = []
    for n in tr.order:
        f = mod.funcs[n]
        ts = [ll2c.ctype(t) for t, _ in f.params]
        rt = ll2c.ctype(f.ret)
        s = ll2c.san(n)
        w.append('extern %s r_%s(%s) __asm__("%s");' % (rt, s, ', '.join(ts) or 'void', n))
        w.append('static %s f_%s(%s) { %sr_%s(%s); }' % (rt, s, ', '.join('%s a%d' % (t, i) for i, t in enumerate(ts)) or 'void',
                 '' if rt == 'void' else 'return ', s, ', '.join('a%d' % i for i in range(len(ts)))))
    for c in sorted(contracts):
        if c not in mod.funcs:
            continue
        f = mod.funcs[c]
        ts = [ll2c.ctype(t) for t, _ in f.params]
        rt = ll2c.ctype(f.ret)
        s = ll2c.san(c)
        w.append('%s c_%s(%s);' % (rt, s, ', '.join(ts) or 'void'))
        w.append('%s w_%s(%s) __asm__("%s");' % (rt, s, ', '.join(ts) or 'void', c))
        w.append('%s w_%s(%s) { %sc_%s(%s); }' % (rt, s, ', '.join('%s a%d' % (t, i) for i, t in enumerate(ts)) or 'void',
                 '' if rt == 'void' else 'return ', s, ', '.join('a%d' % i for i in range(len(ts)))))
    g = open(os.path.join(td, base + '.gen.h')).read()
    g = '\n'.join(l for l in g.split('\n') if l.startswith('#define') or re.search(r' c_\w+\(.*\);$', l))
    wh = os.path.join(td, base + '.rp.h')
    open(wh, 'w').write(g + '\n' + '\n'.join(w) + '\n')
    hc = os.path.join(td, base + '.rp.c')
    open(hc, 'w').write('#define REPLAY\n#define GEN_H "%s"\n#include "%s"\n' % (wh, I['hpath']))
    rt = os.path.join(td, base + '.rt.c')
    dbs = 1 << 40
    open(rt, 'w').write(RT % dict(
        nd=''.join('%dUL,' % v for v in nds), ndn=len(nds), ma=''.join('%dUL,' % a for a in mem),
        mv=''.join('%dUL,' % v for v in mem.values()), mn=len(mem), entry=entry, dbsize=dbs,
        gh=''.join('{"%s",%dUL,%dUL},' % (n, i, v) for (n, i), v in ghosts.items())))
    exe = os.path.join(td, base + '.rp')
    q = subprocess.run(['gcc', '-w', '-O0', '-I', td, '-I', HERE, '-I', os.path.dirname(I['hpath'])] +
                       ['-D' + x for x in I['h'].get('defs', [])] +
                       [hc, rt, robj, '-o', exe, '-lm', '-lpthread', '-Wl,--unresolved-symbols=ignore-all', '-no-pie'],
                       capture_output=True)
    if q.returncode:
        return None, 'cannot build the native replay: ' + q.stderr.decode()[:1500]
    sd = os.path.join(td, 'replay_scratch')
    os.makedirs(sd, exist_ok=True)
    try:
        q = subprocess.run([exe], capture_output=True, timeout=20, cwd=sd, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return None, 'native replay timed out'
    out = q.stdout.decode(errors='replace')[-1500:]
    txt = 'inputs: %s\nmemory: %s\nghosts: %s\nnative run output: %s' % (
        nds, ' '.join('%x=%x' % x for x in mem.items()), ghosts, out)
    return ('confirmed' if 'REPLAY-FAILED' in out else None), txt
