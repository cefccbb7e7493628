#!/usr/bin/env python3
"""Deductive back end for heap-shaped code: path-wise verification-condition generation over the LLVM IR of /repo,
obligations decided by z3.

Both the functions of /repo (all.ll, regenerated from the sources on every run) and the contracts (a harness written in
C, compiled to IR) are executed symbolically.  Memory is an uninterpreted array of 64-bit words of unbounded size plus
the writes of the path.  Calls to functions under contract execute the contract; loops with an invariant are cut
(establish / havoc / assume / preserve); other loops are followed while feasible (a limit makes the entry undecided).
Side-effect free acyclic code is merged (if-conversion), everything else forks.  No bound on the data.

Machine words are represented by mathematical integers (two's complement, signed representation), and every addition,
subtraction, multiplication and conversion of the program carries the obligation that it does not wrap, so the integer
reading is exact.  Bit operations with constant masks are expressed by div/mod.  Memory is one array per access width
(64/32/16/8 bits); overlapping accesses of different widths make the entry undecided.

usage: vx.py all.ll harness.ll spec.json entry out.json
"""
import sys, os, re, json, time, subprocess, tempfile, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3
import ll2c
from ll2c import split_top, strip_attrs, Unsupported, INTRINSIC_SKIP, NOEFFECT

M64 = (1 << 64) - 1
DBBASE, STKBASE, HEAPBASE, GLOBASE = 0x100000000000, 0x300000000000, 0x400000000000, 0x200000000000
STKSIZE = 0x10000000
HGLO = 0x500000000000
HSTK = 0x510000000000
FNBASE = 0x600000000000


class Undecided(Exception):
    pass


class PathEnd(Exception):
    pass


# ------------------------------------------------------------------ values: python int / z3 BV ; i1: bool / z3 Bool
def isc(v):
    return isinstance(v, (int, bool))


def iv(v):
    return z3.IntVal(int(v)) if isc(v) else v


def bl(v):
    return z3.BoolVal(bool(v)) if isc(v) else v


def norm(v, w):
    """python int -> signed representation of a w-bit word"""
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) & 1 else v


def tobool(v):
    """any value -> bool / z3 Bool (v != 0)"""
    if isc(v):
        return bool(v)
    if z3.is_bool(v):
        return v
    c = boolof(v)
    return c if c is not None else simp_bool(v != 0)


def simp_bool(e):
    if isc(e):
        return bool(e)
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def simp(e):
    if isc(e):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def b_not(a):
    return (not a) if isc(a) else z3.simplify(z3.Not(a))


def b_and(*xs):
    r = []
    for x in xs:
        if isc(x):
            if not x:
                return False
        else:
            r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def b_or(*xs):
    r = []
    for x in xs:
        if isc(x):
            if x:
                return True
        else:
            r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def ite(c, a, b, w):
    if isc(c):
        return a if c else b
    if isc(a) and isc(b) and a == b:
        return a
    if w == 1:
        return simp(z3.If(c, bl(a), bl(b)))
    if not isc(a) and not isc(b) and a.eq(b):
        return a
    return z3.If(c, iv(a), iv(b))


_bo = {}


def boolof(v, depth=6):
    """condition c when v is (c ? 1 : 0), else None"""
    if isc(v):
        return bool(v) if v in (0, 1) else None
    if z3.is_int_value(v):
        return boolof(v.as_long())
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and depth:
        k = v.get_id()
        if k in _bo:
            return _bo[k]
        a, b = boolof(v.arg(1), depth - 1), boolof(v.arg(2), depth - 1)
        r = None
        if a is not None and b is not None:
            c = v.arg(0)
            r = simp_bool(z3.If(c, bl(a), bl(b)))
        _bo[k] = r
        _keep.append(v)
        return r
    return None


def frombool(c):
    return int(c) if isc(c) else z3.If(c, z3.IntVal(1), z3.IntVal(0))


_lin = {}
_keep = []


def lin(e):
    """linear normal form of an integer term: ({term id: coeff}, const)"""
    if isc(e):
        return {}, int(e)
    k = e.get_id()
    r = _lin.get(k)
    if r is not None:
        return r
    d = e.decl().kind() if z3.is_app(e) else None
    if d == z3.Z3_OP_ANUM:
        r = ({}, e.as_long())
    elif d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        t, c = {}, 0
        for i, x in enumerate(e.children()):
            f = -1 if i and d == z3.Z3_OP_SUB else 1
            t2, c2 = lin(x)
            c += f * c2
            for q, v in t2.items():
                t[q] = t.get(q, 0) + f * v
        r = ({q: v for q, v in t.items() if v}, c)
    elif d == z3.Z3_OP_UMINUS:
        t2, c2 = lin(e.children()[0])
        r = ({q: -v for q, v in t2.items()}, -c2)
    elif d == z3.Z3_OP_MUL and len(e.children()) == 2 and z3.is_int_value(e.children()[0]):
        m = e.children()[0].as_long()
        t2, c2 = lin(e.children()[1])
        r = ({q: v * m for q, v in t2.items() if v * m}, c2 * m)
    else:
        r = ({k: 1}, 0)
        _term[k] = e
    _lin[k] = r
    _keep.append(e)
    return r


def canon(e):
    """integer term rebuilt from its linear normal form, so that equal forms are the same term"""
    if isc(e):
        return e
    t, c = lin(e)
    if not t:
        return c
    if len(t) == 1 and c == 0:
        k, v = next(iter(t.items()))
        return _term[k] if v == 1 else _term[k] * v
    key = (tuple(sorted(t.items())), c)
    r = _can.get(key)
    if r is None:
        r = z3.Sum([_term[k] * v if v != 1 else _term[k] for k, v in sorted(t.items())] + ([z3.IntVal(c)] if c else []))
        if len(t) + (c != 0) == 1:
            r = r.arg(0) if z3.is_app(r) and r.num_args() == 1 else r
        _can[key] = r
        _lin[r.get_id()] = (t, c)
        _keep.append(r)
    return r


_can = {}
_term = {}


def linkey(e):
    if isc(e):
        return int(e)
    t, c = lin(e)
    return (tuple(sorted(t.items())), c) if t else c


def lindiff(a, b):
    """constant difference a-b if syntactically known, else None"""
    ta, ca = lin(a)
    tb, cb = lin(b)
    if ta == tb:
        return ca - cb
    return None


def imod(x, m):
    if isc(x):
        return x % m
    t, c = lin(x)
    if all(v % m == 0 for v in t.values()):
        return c % m
    return x % m


def idiv(x, m):
    if isc(x):
        return x // m
    t, c = lin(x)
    if all(v % m == 0 for v in t.values()):
        r = c // m
        for k, v in t.items():
            r = r + _term[k] * (v // m)
        return canon(r)
    return simp(x / m)


def andc(x, c):
    """x & c for constant c (signed representation: negative c has infinitely many leading ones)"""
    if isc(x):
        return x & c
    r = 0
    i = 0
    while c not in (0, -1):
        if c & 1:
            j = 0
            while c & 1 and c != -1:
                c >>= 1
                j += 1
            if c == -1:
                break
            part = imod(idiv(x, 1 << i) if i else x, 1 << j)
            r = r + (part * (1 << i) if i else part)
            i += j
        else:
            while c & 1 == 0 and c != 0:
                c >>= 1
                i += 1
    if c == -1:
        r = r + (x - imod(x, 1 << i) if i else x)
    return canon(r)


# ------------------------------------------------------------------ IR decoding
class FN:
    pass


class Mod:
    """a parsed module with address assignment and lazily decoded functions"""
    def __init__(self, text, gbase, tag):
        self.M = ll2c.Module(text)
        self.T = self.M.T
        self.gbase = gbase
        self.gnext = gbase
        self.gaddrs = {}
        self.tag = tag
        self.prog = None
        self.dec = {}
        self.faddr = {}
        self.init = {}
        self.tr = ll2c.Translator(self.M)
        self.tr.gaddr = self.gaddr

    def gaddr(self, name):
        name = name.strip('"')
        if name.startswith('GLO_') and self.tag == 'h' and self.prog is not None:
            return self.prog.gaddr(name[4:])        # a global of the program, named from the harness
        if name in self.M.funcs or (name in self.M.decls and name not in self.M.globals):
            if name not in self.faddr:
                self.faddr[name] = FNBASE + 64 * (len(self.faddr) + 1) + (0 if self.tag == 'p' else 0x1000000)
            return self.faddr[name]
        if name not in self.gaddrs:
            if name in self.M.globals:
                sz = self.T.size(self.M.globals[name][0])
            else:
                sz = 16
            a = (self.gnext + 15) // 16 * 16
            self.gaddrs[name] = a
            self.gnext = a + sz + 16
        return self.gaddrs[name]

    def fname(self, addr):
        for n, a in self.faddr.items():
            if a == addr:
                return n
        return None

    def operand(self, t, s):
        s = s.strip()
        if s.startswith('%'):
            return ('r', s)
        if s in ('null', 'zeroinitializer'):
            return ('k', 0)
        if s in ('undef', 'poison'):
            return ('u', t)
        if s == 'true':
            return ('k', True)
        if s == 'false':
            return ('k', False)
        if t[0] in ('double', 'float'):
            if s.startswith('0x'):
                return ('k', norm(int(s, 16), 64))
            import struct as _s
            return ('k', norm(_s.unpack('<Q', _s.pack('<d', float(s)))[0], 64))
        if re.match(r'-?\d+$', s):
            w = t[1]
            return ('k', norm(int(s), w) if w > 1 else bool(int(s) & 1))
        if s.startswith('@'):
            return ('k', self.gaddr(s[1:]))
        m = re.match(r'getelementptr\s+(inbounds\s+)?\((.*)\)$', s)
        if m:
            base, const, terms = self.gep(split_top(m.group(2)))
            if base[0] == 'k' and not terms:
                return ('k', base[1] + const)
        m = re.match(r'(inttoptr|ptrtoint|bitcast)\s*\((.*) to (.*)\)$', s)
        if m:
            t2, r = self.T.parse(m.group(2))
            return self.operand(t2, r)
        raise Unsupported('operand ' + s)

    def tv(self, s):
        t, r = self.T.parse(s)
        return t, self.operand(t, strip_attrs(r))

    def gep(self, parts):
        parts = [re.sub(r'^inrange\s*(\([^)]*\))?\s*', '', p) for p in parts]
        t, _ = self.T.parse(parts[0])
        bt, base = self.tv(parts[1])
        const, terms, cur = 0, [], t
        for k, p in enumerate(parts[2:]):
            it, r = self.T.parse(p)
            r = strip_attrs(r).strip()
            if k > 0:
                rc = self.T.resolve(cur)
                if rc[0] == 'struct':
                    off, cur = self.T.field(rc, int(r))
                    const += off
                    continue
                cur = rc[2]
            sz = self.T.size(cur)
            if re.match(r'-?\d+$', r):
                const += int(r) * sz
            else:
                terms.append((self.operand(it, r), it[1], sz))
        return base, const, terms

    def decode(self, name):
        if name in self.dec:
            return self.dec[name]
        f = self.M.funcs[name]
        F = FN()
        F.name, F.params, F.ret, F.mod = name, f.params, f.ret, self
        F.blocks, F.phis, F.order = {}, {}, [b[0] for b in f.blocks]
        F.entry = F.order[0]
        F.f = f
        for b in f.blocks:
            ph, ins = [], []
            for s in b[1]:
                m = re.match(r'(%\S+) = phi (.*)$', s)
                if m:
                    t, r = self.T.parse(re.sub(r'^(nnan|ninf|nsz|arcp|contract|afn|reassoc|fast)\s+', '', m.group(2)))
                    inc = re.findall(r'\[\s*(.*?),\s*%("[^"]*"|[-A-Za-z0-9_$.]+)\s*\]', r)
                    ph.append((m.group(1), t, {l.strip('"'): self.operand(t, v) for v, l in inc}))
                    continue
                try:
                    d = self.instr(f, s)
                except Unsupported as e:
                    d = ('unsupported', '%s in %s: %s' % (e, name, s))
                if d is not None:
                    ins.append(d)
            F.blocks[b[0]] = ins
            F.phis[b[0]] = ph
        F.succ, F.pred, F.loops, F.reach = self.tr.analyse(f)
        F.idx = {n: i for i, n in enumerate(F.order)}
        for k, h in enumerate(sorted(F.loops, key=lambda h: F.idx[h])):
            F.loops[h]['k'] = k
        F.dbg = None
        self.dec[name] = F
        return F

    def w(self, t):
        if t[0] == 'i':
            return t[1]
        if t[0] in ('ptr', 'double'):
            return 64
        raise Unsupported('type %s' % (t,))

    def instr(self, f, s):
        line = self.tr.line_of(s)
        where = '%s:%d' % (f.name, line)
        s = re.sub(r'(, )?![A-Za-z.]+ !\d+', '', s).rstrip()
        s = re.sub(r',\s*$', '', s)
        s = re.sub(r'\s+#\d+$', '', s)
        dst = None
        m = re.match(r'(%\S+) = (.*)$', s)
        if m:
            dst, s = m.group(1), m.group(2)
        s = re.sub(r'^(tail|musttail|notail) ', '', s)
        opc = s.split(' ', 1)[0]
        if opc == 'br':
            m = re.match(r'br label %("[^"]*"|[-A-Za-z0-9_$.]+)', s)
            if m:
                return ('jmp', m.group(1).strip('"'))
            m = re.match(r'br i1 (.*), label %("[^"]*"|[-A-Za-z0-9_$.]+), label %("[^"]*"|[-A-Za-z0-9_$.]+)', s)
            return ('br', self.operand(('i', 1), m.group(1)), m.group(2).strip('"'), m.group(3).strip('"'))
        if opc == 'switch':
            m = re.match(r'switch (i\d+) (.*?), label %("[^"]*"|[-A-Za-z0-9_$.]+) \[(.*)\]', s)
            t, _ = self.T.parse(m.group(1))
            cases = re.findall(r'i\d+ (-?\d+), label %("[^"]*"|[-A-Za-z0-9_$.]+)', m.group(4))
            return ('switch', self.operand(t, m.group(2)), t[1], m.group(3).strip('"'),
                    [(norm(int(v), t[1]) if t[1] > 1 else bool(int(v) & 1), l.strip('"')) for v, l in cases])
        if opc == 'ret':
            if s.startswith('ret void'):
                return ('ret', None)
            t, v = self.tv(s[4:])
            return ('ret', v)
        if opc == 'unreachable':
            return ('unreachable',)
        if opc == 'load':
            m = re.match(r'load (?:atomic )?(?:volatile )?(.*)$', s)
            p = split_top(m.group(1))
            t, _ = self.T.parse(p[0])
            a = self.tv(re.sub(r'( (unordered|monotonic|acquire|seq_cst))+$', '', p[1]))[1]
            return ('load', dst, self.w(t), a, where, 'atomic' in s or 'volatile' in s)
        if opc == 'store':
            m = re.match(r'store (?:atomic )?(?:volatile )?(.*)$', s)
            p = split_top(m.group(1))
            t, v = self.tv(p[0])
            a = self.tv(re.sub(r'( (unordered|monotonic|release|seq_cst))+$', '', p[1]))[1]
            return ('store', self.w(t), v, a, where, 'atomic' in s or 'volatile' in s)
        if opc == 'getelementptr':
            s2 = re.sub(r'^getelementptr ((inbounds|nuw|nusw) )*', '', s)
            base, const, terms = self.gep(split_top(s2))
            return ('gep', dst, base, const, terms)
        if opc == 'alloca':
            p = split_top(s[len('alloca '):])
            t, _ = self.T.parse(p[0])
            if any(re.match(r'i\d+ ', x) for x in p[1:]):
                return ('alloca', dst, 65536, 65536)
            return ('alloca', dst, (self.T.size(t) + 15) // 16 * 16, self.T.size(t))
        if opc in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            m = re.match(r'\w+ ((?:nuw |nsw |exact |disjoint )*)(.*)$', s)
            p = split_top(m.group(2))
            t, a = self.tv(p[0])
            return ('bin', dst, opc, self.w(t), a, self.operand(t, p[1]), where)
        if opc in ('fadd', 'fsub', 'fmul', 'fdiv'):
            m = re.match(r'\w+ (?:nnan |ninf |nsz |arcp |contract |afn |reassoc |fast )*(.*)$', s)
            p = split_top(m.group(1))
            t, a = self.tv(p[0])
            return ('uf', dst, opc, 64, [a, self.operand(t, p[1])], [64, 64])
        if opc == 'fneg':
            t, a = self.tv(s[5:])
            return ('uf', dst, 'fneg', 64, [a], [64])
        if opc == 'fcmp':
            m = re.match(r'fcmp (?:nnan |ninf |nsz |arcp |contract |afn |reassoc |fast )*(\w+) (.*)$', s)
            p = split_top(m.group(2))
            t, a = self.tv(p[0])
            return ('uf', dst, 'fcmp_' + m.group(1), 1, [a, self.operand(t, p[1])], [64, 64])
        if opc == 'icmp':
            m = re.match(r'icmp (?:samesign )?(\w+) (.*)$', s)
            p = split_top(m.group(2))
            t, a = self.tv(p[0])
            return ('icmp', dst, m.group(1), self.w(t), a, self.operand(t, p[1]))
        if opc in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'fptosi', 'uitofp', 'fptoui'):
            m = re.match(r'\w+ (?:nuw |nsw |nneg )*(.*) to (.*)$', s)
            t, a = self.tv(m.group(1))
            t2, _ = self.T.parse(m.group(2))
            if opc in ('sitofp', 'fptosi', 'uitofp', 'fptoui'):
                return ('uf', dst, '%s_%d_%d' % (opc, self.w(t), self.w(t2)), self.w(t2), [a], [self.w(t)])
            return ('cast', dst, opc, self.w(t), self.w(t2), a)
        if opc == 'select':
            p = split_top(s[len('select '):])
            _, c = self.tv(p[0])
            t, a = self.tv(p[1])
            return ('select', dst, self.w(t), c, a, self.tv(p[2])[1])
        if opc == 'freeze':
            t, a = self.tv(s[7:])
            return ('cast', dst, 'bitcast', self.w(t), self.w(t), a)
        if opc == 'fence':
            return None
        if opc == 'cmpxchg':
            p = split_top(re.sub(r'^cmpxchg (weak )?(volatile )?', '', s))
            pa = self.tv(p[0])[1]
            t, ov = self.tv(p[1])
            nv = self.tv(re.sub(r'( (unordered|monotonic|acquire|release|acq_rel|seq_cst))+$', '', p[2]))[1]
            return ('cmpxchg', dst, self.w(t), pa, ov, nv, where)
        if opc == 'atomicrmw':
            s2 = re.sub(r'^atomicrmw (volatile )?', '', s)
            p = split_top(s2.split(' ', 1)[1])
            pa = self.tv(p[0])[1]
            t, v = self.tv(re.sub(r'( (unordered|monotonic|acquire|release|acq_rel|seq_cst))+$', '', p[1]))
            return ('rmw', dst, s2.split(' ', 1)[0], self.w(t), pa, v, where)
        if opc == 'extractvalue':
            t, r = self.T.parse(s[len('extractvalue '):])
            p = split_top(r)
            return ('extract', dst, p[0].strip(), int(p[1]))
        if opc == 'call':
            return self.callins(f, s, dst, where)
        raise Unsupported('instruction ' + opc)

    def callins(self, f, s, dst, where):
        s2 = re.sub(r'^call (?:nnan |ninf |nsz |arcp |contract |afn |reassoc |fast )*', '', s)
        if re.search(r'\basm (sideeffect )?', s2) and ('asm sideeffect' in s2 or 'asm "' in s2):
            tmpl = re.search(r'asm[^"]*"([^"]*)"', s2).group(1)
            if tmpl.strip() in ('', 'pause;\\0A', 'pause;\\0a', 'pause'):
                return None
            raise Unsupported('inline asm')
        rt = self.tr.ret_t(s2)
        m = re.search(r'@("[^"]*"|[-A-Za-z0-9_$.]+)\(', s2)
        mi = re.search(r'(%[-A-Za-z0-9_$.]+)\(', s2)
        if mi and (not m or mi.start() < m.start()):
            name, st = None, mi.end()
        else:
            name, st = m.group(1).strip('"'), m.end()
        depth, k = 1, st
        while depth:
            depth += {'(': 1, ')': -1}.get(s2[k], 0)
            k += 1
        args = []
        if name is not None and name.startswith(INTRINSIC_SKIP):
            return None
        for a in split_top(s2[st:k - 1]):
            if a.startswith('metadata'):
                return None
            t, e = self.tv(a)
            args.append((self.w(t), e))
        tgt = name if name is not None else None
        if name is not None and name in self.M.varargs:
            tgt = name
        return ('call', dst, None if rt[0] == 'void' else self.w(rt), tgt, args, where,
                None if name is not None else mi.group(1), name in self.M.varargs if name else False)

    def initial(self, addr, n):
        """initial bytes of a constant global, or None"""
        for g, a in self.gaddrs.items():
            t, isc_, init = self.M.globals.get(g, (None, False, None))
            if t is None or init is None:
                continue
            sz = self.T.size(t)
            if a <= addr and addr < a + (sz + 7) // 8 * 8:
                if g not in self.init:
                    try:
                        b = self.tr.init_bytes(t, init)
                        self.init[g] = b + bytes(-len(b) % 8 + 8)
                    except Unsupported:
                        self.init[g] = None
                b = self.init[g]
                if b is None:
                    return None, isc_
                return int.from_bytes(b[addr - a:addr - a + n], 'little'), isc_
        return None, False


# ------------------------------------------------------------------ memory
class Node:
    __slots__ = ('kind', 'addr', 'val', 'prev', 'id', 'w', 'g')
    n = 0

    def __init__(self, kind, addr, val, prev, w=64, g=True):
        self.g = g
        self.kind, self.addr, self.val, self.prev, self.w = kind, addr, val, prev, w
        Node.n += 1
        self.id = Node.n


class Frame:
    __slots__ = ('F', 'block', 'ip', 'env', 'dst', 'prevblk', 'visits', 'post', 'retw')

    def copy(self):
        f = Frame()
        f.F, f.block, f.ip, f.env, f.dst, f.prevblk, f.visits, f.post, f.retw = self.F, self.block, self.ip, \
            dict(self.env), self.dst, self.prevblk, dict(self.visits), self.post, self.retw
        return f


class State:
    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem, s.snaps, s.h, s.pc, s.nd = self.mem, dict(self.snaps), dict(self.h), list(self.pc), list(self.nd)
        s.sp, s.hsp, s.allocs = self.sp, self.hsp, self.allocs
        s.reads, s.ghosts = list(self.reads), list(self.ghosts)
        s.rc, s.indb, s.rel, s.nw = dict(self.rc), dict(self.indb), dict(self.rel), set(self.nw)
        s.conc, s.defs = dict(self.conc), dict(self.defs)
        s.hooked = set(self.hooked)
        s.solver, s.nq = None, 0
        s.lastmodel = self.lastmodel
        s.trail = list(self.trail)
        s.cut = self.cut
        s.wide = self.wide
        return s


class VX:
    def __init__(self, prog, harn, spec, deadline):
        self.P, self.H, self.spec = prog, harn, spec
        self.contracts = set(spec.get('contracts', []))
        self.loopinv = {(a, b): c for a, b, c in spec.get('loopinv', [])}
        self.merge_off = set(spec.get('fork', []))
        self.merge_prog = set(spec.get('merge', []))
        self.drop = set(spec.get('drop', []))
        self.memcheck = spec.get('memcheck', True)
        self.unroll = spec.get('unroll', 40)
        self.deadline = deadline
        self.props = {}
        self.failmodels = {}
        self.symn = 0
        self.ufs = {}
        self.base = {w: z3.Function('M%d' % w, z3.IntSort(), z3.IntSort()) for w in (8, 16, 32, 64)}
        self.pure = {}
        self.paths = 0
        self.queries = 0
        self.qtime = 0.0
        self.used = set()
        self.assumed = set()
        self.undec = []
        self.qto = spec.get('query_timeout', 400)
        self.cto = spec.get('check_timeout', 60000)
        self.lazy = False
        self.eager = spec.get('eager', False)
        self.ovf = spec.get('overflow', True)
        self.cur_harness = False
        self.verbose = os.environ.get('VX_VERBOSE')
        self.refresh = int(os.environ.get('VX_REFRESH', spec.get('refresh', 1000000)))
        self.onload = 'on_load' in self.H.M.funcs
        self.autocut = spec.get('autocut', False)
        self.inexact = {}
        self.factrng = None
        self.storemerge = spec.get('storemerge', False)

    # ---- symbols and solver
    def freshw(self, st, w, name='s'):
        x = self.fresh(w, name)
        if w > 1:
            self.assume(st, z3.And(x >= -(1 << (w - 1)), x < (1 << (w - 1))))
        return x

    def fresh(self, w, name='s'):
        self.symn += 1
        n = '%s!%d' % (name, self.symn)
        return z3.Bool(n) if w == 1 else z3.Int(n)

    def uf(self, name, ws, rw):
        k = (name, tuple(ws), rw)
        if k not in self.ufs:
            srt = lambda w: z3.BoolSort() if w == 1 else z3.IntSort()
            self.ufs[k] = z3.Function(name, *[srt(w) for w in ws], srt(rw))
        return self.ufs[k]

    def solver(self, st):
        """incremental solver of one path, rebuilt after a number of queries (stale atoms slow it down)"""
        if st.solver is None or st.nq >= self.refresh:
            st.nq = 0
            g = st.solver = z3.SimpleSolver()
            g.set('timeout', self.qto)
            for k, v in self.spec.get('z3', {}).items():
                g.set(k, v)
            for c in st.pc:
                g.add(c)
        st.nq += 1
        return st.solver

    def assume(self, st, c):
        if isc(c):
            if not c:
                raise PathEnd('assumption false')
            return
        st.pc.append(c)
        if st.lastmodel is not None and not self.holds(st, c):
            st.lastmodel = None
        if st.solver is not None:
            st.solver.add(c)

    def holds(self, st, c):
        """True when the last model of the path satisfies c"""
        m = st.lastmodel
        if m is None or isc(c):
            return False
        return z3.is_true(m.eval(c, model_completion=True))

    def sat(self, st, c, timeout=None):
        """is pc & c satisfiable?  True / False / None"""
        if isc(c) and not c:
            return False
        if timeout is None and not (isc(c)) and self.holds(st, c):
            st.model = st.lastmodel
            return True
        if time.time() > self.deadline:
            raise Undecided('time budget exceeded')
        s = self.solver(st)
        self.queries += 1
        t0 = time.time()
        if self.verbose and t0 - getattr(self, 'lastp', 0) > 5:
            self.lastp = t0
            print('   .. %d paths %d queries %.1fs solver; %s' % (self.paths, self.queries, self.qtime, st.trail[-8:]), flush=True)
        s.push()
        if not isc(c):
            s.add(c)
        s.set('timeout', timeout or self.qto)
        r = s.check()
        st.model = s.model() if r == z3.sat else None
        if st.model is not None:
            st.lastmodel = st.model
        s.pop()
        dt = time.time() - t0
        self.qtime += dt
        if dt > 1 and os.environ.get('VX_DUMP'):
            t = z3.Solver()
            for x in st.pc:
                t.add(x)
            t.add(bl(c))
            open('/tmp/vxd/%d_%.1f_%s.smt2' % (self.queries, dt, r), 'w').write('(set-logic QF_UFLIA)\n' + t.to_smt2())
        if self.verbose and dt > 1:
            print('   slow query %.1fs %s' % (dt, r), flush=True)
        return True if r == z3.sat else False if r == z3.unsat else None

    def must(self, st, c):
        c = simp_bool(c)
        return c if isc(c) else self.sat(st, b_not(c)) is False

    # ---- checks
    def check(self, st, c, desc, kind='obl', guard=True):
        p = self.props.setdefault((kind, desc), {'ok': 0, 'fail': 0, 'unknown': 0, 'time': 0.0})
        if isc(c) and c:
            p['ok'] += 1
            return
        neg = b_and(guard, b_not(c))
        if isc(neg) and not neg:
            p['ok'] += 1
            return
        t0 = time.time()
        r = self.sat(st, neg, timeout=4000)
        if r is None:
            r = self.hard(st, neg)
        p['time'] += time.time() - t0
        if r is False:
            p['ok'] += 1
            self.assume(st, c if (isc(guard) and guard) else z3.Or(z3.Not(bl(guard)), bl(c)))
            return
        if r is True:
            if st.wide:
                raise Undecided('a loop of %s has a variable its invariant does not speak about: %s' % (st.wide, desc))
            for f in st.frames:
                if f.F.name in self.inexact:
                    raise Undecided('a loop of %s is written differently and its invariant does not fit: %s' % (self.inexact[f.F.name], desc))
            p['fail'] += 1
            if (kind, desc) not in self.failmodels:
                self.failmodels[(kind, desc)] = self.counterexample(st)
            if self.verbose:
                print('  FAIL', desc, z3.simplify(bl(neg)) if os.environ.get('VX_DUMP') else '', [str(c)[:200] for c in st.pc] if os.environ.get('VX_DUMP') else '', flush=True)
        else:
            p['unknown'] += 1
            if self.verbose:
                print('  UNKNOWN', desc, flush=True)
        # continue under the assumption that it held
        g = c if (isc(guard) and guard) else z3.Or(z3.Not(bl(guard)), bl(c))
        if isc(g):
            raise PathEnd('failed check')
        self.assume(st, g)
        if self.sat(st, True) is False:
            raise PathEnd('failed check')

    def hard(self, st, neg):
        """second attempt with other strategies"""
        s = z3.Solver()
        for c in st.pc:
            s.add(c)
        s.add(bl(neg))
        txt = '(set-logic QF_UFLIA)\n' + s.to_smt2()
        self.queries += 1
        fd, fn = tempfile.mkstemp(suffix='.smt2')
        os.write(fd, txt.encode())
        os.close(fd)
        procs = []
        to = max(5, min(self.cto / 1000.0, self.deadline - time.time()))
        try:
            for cmd in (['z3', '-T:%d' % to, fn], ['z3-new', '-T:%d' % to, 'sat.euf=true', 'tactic.default_tactic=smt', fn],
                        ['cvc5', '--tlimit=%d' % (to * 1000), fn]):
                procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
            t0 = time.time()
            live = list(procs)
            while live and time.time() - t0 < to + 3:
                for p in list(live):
                    if p.poll() is not None:
                        o = p.stdout.read().decode().strip().split('\n')[0]
                        live.remove(p)
                        if o == 'unsat':
                            return False
                        if o == 'sat':
                            # get a model in-process for the replay
                            s.set('timeout', 60000)
                            if s.check() == z3.sat:
                                st.model = s.model()
                            else:
                                st.model = None
                            return True
                time.sleep(0.02)
            return None
        finally:
            for p in procs:
                if p.poll() is None:
                    p.kill()
                p.wait()
            os.unlink(fn)

    def counterexample(self, st):
        m = st.model
        if m is None:
            return {'trail': st.trail[-40:], 'nd': [], 'mem': {}, 'ghosts': {}, 'dbsize': None}
        ev = lambda e: e if isc(e) else (lambda r: (z3.is_true(r) if z3.is_bool(r) else r.as_long()))(m.eval(e, model_completion=True))
        nd = []
        for g, e in st.nd:
            if ev(g) is False:
                continue
            nd.append(int(ev(e)) & M64)
        mem = {}
        for a, v, w in st.reads:
            A, x = ev(a), ev(v) & ((1 << w) - 1)
            sh = 8 * (A % 8)
            k = '%d' % (A - A % 8)
            mem[k] = (mem.get(k, 0) & ~(((1 << w) - 1) << sh) & M64) | (x << sh & M64)
        gh = []
        for n, i, v in st.ghosts:
            gh.append([n, ev(i) & M64, int(ev(v)) & M64])
        ds = st.h.get((self.H.gaddrs.get('DBSIZE'), 8))
        return {'nd': nd, 'mem': mem, 'ghosts': gh, 'dbsize': ev(ds) if ds is not None else None, 'trail': st.trail[-60:]}

    # ---- memory access
    def known_db(self, st, a):
        k = a.get_id()
        r = st.indb.get(k)
        if r is None:
            r = self.must(st, z3.And(a >= DBBASE, a < DBBASE + (1 << 43)))
            st.indb[k] = r
            _keep.append(a)
        return r

    def alias(self, st, a, b):
        """True must equal, False must differ, None unknown"""
        d = lindiff(a, b)
        if d is not None:
            return d == 0
        if isc(b) and not isc(a):
            a, b = b, a
        if isc(a) and not (DBBASE <= a < DBBASE + (1 << 43)) and self.known_db(st, b):
            return False
        k = (a if isc(a) else ('t', a.get_id()), b if isc(b) else ('t', b.get_id()))
        k = (linkey(a), linkey(b))
        r = st.rel.get(k)
        if r is not None:
            return r
        if self.lazy:
            return None
        eq = iv(a) == iv(b)
        _keep.append(eq)
        s1 = self.sat(st, eq)
        if s1 is False:
            st.rel[k] = False
            return False
        if self.sat(st, z3.Not(eq)) is False:
            st.rel[k] = True
            return True
        return None

    def disjoint(self, st, a, w, b, w2):
        d = lindiff(a, b)
        if d is not None:
            return d + w // 8 <= 0 or d >= w2 // 8
        return self.must(st, z3.Or(iv(a) + w // 8 <= iv(b), iv(b) + w2 // 8 <= iv(a)))

    def rdmem(self, st, mem, a, w):
        """value of the w-bit cell at address a"""
        w = max(w, 8)
        ck = (mem.id, w, linkey(a))
        r = st.rc.get(ck)
        if r is not None:
            return r
        conds = []
        nd = mem
        final = None
        while True:
            if nd.kind == 's':
                if nd.w != w:
                    if nd.w == 64 and nd.g is True and isc(nd.val) and isc(a) and isc(nd.addr) and nd.addr <= a < nd.addr + 8:
                        final = norm(nd.val >> (8 * (a - nd.addr)), w)
                        break
                    if not self.disjoint(st, a, w, nd.addr, nd.w):
                        raise Undecided('overlapping accesses of different widths (%d at %s after %d bits at %s)' % (w, str(a)[:120], nd.w, str(nd.addr)[:120]))
                else:
                    rel = self.alias(st, a, nd.addr)
                    if rel is True and nd.g is True:
                        final = nd.val
                        break
                    if rel is not False:
                        conds.append((nd.g if rel is True else b_and(nd.g, iv(a) == iv(nd.addr)), nd.val))
            elif nd.kind == 'h':
                c = self.havoc_cond(st, nd, a)
                if not isc(c):
                    if self.sat(st, c) is False:
                        c = False
                    elif self.sat(st, z3.Not(c)) is False:
                        c = True
                if c is not False:
                    v = nd.val[w](iv(a))
                    if w < 64:
                        self.assume(st, z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))))
                    if c is True:
                        final = v
                        break
                    conds.append((c, v))
            elif nd.kind == 'c':
                # n bytes copied from src to dst
                dst, n, src = nd.addr
                off = canon(iv(a) - iv(dst)) if not (isc(a) and isc(dst)) else a - dst
                c = simp_bool(z3.And(iv(a) + w // 8 > iv(dst), iv(a) < iv(dst) + iv(n)))
                if not isc(c):
                    if self.sat(st, c) is False:
                        c = False
                    elif self.sat(st, z3.Not(c)) is False:
                        c = True
                if c is not False:
                    if w > 8 and not self.must(st, z3.Implies(bl(c), z3.And(iv(a) >= iv(dst), iv(a) + w // 8 <= iv(dst) + iv(n)))):
                        raise Undecided('access at %s overlaps the end of a range copied to %s' % (str(a)[:150], str(dst)[:150]))
                    v = norm(int.from_bytes(bytes([nd.val]) * (w // 8), 'little'), w) if src is None else self.rdmem(st, nd.prev, canon(iv(src) + iv(off)) if not (isc(src) and isc(off)) else src + off, w)
                    if c is True:
                        final = v
                        break
                    conds.append((c, v))
            else:
                final = self.basevalue(st, a, w)
                break
            nd = nd.prev
        for c, v in reversed(conds):
            final = ite(c, v, final, 64)
        st.rc[ck] = final
        if not isc(a):
            _keep.append(a)
        return final

    def rdword(self, st, mem, a, guard=True):
        return self.rdmem(st, mem, a, 64)

    def havoc_cond(self, st, nd, a):
        k = nd.addr
        if k[0] == 'all':
            return True
        if k[0] == 'range':
            return simp_bool(z3.And(iv(a) >= iv(k[1]), iv(a) < iv(k[2])))
        if k[0] == 'word':
            return simp_bool(iv(a) == iv(k[1]))
        if k[0] == 'pred':
            return tobool(self.evalpure(st, k[1], [a] + list(k[2]), True))
        raise Undecided('havoc kind')

    def basevalue(self, st, a, w):
        d = st.defs.get((w, linkey(a)))
        if d is not None:
            return d
        if isc(a) and GLOBASE <= a < GLOBASE + 0x1000000:
            v, cst = self.P.initial(a, w // 8)
            if v is not None and cst:
                return norm(v, w)
        v = self.base[w](iv(a))
        if w < 64:
            self.assume(st, z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))))
        st.reads.append((a, v, w))
        return v

    def memok(self, st, a, n, w, guard):
        if not self.memcheck:
            return
        if isc(a):
            if STKBASE <= a < STKBASE + STKSIZE:
                if not any(b <= a and a + n <= b + z for b, z in st.allocs):
                    self.check(st, False, 'mem: access inside a local variable at %s' % w, guard=guard)
                return
            if GLOBASE <= a < GLOBASE + 0x1000000:
                return
        dbs = st.h.get((self.H.gaddr('DBSIZE'), 8), 0)
        ht = st.h.get((self.H.gaddr('HEAPTOP'), 8), 0)
        ab = iv(a)
        indb = z3.And(ab >= DBBASE, ab <= iv(dbs) + (DBBASE - n))
        al = imod(a, n) == 0 if n > 1 else True
        al = simp_bool(al) if not isc(al) else al
        g = bl(guard)
        ok = z3.And(indb, bl(al))
        desc = 'mem: access inside live memory and aligned at %s' % w
        if isc(a) is False and self.sat(st, z3.And(g, z3.Not(ok))) is False:
            p = self.props.setdefault(('obl', desc), {'ok': 0, 'fail': 0, 'unknown': 0, 'time': 0.0})
            p['ok'] += 1
            return
        alts = [indb, z3.And(ab >= STKBASE, ab < STKBASE + STKSIZE),
                z3.And(ab >= HEAPBASE, ab + n <= iv(ht)),
                z3.And(ab >= GLOBASE, ab < GLOBASE + 0x1000000)]
        if 'mok_extra' in self.H.M.funcs:
            alts.append(bl(tobool(self.evalpure(st, 'mok_extra', [a, n], guard))))
        self.check(st, simp_bool(z3.And(z3.Or(*alts), bl(al))), desc, guard=guard)

    def load(self, st, a, w, where, guard=True, chk=True):
        if chk:
            self.memok(st, a, max(1, w // 8), where, guard)
        return self.loadmem(st, st.mem, a, w)

    def loadmem(self, st, mem, a, w):
        v = self.rdmem(st, mem, a, w)
        if w == 1:
            return tobool(imod(v, 2) == 1 if not isc(v) else v & 1)
        return v

    def store(self, st, a, v, w, where, chk=True, g=True):
        if chk:
            self.memok(st, a, max(1, w // 8), where, g)
        if w == 1:
            v = int(v) if isc(v) else z3.If(v, z3.IntVal(1), z3.IntVal(0))
            w = 8
        st.mem = Node('s', a, v if isc(v) else simp(v), st.mem, w, True if isc(g) else g)

    # ---- harness memory (concrete addresses only)
    def hload(self, st, a, w):
        n = max(1, w // 8)
        if not isc(a):
            # table of harness globals indexed symbolically
            raise Undecided('symbolic address in harness memory')
        v = st.h.get((a, n))
        if v is None:
            # assemble from bytes/words of constant data
            x, _ = self.H.initial(a, n)
            v = norm(x, 8 * n) if x is not None else 0
        if w == 1:
            return tobool(v)
        return v

    def ishar(self, a):
        return isc(a) and HGLO <= a < HSTK + 0x10000000

    # ---- evaluation of simple instructions
    def val(self, env, o, st):
        k = o[0]
        if k == 'k':
            return o[1]
        if k == 'r':
            try:
                return env[o[1]]
            except KeyError:
                raise Undecided('undefined value ' + o[1])
        if k == 'u':
            return self.fresh(self.P.w(o[1]), 'undef')
        raise Undecided('operand')

    def simple(self, st, env, ins, guard=True, har=False):
        k = ins[0]
        V = lambda o: self.val(env, o, st)
        self.cur_harness = har
        if k == 'bin':
            _, dst, op, w, a, b, where = ins
            a, b = V(a), V(b)
            env[dst] = self.binop(st, op, w, a, b, where, guard)
        elif k == 'icmp':
            _, dst, cc, w, a, b = ins
            env[dst] = self.icmp(cc, w, V(a), V(b))
        elif k == 'cast':
            _, dst, op, w, w2, a = ins
            env[dst] = self.cast(op, w, w2, V(a))
        elif k == 'select':
            _, dst, w, c, a, b = ins
            env[dst] = ite(V(c), V(a), V(b), w)
        elif k == 'gep':
            _, dst, base, const, terms = ins
            r = V(base)
            for o, w, sz in terms:
                x = V(o)
                r = r + (x if sz == 1 else x * sz)
            r = r + const
            env[dst] = canon(r)
        elif k == 'uf':
            _, dst, name, rw, args, ws = ins
            f = self.uf(name, ws, rw)
            env[dst] = f(*[bl(V(a)) if w == 1 else iv(V(a)) for a, w in zip(args, ws)])
            if rw > 1:
                self.assume(st, z3.And(env[dst] >= -(1 << (rw - 1)), env[dst] < (1 << (rw - 1))))
        elif k == 'extract':
            env[ins[1]] = env[ins[2]][ins[3]]
        elif k == 'unsupported':
            raise Undecided(ins[1])
        else:
            return False
        return True

    def binop(self, st, op, w, a, b, where, guard):
        if w == 1:
            if op == 'and':
                return simp_bool(b_and(a, b))
            if op == 'or':
                return simp_bool(b_or(a, b))
            if op in ('xor', 'add', 'sub'):
                if isc(a) and isc(b):
                    return bool(a) != bool(b)
                if isc(a):
                    a, b = b, a
                if isc(b):
                    return b_not(a) if b else a
                return simp_bool(z3.Xor(a, b))
            raise Undecided('i1 ' + op)
        if op in ('shl', 'lshr', 'ashr'):
            if isc(b) and not 0 <= b < w or not isc(b):
                self.check(st, simp_bool(z3.And(iv(b) >= 0, iv(b) < w)), 'shift amount in range %s' % where, guard=guard)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not isc(b):
                self.check(st, simp_bool(b != 0), 'division by zero %s' % where, guard=guard)
            elif b == 0:
                self.check(st, False, 'division by zero %s' % where, guard=guard)
                return 0
        if isc(a) and isc(b):
            m = (1 << w) - 1
            ua, ub = a & m, b & m
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b
            elif op == 'lshr':
                r = ua >> b
            elif op == 'ashr':
                r = a >> b
            elif op == 'udiv':
                r = ua // ub
            elif op == 'urem':
                r = ua % ub
            elif op == 'sdiv':
                r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            elif op == 'srem':
                r = abs(a) % abs(b) * (1 if a >= 0 else -1)
            return norm(r, w)
        if op == 'add':
            return self.nowrap(st, canon(iv(a) + iv(b)), w, '+', where, guard)
        if op == 'sub':
            return self.nowrap(st, canon(iv(a) - iv(b)), w, '-', where, guard)
        if op == 'mul':
            if isc(a) or isc(b):
                return self.nowrap(st, canon(iv(a) * iv(b)), w, '*', where, guard)
            return self.ufop(st, 'mul', w, a, b)
        if op in ('and', 'or', 'xor'):
            if isc(a):
                a, b = b, a
            p, q = boolof(a), boolof(b)
            if p is not None and q is not None:
                if op == 'and':
                    return frombool(simp_bool(b_and(p, q)))
                if op == 'or':
                    return frombool(simp_bool(b_or(p, q)))
                return frombool(simp_bool(z3.Xor(bl(p), bl(q))))
            if not isc(b) and op != 'and':
                # operands without common bits: a = 2^k * x, 0 <= b < 2^k
                if not self.cur_harness:
                    for k in (8, 3, 16):
                        for p, q in ((a, b), (b, a)):
                            if self.must(st, z3.And(iv(q) >= 0, iv(q) < (1 << k), iv(p) % (1 << k) == 0)):
                                return canon(iv(a) + iv(b))
            if not isc(b):
                return self.ufop(st, op, w, a, b)
            x = andc(a, b)
            if op == 'and':
                return x
            return canon(a + b - x) if op == 'or' else canon(a + b - 2 * x)
        if op == 'shl' and isc(b) and self.spec.get('wrapshl') and not self.cur_harness:
            r = canon(a * (1 << b))
            if self.sat(st, z3.And(bl(guard), z3.Not(z3.And(r >= -(1 << (w - 1)), r < (1 << (w - 1)))))) is not False:
                r = simp((r + (1 << (w - 1))) % (1 << w) - (1 << (w - 1)))
            return r
        if op == 'shl' and isc(b):
            return self.nowrap(st, canon(a * (1 << b)), w, '<<', where, guard)
        if op == 'ashr' and isc(b):
            return idiv(a, 1 << b)
        if op == 'lshr' and isc(b):
            if b == 0:
                return a
            return simp(z3.If(a >= 0, a / (1 << b), (a + (1 << w)) / (1 << b)))
        if op in ('sdiv', 'srem') and isc(b) and b > 0:
            q = simp(z3.If(a >= 0, a / b, -((-a) / b)))
            return q if op == 'sdiv' else simp(a - b * q)
        if op in ('udiv', 'urem') and isc(b) and b > 0:
            x = z3.If(a >= 0, a, a + (1 << w))
            return simp(x / b) if op == 'udiv' else simp(x % b)
        return self.ufop(st, op, w, a, b)

    def ufop(self, st, op, w, a, b):
        v = self.uf('uf_%s_%d' % (op, w), [w, w], w)(iv(a), iv(b))
        self.assume(st, z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))))
        return v

    def nowrap(self, st, r, w, op, where, guard):
        if isc(r) or where is None or self.cur_harness or not self.ovf:
            return r
        if w < 32:
            raise Undecided('narrow arithmetic at ' + where)
        lo, hi = -(1 << (w - 1)), 1 << (w - 1)
        t, c = lin(r)
        k = r.get_id()
        if k in st.nw:
            return r
        self.check(st, z3.And(r >= lo, r < hi), 'no overflow in %s at %s' % (op, where), guard=guard)
        st.nw.add(k)
        _keep.append(r)
        return r

    def icmp(self, cc, w, a, b):
        if w == 1:
            e = bl(a) == bl(b)
            return simp_bool(e if cc == 'eq' else z3.Not(e))
        if isc(a) and isc(b):
            if cc[0] == 'u':
                a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[
                cc if cc in ('eq', 'ne') else cc[1:]]
        if cc in ('eq', 'ne') and (isc(b) and b in (0, 1) or isc(a) and a in (0, 1)):
            x, y = (a, b) if isc(b) else (b, a)
            c = boolof(x)
            if c is not None:
                return c if (y == 1) == (cc == 'eq') else b_not(c)
        A, B = iv(a), iv(b)
        if cc[0] == 'u':
            # two's complement: negative numbers are above all non-negative ones
            if cc[1:] in ('gt', 'ge'):
                A, B, op = B, A, 'lt' if cc[1:] == 'gt' else 'le'
            else:
                op = cc[1:]
            lt = A < B if op == 'lt' else A <= B
            return simp_bool(z3.If(A >= 0, z3.If(B >= 0, lt, z3.BoolVal(True)), z3.If(B >= 0, z3.BoolVal(False), lt)))
        e = {'eq': lambda: A == B, 'ne': lambda: A != B, 'sgt': lambda: A > B, 'sge': lambda: A >= B,
             'slt': lambda: A < B, 'sle': lambda: A <= B}[cc]()
        return simp_bool(e)

    def cast(self, op, w, w2, a):
        if op == 'trunc':
            if w2 == 1:
                return bool(a & 1) if isc(a) else simp_bool(imod(a, 2) == 1)
            if isc(a):
                return norm(a, w2)
            if boolof(a) is not None:
                return a
            h = 1 << (w2 - 1)
            return simp((a + h) % (1 << w2) - h)
        if w == 1 and op in ('zext', 'sext'):
            t = 1 if op == 'zext' else -1
            return (t if a else 0) if isc(a) else z3.If(a, z3.IntVal(t), z3.IntVal(0))
        if op == 'zext':
            if isc(a):
                return a & ((1 << w) - 1)
            if boolof(a) is not None:
                return a
            # the result of a truncation: take the unsigned residue directly
            return simp(z3.If(a >= 0, a, a + (1 << w)))
        if op == 'sext' or w == w2:
            return a
        if w2 > w:
            return self.cast('zext', w, w2, a)
        return self.cast('trunc', w, w2, a)

    def coerce(self, v, w, w2):
        if w == w2:
            return v
        if w2 == 1:
            return tobool(v)
        if w == 1:
            return self.cast('zext', 1, w2, v)
        return self.cast('zext' if w2 > w else 'trunc', w, w2, v)

    # ---- call resolution
    def resolve(self, mod, name):
        """-> ('fn', Mod, realname) | ('intr', name) | ('ext', name)"""
        if mod is self.H:
            if name in self.H.M.funcs:
                return ('fn', self.H, name)
            if name.startswith('f_') and name[2:] in self.P.M.funcs:
                return ('fn', self.P, name[2:])
            if name.startswith(('vx_', 'llvm.')):
                return ('intr', name)
            return ('ext', name)
        if name in self.drop or (name in NOEFFECT and 'x_' + name not in self.H.M.funcs):
            return ('nop', name)
        if name in self.contracts:
            return ('fn', self.H, 'c_' + name)
        if name in self.P.M.funcs:
            return ('fn', self.P, name)
        if name.startswith('llvm.memcpy.') and 'x_memcpy' in self.H.M.funcs:
            return ('fn', self.H, 'x_memcpy')
        if name.startswith('llvm.'):
            return ('intr', name)
        if 'x_' + name in self.H.M.funcs:
            return ('fn', self.H, 'x_' + name)
        return ('ext', name)

    PUREINTR = ('vx_nd', 'vx_rd', 'vx_r0', 'vx_rk', 'vx_ghost_', 'vx_assume', 'vx_check', 'vx_uf', 'llvm.abs', 'llvm.umin', 'llvm.umax',
                'llvm.smin', 'llvm.smax', 'llvm.expect')

    def ispure(self, mod, name, seen=()):
        k = (mod.tag, name)
        if k in self.pure:
            return self.pure[k]
        if k in seen:
            return False
        F = mod.decode(name)
        r = not F.loops and not (mod is self.P and name in self.merge_off)
        if r:
            for b in F.blocks.values():
                for i in b:
                    if not self.pureins(mod, i, seen + (k,)):
                        r = False
                        break
                if not r:
                    break
        self.pure[k] = r
        return r

    def pureins(self, mod, i, seen=()):
        if i[0] in ('store', 'alloca', 'cmpxchg', 'rmw', 'unreachable'):
            return False
        if i[0] == 'load' and i[5] and 'interfere' in self.H.M.funcs and mod is self.P:
            return False
        if i[0] == 'call':
            if i[3] is None:
                return False
            r = self.resolve(mod, i[3] + ('_n%d' % len(i[4]) if i[7] and mod is self.P else ''))
            if r[0] == 'fn':
                return self.ispure(r[1], r[2], seen)
            if r[0] == 'intr':
                return r[1].startswith(self.PUREINTR)
            return True
        return True

    def evalpure(self, st, name, args, guard, mod=None):
        mod = mod or self.H
        F = mod.decode(name)
        self.used.add((mod.tag, name))
        env = {}
        for (t, n), a in zip(F.params, args):
            env[n] = a
        rets = []
        self.region(st, F, env, F.entry, None, guard, rets, None)
        if F.ret[0] == 'void':
            return None
        w = mod.w(F.ret)
        if not rets:
            return self.fresh(w)
        v = rets[-1][1]
        for g, x in reversed(rets[:-1]):
            v = ite(g, x, v, w)
        return v

    def region(self, st, F, env, start, stop, guard, rets, startprev):
        """if-convert the acyclic pure region from start; stop: block (its phis are returned merged) or None"""
        order = self.topo(F, start, stop)
        gb = {start: guard}
        edges = {}
        for b in order:
            g = gb.get(b, False)
            if isc(g) and not g:
                continue
            if b != start or startprev is None:
                if b != start:
                    self.mergephis(F, env, b, edges.get(b, []))
            for ins in F.blocks[b]:
                k = ins[0]
                if k == 'jmp':
                    self.addedge(gb, edges, b, ins[1], g)
                elif k == 'br':
                    c = tobool(self.val(env, ins[1], st))
                    if ins[2] == ins[3]:
                        self.addedge(gb, edges, b, ins[2], g)
                    else:
                        self.addedge(gb, edges, b, ins[2], self.gand(g, c))
                        self.addedge(gb, edges, b, ins[3], self.gand(g, b_not(c)))
                elif k == 'switch':
                    v = self.val(env, ins[1], st)
                    rest = g
                    tg = {}
                    for cv, l in ins[4]:
                        c = self.icmp('eq', ins[2], v, cv)
                        tg.setdefault(l, []).append(c)
                        rest = self.gand(rest, b_not(c))
                    for l, cs in tg.items():
                        self.addedge(gb, edges, b, l, self.gand(g, b_or(*cs)))
                    self.addedge(gb, edges, b, ins[3], rest)
                elif k == 'ret':
                    rets.append((g, None if ins[1] is None else self.val(env, ins[1], st)))
                elif k == 'load':
                    a = self.val(env, ins[3], st)
                    env[ins[1]] = self.hload(st, a, ins[2]) if F.mod is self.H else self.load(st, a, ins[2], ins[4], g)
                elif k == 'call':
                    self.purecall(st, F, env, ins, g)
                elif not self.simple(st, env, ins, g, F.mod is self.H):
                    raise Undecided('impure instruction in pure region: %s' % (ins,))
        return edges.get(stop, []) if stop is not None else None

    def gand(self, a, b):
        r = b_and(a, b)
        return r if isc(r) else simp_bool(r)

    def addedge(self, gb, edges, src, dst, g):
        if isc(g) and not g:
            return
        edges.setdefault(dst, []).append((src, g))
        gb[dst] = b_or(gb.get(dst, False), g)
        if not isc(gb[dst]):
            gb[dst] = simp_bool(gb[dst])

    def mergephis(self, F, env, b, ed):
        if not F.phis[b]:
            return
        new = {}
        for v, t, inc in F.phis[b]:
            w = F.mod.w(t)
            vals = [(g, self.val(env, inc[s], None) if inc[s][0] != 'u' else self.fresh(w)) for s, g in ed]
            x = vals[-1][1]
            for g, y in reversed(vals[:-1]):
                x = ite(g, y, x, w)
            new[v] = x
        env.update(new)

    def topo(self, F, start, stop):
        key = (start, stop)
        if not hasattr(F, 'topoc'):
            F.topoc = {}
        if key in F.topoc:
            return F.topoc[key]
        seen, out = set(), []

        def dfs(b):
            if b in seen or b == stop:
                return
            seen.add(b)
            for s in F.succ[b]:
                dfs(s)
            out.append(b)
        dfs(start)
        out.reverse()
        F.topoc[key] = out
        return out

    def purecall(self, st, F, env, ins, g):
        _, dst, rw, name, args, where, _, va = ins
        vals = [(w, self.val(env, o, st)) for w, o in args]
        r = self.resolve(F.mod, name + ('_n%d' % len(args) if va and F.mod is self.P else ''))
        if r[0] == 'fn':
            m, n = r[1], r[2]
            G = m.decode(n)
            a2 = [self.coerce(v, w, m.w(t)) for (w, v), (t, _) in zip(vals, G.params)]
            v = self.evalpure(st, n, a2, g, m)
            if dst:
                env[dst] = self.coerce(v, m.w(G.ret), rw) if rw else None
        elif r[0] == 'intr':
            v = self.intrinsic(st, r[1], vals, rw, where, g, F)
            if dst:
                env[dst] = v
        else:
            self.assumed.add('external %s: arbitrary result, no effect on the database' % r[1])
            if dst:
                x = self.freshw(st, rw, 'ext')
                env[dst] = x

    def cstr(self, a):
        out = b''
        while True:
            v, _ = self.H.initial(a + len(out), 1)
            if not v:
                return out.decode(errors='replace')
            out += bytes([v])

    def intrinsic(self, st, n, vals, rw, where, guard, F):
        V = [v for w, v in vals]
        if n.startswith(('vx_rd', 'vx_rk')):
            self.lazy = not self.eager
            try:
                k, a = (None, V[0]) if n.startswith('vx_rd') else (V[0], V[1])
                w = 16 if n.endswith('16') else 32 if n.endswith('32') else 8 if n.endswith('8') else 64
                return self.loadmem(st, st.mem if k is None else st.snaps[k], a, w)
            finally:
                self.lazy = False
        if n.startswith('vx_nd'):
            x = self.fresh(rw, 'nd')
            if rw < 64:
                self.assume(st, z3.And(x >= -(1 << (rw - 1)), x < (1 << (rw - 1))))
            st.nd.append((guard, x))
            return x
        if n == 'vx_assume':
            c = tobool(V[0])
            if isc(guard) and guard:
                self.assume(st, c)
                if not isc(c) and guard is True and not getattr(self, '_lazy', False):
                    pass
            else:
                c2 = b_or(b_not(guard), c)
                self.assume(st, c2 if isc(c2) else simp_bool(c2))
            return None
        if n == 'vx_inrange':
            # a 64-bit word read from memory or chosen by the environment is a 64-bit number
            if not isc(V[0]):
                self.assume(st, z3.And(iv(V[0]) >= -(1 << 63), iv(V[0]) < (1 << 63)))
            return None
        if n == 'vx_check':
            self.check(st, tobool(V[0]), self.cstr(V[1]), guard=guard)
            return None
        if n == 'vx_cover':
            d = 'COVER ' + self.cstr(V[0])
            p = self.props.setdefault(('cover', d), {'ok': 0, 'fail': 0, 'unknown': 0, 'time': 0.0})
            if not p['fail'] and self.sat(st, guard) is not False:
                p['fail'] += 1
            return None
        if n == 'vx_rd':
            return self.rdword(st, st.mem, V[0])
        if n == 'vx_rd32':
            return self.loadmem(st, st.mem, V[0], 32)
        if n == 'vx_rd16':
            return self.loadmem(st, st.mem, V[0], 16)
        if n == 'vx_rd8':
            return self.loadmem(st, st.mem, V[0], 8)
        if n == 'vx_rk':
            return self.rdword(st, st.snaps[V[0]], V[1])
        if n == 'vx_rk32':
            return self.loadmem(st, st.snaps[V[0]], V[1], 32)
        if n == 'vx_rk8':
            return self.loadmem(st, st.snaps[V[0]], V[1], 8)
        if n == 'vx_stkend':  # end of the local variable that contains the address, 0 if none does
            a = V[0]
            if not isc(a):
                return 0
            return max([b + z for b, z in st.allocs if b <= a < b + z] + [0])
        if n == 'vx_def':
            a = canon(V[0])
            st.reads.append((a, iv(V[1]), 64))
            old = st.defs.get((64, linkey(a)))
            if old is not None:
                self.assume(st, simp_bool(iv(old) == iv(V[1])))
                return None
            self.assume(st, self.base[64](iv(a)) == iv(V[1]))
            if any(k[2] == linkey(a) for k in st.rc if k[1] == 64):
                return None
            st.defs[(64, linkey(a))] = canon(V[1])
            return None
        if n == 'vx_snapshot':
            st.snaps[V[0]] = st.mem
            return None
        if n == 'vx_wr':
            self.store(st, V[0], V[1], 64, where, chk=False)
            return None
        if n == 'vx_wr32':
            self.store(st, V[0], V[1], 32, where, chk=False)
            return None
        if n == 'vx_wr8':
            self.store(st, V[0], V[1], 8, where, chk=False)
            return None
        if n.startswith('vx_havoc'):
            self.symn += 1
            u = {w: z3.Function('H%d!%d' % (w, self.symn), z3.IntSort(), z3.IntSort()) for w in (8, 16, 32, 64)}
            if n == 'vx_havoc_all':
                k = ('all',)
            elif n == 'vx_havoc_range':
                k = ('range', V[0], V[1])
            elif n == 'vx_havoc_word':
                k = ('word', V[0])
            else:
                fn = self.H.fname(V[0])
                k = ('pred', fn, tuple(V[1:]))
            st.mem = Node('h', k, u, st.mem)
            return None
        if n.startswith('vx_ghost_'):
            f = self.uf('G_' + n[9:], [64], rw)
            v = f(iv(canon(V[0])))
            if v.get_id() in st.conc:
                return st.conc[v.get_id()]
            if rw < 64:
                self.assume(st, z3.And(v >= (-(1 << (rw - 1)) if rw > 8 else 0), v < (1 << (rw - 1))))
            st.ghosts.append((n[9:], V[0], v))
            return v
        if n.startswith('vx_uf'):
            f = self.uf(n, [w for w, v in vals], rw)
            return f(*[bl(v) if w == 1 else iv(v) for w, v in vals])
        m = re.match(r'llvm\.(smax|smin|umax|umin)\.i(\d+)$', n)
        if m:
            w = int(m.group(2))
            cc = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[m.group(1)]
            return ite(self.icmp(cc, w, V[0], V[1]), V[0], V[1], w)
        m = re.match(r'llvm\.abs\.i(\d+)$', n)
        if m:
            w = int(m.group(1))
            return ite(self.icmp('slt', w, V[0], 0), simp(-V[0]), V[0], w)
        if n.startswith('llvm.expect'):
            return V[0]
        if n.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            if not isc(V[2]) or V[2] > 4096:
                ms = n.startswith('llvm.memset')
                if ms and not isc(V[1]):
                    raise Undecided('memset value')
                nz = iv(V[2]) != 0
                self.check(st, simp_bool(z3.And(iv(V[2]) >= 0, iv(V[2]) < (1 << 48))), 'mem: size of a copied range at %s' % where, guard=guard)
                for a in (V[0],) if ms else (V[0], V[1]):
                    for e in (a, canon(iv(a) + iv(V[2]) - 1)):
                        self.memok(st, e, 1, where, simp_bool(z3.And(bl(guard), nz)))
                if not n.startswith('llvm.memmove') and not ms:
                    self.check(st, simp_bool(z3.Or(iv(V[0]) + iv(V[2]) <= iv(V[1]), iv(V[1]) + iv(V[2]) <= iv(V[0]))), 'mem: copied ranges do not overlap at %s' % where, guard=guard)
                if not (isc(guard) and guard is True or guard == 1):
                    raise Undecided('copy in a merged region')
                st.mem = Node('c', (V[0], V[2], None if ms else V[1]), V[1] & 255 if ms else None, st.mem)
                return None
            har = self.ishar(V[0])
            sz = V[2]
            if n.startswith('llvm.memset'):
                if not isc(V[1]):
                    raise Undecided('memset value')
                for i in range(0, sz, 8):
                    k = min(8, sz - i)
                    if k == 8:
                        self.store(st, self.addc(V[0], i), norm(int.from_bytes(bytes([V[1] & 255]) * 8, 'little'), 64), 64, where)
                    else:
                        for j in range(k):
                            self.store(st, self.addc(V[0], i + j), V[1], 8, where)
                return None
            vs = []
            for i in range(0, sz, 8):
                k = min(8, sz - i)
                if k == 8:
                    vs.append((i, self.load(st, self.addc(V[1], i), 64, where), 64))
                else:
                    vs += [(i + j, self.load(st, self.addc(V[1], i + j), 8, where), 8) for j in range(k)]
            for i, v, w in vs:
                self.store(st, self.addc(V[0], i), v, w, where)
            return None
        raise Undecided('intrinsic ' + n)

    def addc(self, a, c):
        return a + c if isc(a) else simp(a + c)

    # ---- path exploration
    def run(self, entry):
        st = State()
        st.frames, st.snaps, st.h, st.pc, st.nd = [], {}, {}, [], []
        st.mem = Node('b', None, None, None)
        st.sp, st.hsp, st.allocs = STKBASE, HSTK, ()
        st.reads, st.ghosts, st.rc, st.indb, st.rel, st.nw = [], [], {}, {}, {}, set()
        st.conc, st.defs = {}, {}
        st.hooked, st.nq = set(), 0
        st.solver = None
        st.lastmodel = None
        st.trail = []
        st.cut = st.wide = None
        self.push(st, self.H, entry, [], None, None)
        self.explore([st], time.time() + 4)

    def parallel(self, work):
        """explore the pending paths in forked processes and merge what they found"""
        n = min(self.spec.get('procs', 8), len(work))
        kids = []
        sys.stdout.flush()
        for i in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                err = None
                self.props, self.failmodels, self.paths, self.queries, self.qtime = {}, {}, 0, 0, 0.0
                try:
                    self.explore(work[i::n], None)
                except (Undecided, Unsupported) as e:
                    err = str(e)
                except MemoryError:
                    err = 'out of memory'
                except BaseException as e:
                    import traceback
                    traceback.print_exc()
                    err = 'engine error: %r' % e
                try:
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump((err, self.props, self.failmodels, self.paths, self.queries, self.qtime, self.used, self.assumed), f)
                finally:
                    os._exit(0)
            os.close(w)
            kids.append((pid, r))
        errs = []
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                try:
                    err, props, fm, pa, qu, qt, us, asm = pickle.load(f)
                except EOFError:
                    err, props, fm, pa, qu, qt, us, asm = 'worker ended', {}, {}, 0, 0, 0.0, set(), set()
            os.waitpid(pid, 0)
            if err:
                errs.append(err)
            for k, v in props.items():
                d = self.props.setdefault(k, {'ok': 0, 'fail': 0, 'unknown': 0, 'time': 0.0})
                for x in d:
                    d[x] += v[x]
            for k, v in fm.items():
                self.failmodels.setdefault(k, v)
            self.paths += pa
            self.queries += qu
            self.qtime += qt
            self.used |= us
            self.assumed |= asm
        if errs:
            raise Undecided(errs[0])

    def explore(self, work, switch):
        while work:
            if switch is not None and time.time() > switch:
                if len(work) >= 40 or (len(work) >= 6 and time.time() > switch + 6):
                    return self.parallel(work)
                st = work.pop(0)
            else:
                st = work.pop()
            try:
                self.path(st, work)
            except PathEnd as e:
                if self.verbose:
                    print('   path end (%s) queries=%d qtime=%.1f %s' % (e, self.queries, self.qtime, st.trail[-6:]), flush=True)
            self.paths += 1
            st.solver = None
            if self.paths > self.spec.get('max_paths', 20000):
                raise Undecided('too many paths')

    def push(self, st, mod, name, args, dst, retw, post=None):
        F = mod.decode(name)
        self.used.add((mod.tag, name))
        fr = Frame()
        fr.F, fr.block, fr.ip, fr.env, fr.dst, fr.prevblk, fr.visits, fr.post, fr.retw = F, F.entry, 0, {}, dst, None, {}, post, retw
        for (t, n), (w, a) in zip(F.params, args):
            fr.env[n] = self.coerce(a, w, mod.w(t))
        st.frames.append(fr)
        if len(st.frames) > 60:
            raise Undecided('recursion too deep in %s' % name)

    def path(self, st, work):
        while st.frames:
            fr = st.frames[-1]
            F = fr.F
            ins = F.blocks[fr.block][fr.ip]
            fr.ip += 1
            k = ins[0]
            env = fr.env
            if k == 'load':
                a = self.val(env, ins[3], st)
                if F.mod is self.H:
                    env[ins[1]] = self.hload(st, a, ins[2])
                else:
                    if self.onload and (not isc(a) or DBBASE <= a < DBBASE + (1 << 43)) and linkey(a) not in st.hooked:
                        st.hooked.add(linkey(a))
                        fr.ip -= 1
                        self.push(st, self.H, 'on_load', [(64, a)], None, None)
                        continue
                    if ins[5] and 'interfere' in self.H.M.funcs and self.needint(st, a):
                        fr.ip -= 1
                        st.cut = ('int', id(ins))
                        self.push(st, self.H, 'interfere', [], None, None, post=('int',))
                        continue
                    env[ins[1]] = self.load(st, a, ins[2], ins[4])
            elif k == 'store':
                a = self.val(env, ins[3], st)
                v = self.val(env, ins[2], st)
                if F.mod is self.H:
                    if not self.ishar(a):
                        raise Undecided('harness store to symbolic address')
                    st.h[(a, max(1, ins[1] // 8))] = v
                else:
                    if self.step_hook(st, fr, ins, a):
                        continue
                    self.store(st, a, v, ins[1], ins[4])
            elif k == 'call':
                self.docall(st, fr, ins, work)
            elif k == 'jmp':
                self.goto(st, fr, ins[1])
            elif k == 'br':
                c = tobool(self.val(env, ins[1], st))
                if isc(c):
                    self.goto(st, fr, ins[2] if c else ins[3])
                    continue
                if F.mod is self.H or F.name in self.merge_prog:
                    if self.trymerge(st, fr):
                        continue
                t = self.sat(st, c)
                if t is False:
                    self.assume(st, b_not(c))
                    self.goto(st, fr, ins[3])
                    continue
                e = self.sat(st, b_not(c))
                if e is False:
                    self.assume(st, c)
                    self.goto(st, fr, ins[2])
                    continue
                if self.storemerge and F.mod is self.P and not (self.sat(st, c) is False or self.sat(st, b_not(c)) is False) and \
                        self.trymerge(st, fr, True):
                    continue
                o = st.fork()
                o.trail.append('%s:%s else' % (F.name, fr.block))
                st.trail.append('%s:%s then' % (F.name, fr.block))
                self.assume(o, b_not(c))
                work.append(o)
                # the fork re-executes from the branch target
                self.assume(st, c)
                of = o.frames[-1]
                try:
                    self.goto(o, of, ins[3])
                except PathEnd:
                    work.remove(o)
                self.goto(st, fr, ins[2])
            elif k == 'switch':
                v = self.val(env, ins[1], st)
                if isc(v):
                    for cv, l in ins[4]:
                        if cv == v:
                            self.goto(st, fr, l)
                            break
                    else:
                        self.goto(st, fr, ins[3])
                    continue
                if F.mod is self.H or F.name in self.merge_prog:
                    if self.trymerge(st, fr):
                        continue
                alts = [(self.icmp('eq', ins[2], v, cv), l) for cv, l in ins[4]]
                alts.append((b_and(*[b_not(c) for c, _ in alts]), ins[3]))
                live = [(c, l) for c, l in alts if self.sat(st, c) is not False]
                if not live:
                    raise PathEnd('infeasible switch')
                for c, l in live[1:]:
                    o = st.fork()
                    o.trail.append('%s:%s switch %s' % (F.name, fr.block, l))
                    self.assume(o, c)
                    try:
                        self.goto(o, o.frames[-1], l)
                        work.append(o)
                    except PathEnd:
                        pass
                self.assume(st, live[0][0])
                self.goto(st, fr, live[0][1])
            elif k == 'ret':
                v = None if ins[1] is None else self.val(env, ins[1], st)
                self.doret(st, fr, v)
            elif k == 'alloca':
                if F.mod is self.H:
                    env[ins[1]] = st.hsp
                    st.hsp += ins[2]
                else:
                    env[ins[1]] = st.sp
                    st.allocs += ((st.sp, ins[3]),)
                    st.sp += ins[2]
            elif k == 'unreachable':
                raise PathEnd('unreachable')
            elif k == 'cmpxchg':
                _, dst, w, pa, ov, nv, where = ins
                a = self.val(env, pa, st)
                if self.step_hook(st, fr, ins, a):
                    continue
                old = self.load(st, a, w, where)
                eq = self.icmp('eq', w, old, self.val(env, ov, st))
                n = self.val(env, nv, st)
                self.store(st, a, ite(eq, n, old, w), w, where)
                env[dst] = (old, eq)
                self.after_step(st, fr)
            elif k == 'rmw':
                _, dst, op, w, pa, v, where = ins
                a = self.val(env, pa, st)
                if self.step_hook(st, fr, ins, a):
                    continue
                old = self.load(st, a, w, where)
                x = self.val(env, v, st)
                new = x if op == 'xchg' else self.binop(st, op, w, old, x, where, True)
                self.store(st, a, new, w, where)
                env[dst] = old
                self.after_step(st, fr)
            elif not self.simple(st, env, ins, True, F.mod is self.H):
                raise Undecided('instruction %s' % (ins,))

    # atomic-step hooks for rely/guarantee proofs
    def step_hook(self, st, fr, ins, a):
        return False

    def after_step(self, st, fr):
        pass

    def needint(self, st, a):
        return False

    def doret(self, st, fr, v):
        st.frames.pop()
        if not st.frames:
            raise PathEnd('done')
        up = st.frames[-1]
        if fr.post:
            kind = fr.post[0]
            if kind == 'loopcut':
                self.loop_continue(st, up, fr.post)
                return
        if fr.dst and v is not None:
            up.env[fr.dst] = self.coerce(v, fr.F.mod.w(fr.F.ret), fr.retw)

    def docall(self, st, fr, ins, work):
        _, dst, rw, name, args, where, ind, va = ins
        F = fr.F
        vals = [(w, self.val(fr.env, o, st)) for w, o in args]
        if name is None:
            a = fr.env[ind]
            nm = F.mod.fname(a) if isc(a) else None
            if nm is None:
                raise Undecided('indirect call at ' + where)
            name = nm
        r = self.resolve(F.mod, name + ('_n%d' % len(args) if va and F.mod is self.P else ''))
        if r[0] == 'fn':
            m, n = r[1], r[2]
            if self.ispure(m, n):
                G = m.decode(n)
                a2 = [self.coerce(v, w, m.w(t)) for (w, v), (t, _) in zip(vals, G.params)]
                v = self.evalpure(st, n, a2, True, m)
                if dst and rw:
                    fr.env[dst] = self.coerce(v, m.w(G.ret), rw)
                return
            self.push(st, m, n, vals, dst, rw)
        elif r[0] == 'intr' and r[1] in ('vx_fork', 'vx_forkm'):
            x, n = vals[0][1], vals[1][1]
            alts = list(range(n)) if r[1] == 'vx_fork' else [k for k in range(16) if n >> k & 1]
            if isc(x):
                if r[1] == 'vx_forkm' and x not in alts:
                    raise PathEnd('case excluded')
                fr.env[dst] = x
                return
            self.assume(st, z3.Or([x == k for k in alts]))
            live = [k for k in alts if self.sat(st, iv(x) == k) is not False]
            if not live:
                raise PathEnd('no feasible case')
            for k in live[1:]:
                o = st.fork()
                o.trail.append('case %d at %s' % (k, where))
                self.assume(o, x == k)
                o.conc[x.get_id()] = k
                o.frames[-1].env[dst] = k
                work.append(o)
            _keep.append(x)
            st.trail.append('case %d at %s' % (live[0], where))
            self.assume(st, x == live[0])
            st.conc[x.get_id()] = live[0]
            fr.env[dst] = live[0]
        elif r[0] == 'intr':
            v = self.intrinsic(st, r[1], vals, rw, where, True, F)
            if r[1] == 'vx_assume' and self.sat(st, True) is False:
                raise PathEnd('assumptions unsatisfiable')
            if dst:
                fr.env[dst] = v
        else:
            if r[0] != 'nop':
                self.assumed.add('external %s: arbitrary result, no effect on the database' % r[1])
            if dst:
                fr.env[dst] = self.freshw(st, rw, 'ext')

    def trymerge(self, st, fr, storeonly=False):
        """if-convert the hammock starting at the current branch when it is pure and acyclic"""
        F = fr.F
        b = fr.block
        if not hasattr(F, 'ham'):
            F.ham = {}
        hk = (b, storeonly)
        if hk not in F.ham:
            F.ham[hk] = self.findstoreham(F, b) if storeonly else self.findham(F, b)
        stop = F.ham[hk]
        if stop is None:
            return False
        env = fr.env
        # evaluate: treat the branch itself as first instruction of the region
        ins = F.blocks[b][-1]
        gb, edges = {}, {}
        order = [x for x in self.topo(F, b, stop) if x != b]

        def branch(bn, i, g):
            if i[0] == 'jmp':
                self.addedge(gb, edges, bn, i[1], g)
            elif i[0] == 'br':
                c = tobool(self.val(env, i[1], st))
                if i[2] == i[3]:
                    self.addedge(gb, edges, bn, i[2], g)
                else:
                    self.addedge(gb, edges, bn, i[2], self.gand(g, c))
                    self.addedge(gb, edges, bn, i[3], self.gand(g, b_not(c)))
            else:
                v = self.val(env, i[1], st)
                rest, tg = g, {}
                for cv, l in i[4]:
                    c = self.icmp('eq', i[2], v, cv)
                    tg.setdefault(l, []).append(c)
                    rest = self.gand(rest, b_not(c))
                for l, cs in tg.items():
                    self.addedge(gb, edges, bn, l, self.gand(g, b_or(*cs)))
                self.addedge(gb, edges, bn, i[3], rest)
        branch(b, ins, True)
        for x in order:
            g = gb.get(x, False)
            if isc(g) and not g:
                continue
            self.mergephis(F, env, x, edges.get(x, []))
            for i in F.blocks[x]:
                if i[0] in ('jmp', 'br', 'switch'):
                    branch(x, i, g)
                elif i[0] == 'load':
                    a = self.val(env, i[3], st)
                    env[i[1]] = self.hload(st, a, i[2]) if F.mod is self.H else self.load(st, a, i[2], i[4], g)
                elif i[0] == 'call':
                    self.purecall(st, F, env, i, g)
                elif i[0] == 'store' and storeonly:
                    self.store(st, self.val(env, i[3], st), self.val(env, i[2], st), i[1], i[4], g=g)
                elif not self.simple(st, env, i, g, F.mod is self.H):
                    raise Undecided('merge')
        self.mergephis(F, env, stop, edges.get(stop, []))
        fr.prevblk, fr.block, fr.ip = b, stop, 0
        return True

    def findstoreham(self, F, b):
        """the pattern: if (c) { a few stores } with no loads, calls or values flowing out"""
        for x, stop in (F.succ[b], F.succ[b][::-1]) if len(F.succ[b]) == 2 else ():
            if x != stop and F.succ[x] == [stop] and F.pred[x] == [b] and stop not in F.loops and not F.phis[stop] and \
                    any(i[0] == 'store' for i in F.blocks[x]) and \
                    all(i[0] in ('store', 'jmp', 'bin', 'cast', 'gep', 'icmp', 'load') for i in F.blocks[x]):
                return stop
        return None

    def findham(self, F, b):
        """immediate post-dominator of b when everything in between is pure and acyclic"""
        headers = set(F.loops)
        # candidate stops: blocks reachable; find the nearest block that all paths reach
        def reach_all(stop):
            seen, stack = set(), [s for s in F.succ[b]]
            while stack:
                x = stack.pop()
                if x == stop or x in seen:
                    continue
                if x == b or x in headers:
                    return None
                if len(seen) > 60:
                    return None
                seen.add(x)
                if not F.succ[x]:
                    return None
                for i in F.blocks[x]:
                    if i[0] not in ('jmp', 'br', 'switch') and not self.pureins(F.mod, i):
                        return None
                stack.extend(F.succ[x])
            return seen
        cand, q, seen = [], list(F.succ[b]), set()
        while q:
            x = q.pop(0)
            if x in seen:
                continue
            seen.add(x)
            cand.append(x)
            q.extend(F.succ[x])
        for c in cand:
            if c in headers:
                continue
            if reach_all(c) is not None:
                return c
        return None

    def goto(self, st, fr, dst):
        F = fr.F
        src = fr.block
        ph = F.phis[dst]
        new = {}
        for v, t, inc in ph:
            o = inc[src]
            new[v] = self.val(fr.env, o, st)
        fr.env.update(new)
        fr.prevblk, fr.block, fr.ip = src, dst, 0
        if dst in F.loops:
            L = F.loops[dst]
            back = src in L['body']
            inv = self.loopinv.get((F.name, L['k'])) if F.mod is self.P else None
            if inv is not None:
                names = self.loopargs(F, dst, inv)
                lid = '%s_%d' % (ll2c.san(F.name), L['k'])
                if '@n' in names:
                    # the number of completed iterations; the variables with a constant step follow from it
                    if back:
                        fr.env['@n'] = canon(iv(fr.visits[('n', dst)]) + 1)
                    else:
                        fr.env['@n'] = 0
                args = [(self.wof(F, n), fr.env[n]) for n in names]
                if back:
                    self.push(st, self.H, 'LI_ASSERT_' + lid, args, None, None, post=('loopcut', 'end', lid, names))
                else:
                    self.push(st, self.H, 'LI_ASSERT_' + lid, args, None, None, post=('loopcut', 'havoc', lid, names))
                return
            if self.autocut and F.mod is self.P and F.name not in self.spec.get('unrolled', []):
                if back:
                    mid, hh = fr.visits[('cut', dst)]
                    if mid != st.mem.id or self.hstate(st) != hh:
                        raise Undecided('loop %d of %s has effects and no invariant' % (L['k'], F.name))
                    raise PathEnd('loop preserved')
                fr.visits[('cut', dst)] = (st.mem.id, self.hstate(st))
                self.autocut_phis(st, fr, dst, src)
                if self.widened(F, dst, True):
                    st.wide = F.name
                return
            fr.visits[dst] = fr.visits.get(dst, 0) + 1 if back else 1
            if fr.visits[dst] > self.unroll:
                raise Undecided('loop %d of %s exceeds the unrolling limit' % (L['k'], F.name))

    def hstate(self, st):
        """harness variables except those that only collect facts about the initial state"""
        if self.factrng is None:
            self.factrng = []
            for n in self.spec.get('facts', []):
                a = self.H.gaddr(n)
                self.factrng.append((a, a + self.H.T.size(self.H.M.globals[n][0])))
        return {k: v for k, v in st.h.items() if not any(lo <= k[0] < hi for lo, hi in self.factrng) and k[0] < HSTK}

    def autocut_phis(self, st, fr, dst, src):
        """a loop without effects: its variables become arbitrary, counters keep their distance to the start a multiple of the step"""
        F = fr.F
        body = F.loops[dst]['body']
        for v, t, inc in F.phis[dst]:
            init = fr.env[v]
            w = F.mod.w(t)
            steps = set()
            for b, o in inc.items():
                if b not in body:
                    continue
                c = None
                if o == ('r', v):
                    c = 0
                elif o[0] == 'r':
                    for bb in body:
                        for i in F.blocks[bb]:
                            c2 = self.stepof(i, o[1], v)
                            if c2 is not None:
                                c = c2
                steps.add(c)
            if steps == {0}:
                continue
            if len(steps) == 1 and None not in steps and w > 1:
                c = steps.pop()
                k = self.fresh(w, 'iter')
                self.assume(st, k >= 0)
                fr.env[v] = simp(iv(init) + c * k)
                self.assume(st, z3.And(fr.env[v] >= -(1 << (w - 1)), fr.env[v] < (1 << (w - 1))))
            else:
                fr.env[v] = self.freshw(st, w, 'loop')

    def stepof(self, i, dst, v):
        if i[0] == 'bin' and i[1] == dst and i[4] == ('r', v) and i[5][0] == 'k':
            return i[5][1] if i[2] == 'add' else -i[5][1] if i[2] == 'sub' else None
        return None

    def loop_continue(self, st, fr, post):
        _, ph, lid, names = post
        F = fr.F
        if ph == 'end':
            raise PathEnd('loop preserved')
        if ph == 'havoc':
            steps = {}
            if '@n' in names:
                n = self.fresh(64, 'iter')
                self.assume(st, z3.And(n >= 0, n < (1 << 62)))
                fr.visits[('n', fr.block)] = fr.env['@n'] = n
                steps = {x[0]: x[3] for x in F.mod.tr.loop_sig(F.f)[F.loops[fr.block]['k']]}
            for v, t, inc in F.phis[fr.block]:
                w = F.mod.w(t)
                if steps.get(v) is not None and w > 1:
                    fr.env[v] = simp(iv(fr.env[v]) + steps[v] * n) if steps[v] else fr.env[v]
                    self.assume(st, z3.And(iv(fr.env[v]) >= -(1 << (w - 1)), iv(fr.env[v]) < (1 << (w - 1))))
                else:
                    fr.env[v] = self.freshw(st, w, 'loop')
            args = [(self.wof(F, n), fr.env[n]) for n in names]
            if 'LI_HAVOC_' + lid in self.H.M.funcs:
                self.push(st, self.H, 'LI_HAVOC_' + lid, args, None, None, post=('loopcut', 'assume', lid, names))
                return
            ph = 'assume'
        if ph == 'assume':
            args = [(self.wof(F, n), fr.env[n]) for n in names]
            self.push(st, self.H, 'LI_ASSUME_' + lid, args, None, None, post=('loopcut', 'go', lid, names))
            return
        if ph == 'go':
            if self.widened(F, fr.block, '@n' in names):
                st.wide = F.name
            if self.sat(st, True) is False:
                raise PathEnd('loop invariant unsatisfiable')

    def wof(self, F, n):
        if n == '@n':
            return 64
        if not hasattr(F, 'wmap'):
            F.wmap = {}
            for b in F.phis.values():
                for v, t, _ in b:
                    F.wmap[v] = F.mod.w(t)
            for t, v in F.params:
                F.wmap[v] = F.mod.w(t)
        return F.wmap[n]

    def widened(self, F, h, counted):
        """the loop has more variables than the one its invariant was written for: what it does not speak about is arbitrary after the cut"""
        base = (self.spec.get('base') or {}).get(F.name)
        if base is None:
            return False
        sig = F.mod.tr.loop_sig(F.f)
        if len(sig) != len(base):
            return True
        k = F.loops[h]['k']
        free = lambda l: len([x for x in l if not (counted and x[-2] is not None)])
        return free(sig[k]) > free(base[k])

    def loopargs(self, F, h, inv):
        tr = F.mod.tr
        tr.base = self.spec.get('base')
        byname = tr.loop_names(F.f, h, F.loops[h]['k'], [p[0] for p in F.phis[h]])
        for w in inv:
            if w not in byname and w != '@n':
                raise Undecided('loop variable %s of %s not found' % (w, F.name))
        if any(w in tr.inexact for w in inv) or self.widened(F, h, '@n' in inv):
            self.inexact['LI_ASSERT_%s_%d' % (ll2c.san(F.name), F.loops[h]['k'])] = F.name
        return [byname.get(w, w) for w in inv]


import faulthandler, signal
faulthandler.register(signal.SIGUSR1)


def main():
    pll, hll, specf, entry, outf = sys.argv[1:6]
    spec = json.load(open(specf))
    t0 = time.time()
    res = {'status': None, 'props': [], 'msg': ''}
    vx = None
    try:
        prog = Mod(open(pll).read(), GLOBASE, 'p')
        harn = Mod(open(hll).read(), HGLO, 'h')
        harn.prog = prog
        spec.update(spec.get('per_entry', {}).get(entry, {}))
        vx = VX(prog, harn, spec, t0 + spec.get('budget', 600))
        vx.run(entry)
        res['status'] = 'done'
    except (Undecided, Unsupported) as e:
        res['status'] = 'undecided'
        res['msg'] = str(e)[:500]
    except MemoryError:
        res['status'] = 'undecided'
        res['msg'] = 'out of memory'
    if vx:
        for (kind, d), p in vx.props.items():
            if kind == 'cover':
                s = 'FAILURE' if p['fail'] else 'SUCCESS'
            else:
                s = 'FAILURE' if p['fail'] else 'UNKNOWN' if p['unknown'] else 'SUCCESS'
            res['props'].append({'property': entry + ': ' + d, 'description': d, 'status': s, 'paths': p['ok'] + p['fail'] + p['unknown'],
                                 'time': round(p['time'], 2), 'cex': vx.failmodels.get((kind, d))})
            if s == 'UNKNOWN' and res['status'] == 'done':
                res['msg'] = 'undecided obligation: ' + d
        res.update(paths=vx.paths, queries=vx.queries, qtime=vx.qtime,
                   functions=sorted([n for t, n in vx.used if t == 'p']), assumed=sorted(vx.assumed))
    res['time'] = time.time() - t0
    json.dump(res, open(outf, 'w'))


if __name__ == '__main__':
    main()
