#!/usr/bin/env python3
"""LLVM-IR -> C translator over an explicit flat 64-bit memory.

Input: textual LLVM IR produced by clang from /repo's sources (on every run).
Output: one C function f_<name> per IR function, in which every pointer is a
64-bit address, every load/store goes through the LDn/STn macros of mm.h, and
every call either goes to the translated callee (f_<name>), to a contract
(c_<name>, supplied by the harness) or to a model of an external function
(x_<name>).  Loops named in the cut policy are replaced by
"establish invariant / havoc / assume invariant / preserve invariant".
"""
import re, sys

INTRINSIC_SKIP = ('llvm.dbg.', 'llvm.lifetime.', 'llvm.assume', 'llvm.experimental.noalias',
                  'llvm.va_start', 'llvm.va_end', 'llvm.prefetch', 'llvm.stacksave', 'llvm.stackrestore')
NOEFFECT = {'error_callback', 'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fflush', 'perror', 'fwrite_stderr',
            'vfprintf', 'putc', '_IO_putc'}


class Unsupported(Exception):
    pass


def split_top(s, sep=','):
    out, depth, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                depth += 1
            elif ch in ')]}>':
                depth -= 1
            elif ch == sep and depth == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Types:
    def __init__(self):
        self.structs = {}

    def parse(self, s):
        """parse a type at the start of s, return (type, rest)"""
        s = s.lstrip()
        if s.startswith('ptr'):
            r = s[3:]
            m = re.match(r'\s+addrspace\(\d+\)', r)
            if m:
                r = r[m.end():]
            return ('ptr',), r
        m = re.match(r'i(\d+)\b', s)
        if m:
            return ('i', int(m.group(1))), s[m.end():]
        for k in ('void', 'double', 'float', 'x86_fp80', 'label', 'metadata'):
            if s.startswith(k) and not re.match(r'[A-Za-z0-9_]', s[len(k):len(k) + 1]):
                return (k,), s[len(k):]
        if s.startswith('%'):
            m = re.match(r'%("[^"]*"|[-A-Za-z0-9_$.]+)', s)
            return ('named', m.group(0)), s[m.end():]
        if s.startswith('['):
            m = re.match(r'\[\s*(\d+) x ', s)
            n = int(m.group(1))
            t, r = self.parse(s[m.end():])
            r = r.lstrip()
            assert r[0] == ']', r
            return ('arr', n, t), r[1:]
        if s.startswith('<{') or s.startswith('{'):
            packed = s.startswith('<')
            r = s[2:] if packed else s[1:]
            el = []
            r = r.lstrip()
            while not r.startswith('}'):
                t, r = self.parse(r)
                el.append(t)
                r = r.lstrip()
                if r.startswith(','):
                    r = r[1:].lstrip()
            r = r[1:]
            if packed:
                r = r.lstrip()[1:]
            return ('struct', packed, tuple(el)), r
        if s.startswith('<'):
            m = re.match(r'<\s*(\d+) x ', s)
            t, r = self.parse(s[m.end():])
            return ('vec', int(m.group(1)), t), r.lstrip()[1:]
        raise Unsupported('type: ' + s[:60])

    def resolve(self, t):
        while t[0] == 'named':
            t = self.structs[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = max(1, (t[1] + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return min(p, 16)
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'struct':
            if t[1] or not t[2]:
                return 1
            return max(self.align(e) for e in t[2])
        raise Unsupported('align ' + str(t))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = max(1, (t[1] + 7) // 8)
            a = self.align(t)
            return (b + a - 1) // a * a
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k in ('arr', 'vec'):
            return t[1] * self.size(t[2])
        if k == 'struct':
            off = 0
            for e in t[2]:
                if not t[1]:
                    a = self.align(e)
                    off = (off + a - 1) // a * a
                off += self.size(e)
            if not t[1] and t[2]:
                a = self.align(t)
                off = (off + a - 1) // a * a
            return off
        raise Unsupported('size ' + str(t))

    def field(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t[2]):
            if not t[1]:
                a = self.align(e)
                off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += self.size(e)
        raise Unsupported('field')


def san(n):
    return re.sub(r'[^A-Za-z0-9_]', '_', n.strip('"'))


ATTR_RE = re.compile(r'^(noundef|signext|zeroext|nonnull|noalias|nocapture|readonly|readnone|writeonly|returned|'
                     r'inreg|immarg|noreturn|nofree|captures\([^)]*\)|align \d+|align\(\d+\)|dereferenceable\(\d+\)|'
                     r'dereferenceable_or_null\(\d+\)|allocalign|allocptr|swiftself|'
                     r'sret\([^)]*\)|byval\([^)]*\)|elementtype\([^)]*\)|range\([^)]*\))\s*')


def strip_attrs(s):
    s = s.lstrip()
    while True:
        m = ATTR_RE.match(s)
        if not m:
            return s
        s = s[m.end():].lstrip()


class Func:
    pass


class Module:
    def __init__(self, text):
        self.T = Types()
        self.funcs = {}
        self.decls = {}
        self.varargs = set()
        self.globals = {}
        self.md = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                name, ty = l.split(' = type ', 1)
                if ty.strip() == 'opaque':
                    self.T.structs[name.strip()] = ('struct', False, ())
                else:
                    self.T.structs[name.strip()], _ = self.T.parse(ty)
            elif l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_func(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                l = re.sub(r'^declare !dbg !\d+ ', 'declare ', l)
                m2 = re.search(r'@("[^"]*"|[-A-Za-z0-9_$.]+)\(', l)
                pre = l[len('declare'):m2.start()]
                rt = self.ret_type(pre)
                self.decls[m2.group(1)] = rt
                if re.search(r'\.\.\.\)', l[m2.end():]):
                    self.varargs.add(m2.group(1))
            elif l.startswith('!') and ' = ' in l:
                k, v = l.split(' = ', 1)
                self.md[k] = v
            i += 1

    def ret_type(self, pre):
        s = pre.strip()
        while True:
            s2 = re.sub(r'^(dso_local|internal|private|weak|weak_odr|linkonce|linkonce_odr|available_externally|'
                        r'hidden|protected|default|local_unnamed_addr|unnamed_addr|fastcc|ccc|tail|musttail|notail|'
                        r'dllimport|common|external)\s+', '', s)
            s2 = strip_attrs(s2)
            if s2 == s:
                break
            s = s2
        t, r = self.T.parse(s)
        return t

    def parse_global(self, l):
        m = re.match(r'@("[^"]*"|[-A-Za-z0-9_$.]+) = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        m = re.search(r'\b(constant|global)\s+', rest)
        if not m:
            return
        isconst = m.group(1) == 'constant'
        ext = bool(re.search(r'\b(external|extern_weak)\b', rest[:m.start()]))
        t, r = self.T.parse(rest[m.end():])
        r = r.strip()
        init = None
        if not ext:
            init = r
        self.globals[name] = (t, isconst, init)

    def parse_func(self, header, body):
        f = Func()
        m2 = re.search(r'@("[^"]*"|[-A-Za-z0-9_$.]+)\(', header)
        f.name = m2.group(1).strip('"')
        f.ret = self.ret_type(header[len('define'):m2.start()])
        # params
        depth, k = 1, m2.end()
        while depth:
            if header[k] == '(':
                depth += 1
            elif header[k] == ')':
                depth -= 1
            k += 1
        ps = header[m2.end():k - 1]
        f.vararg = False
        f.params = []
        unn = 0
        for p in split_top(ps):
            if p == '...':
                f.vararg = True
                continue
            t, r = self.T.parse(p)
            r = strip_attrs(r).strip()
            if not r:
                r = '%' + str(unn)
            if re.match(r'%\d+$', r):
                unn = int(r[1:]) + 1
            f.params.append((t, r))
        m = re.search(r'!dbg (!\d+)', header)
        f.sub = m.group(1) if m else None
        f.linkage_internal = ' internal ' in header
        # blocks
        f.blocks = []
        cur = None
        entry = str(unn)
        buf = None
        for l in body:
            if not l.strip():
                continue
            m = re.match(r'^("[^"]*"|[-A-Za-z0-9_$.]+):', l)
            if m:
                cur = [m.group(1).strip('"'), []]
                f.blocks.append(cur)
                continue
            if cur is None:
                cur = [entry, []]
                f.blocks.append(cur)
            s = l.strip()
            if buf is not None:
                buf += ' ' + s
                if s.startswith(']'):
                    cur[1].append(buf)
                    buf = None
                continue
            if s.startswith('switch') and not re.search(r'\]', s):
                buf = s
                continue
            cur[1].append(s)
        self.funcs[f.name] = f


TERM = ('br ', 'switch ', 'ret ', 'unreachable')


def ctype(t):
    if t[0] == 'i':
        w = t[1]
        for k in (8, 16, 32, 64):
            if w <= k:
                return 'u%d' % k
        if w <= 128:
            return 'u128'
        raise Unsupported('int width %d' % w)
    if t[0] == 'ptr':
        return 'u64'
    if t[0] == 'double':
        return 'double'
    if t[0] == 'float':
        return 'float'
    if t[0] == 'void':
        return 'void'
    raise Unsupported('ctype ' + str(t))


def width(t):
    if t[0] == 'i':
        return t[1]
    if t[0] == 'ptr':
        return 64
    raise Unsupported('width ' + str(t))


def cw(w):
    for k in (8, 16, 32, 64, 128):
        if w <= k:
            return k
    raise Unsupported('w')


class Translator:
    def __init__(self, mod, contracts=(), cut=None, nsw=False, drop_calls=(), gbase=0x0000200000000000,
                 loopinv=None, disabled=(), extmods=()):
        self.M = mod
        self.T = mod.T
        self.contracts = set(contracts)
        self.cut = cut or {}
        self.loopinv = loopinv or {}
        self.nsw = nsw
        self.drop_calls = set(drop_calls)
        self.done = {}
        self.order = []
        self.externs = {}
        self.usedglobals = {}
        self.cands = []
        self.disabled = set(disabled)
        self.gnext = gbase
        self.loops = []
        self.asm = []
        self.warnings = []

    # ---- globals
    def gaddr(self, name):
        if name not in self.usedglobals:
            if name in self.M.globals:
                t = self.M.globals[name][0]
                sz = self.T.size(t)
            else:
                sz = 16
            a = (self.gnext + 15) // 16 * 16
            self.usedglobals[name] = a
            self.gnext = a + sz + 16
        return self.usedglobals[name]

    # ---- operands
    def const_int(self, t, s):
        w = width(t)
        v = int(s)
        v &= (1 << w) - 1
        k = cw(w)
        return '((u%d)0x%xULL)' % (k, v) if k <= 64 else '((u128)%dULL)' % v

    def op(self, t, s):
        s = s.strip()
        if s.startswith('%'):
            return 'v' + san(s[1:])
        if t[0] in ('double', 'float'):
            if s.startswith('0x'):
                return 'BITS2D(%sULL)' % s
            if s in ('undef', 'poison'):
                return '0.0'
            import struct as _s
            return 'BITS2D(0x%xULL)' % _s.unpack('<Q', _s.pack('<d', float(s)))[0]
        if s == 'null' or s == 'zeroinitializer':
            return '((u64)0)' if t[0] == 'ptr' else self.const_int(t, '0')
        if s in ('undef', 'poison'):
            return 'ND_u%d()' % cw(width(t))
        if s == 'true':
            return '((u8)1)'
        if s == 'false':
            return '((u8)0)'
        if re.match(r'-?\d+$', s):
            return self.const_int(t, s)
        if s.startswith('@'):
            n = s[1:].strip('"')
            return '((u64)0x%xULL /*%s*/)' % (self.gaddr(s[1:]), n.replace('*/', ''))
        m = re.match(r'getelementptr\s+(inbounds\s+)?\((.*)\)$', s)
        if m:
            parts = split_top(m.group(2))
            return self.gep(parts)
        m = re.match(r'(inttoptr|ptrtoint|bitcast)\s*\((.*) to (.*)\)$', s)
        if m:
            t2, r = self.T.parse(m.group(2))
            return self.op(t2, r)
        raise Unsupported('operand ' + s)

    def tv(self, s):
        """parse 'type value' -> (type, cexpr)"""
        t, r = self.T.parse(s)
        r = strip_attrs(r)
        return t, self.op(t, r)

    def gep(self, parts):
        parts = [re.sub(r'^inrange\s*(\([^)]*\))?\s*', '', p) for p in parts]
        t, _ = self.T.parse(parts[0])
        bt, base = self.tv(parts[1])
        const = 0
        terms = []
        cur = t
        for k, p in enumerate(parts[2:]):
            it, r = self.T.parse(p)
            r = strip_attrs(r).strip()
            if k > 0:
                rc = self.T.resolve(cur)
                if rc[0] == 'struct':
                    off, cur = self.T.field(rc, int(r))
                    const += off
                    continue
                cur = rc[2]
            sz = self.T.size(cur)
            if re.match(r'-?\d+$', r):
                const += int(r) * sz
            else:
                e = self.op(it, r)
                w = width(it)
                if w < 64:
                    e = '((u64)(s64)(s%d)%s)' % (cw(w), e)
                terms.append('%s*%dULL' % (e, sz) if sz != 1 else e)
        out = base
        if terms:
            out = '(%s + %s)' % (out, ' + '.join(terms))
        if const:
            out = '(%s + 0x%xULL)' % (out, const & ((1 << 64) - 1))
        return out

    # ---- functions
    def line_of(self, ins):
        m = re.search(r'!dbg (!\d+)', ins)
        if m:
            d = self.M.md.get(m.group(1), '')
            m2 = re.search(r'line: (\d+)', d)
            if m2:
                return int(m2.group(1))
        return 0

    def file_of(self, f):
        try:
            d = self.M.md.get(f.sub, '')
            m = re.search(r'file: (!\d+)', d)
            d2 = self.M.md.get(m.group(1), '')
            m = re.search(r'filename: "([^"]*)"', d2)
            return m.group(1).split('/')[-1]
        except Exception:
            return '?'

    def request(self, name):
        if name in self.done or name in [x for x in self.order]:
            return
        self.order.append(name)

    def translate(self, roots):
        for r in roots:
            if r not in self.M.funcs:
                raise Unsupported('function %s not found in /repo' % r)
            self.request(r)
        k = 0
        while k < len(self.order):
            n = self.order[k]
            self.done[n] = self.func(self.M.funcs[n])
            k += 1
        protos = '\n'.join(self.proto(self.M.funcs[n]) + ';' for n in self.order)
        return protos, '\n'.join(self.done[n] for n in self.order)

    def proto(self, f, prefix='f_'):
        ps = ', '.join('%s v%s' % (ctype(t), san(n[1:])) for t, n in f.params) or 'void'
        return '%s %s%s(%s)' % (ctype(f.ret), prefix, san(f.name), ps)

    def succs(self, ins):
        return [x.strip('"') for x in re.findall(r'label %("[^"]*"|[-A-Za-z0-9_$.]+)', ins)]

    def analyse(self, f):
        names = [b[0] for b in f.blocks]
        succ = {b[0]: self.succs(b[1][-1]) for b in f.blocks}
        pred = {n: [] for n in names}
        for n in names:
            for s in succ[n]:
                pred[s].append(n)
        # dominators (iterative)
        entry = names[0]
        allb = set(names)
        dom = {n: set(allb) for n in names}
        dom[entry] = {entry}
        # reachable
        reach, st = set(), [entry]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st.extend(succ[x])
        ch = True
        while ch:
            ch = False
            for n in names:
                if n == entry or n not in reach:
                    continue
                ps = [p for p in pred[n] if p in reach]
                d = set.intersection(*[dom[p] for p in ps]) | {n} if ps else {n}
                if d != dom[n]:
                    dom[n] = d
                    ch = True
        loops = {}
        for n in names:
            if n not in reach:
                continue
            for s in succ[n]:
                if s in dom[n]:
                    body = loops.setdefault(s, {'body': {s}, 'latch': []})
                    body['latch'].append(n)
                    st = [n]
                    while st:
                        x = st.pop()
                        if x in body['body']:
                            continue
                        body['body'].add(x)
                        st.extend(pred[x])
        return succ, pred, loops, reach

    def dbgnames(self, f):
        """value name -> source variable name(s), last one wins"""
        res = {}
        for b in f.blocks:
            for ins in b[1]:
                m = re.search(r'@llvm\.dbg\.value\(metadata (.*), metadata (!\d+), metadata', ins)
                if m:
                    d = self.M.md.get(m.group(2), '')
                    m2 = re.search(r'name: "([^"]*)"', d)
                    v = m.group(1).split()[-1]
                    if m2 and v.startswith('%'):
                        res.setdefault(v, m2.group(1))
        # a variable of an outer loop without a name that is the start of a named one of an inner loop is that variable
        for b in f.blocks:
            for ins in b[1]:
                m = re.match(r'(%\S+) = phi \S+ (\[.*)$', ins)
                if m and m.group(1) in res:
                    for v in re.findall(r'\[ (%[^\s,]+),', m.group(2)):
                        if v.endswith('.ph'):
                            res.setdefault(v, res[m.group(1)])
        return res

    def loop_sig(self, f):
        """for every loop, in order: [value, source name, type, constant step or None, constant start or None] of its variables"""
        if not hasattr(self, '_sigs'):
            self._sigs = {}
        if f.name in self._sigs:
            return self._sigs[f.name]
        succ, pred, loops, reach = self.analyse(f)
        idx = {b[0]: i for i, b in enumerate(f.blocks)}
        insof = {b[0]: b[1] for b in f.blocks}
        dbg = self.dbgnames(f)
        defs = {}
        for b in f.blocks:
            for ins in b[1]:
                m = re.match(r'(%\S+) = (.*)$', ins)
                if m:
                    defs[m.group(1)] = m.group(2)
        res = []
        for h in sorted(loops, key=lambda h: idx[h]):
            vs = []
            for ins in insof[h]:
                m = re.match(r'(%\S+) = phi (.*?) (\[.*)$', ins)
                if not m:
                    continue
                v, t = m.group(1), m.group(2)
                ini, nxt = [], []
                for x, bb in re.findall(r'\[ (.*?), %("[^"]*"|[-A-Za-z0-9_$.]+) \]', m.group(3)):
                    (nxt if bb in loops[h]['body'] or '%' + bb in loops[h]['body'] else ini).append(x)
                steps = set()
                for x in nxt:
                    d = defs.get(x, '')
                    m2 = re.match(r'add (?:nuw |nsw )*i\d+ (%\S+), (-?\d+)(?:,|$)', d)
                    m3 = re.match(r'getelementptr (?:inbounds )?i(\d+), ptr (%\S+), i\d+ (-?\d+)(?:,|$)', d)
                    m4 = re.match(r'sub (?:nuw |nsw )*i\d+ (%\S+), (-?\d+)(?:,|$)', d)
                    if x == v:
                        steps.add(0)
                    elif m2 and m2.group(1) == v:
                        steps.add(int(m2.group(2)))
                    elif m4 and m4.group(1) == v:
                        steps.add(-int(m4.group(2)))
                    elif m3 and m3.group(2) == v:
                        steps.add(int(m3.group(3)) * int(m3.group(1)) // 8)
                    else:
                        steps.add(None)
                st = steps.pop() if len(steps) == 1 else None
                i0 = int(ini[0]) if len(ini) == 1 and re.match(r'-?\d+$', ini[0]) else None
                vs.append([v, dbg.get(v, ''), t, st, i0])
            res.append(vs)
        self._sigs[f.name] = res
        return res

    def loop_names(self, f, h, k, vals):
        """name -> value for the variables vals of loop k; a renamed variable is found by elimination.
        The names whose variable is not exactly the one the invariants were written for are in self.inexact."""
        dbg = self.dbgnames(f)
        byname = {}
        self.inexact = set()
        for v in vals:
            if v in dbg:
                byname[dbg[v]] = v
        base = (getattr(self, 'base', None) or {}).get(f.name)
        if base is not None:
            sig = self.loop_sig(f)
            if len(sig) != len(base):
                raise Unsupported('%s has %d loops, its invariants were written for %d' % (f.name, len(sig), len(base)))
            want, have = base[k], sig[k]
            wn = [x[0] for x in want]
            for n, t, st, i0 in want:
                for x in have:
                    if n and x[1] == n and [t, st, i0] != x[2:]:
                        self.inexact.add(n)
            lost = [x for x in want if x[0] and x[0] not in [y[1] for y in have]]
            new = [x for x in have if x[1] not in wn or not x[1]]
            for n, t, st, i0 in lost:
                self.inexact.add(n)
                c = [x for x in new if x[2] == t and x[3] == st]
                c2 = [x for x in c if x[1]]
                c = c2 if len(c2) == 1 else c
                if len(c) == 1 and len([x for x in lost if x[1] == t and x[2] == st]) == 1:
                    byname.setdefault(n, c[0][0])
        for t, n in f.params:
            if n in dbg:
                byname.setdefault(dbg[n], n)
        return byname

    def has_effect(self, ins):
        s = re.sub(r'^%\S+ = ', '', ins)
        s = re.sub(r'^(tail|musttail|notail) ', '', s)
        if s.startswith(('store', 'cmpxchg', 'atomicrmw')):
            return True
        if s.startswith('call'):
            m = re.search(r'@("[^"]*"|[-A-Za-z0-9_$.]+)\(', s)
            if not m:
                return True
            n = m.group(1)
            if n.startswith(INTRINSIC_SKIP) or n in NOEFFECT or n in self.drop_calls:
                return False
            if n in self.M.funcs and n not in self.contracts:
                return self.func_has_effect(n)
            return True
        return False

    def func_has_effect(self, n, seen=None):
        if not hasattr(self, '_fe'):
            self._fe = {}
        if n in self._fe:
            return self._fe[n]
        self._fe[n] = False  # recursion: optimistic within the cycle
        r = any(self.has_effect(i) for b in self.M.funcs[n].blocks for i in b[1])
        self._fe[n] = r
        return r

    def func(self, f):
        out = []
        fn = san(f.name)
        succ, pred, loops, reach = self.analyse(f)
        names = [b[0] for b in f.blocks]
        idx = {n: i for i, n in enumerate(names)}
        insof = {b[0]: b[1] for b in f.blocks}
        dbg = self.dbgnames(f)
        # collect phis & defs
        decl = []
        phis = {}
        for b in f.blocks:
            ph = []
            for ins in b[1]:
                m = re.match(r'(%\S+) = phi (.*)$', ins)
                if m:
                    t, r = self.T.parse(re.sub(r'^(nnan|ninf|nsz|arcp|contract|afn|reassoc|fast)\s+', '', m.group(2)))
                    inc = re.findall(r'\[\s*(.*?),\s*%("[^"]*"|[-A-Za-z0-9_$.]+)\s*\]', r)
                    ph.append((m.group(1), t, {l.strip('"'): v for v, l in inc}))
            phis[b[0]] = ph
        # loop policy
        cutloops = {}
        order = sorted(loops, key=lambda h: idx[h])
        for k, h in enumerate(order):
            L = loops[h]
            eff = any(self.has_effect(i) for b in L['body'] for i in insof[b])
            pol = self.cut.get((f.name, k), self.cut.get((f.name, '*'), self.cut.get('*', 'unroll')))
            if pol == 'readonly':
                pol = 'cut' if not eff else 'unroll'
            L['eff'] = eff
            L['k'] = k
            L['id'] = '%s_%d' % (fn, k)
            L['line'] = self.line_of(insof[h][-1])
            self.loops.append((f.name, k, pol, eff, L['line']))
            if pol == 'cut':
                cutloops[h] = L
        body = []
        for b in f.blocks:
            n = b[0]
            if n not in reach:
                continue
            body.append('L%s: ;' % san(n))
            for ins in b[1]:
                try:
                    self.instr(f, n, ins, body, decl, phis, cutloops, loops, dbg)
                except Unsupported as e:
                    raise Unsupported('%s in %s: %s' % (e, f.name, ins))
        out.append('/* %s:%s */' % (self.file_of(f), f.name))
        out.append(self.proto(f))
        out.append('{')
        seen = set()
        for n in phis:
            for v, t, _ in phis[n]:
                d = '%s v%s' % (ctype(t), san(v[1:]))
                if d not in seen:
                    seen.add(d)
                    out.append('  ' + d + ';')
        for d in decl:
            if d not in seen:
                seen.add(d)
                out.append('  ' + d + ';')
        out.append('  u64 SPsave = SP; (void)SPsave;')
        out.append('  goto L%s;' % san(names[0]))
        out.extend('  ' + x for x in body)
        out.append('}')
        return '\n'.join(out)

    def edge(self, f, src, dst, phis, cutloops, loops, dbg):
        """C statements for the CFG edge src->dst"""
        st = []
        ph = phis[dst]
        if ph:
            for v, t, inc in ph:
                if src not in inc:
                    raise Unsupported('phi edge %s->%s' % (src, dst))
            if len(ph) == 1:
                v, t, inc = ph[0]
                st.append('v%s = %s;' % (san(v[1:]), self.op(t, inc[src])))
            else:
                st.append('{ ' + ' '.join('%s t%d = %s;' % (ctype(t), i, self.op(t, inc[src]))
                                          for i, (v, t, inc) in enumerate(ph)) + ' ' +
                          ' '.join('v%s = t%d;' % (san(v[1:]), i) for i, (v, t, inc) in enumerate(ph)) + ' }')
        if dst in cutloops:
            L = cutloops[dst]
            back = src in L['body']
            fn = san(f.name)
            lid = L['id']
            cands = self.loop_cands(f, dst, L, phis)
            custom = self.loopinv.get((f.name, L['k']))
            for cid, expr, _ in cands:
                if cid in self.disabled:
                    continue
                st.append('CAND_ASSERT(%s, "cand %s %s");' % (expr, cid, 'step' if back else 'init'))
            args = ''
            if custom:
                # custom: dict with 'vars': {srcname}, provides macros LI_<id>(phase, vars...)
                args = self.custom_args(f, dst, phis, dbg, custom, L)
                st.append('LI_ASSERT_%s(%s);' % (lid, args))
            if back:
                st.append('ASSUME(0);')
                return ' '.join(st)
            # entry: havoc
            for v, t, inc in ph:
                if t[0] in ('double', 'float'):
                    st.append('v%s = ND_double();' % san(v[1:]))
                elif custom and san(v[1:]) in custom.get('nohavoc', ()):
                    pass
                else:
                    st.append('v%s = ND_u%d();' % (san(v[1:]), cw(width(t))))
            if L['eff']:
                st.append('LI_HAVOC_%s(%s);' % (lid, args))
            for cid, expr, init in cands:
                if cid in self.disabled:
                    continue
                st.append('ASSUME(%s);' % expr)
            if custom:
                st.append('LI_ASSUME_%s(%s);' % (lid, args))
        return ' '.join(st)

    def custom_args(self, f, h, phis, dbg, custom, L):
        byname = {a: 'v' + san(b[1:]) for a, b in self.loop_names(f, h, L['k'], [p[0] for p in phis[h]]).items()}
        res = []
        base = (getattr(self, 'base', None) or {}).get(f.name)
        if base is not None:
            free = lambda l: len([x for x in l if x[-2] is None])
            if free(self.loop_sig(f)[L['k']]) > free(base[L['k']]):
                raise Unsupported('loop %d of %s has a variable its invariant does not speak about' % (L['k'], f.name))
        for w in custom.get('args', ()):
            if w not in byname:
                raise Unsupported('loop variable %s of %s not found' % (w, f.name))
            if w in self.inexact:
                raise Unsupported('loop %d of %s is written differently from the one its invariant is for' % (L['k'], f.name))
            res.append(byname[w])
        return ', '.join(res)

    def loop_cands(self, f, h, L, phis):
        """candidate invariants for induction phis (checked, never assumed unchecked)"""
        if 'cands' in L:
            return L['cands']
        res = []
        defs = {}
        for b in f.blocks:
            for ins in b[1]:
                m = re.match(r'(%\S+) = (.*)$', ins)
                if m:
                    defs[m.group(1)] = m.group(2)
        for v, t, inc in phis[h]:
            if t[0] != 'i' or t[1] < 32:
                continue
            inits = [x for p, x in inc.items() if p not in L['body']]
            nexts = [x for p, x in inc.items() if p in L['body']]
            if len(inits) != 1 or len(nexts) != 1:
                continue
            d = defs.get(nexts[0])
            if not d:
                continue
            m = re.match(r'add (?:nuw |nsw )*i\d+ (%\S+), (-?\d+)(?:,|$)', d)
            if not m or m.group(1) != v:
                continue
            step = int(m.group(2))
            k = cw(t[1])
            vv = 'v' + san(v[1:])
            init = self.op(t, inits[0])
            cid = '%s_%s' % (L['id'], san(v[1:]))
            if step > 0:
                res.append((cid + 'a', '(s%d)%s >= (s%d)%s' % (k, vv, k, init), init))
            elif step < 0:
                res.append((cid + 'a', '(s%d)%s <= (s%d)%s' % (k, vv, k, init), init))
            s = abs(step)
            if s > 1 and s & (s - 1) == 0:
                res.append((cid + 'b', '(((%s) - (%s)) & %dU) == 0' % (vv, init, s - 1), init))
        L['cands'] = res
        for c in res:
            self.cands.append(c[0])
        return res

    def instr(self, f, blk, ins, out, decl, phis, cutloops, loops, dbg):
        line = self.line_of(ins)
        where = '%s:%d' % (f.name, line)
        s = re.sub(r'(, !\w[\w.]* !\d+)+\s*$', '', ins)
        s = re.sub(r', !srcloc !\d+', '', s)
        m = re.match(r'(%"[^"]*"|%\S+) = (.*)$', s)
        dst = None
        if m:
            dst, s = 'v' + san(m.group(1)[1:]), m.group(2)
        s = re.sub(r'^(tail|musttail|notail) ', '', s)
        opc = s.split(' ', 1)[0]

        def edge(d):
            return self.edge(f, blk, d, phis, cutloops, loops, dbg)

        def define(t, e):
            decl.append('%s %s' % (ctype(t), dst))
            out.append('%s = %s;' % (dst, e))

        if opc == 'phi':
            return
        if opc == 'br':
            ts = self.succs(s)
            if len(ts) == 1:
                out.append('{ %s goto L%s; }' % (edge(ts[0]), san(ts[0])))
            else:
                m = re.match(r'br i1 (.*?), label', s)
                c = self.op(('i', 1), m.group(1))
                out.append('if (%s) { %s goto L%s; } else { %s goto L%s; }' %
                           (c, edge(ts[0]), san(ts[0]), edge(ts[1]), san(ts[1])))
            return
        if opc == 'switch':
            m = re.match(r'switch (.*?), label %("[^"]*"|[-A-Za-z0-9_$.]+) \[(.*)\]', s)
            t, c = self.tv(m.group(1))
            df = m.group(2).strip('"')
            cases = re.findall(r'i\d+ (-?\d+), label %("[^"]*"|[-A-Za-z0-9_$.]+)', m.group(3))
            for v, l in cases:
                l = l.strip('"')
                out.append('if (%s == %s) { %s goto L%s; }' % (c, self.const_int(t, v), edge(l), san(l)))
            out.append('{ %s goto L%s; }' % (edge(df), san(df)))
            return
        if opc == 'ret':
            if s.strip() == 'ret void':
                out.append('{ SP = SPsave; return; }')
            else:
                t, e = self.tv(s[4:])
                out.append('{ SP = SPsave; return %s; }' % e)
            return
        if opc == 'unreachable':
            out.append('CHECK(0, "unreachable %s"); ASSUME(0);' % where)
            if f.ret[0] != 'void':
                out.append('return 0;')
            return
        if opc == 'load':
            s2 = re.sub(r'^load (atomic )?(volatile )?', '', s)
            parts = split_top(s2)
            t, _ = self.T.parse(parts[0])
            pt, p = self.tv(re.sub(r' (unordered|monotonic|acquire|release|acq_rel|seq_cst)$', '', parts[1]))
            decl.append('%s %s' % (ctype(t), dst))
            if t[0] == 'double':
                out.append('LDD(%s, %s, "%s");' % (dst, p, where))
            elif t[0] in ('ptr', 'i'):
                out.append('LD%d(%s, %s, "%s");' % (cw(width(t)), dst, p, where))
            else:
                raise Unsupported('load type')
            return
        if opc == 'store':
            s2 = re.sub(r'^store (atomic )?(volatile )?', '', s)
            parts = split_top(s2)
            t, v = self.tv(parts[0])
            pt, p = self.tv(re.sub(r' (unordered|monotonic|acquire|release|acq_rel|seq_cst)$', '', parts[1]))
            if t[0] == 'double':
                out.append('STD(%s, %s, "%s");' % (p, v, where))
            elif t[0] in ('ptr', 'i'):
                out.append('ST%d(%s, %s, "%s");' % (cw(width(t)), p, v, where))
            else:
                raise Unsupported('store type')
            return
        if opc == 'getelementptr':
            s2 = re.sub(r'^getelementptr (inbounds |nuw |nusw )*', '', s)
            define(('ptr',), self.gep(split_top(s2)))
            return
        if opc == 'alloca':
            parts = split_top(s[len('alloca '):])
            t, _ = self.T.parse(parts[0])
            sz = self.T.size(t)
            sz = (sz + 15) // 16 * 16
            decl.append('u64 %s' % dst)
            cnt = [p for p in parts[1:] if re.match(r'i\d+ ', p)]
            if cnt:
                ct, ce = self.tv(cnt[0])
                out.append('ALLOCA_VAR(%s, %d, %s);' % (dst, self.T.size(t), ce))
            else:
                out.append('ALLOCA(%s, %d);' % (dst, sz))
            return
        if opc in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            m = re.match(r'\w+ ((?:nuw |nsw |exact |disjoint )*)(.*)$', s)
            flags = m.group(1)
            parts = split_top(m.group(2))
            t, a = self.tv(parts[0])
            b = self.op(t, parts[1])
            w = width(t)
            k = cw(w)
            decl.append('%s %s' % (ctype(t), dst))
            if opc in ('add', 'sub', 'mul'):
                o = {'add': '+', 'sub': '-', 'mul': '*'}[opc]
                if 'nsw' in flags and self.nsw and w in (32, 64):
                    out.append('NSW_%s(%d, %s, %s, "%s");' % (opc, w, a, b, where))
                e = '(u%d)(%s %s %s)' % (k, a, o, b)
                if w != k:
                    e = '(%s & 0x%xULL)' % (e, (1 << w) - 1)
            elif opc in ('and', 'or', 'xor'):
                e = '(u%d)(%s %s %s)' % (k, a, {'and': '&', 'or': '|', 'xor': '^'}[opc], b)
            elif opc in ('shl', 'lshr', 'ashr'):
                if not re.match(r'^\(\(u\d+\)0x[0-9a-f]+ULL\)$', b):
                    out.append('CHECK(%s < %d, "shift amount in range %s");' % (b, w, where))
                    b = '(%s & %d)' % (b, k - 1)
                if opc == 'shl':
                    e = '(u%d)(%s << %s)' % (k, a, b)
                    if w != k:
                        e = '(%s & 0x%xULL)' % (e, (1 << w) - 1)
                elif opc == 'lshr':
                    e = '(u%d)(%s >> %s)' % (k, a, b)
                else:
                    e = '(u%d)((s%d)%s >> %s)' % (k, k, a, b)
            else:
                out.append('CHECK(%s != 0, "division by zero %s");' % (b, where))
                c = 's' if opc[0] == 's' else 'u'
                o = '/' if opc.endswith('div') else '%'
                if c == 's' and k == 64 and o == '/':
                    e = '(u64)SDIV64((s64)%s, (s64)%s)' % (a, b)
                else:
                    e = '(u%d)((%s%d)%s %s (%s%d)%s)' % (k, c, k, a, o, c, k, b)
            out.append('%s = %s;' % (dst, e))
            return
        if opc in ('fadd', 'fsub', 'fmul', 'fdiv'):
            m = re.match(r'\w+ (?:nnan |ninf |nsz |arcp |contract |afn |reassoc |fast )*(.*)$', s)
            parts = split_top(m.group(1))
            t, a = self.tv(parts[0])
            b = self.op(t, parts[1])
            define(t, 'FP_%s(%s, %s)' % (opc[1:].upper(), a, b))
            return
        if opc == 'fneg':
            t, a = self.tv(s[5:])
            define(t, '-%s' % a)
            return
        if opc == 'icmp':
            m = re.match(r'icmp (?:samesign )?(\w+) (.*)$', s)
            parts = split_top(m.group(2))
            t, a = self.tv(parts[0])
            b = self.op(t, parts[1])
            k = cw(width(t))
            cc = m.group(1)
            if cc in ('eq', 'ne'):
                e = '%s %s %s' % (a, '==' if cc == 'eq' else '!=', b)
            else:
                o = {'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[cc[1:]]
                c = cc[0]
                e = '(%s%d)%s %s (%s%d)%s' % (c, k, a, o, c, k, b)
            define(('i', 1), '(u8)(%s)' % e)
            return
        if opc == 'fcmp':
            m = re.match(r'fcmp (?:nnan |ninf |nsz |arcp |contract |afn |reassoc |fast )*(\w+) (.*)$', s)
            parts = split_top(m.group(2))
            t, a = self.tv(parts[0])
            b = self.op(t, parts[1])
            cc = m.group(1)
            nan = '(%s != %s || %s != %s)' % (a, a, b, b)
            if cc == 'uno':
                e = nan
            elif cc == 'ord':
                e = '!' + nan
            elif cc in ('true', 'false'):
                e = '1' if cc == 'true' else '0'
            else:
                o = {'eq': '==', 'ne': '!=', 'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[cc[1:]]
                e = '(%s %s %s)' % (a, o, b)
                if cc[0] == 'u':
                    e = '(%s || %s)' % (nan, e)
                else:
                    e = '(!%s && %s)' % (nan, e)
            define(('i', 1), '(u8)%s' % e)
            return
        if opc in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'fptosi', 'uitofp',
                   'fptoui', 'fpext', 'fptrunc'):
            m = re.match(r'\w+ (?:nuw |nsw |nneg )*(.*) to (.*)$', s)
            t, a = self.tv(m.group(1))
            t2, _ = self.T.parse(m.group(2))
            if opc == 'trunc':
                w = t2[1]
                e = '(u%d)%s' % (cw(w), a)
                if w not in (8, 16, 32, 64):
                    e = '(u%d)(%s & 0x%xULL)' % (cw(w), a, (1 << w) - 1)
            elif opc in ('zext', 'ptrtoint', 'inttoptr'):
                e = '(u%d)%s' % (cw(width(t2)), a)
            elif opc == 'sext':
                w = t[1]
                k2 = cw(width(t2))
                if w == 1:
                    e = '(u%d)(%s ? -1 : 0)' % (k2, a)
                elif w in (8, 16, 32, 64):
                    e = '(u%d)(s%d)(s%d)%s' % (k2, k2, w, a)
                else:
                    raise Unsupported('sext')
            elif opc == 'bitcast':
                if t[0] == 'double' and t2[0] == 'i':
                    e = 'D2BITS(%s)' % a
                elif t[0] == 'i' and t2[0] == 'double':
                    e = 'BITS2D(%s)' % a
                else:
                    e = a
            elif opc == 'sitofp':
                e = '(%s)(s%d)%s' % (ctype(t2), cw(width(t)), a)
            elif opc == 'uitofp':
                e = '(%s)%s' % (ctype(t2), a)
            elif opc == 'fptosi':
                e = 'F2S%d(%s)' % (cw(width(t2)), a)
            elif opc == 'fptoui':
                e = '(u%d)%s' % (cw(width(t2)), a)
            else:
                e = '(%s)%s' % (ctype(t2), a)
            define(t2, e)
            return
        if opc == 'select':
            parts = split_top(s[len('select '):])
            _, c = self.tv(parts[0])
            t, a = self.tv(parts[1])
            _, b = self.tv(parts[2])
            define(t, '%s ? %s : %s' % (c, a, b))
            return
        if opc == 'freeze':
            t, a = self.tv(s[7:])
            define(t, a)
            return
        if opc == 'fence':
            out.append('FENCE();')
            return
        if opc == 'cmpxchg':
            s2 = re.sub(r'^cmpxchg (weak )?(volatile )?', '', s)
            parts = split_top(s2)
            _, p = self.tv(parts[0])
            t, ov = self.tv(parts[1])
            _, nv = self.tv(re.sub(r'( (unordered|monotonic|acquire|release|acq_rel|seq_cst))+$', '', parts[2]))
            w = width(t)
            decl.append('u%d %s_f0' % (w, dst))
            decl.append('u8 %s_f1' % dst)
            out.append('CMPXCHG%d(%s_f0, %s_f1, %s, %s, %s, "%s");' % (w, dst, dst, p, ov, nv, where))
            return
        if opc == 'atomicrmw':
            s2 = re.sub(r'^atomicrmw (volatile )?', '', s)
            rop = s2.split(' ', 1)[0]
            parts = split_top(s2.split(' ', 1)[1])
            _, p = self.tv(parts[0])
            t, v = self.tv(re.sub(r'( (unordered|monotonic|acquire|release|acq_rel|seq_cst))+$', '', parts[1]))
            decl.append('%s %s' % (ctype(t), dst))
            out.append('RMW%d(%s, %s, %s, %s, "%s");' % (cw(width(t)), rop.upper(), dst, p, v, where))
            return
        if opc == 'extractvalue':
            m = re.match(r'extractvalue (.*)$', s)
            t, r = self.T.parse(m.group(1))
            parts = split_top(r)
            i = int(parts[1])
            et = self.T.resolve(t)[2][i]
            define(et, 'v%s_f%d' % (san(parts[0].strip()[1:]), i))
            return
        if opc == 'call':
            self.call(f, s, dst, out, decl, where)
            return
        raise Unsupported('instruction ' + opc)

    def call(self, f, s, dst, out, decl, where):
        s2 = re.sub(r'^call (?:nnan |ninf |nsz |arcp |contract |afn |reassoc |fast )*', '', s)
        m = re.search(r'\basm\b', s2)
        if m and ('asm sideeffect' in s2 or 'asm "' in s2):
            self.asm.append((f.name, s2))
            tmpl = re.search(r'asm[^"]*"([^"]*)"', s2).group(1)
            if tmpl.strip() in ('', 'pause;\\0A', 'pause;\\0a', 'pause'):
                out.append('/* asm %s */;' % tmpl.replace('*/', ''))
                return
            raise Unsupported('inline asm')
        rt = self.ret_t(s2)
        m = re.search(r'@("[^"]*"|[-A-Za-z0-9_$.]+)\(', s2)
        mi = re.search(r'(%[-A-Za-z0-9_$.]+)\(', s2)
        if mi and (not m or mi.start() < m.start()):
            name = None
            st = mi.end()
        else:
            name = m.group(1)
            st = m.end()
        depth, k = 1, st
        while depth:
            if s2[k] == '(':
                depth += 1
            elif s2[k] == ')':
                depth -= 1
            k += 1
        argtxt = split_top(s2[st:k - 1])
        if name is not None and name.startswith(INTRINSIC_SKIP):
            return
        args = []
        types = []
        for a in argtxt:
            if a.startswith('metadata'):
                return
            t, e = self.tv(a)
            types.append(t)
            args.append(e)
        isvoid = rt[0] == 'void'
        if not isvoid and dst:
            decl.append('%s %s' % (ctype(rt), dst))

        def ndet():
            if isvoid or not dst:
                return ';'
            if rt[0] == 'double':
                return '%s = ND_double();' % dst
            return '%s = ND_u%d();' % (dst, cw(width(rt)))
        if name is None:
            self.externs.setdefault('<indirect call in %s>' % f.name, None)
            out.append('/* indirect call */ ' + ndet())
            return
        nm = name.strip('"')
        if nm in self.drop_calls or nm in NOEFFECT:
            out.append('/* %s */ ' % nm + ndet())
            return
        if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove'):
            out.append('mm_memcpy(%s, %s, %s, "%s");' % (args[0], args[1], args[2], where))
            return
        if nm.startswith('llvm.memset'):
            out.append('mm_memset(%s, %s, %s, "%s");' % (args[0], args[1], args[2], where))
            return
        mm = re.match(r'llvm\.(fabs|floor|ceil|round|trunc)\.f64$', nm)
        if mm:
            out.append('%s = mm_%s(%s);' % (dst, mm.group(1), args[0]))
            return
        mm = re.match(r'llvm\.fmuladd\.f64$', nm)
        if mm:
            out.append('%s = (%s)*(%s)+(%s);' % (dst, args[0], args[1], args[2]))
            return
        mm = re.match(r'llvm\.(smax|smin|umax|umin)\.i(\d+)$', nm)
        if mm:
            w = mm.group(2)
            c = mm.group(1)[0]
            o = '>' if mm.group(1).endswith('max') else '<'
            out.append('%s = ((%s%s)%s %s (%s%s)%s) ? %s : %s;' % (dst, c, w, args[0], o, c, w, args[1], args[0], args[1]))
            return
        mm = re.match(r'llvm\.abs\.i(\d+)$', nm)
        if mm:
            w = mm.group(1)
            out.append('%s = ((s%s)%s < 0) ? (u%s)(0-%s) : %s;' % (dst, w, args[0], w, args[0], args[0]))
            return
        mm = re.match(r'llvm\.(bswap|ctpop|ctlz|cttz|fshl|fshr)', nm)
        if mm:
            raise Unsupported('intrinsic ' + nm)
        if nm in self.contracts:
            target = 'c_' + san(nm)
        elif nm in self.M.funcs:
            self.request(nm)
            target = 'f_' + san(nm)
            np = len(self.M.funcs[nm].params)
            args = args[:np]
        else:
            key = nm + ('_n%d' % len(args) if name in self.M.varargs else '')
            self.externs[key] = (rt, types)
            target = 'x_' + san(key)
        e = '%s(%s)' % (target, ', '.join(args))
        out.append(('%s = %s;' % (dst, e)) if (dst and not isvoid) else e + ';')

    def ret_t(self, s):
        s = s.strip()
        while True:
            s2 = re.sub(r'^(fastcc|ccc|coldcc)\s+', '', s)
            s2 = strip_attrs(s2)
            if s2 == s:
                break
            s = s2
        t, r = self.T.parse(s)
        return t

    # ---- global initialisers (as word stores)
    def init_bytes(self, t, init):
        t = self.T.resolve(t)
        init = (init or 'zeroinitializer').strip()
        sz = self.T.size(t)
        if init.startswith('zeroinitializer') or init.startswith('undef') or init.startswith('null'):
            return bytes(sz)
        if t[0] == 'arr':
            m = re.match(r'c"((?:[^"])*)"', init)
            if m:
                raw = m.group(1)
                o = bytearray()
                i = 0
                while i < len(raw):
                    if raw[i] == '\\' and raw[i + 1] == '\\':
                        o.append(92)
                        i += 2
                    elif raw[i] == '\\':
                        o.append(int(raw[i + 1:i + 3], 16))
                        i += 3
                    else:
                        o += raw[i].encode('utf-8')
                        i += 1
                return bytes(o) + bytes(sz - len(o))
            m = re.match(r'\[(.*)\]', init)
            if m:
                o = b''
                for p in split_top(m.group(1)):
                    et, r = self.T.parse(p)
                    o += self.init_bytes(et, r)
                return o
        if t[0] == 'i':
            m = re.match(r'(-?\d+)', init)
            if m:
                return (int(m.group(1)) & ((1 << (8 * sz)) - 1)).to_bytes(sz, 'little')
            if init.startswith('true'):
                return b'\1'
            if init.startswith('false'):
                return b'\0'
        if t[0] == 'double':
            import struct as _s
            tok = init.split(',')[0].strip()
            if tok.startswith('0x'):
                return int(tok, 16).to_bytes(8, 'little')
            return _s.pack('<d', float(tok))
        if t[0] == 'ptr':
            m = re.match(r'@("[^"]*"|[-A-Za-z0-9_$.]+)', init)
            if m:
                return self.gaddr(m.group(1)).to_bytes(8, 'little')
        if t[0] == 'struct':
            body = init
            m = re.match(r'<?\{(.*)\}>?', body)
            o = bytearray(sz)
            for j, p in enumerate(split_top(m.group(1))):
                et, r = self.T.parse(p)
                off, ft = self.T.field(t, j)
                b = self.init_bytes(et, r)
                o[off:off + len(b)] = b
            return bytes(o)
        raise Unsupported('initialiser ' + init[:50])
