#!/usr/bin/env python3
"""verify.py PROPERTY [quick|thorough]: discharge every obligation of one property.

Reads /verif/props/<PROPERTY>.json, translates the functions under contract from
/repo's current sources, and lets CBMC decide every obligation.  Exit 0/1 only.
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, hashlib, glob, resource
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import ll2c

SRC = {
    'main': ['Db/dballoc.c', 'Db/dbdata.c', 'Db/dbcompare.c', 'Db/dbhash.c', 'Db/dbindex.c', 'Db/dbquery.c',
             'Db/dbmpool.c', 'Db/dbmem.c', 'Db/dblock.c', 'Db/dblog.c', 'Db/dbdump.c', 'Db/dbschema.c',
             'Db/dbutil.c', 'Db/dbjson.c'],
}
CONFDIR = os.path.join(VERIF, 'config')


class ToolFailure(Exception):
    pass


def run(cmd, timeout=120, mem=None, cwd=None, inp=None):
    def pre():
        os.setpgrp()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre,
                         stdin=subprocess.PIPE if inp else subprocess.DEVNULL)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return -999, b'', b'timeout'


def incs(config):
    return ['-DHAVE_CONFIG_H', '-I%s/%s/Db' % (CONFDIR, config), '-I%s/%s' % (CONFDIR, config), '-I%s/Db' % REPO,
            '-I%s/json' % REPO]


def build_ir(tmp, config, files):
    """compile the given /repo sources to one linked, register-promoted IR module"""
    def one(f):
        b = os.path.join(tmp, f.replace('/', '_') + '.bc')
        rc, o, e = run(['clang', '-O1', '-Xclang', '-disable-llvm-passes', '-Xclang', '-disable-lifetime-markers', '-fno-strict-aliasing', '-g', '-w',
                        '-c', '-emit-llvm'] + incs(config) + [os.path.join(REPO, f), '-o', b])
        if rc:
            raise ToolFailure('clang failed on %s: %s' % (f, e.decode()[:2000]))
        return b
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, files))
    out = os.path.join(tmp, 'all.bc')
    rc, o, e = run(['llvm-link'] + bcs + ['-o', out])
    if rc:
        raise ToolFailure('llvm-link: ' + e.decode()[:1000])
    ll = os.path.join(tmp, 'all.ll')
    # functions that are not in the recorded list have no contract: a static helper is inlined into its callers
    base = baseline()
    rc, o, e = run(['opt', '-S', out, '-o', ll])
    txt = o = open(ll).read() if rc == 0 else ''
    new = []
    if base:
        def mark(m):
            if m.group(2).strip('"') in base['functions'] or m.group(2).strip('"').startswith('llvm.'):
                return m.group(0)
            new.append(m.group(2))
            return re.sub(r'(\) )(local_unnamed_addr |unnamed_addr )?#', r'\1\2alwaysinline #', m.group(0), count=1)
        txt = re.sub(r'^define (internal [^@\n]*|[^@\n]*)@("[^"]*"|[-A-Za-z0-9_$.]+)\([^\n]*$', mark, txt, flags=re.M)
    out2 = os.path.join(tmp, 'all2.ll')
    open(out2, 'w').write(txt)
    passes = ('always-inline,' if new else '') + 'function(sroa,mem2reg,loop-simplify)'
    rc, o, e = run(['opt', '-S', '-passes=' + passes, out2, '-o', ll])
    if rc:
        raise ToolFailure('opt: ' + e.decode()[:1000])
    return ll


def baseline():
    p = os.path.join(CONFDIR, 'baseline.json')
    return json.load(open(p)) if os.path.exists(p) else None


def make_baseline():
    """names of the functions and shape of the loops of the tree the loop invariants were written for"""
    tmp = tempfile.mkdtemp(prefix='verif_base_')
    try:
        p = os.path.join(CONFDIR, 'baseline.json')
        if os.path.exists(p):
            os.unlink(p)
        mod = ll2c.Module(open(build_ir(tmp, 'main', SRC['main'])).read())
        tr = ll2c.Translator(mod)
        loops = {n: [[v[1:] for v in l] for l in s] for n, s in ((n, tr.loop_sig(f)) for n, f in sorted(mod.funcs.items())) if s}
        json.dump({'functions': sorted(mod.funcs), 'loops': loops}, open(p, 'w'), indent=0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def offsets(tmp, config):
    exe = os.path.join(tmp, 'offs')
    rc, o, e = run(['gcc', '-w'] + incs(config) + [os.path.join(HERE, 'offs.c'), '-o', exe])
    if rc:
        raise ToolFailure('offs.c: ' + e.decode()[:1000])
    rc, o, e = run([exe])
    # constants that are private to its source file
    for fn, name in (('dbquery.c', 'QUERY_RESULTSET_PAGESIZE'), ('dbquery.c', 'QUERY_FLAGS_PREFETCH')):
        m = re.search(r'^[ \t]*#[ \t]*define[ \t]+%s[ \t]+([^\n]*)' % name, open(os.path.join(REPO, 'Db', fn), errors='replace').read(), re.M)
        if m:
            o += ('#define K_%s ((u64)(%s))\n' % (name, re.sub(r'/[*/].*', '', m.group(1)).strip())).encode()
    open(os.path.join(tmp, 'offs.h'), 'wb').write(o)


def directives(path):
    d = {}
    for l in open(path):
        m = re.match(r'\s*//@\s*(\w+):\s*(.*)$', l)
        if m:
            d.setdefault(m.group(1), []).append(m.group(2).strip())
    return d


def words(d, k):
    return [w for l in d.get(k, []) for w in re.split(r'[,\s]+', l) if w]


def parse_cut(lst):
    cut = {}
    for l in lst:
        for w in l.split():
            # func:k=policy, func:*=policy, *=policy
            m = re.match(r'^(\*|[\w.]+)(?::(\*|\d+))?=(\w+)$', w)
            f, k, p = m.groups()
            if f == '*':
                cut['*'] = p
            else:
                cut[(f, int(k) if k and k != '*' else '*')] = p
    return cut


def generate(tmp, mod, hpath, disabled):
    d = directives(hpath)
    loopinv = {}
    for l in d.get('loopinv', []):
        # func k args a,b,c
        w = l.split()
        loopinv[(w[0], int(w[1]))] = {'args': [x for x in (w[2].split(',') if len(w) > 2 else []) if x]}
    tr = ll2c.Translator(mod, contracts=words(d, 'contracts'), cut=parse_cut(d.get('cut', [])),
                         nsw='nsw' in words(d, 'options'), drop_calls=words(d, 'drop'), loopinv=loopinv,
                         disabled=disabled)
    tr.base = (baseline() or {}).get('loops')
    roots = [r for r in words(d, 'roots')]
    protos, bodies = tr.translate(roots)
    src = open(hpath).read()
    ext = []
    assumed = []
    for n, sig in sorted(tr.externs.items()):
        if sig is None:
            assumed.append('indirect calls have no effect on the database: ' + n)
            continue
        rt, types = sig
        if re.search(r'\bx_%s\s*\(' % re.escape(ll2c.san(n)), src):
            ext.append('%s x_%s(%s);' % (ll2c.ctype(rt), ll2c.san(n), ', '.join(ll2c.ctype(t) for t in types) or 'void'))
            assumed.append('external function %s: behaves as modelled by x_%s in %s' % (n, n, os.path.basename(hpath)))
        else:
            r = {'void': '', 'double': 'return ND_double();'}.get(ll2c.ctype(rt), 'return ND_u%s();' % ll2c.ctype(rt)[1:])
            ext.append('static %s x_%s(%s) { %s }' % (ll2c.ctype(rt), ll2c.san(n), ', '.join(
                '%s a%d' % (ll2c.ctype(t), i) for i, t in enumerate(types)) or 'void', r))
            assumed.append('external function %s: arbitrary result, no effect on database memory' % n)
    for c in words(d, 'contracts'):
        assumed.append('call to %s replaced by its contract c_%s' % (c, c))
    cprotos = []
    for c in words(d, 'contracts'):
        if c in mod.funcs:
            cprotos.append(tr.proto(mod.funcs[c], prefix='c_') + ';')
        elif c in mod.decls:
            pass
    gl = []
    for nme, a in sorted(tr.usedglobals.items(), key=lambda x: x[1]):
        gl.append('#define G_%s ((u64)0x%xULL)' % (ll2c.san(nme), a))
    ginit = []
    want = words(d, 'globals')
    for nme, a in list(tr.usedglobals.items()):
        t, isc, init = mod.globals.get(nme, (None, False, None))
        if t is None or init is None:
            continue
        if not (nme in want or '*' in want or (isc and '.str' in nme and 'strings' in want) or
                (isc and not nme.startswith('.str'))):
            continue
        try:
            b = tr.init_bytes(t, init)
        except ll2c.Unsupported:
            continue
        b = b + bytes(-len(b) % 8)
        for i in range(0, len(b), 8):
            v = int.from_bytes(b[i:i + 8], 'little')
            ginit.append('  MEM[0x%xULL] = 0x%xULL;' % (a + i, v))
    with open(os.path.join(tmp, os.path.basename(hpath) + '.gen.h'), 'w') as f:
        f.write('/* generated from /repo sources */\n' + protos + '\n' + '\n'.join(cprotos) + '\n' + '\n'.join(gl) +
                '\nvoid init_globals(void);\n')
    with open(os.path.join(tmp, os.path.basename(hpath) + '.gen.c'), 'w') as f:
        f.write('\n'.join(ext) + '\n' + 'void init_globals(void) {\n' + '\n'.join(ginit) + '\n}\n' + bodies + '\n')
    info = {'functions': [(n, tr.file_of(mod.funcs[n])) for n in tr.order], 'assumed': assumed, 'loops': tr.loops,
            'cands': tr.cands, 'directives': d, 'tr': tr}
    return info


def build_goto(tmp, hpath, variant, defs):
    base = os.path.basename(hpath)
    c = os.path.join(tmp, base + variant + '.c')
    with open(c, 'w') as f:
        f.write('#include "mm.h"\n#include "offs.h"\n' if False else '')
        f.write('#define GEN_H "%s.gen.h"\n#include "%s"\n#include "%s.gen.c"\n' % (base, hpath, base))
    gb = os.path.join(tmp, base + variant + '.gb')
    rc, o, e = run(['goto-cc', '-I', tmp, '-I', HERE, '-I', os.path.join(VERIF, 'harness'), '-DCBMC'] +
                   ['-D' + x for x in defs] + ['-o', gb, c], timeout=300)
    if rc:
        raise ToolFailure('goto-cc %s: %s' % (base, (o + e).decode()[:3000]))
    return gb


def cbmc(gb, entry, opts, timeout, mem=14 << 30, trace=None):
    cmd = ['cbmc', gb, '--function', entry, '--no-standard-checks', '--unwinding-assertions', '--json-ui',
           '--drop-unused-functions', '--object-bits', '16'] + ([] if any('z3' in x or 'sat-solver' in x for x in opts) else ['--sat-solver', 'cadical']) + opts
    if trace:
        cmd += ['--trace', '--property', trace]
    t0 = time.time()
    rc, o, e = run(cmd, timeout=timeout, mem=mem)
    dt = time.time() - t0
    res = {'rc': rc, 'time': dt, 'cmd': ' '.join(cmd), 'props': [], 'status': None}
    if rc == -999:
        res['status'] = 'timeout'
        return res
    try:
        js = json.loads(o.decode(errors='replace'))
    except Exception:
        res['status'] = 'error'
        res['msg'] = (o[-600:] + e[-600:]).decode(errors='replace')
        return res
    for it in js:
        if 'result' in it:
            res['props'] = it['result']
            res['status'] = 'done'
        if 'program' in it:
            res['version'] = it['program']
        if it.get('messageType') == 'ERROR':
            res['msg'] = it.get('messageText')
    if res['status'] is None:
        res['status'] = 'error'
        res.setdefault('msg', (o[-600:] + e[-600:]).decode(errors='replace'))
    return res


def build_vx(I, disabled=None):
    """harness -> IR, and the list of functions it talks about"""
    td, mod, hpath = I['td'], I['mod'], I['hpath']
    base = os.path.basename(hpath)
    d = directives(hpath)
    src = open(hpath).read()
    for inc in re.findall(r'#include "(\w+\.h)"', src):
        ip = os.path.join(VERIF, 'harness', inc)
        if os.path.exists(ip):
            src += open(ip).read()
    tr = ll2c.Translator(mod, contracts=words(d, 'contracts'))
    for c in words(d, 'contracts') + words(d, 'roots'):
        if c not in mod.funcs:
            raise ToolFailure('function %s not found in /repo' % c)
    fs = sorted(n for n in set(re.findall(r'\bf_(\w+)\s*\(', src)) if n in mod.funcs)
    tr.order = fs
    protos = [tr.proto(mod.funcs[n]) + ';' for n in fs]
    cprotos = [tr.proto(mod.funcs[c], prefix='c_') + ';' for c in words(d, 'contracts')]
    with open(os.path.join(td, base + '.gen.h'), 'w') as f:
        f.write('/* generated from /repo sources */\n' + '\n'.join(protos) + '\n' + '\n'.join(cprotos) + '\n')
    hl = os.path.join(td, base + '.ll')
    bc = os.path.join(td, base + '.bc')
    rc, o, e = run(['clang', '-O1', '-Xclang', '-disable-llvm-passes', '-w', '-g', '-c', '-emit-llvm', '-DVX', '-DGEN_H="%s.gen.h"' % base,
                    '-I', td, '-I', HERE, '-I', os.path.join(VERIF, 'harness')] + ['-D' + x for x in I['h'].get('defs', [])] +
                   [hpath, '-o', bc])
    if rc:
        raise ToolFailure('harness %s: %s' % (base, e.decode()[:1500]))
    rc, o, e = run(['opt', '-S', '-passes=function(sroa,mem2reg,simplifycfg,early-cse)', bc, '-o', hl])
    if rc:
        raise ToolFailure('opt harness: ' + e.decode()[:500])
    pe = {}
    for k, v in d.items():
        m = re.match(r'vx_(\w+)$', k)
        if m:
            pe[m.group(1)] = json.loads(' '.join(v))
    li = []
    for l in d.get('loopinv', []):
        w = l.split()
        li.append([w[0], int(w[1]), [x for x in (w[2].split(',') if len(w) > 2 else []) if x]])
    spec = {'contracts': words(d, 'contracts'), 'loopinv': li, 'fork': words(d, 'fork'), 'merge': words(d, 'merge'),
            'drop': words(d, 'drop'), 'per_entry': pe}
    for l in d.get('vx', []):
        spec.update(json.loads(l))
    spec['base'] = (baseline() or {}).get('loops')
    sp = os.path.join(td, base + '.spec.json')
    json.dump(spec, open(sp, 'w'))
    I['vx'] = (os.path.join(td, 'all.ll'), hl, sp)
    I['info'] = {'functions': [], 'assumed': ['call to %s replaced by its contract c_%s' % (c, c) for c in words(d, 'contracts')],
                 'loops': [(f, k, 'cut', True, 0) for f, k, _ in li], 'directives': d, 'tr': tr, 'cands': []}


def run_vx(I, entry, budget):
    out = os.path.join(I['td'], '%s.%s.json' % (os.path.basename(I['hpath']), entry))
    pll, hll, sp = I['vx']
    spec = json.load(open(sp))
    spec['budget'] = budget
    spf = out + '.spec'
    json.dump(spec, open(spf, 'w'))
    t0 = time.time()
    cmd = ['python3-vt', os.path.join(HERE, 'vx.py'), pll, hll, spf, entry, out]
    if os.environ.get('VX_VERBOSE'):
        p = subprocess.run(cmd)
        rc, e = p.returncode, b''
    else:
        rc, o, e = run(cmd, timeout=budget + 60, mem=12 << 30)
    res = {'rc': rc, 'time': time.time() - t0, 'cmd': ' '.join(cmd), 'props': [], 'status': 'error', 'msg': ''}
    if rc == -999:
        res['status'] = 'timeout'
        return res
    try:
        j = json.load(open(out))
    except Exception:
        res['msg'] = e.decode(errors='replace')[-700:]
        return res
    res.update(j)
    res['time'] = time.time() - t0
    return res


def run_entry(tmp, mod, hpath, entry, info, gb, opts, timeout):
    return cbmc(gb, entry, opts, timeout)


def classify(p):
    d = p['description']
    if d.startswith('COVER '):
        return 'cover'
    if d.startswith('cand '):
        return 'cand'
    if 'unwind' in p['property'] or d.startswith('unwinding assertion') or 'recursion unwinding' in d:
        return 'unwind'
    return 'obl'


def setup():
    tmp = tempfile.mkdtemp(prefix='verif_setup_')
    try:
        build_ir(tmp, 'main', SRC['main'])
        offsets(tmp, 'main')
        print('setup ok: front end, linker and layout probe work on the current tree')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if sys.argv[1] == '--setup':
        return setup()
    if sys.argv[1] == '--baseline':
        return make_baseline()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3:] or None
    spec = json.load(open(os.path.join(VERIF, 'props', prop + '.json')))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    keep = os.environ.get('VERIF_KEEP')
    try:
        rc = check(prop, tier, spec, tmp, t0, only)
    except (ToolFailure, ll2c.Unsupported) as e:
        print('UNDECIDED property=%s: the machinery could not process the current tree: %s' % (prop, str(e)[:1500]))
        write_evidence(prop, tier, spec, [], [], {}, time.time() - t0, [], 'tool failure: %s' % str(e)[:500], [])
        rc = 3 if os.environ.get('VERIF_DEV') else 0
    finally:
        if keep:
            print('kept', tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, spec, tmp, t0, only):
    seen_ir = {}
    jobs = []
    infos = {}
    for h in spec['harnesses']:
        if h.get('tier') == 'thorough' and tier != 'thorough':
            continue
        config = h.get('config', 'main')
        if config not in seen_ir:
            td = os.path.join(tmp, config)
            os.makedirs(td)
            ll = build_ir(td, config, SRC[config])
            offsets(td, config)
            seen_ir[config] = (td, ll2c.Module(open(ll).read()))
        td, mod = seen_ir[config]
        hpath = os.path.join(VERIF, 'harness', h['file'])
        entries = h.get('entries') or re.findall(r'^ENTRY\((\w+)\)', open(hpath).read(), re.M)
        hk = h['file'] + '|' + config
        infos[hk] = dict(file=h['file'], hpath=hpath, td=td, mod=mod, h=h)
        for e in entries:
            if only and not any(o == e for o in only):
                continue
            jobs.append((hk, e))
    # translate + compile each harness (Houdini over candidate invariants)
    budget = spec.get('timeout', 600)
    results = []

    def prep(hk, disabled):
        I = infos[hk]
        if 'vx' in words(directives(I['hpath']), 'engine'):
            return build_vx(I)
        I['info'] = generate(I['td'], I['mod'], I['hpath'], disabled)
        I['gb'] = build_goto(I['td'], I['hpath'], '', I['h'].get('defs', []))
    for hk in infos:
        prep(hk, set())

    def job(hk, e):
        I = infos[hk]
        if 'vx' in I:
            return run_vx(I, e, budget), []
        d = I['info']['directives']
        opts = ' '.join(d.get('cbmc', [])).split()
        for l in d.get('cbmc_' + e, []):
            opts += l.split()
        if not any(o.startswith('--unwind') and o != '--unwindset' for o in opts):
            opts += ['--unwind', '40']
        return cbmc(I['gb'], e, opts, budget), opts
    disabled = {}
    pending = list(jobs)
    final = {}
    for rnd in range(6):
        with ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex:
            rs = list(ex.map(lambda j: job(*j), pending))
        redo = set()
        for (hk, e), (r, opts) in zip(pending, rs):
            final[(hk, e)] = (r, opts)
            bad = [p['description'].split()[1] for p in r['props'] if classify(p) == 'cand' and p['status'] == 'FAILURE']
            if bad:
                disabled.setdefault(hk, set()).update(bad)
                redo.add(hk)
        if not redo:
            break
        for hk in redo:
            prep(hk, disabled[hk])
        pending = [j for j in jobs if j[0] in redo]
    # collate
    viol, undecided, obligations, solver = [], [], [], 0.0
    samples = []
    for (hk, e), (r, opts) in final.items():
        I = infos[hk]
        solver += r['time']
        name = '%s/%s' % (I['file'], e)
        if os.environ.get('VERIF_DEV'):
            print('  %-40s %-8s %6.1fs  %d props' % (name, r['status'], r['time'], len(r['props'])), r.get('msg', ''))
        if r['status'] != 'done' and not any(p['status'] == 'FAILURE' and classify(p) == 'obl' for p in r['props']):
            undecided.append('%s: %s %s' % (name, r['status'], r.get('msg', '')))
            continue
        covers = [p for p in r['props'] if classify(p) == 'cover']
        unw = [p for p in r['props'] if classify(p) == 'unwind']
        obl = [p for p in r['props'] if classify(p) in ('obl', 'cand') and p['status'] != 'UNKNOWN']
        fails = [p for p in r['props'] if classify(p) == 'obl' and p['status'] == 'FAILURE']
        ubad = [p for p in unw if p['status'] == 'FAILURE']
        dead = [p for p in covers if p['status'] == 'SUCCESS']
        for p in r['props']:
            c = classify(p)
            if c == 'obl' and p['status'] in ('ERROR', 'UNKNOWN') and 'vx' not in I:
                undecided.append('%s: not decided: %s' % (name, p['description']))
            if c in ('obl', 'cand', 'unwind'):
                obligations.append((name, p['property'], p['description'], p['status']))
        for p in fails:
            viol.append((hk, e, p, opts))
        if ubad and not fails:
            undecided.append('%s: loop bound exceeded (%s)' % (name, ubad[0]['property']))
        if dead and not fails and not ubad:
            viol.append((hk, e, dict(dead[0], description='postcondition unreachable: ' + dead[0]['description']), opts))
        for p in r['props']:
            if 'vx' in I and classify(p) == 'obl' and p['status'] == 'UNKNOWN':
                undecided.append('%s: solver could not decide: %s' % (name, p['description']))
        if 'vx' in I:
            for n in r.get('functions', []):
                if n in I['mod'].funcs and (n, I['info']['tr'].file_of(I['mod'].funcs[n])) not in I['info']['functions']:
                    I['info']['functions'].append((n, I['info']['tr'].file_of(I['mod'].funcs[n])))
            I['info']['assumed'] = sorted(set(I['info']['assumed']) | set(r.get('assumed', [])))
            if os.environ.get('VERIF_DEV'):
                print('      paths %s queries %s solver %.1fs' % (r.get('paths'), r.get('queries'), r.get('qtime', 0)))
        if not obl:
            undecided.append('%s: no obligations generated' % name)
    kf = known_findings(prop)
    real = []
    knownhits = {}
    for v in viol:
        key = '%s %s' % (v[1], v[2]['description'])
        m = [k for k in kf if k['match'] in key]
        if m:
            knownhits[m[0]['id']] = m[0]
        else:
            real.append(v)
    for k in kf:
        if k['id'] in knownhits:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    replays = []
    if real:
        replays = report(prop, tmp, infos, real)
    for u in undecided:
        print('UNDECIDED property=%s %s' % (prop, u))
    write_evidence(prop, tier, spec, obligations, real, infos, time.time() - t0, undecided, None,
                   list(knownhits.values()), solver, final)
    if real:
        return 1
    if undecided and os.environ.get('VERIF_DEV'):
        return 3
    ok = sum(1 for o in obligations if o[3] == 'SUCCESS')
    print('%s: %d obligations, %d discharged, %d undecided entries, solver %.1fs, wall %.1fs' %
          (prop, len(obligations), ok, len(undecided), solver, time.time() - t0))
    return 0


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop and k.get('match')]


def trace_text(r, limit=400):
    out = []
    for p in r['props']:
        for st in p.get('trace', []):
            if st.get('hidden'):
                continue
            if st['stepType'] == 'assignment':
                v = st.get('value', {})
                out.append('%s = %s' % (st.get('lhs'), v.get('data', v.get('name', '?'))))
            elif st['stepType'] == 'failure':
                out.append('FAILED: %s' % st.get('reason'))
            elif st['stepType'] == 'function-call':
                out.append('call %s' % st.get('function', {}).get('displayName'))
    return out


def report(prop, tmp, infos, real):
    rdir = os.path.join(VERIF, 'replay')
    os.makedirs(rdir, exist_ok=True)
    paths = []
    real = sorted(real, key=lambda v: (v[2]['description'].startswith('postcondition unreachable'),))
    done = set()
    n = 0
    for hk, e, p, opts in real:
        if (hk, e) in done:
            continue
        done.add((hk, e))
        n += 1
        I = infos[hk]
        path = os.path.join(rdir, '%s_%s.txt' % (prop, e))
        confirmed = None
        txt = []
        if n <= 3 and not p['description'].startswith('postcondition unreachable'):
            if 'vx' in I:
                gbt, r = None, {'props': []}
                c = p.get('cex') or {}
                txt = ['path: ' + x for x in c.get('trail', [])]
            else:
                gbt = build_goto(I['td'], I['hpath'], '.trace', I['h'].get('defs', []) + ['TRACE'])
                r = cbmc(gbt, e, opts, 200, trace=p['property'])
                txt = trace_text(r)
            try:
                import replay
                confirmed, rtxt = replay.replay(I, e, p, r, tmp)
            except Exception as ex:
                rtxt = 'replay not available: %r' % ex
        else:
            rtxt = ''
        with open(path, 'w') as f:
            f.write('property %s\nharness %s entry %s\nfailed obligation: %s\n  %s\nat: %s\n' % (
                prop, I['file'], e, p['property'], p['description'], json.dumps(p.get('sourceLocation', {}))))
            allf = [x[2]['description'] for x in real if x[0] == hk and x[1] == e]
            f.write('all failed obligations of this entry:\n' + '\n'.join('  ' + x for x in allf) + '\n')
            f.write('\nreplay against the real code: %s\n%s\n' % (confirmed, rtxt))
            f.write('\nverifier counterexample (assignments in order, tail):\n' + '\n'.join(txt[:4000]) + '\n')
        tail = '' if confirmed else ' no-failing-input-found'
        print('failed obligation [%s] %s: %s' % (e, p['property'], p['description']))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, tail))
        paths.append(path)
    return paths


def write_evidence(prop, tier, spec, obligations, real, infos, wall, undecided, failure, known, solver=0.0, final=None):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    funcs, assumed, loops, nativefns = {}, [], [], []
    for hk, I in (infos or {}).items():
        if 'info' not in I:
            continue
        for n, f in I['info']['functions']:
            funcs[n] = f
        assumed += I['info']['assumed']
        for (fn, k, pol, eff, line) in I['info']['loops']:
            loops.append('%s loop %d (line %d): %s' % (fn, k, line, 'inductive invariant' if pol == 'cut' else 'fully unrolled, unwinding assertion'))
    cnt = len(obligations)
    dis = sum(1 for o in obligations if o[3] == 'SUCCESS')
    level = spec.get('level', 'proof')
    bynm = {}
    for o in obligations:
        bynm.setdefault(o[0], [0, 0])
        bynm[o[0]][0] += 1
        bynm[o[0]][1] += o[3] == 'SUCCESS'
    cmds = []
    if final:
        for (hk, e), (r, opts) in list(final.items())[:1]:
            cmds.append(r['cmd'])
    tb, be = [], []
    if any('vx' not in I for I in (infos or {}).values()):
        tb += ['/verif/engine/ll2c.py (LLVM IR to C over a flat memory)', 'CBMC 6.11 symbolic execution and its SAT back end (CaDiCaL) with array theory']
        be.append('CBMC 6.11.0 bit-precise, SAT (CaDiCaL)')
    if any('vx' in I for I in (infos or {}).values()):
        tb += ['/verif/engine/vx.py (path-wise weakest preconditions over LLVM IR)', 'Z3 4.x (python API)']
        be.append('vx.py verification conditions over integers with no-wrap obligations, Z3')
    cov = {
        'obligations': cnt, 'discharged': dis,
        'checker_cmd': 'python3 /verif/engine/verify.py %s %s' % (prop, tier),
        'trusted_base': ['clang 18 front end and opt sroa/mem2reg/loop-simplify'] + tb + sorted(set(assumed)),
        'functions_under_contract': sorted('%s (%s)' % (n, f) for n, f in funcs.items()),
        'entries': {k: {'obligations': v[0], 'discharged': v[1]} for k, v in bynm.items()},
        'loops': sorted(set(loops)),
        'solver_seconds': round(solver, 1),
        'backend': '; '.join(be),
        'solver_command_example': cmds[:1],
        'undecided': undecided + ([failure] if failure else []),
    }
    if level != 'proof':
        cov['explanation'] = spec.get('explanation', '')
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'assumptions': spec.get('assumptions', []) + sorted(set(assumed)), 'wall_s': round(wall, 2),
          'violations': len(real)}
    if known:
        ev['coverage']['known_findings'] = [k['what'] for k in known]
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
