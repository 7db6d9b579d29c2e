"""Driver: decide one property from /repo's current sources.

  python3-vt -m engine.run <property id> [--tier quick|thorough] [--entry NAME] [-v]
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
SRC = os.path.join(REPO, 'Merlin++')
LLVM = '/usr/lib/llvm-18/bin/'
CXX = 'clang++-18'
IRFLAGS = ['-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-ffp-contract=off', '-fno-strict-aliasing',
           '-fno-math-errno', '-fno-access-control', '-g0', '-DNDEBUG', '-w', '-I', SRC, '-I', os.path.join(VERIF, 'contracts')]
PASSES = 'internalize,globaldce,function(sroa,instsimplify,simplifycfg,sroa,simplifycfg,loop-simplify,adce)'
NATFLAGS = ['-std=c++14', '-O1', '-g0', '-DVC_NATIVE', '-DNDEBUG', '-w', '-ffp-contract=off', '-fno-access-control', '-ftrivial-auto-var-init=pattern',
            '-D_GLIBCXX_ASSERTIONS', '-I', SRC, '-I', os.path.join(VERIF, 'contracts')]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def harness_meta(path):
    units, opts = [], {}
    for ln in open(path):
        m = re.match(r'//\s*VC:\s*(\w+)\s*=\s*(.*)', ln)
        if m:
            if m.group(1) == 'units':
                units += m.group(2).split()
            else:
                opts[m.group(1)] = m.group(2).strip()
    return units, opts


def compile_ir(src, out):
    r = sh([CXX] + IRFLAGS + ['-emit-llvm', '-c', src, '-o', out])
    if r.returncode:
        raise BuildError('%s does not compile: %s' % (src, r.stderr[-1500:]))


CACHE = os.environ.get('VC_CACHE')


def compile_ir_cached(src, out):
    if not CACHE:
        return compile_ir(src, out)
    os.makedirs(CACHE, exist_ok=True)
    e = sh([CXX] + IRFLAGS + ['-E', '-P', src])
    k = os.path.join(CACHE, hashlib.sha1((e.stdout + ' '.join(IRFLAGS)).encode()).hexdigest() + '.bc')
    if not os.path.exists(k):
        compile_ir(src, k + '.tmp%d' % os.getpid())
        os.rename(k + '.tmp%d' % os.getpid(), k)
    shutil.copy(k, out)


def unit_path(u):
    return os.path.join(SRC, u)


def build_ir(harness, tmp, units, all_units=False):
    base = os.path.basename(harness)[:-4]
    srcs = [harness] + [unit_path(u) for u in units]
    if all_units:
        inc = set(re.findall(r'#include\s+"([^"]+\.cpp)"', open(harness).read()))
        srcs = [harness] + sorted(os.path.join(SRC, f) for f in os.listdir(SRC)
                                  if f.endswith('.cpp') and f not in inc and f not in SKIPUNITS
                                  and f not in harness_meta(harness)[1].get('skip', '').split())
    srcs.append(os.path.join(VERIF, 'engine', 'rt.cpp'))
    outs = [os.path.join(tmp, '%s.%d.bc' % (base, i)) for i in range(len(srcs))]
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(compile_ir_cached, s, o) for s, o in zip(srcs, outs)]
        good = []
        for i, f in enumerate(fs):
            try:
                f.result()
                good.append(outs[i])
            except BuildError:
                if all_units and i > 0:
                    continue
                raise
    ll = os.path.join(tmp, base + '.ll')
    r = sh([LLVM + 'llvm-link', '-o', os.path.join(tmp, base + '.bc')] + good)
    if r.returncode:
        raise BuildError('llvm-link: ' + r.stderr[-1500:])
    r = sh([LLVM + 'opt', '-S', '-passes=' + PASSES, '-internalize-public-api-list=vch_*,vcspec__*', os.path.join(tmp, base + '.bc'), '-o', ll])
    if r.returncode:
        raise BuildError('opt: ' + r.stderr[-1500:])
    return ll


SKIPUNITS = {'Gamma.cpp', 'CPUFeatures.cpp'}


def load_module(ll):
    from . import ir
    p = ir.Parser()
    p.parse(open(ll).read())
    p.m.parser = p
    for k in list(p.m.aliases):
        v, n = p.m.aliases[k], 0
        while v in p.m.aliases and n < 50:
            v, n = p.m.aliases[v], n + 1
        p.m.aliases[k] = v
    return p.m


def run_ctors(ex, st0):
    """static initialisers of the linked units, executed on the initial state (best effort)"""
    from . import symex
    g = ex.m.globals.get('llvm.global_ctors')
    if not g:
        return st0
    try:
        _, init = symex.global_init(ex.m.parser, 'llvm.global_ctors')
    except Exception:
        return st0
    for et, ev in init[1]:
        try:
            fn = ev[1][1][1]
            if fn[0] != 'g':
                continue
            f = ex.m.funcs.get(fn[1])
            if f is None:
                continue
            s = st0.copy()
            ex.push(s, f, [], None)
            ex.work = []
            n0 = len(ex.obls)
            ex.deadline = time.time() + 5
            while s.frames:
                s.steps += 1
                ex.step(s)
                if s.steps & 255 == 0 and time.time() > ex.deadline:
                    raise symex.Unsupported('static initialiser too long')
                if ex.work:
                    raise symex.Unsupported('static initialiser forks')
            del ex.obls[n0:]
            st0 = s
        except (symex.Unsupported, symex.PathEnd, KeyError, TypeError, AttributeError, NotImplementedError) as e:
            del ex.obls[n0:]
            ex.notes.add('static initialiser %s not executed (%s)' % (ev[1][1][1][1] if ev[1] else '?', str(e)[:80]))
            # nothing that this initialiser may have set is known: reading it stops the entry
            todo, seen = [f], set()
            while todo:
                b = todo.pop()
                txt = b.body if isinstance(b.body, str) else '\n'.join(b.body)
                for n in set(re.findall(r'@([-\w$.]+)', txt)) - seen:
                    seen.add(n)
                    if n in ex.m.funcs:
                        if n.startswith('__cxx_global_var_init'):
                            todo.append(ex.m.funcs[n])
                    elif n in ex.m.globals and not ex.m.globals[n][1]:
                        t, init = ex.m_init(n)
                        if init is not None and (init == ('zero',) or not ex.m.globals[n][0]) or init == ('c', 0):
                            ex.unexec[n] = str(e)
    ex.work = []
    return st0


def run_entry(mod, entry, opts, budget):
    from . import symex, solve
    ex = symex.Exec(mod, opts)
    t0 = time.time()
    err = None
    try:
        st = run_ctors(ex, symex.State())
        ex.executed.clear()
        ex.deadline = t0 + budget
        ex.call_entry(entry, st)
    except symex.Unsupported as e:
        err = 'unsupported: ' + str(e)
    except RecursionError:
        err = 'recursion limit'
    except Exception as e:
        import traceback
        err = 'engine: %s %s' % (type(e).__name__, str(e)[:300]) + traceback.format_exc()[-1200:]
    if err:
        err += where(ex)
    obs = []
    for o in ex.obls:
        m = {}
        if o.model:
            m = {k: v for k, v in o.model.items()}
        if o.choices:
            m.update(o.choices)
        obs.append(dict(name=o.name, status=o.status, backend=o.backend, time=round(o.time, 3), kind=o.kind, model=m or None))
    return dict(entry=entry, obligations=obs, reached=ex.reached, executed=sorted(ex.executed), paths=ex.paths, notes=sorted(ex.notes),
                error=err, wall=round(time.time() - t0, 2), contracts_used=sorted(getattr(ex, 'used_contracts', ())),
                summarised=ex.summarised, solver=dict(n=solve.STATS.n, t={k: round(v, 2) for k, v in solve.STATS.t.items()}))


def where(ex):
    st = getattr(ex, 'cur', None)
    if st is None or not st.frames:
        return ''
    return ' [in ' + ' < '.join(f.fn.name for f in reversed(st.frames[-4:])) + ']'


def _worker(q, mod, entry, opts, budget):
    try:
        q.put(run_entry(mod, entry, opts, budget))
    except BaseException as e:
        q.put(dict(entry=entry, obligations=[], reached={}, executed=[], paths=0, notes=[], error='engine crash %r' % (e,), wall=0,
                   contracts_used=[], summarised=[], solver=dict(n={}, t={})))


def run_module(mod, entries, opts, budget, verbose=False):
    """fork one process per entry, at most 8 at a time"""
    ctx = mp.get_context('fork')
    res, todo, running = [], list(entries), []
    while todo or running:
        while todo and len(running) < 8:
            e = todo.pop(0)
            q = ctx.SimpleQueue() if False else ctx.Queue()
            p = ctx.Process(target=_worker, args=(q, mod, e, opts, budget))
            p.start()
            running.append((p, q, e, time.time()))
        for it in list(running):
            p, q, e, t0 = it
            try:
                r = q.get(timeout=0.02)
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=0.5)
                    except Exception:
                        r = dict(entry=e, obligations=[], reached={}, executed=[], paths=0, notes=[], error='engine process died', wall=0,
                                 contracts_used=[], summarised=[], solver=dict(n={}, t={}))
                elif time.time() - t0 > budget * 1.5 + 60:
                    p.kill()
                    r = dict(entry=e, obligations=[], reached={}, executed=[], paths=0, notes=[], error='time limit', wall=time.time() - t0,
                             contracts_used=[], summarised=[], solver=dict(n={}, t={}))
                else:
                    continue
            running.remove(it)
            p.join(5)
            if p.is_alive():
                p.kill()
            res.append(r)
            if verbose:
                show(r)
    return res


def show(r):
    st = {}
    for o in r['obligations']:
        st[o['status']] = st.get(o['status'], 0) + 1
    print('  %-40s %s paths=%d %.1fs reach=%s %s' % (r['entry'], st, r['paths'], r['wall'], r['reached'], r['error'] or ''))
    seen = set()
    for o in r['obligations']:
        if o['status'] != 'proved':
            k = (o['name'], o['status'])
            if k in seen:
                continue
            seen.add(k)
            print('      %s %s (%s) model=%s' % (o['status'], o['name'], o['backend'], {k: v for k, v in (o['model'] or {}).items() if '!' not in k}))
    sys.stdout.flush()


# ------------------------------------------------------------------ native replay
def build_native(harness, tmp, units, asan=True):
    base = os.path.basename(harness)[:-4]
    srcs = [harness, os.path.join(VERIF, 'contracts', 'vc_native.cpp')] + [unit_path(u) for u in units]
    objs = [os.path.join(tmp, '%s.%d.o' % (base, i)) for i in range(len(srcs))]
    san = ['-fsanitize=address'] if asan else []

    def one(s, o):
        r = sh(['g++'] + NATFLAGS + san + ['-c', s, '-o', o])
        return r.stderr if r.returncode else ''
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, srcs, objs) if e]
    if errs:
        return None, errs[0][-800:]
    exe = os.path.join(tmp, base + '.native')
    r = sh(['g++', '-no-pie'] + san + objs + ['-Wl,--unresolved-symbols=ignore-all', '-o', exe])
    if r.returncode:
        return None, r.stderr[-800:]
    return exe, ''


def native_run(exe, entry, values, samples, seed, skip=(), fe=False, tmax=20, tmp='/tmp'):
    cmd = [exe, '--entry', entry, '--samples', str(samples), '--seed', str(seed), '--tmax', str(tmax)]
    if fe:
        cmd.append('--fe')
    if values:
        vf = os.path.join(tmp, 'values.%d.txt' % os.getpid())
        with open(vf, 'w') as f:
            for k, v in values.items():
                if '!' in k or ' ' in k:
                    continue
                f.write('%s %.17g\n' % (k, v))
        cmd += ['--values', vf]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', MALLOC_PERTURB_='165')
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=tmax + 30, env=env, errors='replace', cwd=tmp)
    except subprocess.TimeoutExpired:
        return None
    for ln in reversed(r.stdout.strip().split('\n')):
        if ln.startswith('{'):
            try:
                return json.loads(ln)
            except Exception:
                pass
    return None


def props():
    p = {}
    exec(open(os.path.join(VERIF, 'contracts', 'props.py')).read(), p)
    return p['PROPS']


def known():
    out = {}
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r'known:\s+property=(\S+)\s+obligation=(\S+)\s+(.*)', ln)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def demangle(names):
    r = sh(['c++filt'], input='\n'.join(names))
    return r.stdout.split('\n')[:len(names)]


STDRE = re.compile(r'^(std::|__gnu|__cxx|vch_|vcspec|vc_|operator|void std::|bool std::|_GLOBAL|\(anonymous|vc[A-Z]|void __gnu)')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--entry')
    ap.add_argument('--harness')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--noreplay', action='store_true')
    ap.add_argument('--noevidence', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = props()
    if a.prop not in P:
        print('unknown property ' + a.prop)
        sys.exit(2)
    cfg = P[a.prop]
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % a.prop)
    try:
        rc = decide(a, cfg, tmp, seed, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def entries_of(path):
    return re.findall(r'^VC_ENTRY\((\w+)\)', open(path).read(), re.M)


def decide(a, cfg, tmp, seed, t0):
    prop = a.prop
    budget = cfg.get('budget', 400 if a.tier == 'quick' else 3000)
    results = []
    builderr = []
    hs = [os.path.join(VERIF, 'contracts', h) for h in cfg['harness']]
    if a.harness:
        hs = [h for h in hs if os.path.basename(h) == a.harness]
    infos = {}
    for h in hs:
        units, opts = harness_meta(h)
        o = dict(nodiv=opts.get('nodiv') == '1', nosqrt=opts.get('nosqrt') == '1', polar=opts.get('polar') == '1', prove_timeout=int(opts.get('timeout', '20000')))
        if a.tier == 'thorough':
            o['prove_timeout'] *= 4
        infos[h] = (units, o)
        want = [e for e in entries_of(h) if not a.entry or e == a.entry]
        if opts.get('thorough') and a.tier != 'thorough':
            slow = opts['thorough'].split()
            want = [e for e in want if e not in slow]
        if not want:
            continue
        try:
            ll = build_ir(h, tmp, units)
            mod = load_module(ll)
            rs = run_module(mod, ['vch_' + e for e in want], o, budget, a.v)
            miss = [r for r in rs if r['error'] and ('external function _Z' in r['error'] or 'external global _Z' in r['error'])]
            if miss:
                try:
                    ll = build_ir(h, tmp, units, True)
                    mod = load_module(ll)
                    again = run_module(mod, [r['entry'] for r in miss], o, budget, a.v)
                    rs = [r for r in rs if r not in miss] + again
                    infos[h] = (None, o)
                except BuildError as e:
                    pass
        except BuildError as e:
            builderr.append(str(e))
            rs = []
            try:        # text moved between units? retry with the whole library
                ll = build_ir(h, tmp, units, True)
                mod = load_module(ll)
                rs = run_module(mod, ['vch_' + e for e in want], o, budget, a.v)
                builderr.pop()
            except BuildError as e2:
                builderr[-1] += '\n' + str(e2)
        for r in rs:
            r['harness'] = h
        results += rs
    kn = known()
    bad, kf, bounded = [], [], 0
    nob = ndis = 0
    backends = {}
    solver_t = 0.0
    for r in results:
        e = r['entry'][4:]
        for o in r['obligations']:
            isk = (prop, e + '/' + o['name'].replace(' ', '_')) in kn
            if isk:
                if o['status'] != 'proved':
                    kf.append((e, o))
                continue
            nob += 1
            if o['status'] == 'proved':
                ndis += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            else:
                bad.append((r, o['name'], o))
        solver_t += sum(r['solver']['t'].values())
        if r['error']:
            nob += 1
            bad.append((r, 'engine', dict(name='verification of ' + e, status='unknown', backend='-', model=None, kind='engine', detail=r['error'])))
        elif not r['obligations']:
            nob += 1
            bad.append((r, 'vacuous', dict(name='no obligation generated by ' + e, status='unknown', backend='-', model=None, kind='engine')))
        for k, v in r['reached'].items():
            nob += 1
            if v == 'unsat':
                bad.append((r, 'vacuous:' + k, dict(name='reachability of ' + k, status='failed', backend='z3', model=None, kind='engine')))
            else:
                ndis += 1
    for be in builderr:
        bad.append((None, 'build', dict(name='contract does not compile against the current sources', status='unknown', backend='clang', model=None,
                                        kind='engine', detail=be)))
    for key, text in kn.items():
        if key[0] == prop and any(e + '/' + o['name'].replace(' ', '_') == key[1] for e, o in kf):
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    viol = 0
    if bad:
        viol = 1
        replay(a, prop, bad, infos, tmp, seed, kn)
    if not a.noevidence:
        evidence(a, prop, cfg, results, nob, ndis, backends, solver_t, seed, t0, viol, bad, kf)
    if not bad:
        print('property %s: %d obligations discharged in %d entries (%.1f s)' % (prop, ndis, len(results), time.time() - t0))
    return 1 if bad else 0


def replay(a, prop, bad, infos, tmp, seed, kn):
    exes = {}
    conc = None
    rep = []
    tlim = time.time() + 240
    order = sorted(bad, key=lambda b: (b[2]['status'] != 'failed', b[2]['kind'] == 'engine'))
    tried = set()
    skip = [k[1] for k in kn if k[0] == prop]
    if not a.noreplay:
        for r, nm, o in order:
            if r is None or time.time() > tlim:
                continue
            h = r['harness']
            if h not in exes:
                units = infos[h][0]
                if units is None:
                    inc = set(re.findall(r'#include\s+"([^"]+\.cpp)"', open(h).read()))
                    units = sorted(f for f in os.listdir(SRC) if f.endswith('.cpp') and f not in inc and f not in SKIPUNITS
                                  and f not in harness_meta(h)[1].get('skip', '').split())
                exes[h] = build_native(h, tmp, units)
            exe, err = exes[h]
            if exe is None:
                continue
            e = r['entry'][4:]
            if any(k.startswith(e + '/') for k in skip) and any((e + '/') == k[:len(e) + 1] for k in skip):
                continue
            fe = o['kind'] == 'safety' and ('division' in o['name'] or 'square' in o['name'])
            if o['model']:
                x = native_run(exe, e, o['model'], 1, seed, fe=fe, tmp=tmp)
                if x and 'fail' in x:
                    conc = (x, r, o)
                    break
            if (e, fe) not in tried:
                tried.add((e, fe))
                x = native_run(exe, e, None, 20000, seed, fe=fe, tmax=20, tmp=tmp)
                if x and 'fail' in x:
                    conc = (x, r, o)
                    break
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + '.json')
    out = dict(property=prop, failed_obligations=[dict(entry=r['entry'] if r else None, harness=os.path.basename(r['harness']) if r else None,
               obligation=o['name'], status=o['status'], backend=o['backend'], solver_model=o['model'], detail=o.get('detail')) for r, nm, o in order[:50]])
    if conc:
        x, r, o = conc
        out['concrete'] = x
        out['replay_cmd'] = 'cd /verif && python3-vt -m engine.replay evidence/replay/%s.json' % prop
        out['harness'] = os.path.basename(r['harness'])
    json.dump(out, open(path, 'w'), indent=1)
    for r, nm, o in order[:8]:
        print('failed obligation: %s%s (%s by %s) %s' % ((r['entry'][4:] + '/') if r else '', o['name'], o['status'], o['backend'], (o.get('detail') or '')[:400]))
    if conc:
        print('failing input: %s %s: %s with %s' % (conc[0]['entry'], conc[0]['fail'], conc[0]['message'], json.dumps(conc[0]['inputs'])[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    else:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))


TRUST = ['clang 18 front end and the LLVM passes sroa, instsimplify, simplifycfg, loop-simplify, adce (source text to IR)',
         '/verif/engine: symbolic executor, ring normal form, loop summariser',
         'z3 and cvc5 for the obligations they discharge',
         'models of libm (algebraic identities only), operator new/delete, libstdc++ list/tree/string primitives (engine/models.py, engine/rt.cpp)']
ASSUME = ['machine arithmetic treated as mathematical: double is a real number, integers do not overflow; no NaN or infinity enters a contract',
          'malloc never fails; no concurrent access']


def evidence(a, prop, cfg, results, nob, ndis, backends, solver_t, seed, t0, viol, bad, kf):
    fns = set()
    for r in results:
        fns.update(r['executed'])
    dm = demangle(sorted(fns)) if fns else []
    real = sorted(n for n in dm if n and not STDRE.match(n))
    notes = sorted({n for r in results for n in r['notes']})
    lv = cfg.get('level', 'proof')
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt -m engine.run %s --tier %s' % (prop, a.tier),
               trusted_base=TRUST + notes, backends=backends, solver_seconds=round(solver_t, 2), entries=len(results),
               paths=sum(r['paths'] for r in results), functions_under_contract=real, functions_under_contract_count=len(real),
               loops_summarised=sorted({x for r in results for x in r['summarised']}),
               contracts_used_modularly=sorted({x for r in results for x in r['contracts_used']}),
               known_findings_seen=len(kf), bounded=cfg.get('bounded', []))
    ev = dict(property=prop, tier=a.tier, seed=seed, level=lv, coverage=cov, assumptions=ASSUME + cfg.get('assumptions', []) + notes,
              wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
