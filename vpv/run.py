"""Check driver: python -m vpv.run PROPERTY

Rebuilds every harness of the property from /repo's working tree, generates and discharges all proof
obligations, replays counterexamples natively, writes evidence/<id>.json.
exit 0: every obligation discharged;  exit 1 + VIOLATION line otherwise (an obligation the tool cannot decide,
or a contract that became vacuous, is reported with no-failing-input-found unless native search finds an input).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
PY = shutil.which('python3-vt') or sys.executable
CXX = shutil.which('clang++-20') or '/usr/lib/llvm-20/bin/clang++'
DEFS = ['-std=c++23', '-I%s/harness' % VERIF, '-I%s/include' % REPO, '-I%s/src' % REPO,
        '-DHPP_PROTO_NO_UTF8_VALIDATION=1']
IRFLAGS = ['-D_GLIBCXX_EXTERN_TEMPLATE=0', '-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize',
           '-fno-unroll-loops', '-w',
           '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable,return,bool,enum',
           '-fsanitize-trap=all', '-emit-llvm', '-c']


class H:
    pass


def parse_harnesses():
    hs = []
    for f in sorted(glob.glob(VERIF + '/harness/*.cpp')):
        if f.endswith('vp_native.cpp'):
            continue
        src = open(f).read()
        fl = re.search(r'^//@file(.*)$', src, re.M)
        fopts = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', fl.group(1))) if fl else {}
        for m in re.finditer(r'^//@ (.*)\n((?://.*\n)*)\s*VP_HARNESS\((\w+)\)', src, re.M):
            h = H()
            h.file = f
            h.name = m.group(3)
            o = {k: v.strip('"') for k, v in re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(1))}
            h.props = o['props'].split(',')
            h.doc = ' '.join(x[2:].strip() for x in m.group(2).splitlines())
            h.bound = o.get('tbound', o.get('bound')) if TIER == 'thorough' else o.get('bound')
            h.cases = int(o.get('tcases', o.get('cases', 0)) if TIER == 'thorough' else o.get('cases', 0))
            h.t = float(o.get('t', 200))
            h.tier = o.get('tier', 'quick')
            h.unroll = int(o.get('unroll', 4000))
            h.covers = o.get('covers', 'end').split(',')
            h.kf = o.get('kf')
            h.search = float(o.get('search', 6))
            h.fopts = {k: v.strip('"') for k, v in fopts.items()}
            h.flags = h.fopts.get('flags', '').replace('$REPO', REPO).replace('$VERIF', VERIF).split()
            h.opts = {k[1:]: int(v) for k, v in o.items() if k.startswith('o') and v.isdigit()}
            h.cost = float(o.get('cost', 5))
            hs.append(h)
    return hs


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace', **kw)


def gen_sources(h, tmp):
    """mechanically generated inputs of a harness file (protoc + the repository's own generator)"""
    return []


def compile_ir(f, flags, tmp):
    out = os.path.join(tmp, os.path.basename(f)[:-4] + '.bc')
    p = sh([CXX] + flags + DEFS + IRFLAGS + [f, '-o', out])
    return (out, None) if p.returncode == 0 else (None, p.stderr[-3000:])


def compile_native(f, flags, tmp):
    out = os.path.join(tmp, os.path.basename(f)[:-4] + '.exe')
    if os.path.exists(out):
        return out
    p = sh([CXX] + flags + DEFS + ['-DVP_NATIVE', '-DVP_ASAN', '-O1', '-g', '-w', '-fsanitize=address,undefined',
                                   '-fno-sanitize-recover=all', f, VERIF + '/harness/vp_native.cpp', '-o', out])
    if p.returncode:
        print('note: native build failed: ' + p.stderr[-800:])
        return None
    return out


def run_worker(h, bc, case, tier, deadline):
    left = max(5, deadline - time.time())
    opts = {'timeout': min(left, h.t * (4 if tier == 'thorough' else 1)), 'root': REPO + '/', 'visit_limit': h.unroll, 'ctors': h.fopts.get('ctors')}
    opts.update(h.opts)
    if case is not None:
        opts['case'] = case
    env = dict(os.environ, PYTHONPATH=VERIF, PYTHONHASHSEED='0')
    try:
        p = sh([PY, '-m', 'vpv.worker', bc, h.name, json.dumps(opts)], timeout=opts['timeout'] + 90, env=env, cwd=VERIF)
        i = p.stdout.rfind('@@RESULT ')
        if i >= 0:
            r = json.loads(p.stdout[i + 9:])
            r['stdout'] = p.stdout[:i].strip()
            return r
        return {'entry': h.name, 'case': case, 'errors': ['worker died: ' + (p.stderr or p.stdout)[-800:]]}
    except subprocess.TimeoutExpired:
        return {'entry': h.name, 'case': case, 'errors': ['worker exceeded its wall budget']}


def inputs_text(inputs):
    out = []
    for i in inputs:
        if 'v' in i:
            out.append('i %s %d' % ((i['n'] or 'x').replace(' ', '_'), i['v']))
        else:
            n = i.get('size', len(i['b']))
            out.append('b %s %d %s' % ((i['n'] or 'x').replace(' ', '_'), n, ''.join('%02x' % c for c in i['b'][:n])))
    return '\n'.join(out) + '\n'


def native_run(exe, args, timeout):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000',
               UBSAN_OPTIONS='print_stacktrace=1')
    try:
        return sh([exe] + args, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return None


def main():
    pid = sys.argv[1]
    only = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    hs = [h for h in parse_harnesses() if (pid in h.props or pid == 'ALL') and (tier == 'thorough' or h.tier == 'quick')]
    if only:
        hs = [h for h in hs if any(re.search(o, h.name) for o in only)]
    if not hs:
        print('no harness for ' + pid)
        return 2
    tmp = tempfile.mkdtemp(prefix='vpv_')
    try:
        return run(pid, hs, tier, seed, tmp, t0, bool(only))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, hs, tier, seed, tmp, t0, partial):
    nproc = int(os.environ.get('VP_JOBS', '8'))
    files = {}
    for h in hs:
        files.setdefault(h.file, h)
    bcs, cerr = {}, {}
    results = []
    ex = cf.ThreadPoolExecutor(nproc)

    def comp(f):
        return f, compile_ir(f, files[f].flags, tmp)
    futs = {}
    hmap = {}
    for f, (bc, err) in ex.map(comp, sorted(files)):
        bcs[f] = bc
        if err:
            cerr[f] = err
    for h in sorted(hs, key=lambda h: -h.cost):
        if bcs[h.file] is None:
            continue
        for c in (range(h.cases) if h.cases else [None]):
            futs[ex.submit(run_worker, h, bcs[h.file], c, tier, t0 + (560 if tier == 'quick' else 3000))] = h
    for fu in cf.as_completed(futs):
        r = fu.result()
        r['h'] = futs[fu]
        results.append(r)
    ex.shutdown()
    compile_s = 0
    errors, viol, notes, kfs, undec = [], [], [], [], []
    for f, e in cerr.items():
        if files[f].fopts.get('optional'):
            notes.append('skipped %s: internal entry points no longer compile (API-level harnesses still decide)' %
                         os.path.basename(f))
        else:
            errors.append('harness %s does not compile against /repo: %s' % (os.path.basename(f), e[-1500:]))
            undec.append((files[f], {}, pseudo('the contracts compile against the public API', e[-3000:])))
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob('%s/%s-*' % (rdir, pid)):
        os.remove(old)
    results.sort(key=lambda r: (r['h'].name, r.get('case') or 0))
    tot = {'proved': dict(ob=0, dis=0), 'bounded': dict(ob=0, dis=0)}
    by_kind, backends, trusted, funcs, lines = {}, {}, set(), set(), {}
    solver_s = paths = instrs = queries = points = trivial = 0
    hrep = []
    covers = {}
    for r in results:
        h = r['h']
        key = 'bounded' if h.bound else 'proved'
        fl = r.get('failures', [])
        ob = r.get('obligations', 0)
        if h.kf:
            kfs.append((h, r))
            continue
        tot[key]['ob'] += ob
        tot[key]['dis'] += r.get('trivial', 0) + r.get('by_solver', 0)
        for k, v in r.get('by_kind', {}).items():
            by_kind[k] = by_kind.get(k, 0) + v
        for k, v in r.get('backends', {}).items():
            backends[k] = backends.get(k, 0) + v
        trusted.update(r.get('trusted', []))
        funcs.update(r.get('funcs', []))
        for k, v in r.get('lines', {}).items():
            lines.setdefault(k, set()).update(v)
        solver_s += r.get('solver_s', 0)
        paths += r.get('paths', 0)
        instrs += r.get('instrs', 0)
        queries += r.get('queries', 0)
        points += r.get('points', 0)
        trivial += r.get('trivial', 0)
        for c, n in r.get('covers', {}).items():
            covers.setdefault(h.name, {})[c] = covers.get(h.name, {}).get(c, 0) + n
        hrep.append({'harness': h.name, 'case': r.get('case'), 'file': 'harness/' + os.path.basename(h.file),
                     'contract': h.doc, 'bound': h.bound, 'obligations': ob,
                     'discharged': r.get('trivial', 0) + r.get('by_solver', 0), 'program_points': r.get('points', 0),
                     'paths': r.get('paths', 0), 'solver_s': r.get('solver_s', 0), 'wall_s': r.get('wall_s', 0),
                     'loops': r.get('loops', {}), 'errors': r.get('errors', [])})
        for e in r.get('errors', []):
            errors.append('%s%s: %s' % (h.name, '' if r.get('case') is None else '#%d' % r['case'], e))
            undec.append((h, r, pseudo('the verifier decides every obligation', e)))
        for f in fl:
            viol.append((h, r, f))
        if ob == 0 and not fl and not r.get('errors'):
            errors.append('%s: no obligations generated (vacuous)' % h.name)
            undec.append((h, r, pseudo('the contract is not vacuous', 'no obligations generated')))
    for h in hs:
        if h.kf or bcs[h.file] is None:
            continue
        bad = any(x[0] is h for x in viol) or any(r['h'] is h and r.get('errors') for r in results)
        for c in h.covers:
            if not covers.get(h.name, {}).get(c) and not bad:
                errors.append('%s: cover point "%s" not reached: the contract is vacuous' % (h.name, c))
                undec.append((h, {}, pseudo('cover point "%s" is reachable' % c, 'the contract is vacuous')))
    # ---- confirm failures on the real code
    vlines = []
    done = set()
    search_budget = 40.0
    for h, r, f in viol + undec:
        if len(vlines) >= 8:
            break
        if f['kind'] == 'undecided' and vlines and time.time() - t0 > 700:
            break
        k = (h.name, f['kind'], f['label'], f['where'])
        if k in done:
            continue
        done.add(k)
        exe = compile_native(h.file, h.flags, tmp)
        confirmed = None
        rp = os.path.join(rdir, '%s-%d.txt' % (pid, len(vlines)))
        case = [] if r.get('case') is None else [str(r['case'])]
        inp = inputs_text(f['inputs']) if f.get('inputs') is not None else ''
        out = ''
        if exe and f.get('inputs') is not None:
            ip = os.path.join(tmp, 'in.txt')
            open(ip, 'w').write(inp)
            p = native_run(exe, ['replay', h.name, ip] + case, 60)
            if p is None:
                out = 'replay did not terminate in 60 s'
                confirmed = inp
            else:
                out = (p.stdout + p.stderr)[-4000:]
                if p.returncode not in (0, 77, 3):
                    confirmed = inp
        if exe and confirmed is None and search_budget > 0:
            dp = os.path.join(tmp, 'found.txt')
            ts = time.time()
            with cf.ThreadPoolExecutor(8) as sx:
                ps = list(sx.map(lambda k: native_run(exe, ['search', h.name, str(seed + 1000 * k), str(h.search),
                                                            '%s.%d' % (dp, k)] + case, h.search + 40), range(8)))
            search_budget -= time.time() - ts
            for k, p in enumerate(ps):
                dk = '%s.%d' % (dp, k)
                if confirmed is None and p is not None and p.returncode not in (0, 77, 3) and os.path.exists(dk):
                    inp2 = open(dk).read()
                    q = native_run(exe, ['replay', h.name, dk] + case, 60)
                    if q is None or q.returncode not in (0, 77, 3):
                        confirmed = inp2
                        out = (q.stdout + q.stderr)[-4000:] if q else 'replay did not terminate in 60 s'
                if os.path.exists(dk):
                    os.remove(dk)
        with open(rp, 'w') as fo:
            fo.write('# property %s\n# harness %s (%s)%s\n# failed obligation: %s / %s\n# at %s\n# %s\n' % (
                pid, h.name, os.path.basename(h.file), ' case %s' % case[0] if case else '', f['kind'], f['label'],
                f['where'], f['detail']))
            fo.write('# contract: %s\n' % h.doc)
            if confirmed is not None:
                fo.write('# counterexample, confirmed on the real code: build harness/%s + harness/vp_native.cpp '
                         '-DVP_NATIVE and run "replay %s THISFILE %s"\n' % (os.path.basename(h.file), h.name, ' '.join(case)))
                fo.write(confirmed)
                fo.write(''.join('# native: %s\n' % l for l in out.splitlines()[:60]))
            else:
                fo.write('# verifier status: %s; no failing input confirmed on the real code\n' % f['status'])
                fo.write(''.join('# model: %s\n' % l for l in inp.splitlines()[:200]))
                fo.write(''.join('# native: %s\n' % l for l in out.splitlines()[:40]))
        line = 'VIOLATION property=%s replay=%s' % (pid, rp)
        if confirmed is None:
            line += ' no-failing-input-found'
        vlines.append(line)
        print('%s: %s "%s" failed at %s' % (h.name, f['kind'], f['label'], f['where'][:300]))
        if confirmed is not None and not os.environ.get('VP_ALLVIOL'):
            break
    # confirmed counterexamples first; a single confirmed one is the verdict
    conf = [l for l in vlines if not l.endswith('no-failing-input-found')]
    vlines = conf or vlines
    # ---- known findings: the listed failing inputs are re-demonstrated
    for h, r in kfs:
        if r.get('failures'):
            print('KNOWN-FINDING: property=%s %s' % (pid, h.kf))
    for n in notes:
        print('note: ' + n)
    for e in errors:
        print('ERROR ' + e)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': level_of(pid),
        'coverage': {
            'obligations': tot['proved']['ob'], 'discharged': tot['proved']['dis'],
            'bounded_obligations': tot['bounded']['ob'], 'bounded_discharged': tot['bounded']['dis'],
            'closed_by_rewriting': trivial, 'by_kind': by_kind, 'program_points': points,
            'solver_queries': queries, 'solver_s': round(solver_s, 2), 'back_ends': backends,
            'paths': paths, 'instructions_interpreted': instrs,
            'checker_cmd': './check.sh %s' % pid,
            'contracts': hrep,
            'functions_interpreted': len(funcs),
            'repo_lines_under_obligation': {k: len(v) for k, v in sorted(lines.items())},
            'cover_points_reached': covers,
            'trusted_base': sorted(trusted) + BASE_TRUST,
            'explanation': 'obligations/discharged count contracts proved for every input of the stated domain; '
                           'bounded_* counts contracts whose input length is capped as stated in "bound".',
            'notes': notes, 'errors': errors,
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(vlines),
    }
    if not partial and pid != 'ALL':
        with open('%s/evidence/%s.json' % (VERIF, pid), 'w') as fo:
            json.dump(ev, fo, indent=1)
    if os.environ.get('VP_LINES'):
        with open(os.environ['VP_LINES'], 'w') as fo:
            json.dump({k: sorted(v) for k, v in lines.items()}, fo)
    if partial or os.environ.get('VP_VERBOSE'):
        for x in hrep:
            print('%-28s %-4s obl %6d/%6d paths %5d solver %6.2fs wall %6.2fs %s' % (
                x['harness'], '' if x['case'] is None else x['case'], x['discharged'], x['obligations'], x['paths'],
                x['solver_s'], x['wall_s'], 'bounded' if x['bound'] else ''))
    print('%s: %d/%d obligations discharged (+%d/%d bounded), %d contracts, %d queries, solver %.1fs, wall %.1fs' % (
        pid, tot['proved']['dis'], tot['proved']['ob'], tot['bounded']['dis'], tot['bounded']['ob'], len(hrep), queries,
        solver_s, time.time() - t0))
    if vlines:
        for l in vlines:
            print(l)
        return 1
    return 1 if errors else 0


def pseudo(label, detail):
    return {'kind': 'undecided', 'label': label, 'where': '', 'detail': detail.replace('\n', '\n# '), 'status': 'undecided',
            'inputs': None}


def level_of(pid):
    try:
        for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']:
            if c['property'] == pid:
                return c['level']
    except Exception:
        pass
    return 'proof'


BASE_TRUST = [
    'clang++ 20 front end and -O1 pipeline (source to LLVM IR), LLVM-C reader',
    'vpv VC generator (memory model, instruction semantics, trusted external contracts)',
    'z3 (all verdicts), cvc5 (fallback, unsat only)',
]
ASSUMPTIONS = [
    'each contract is proved for the template instantiations named in its harness; other instantiations are not covered',
    'poison-generating IR flags (nsw/nuw/inbounds/exact) are ignored; signed overflow, shifts, bounds, bool and enum '
    'range are instead separate obligations through UBSan traps',
    'operator new / malloc succeed, return fresh disjoint objects, and no object exceeds 2^39 bytes',
    'distinct objects never alias; pointer order between distinct objects is fixed but arbitrary',
    'little-endian x86-64 target, HPP_PROTO_NO_UTF8_VALIDATION=1 (as the offline build configures it)',
    'no threads: the code is verified sequentially',
]

if __name__ == '__main__':
    sys.exit(main())
