"""Run one harness case in its own process; result as JSON on stdout."""
import json
import resource
import sys
import time
import traceback


def main():
    bc, entry, optf = sys.argv[1:4]
    opts = json.loads(optf)
    mem = opts.get('mem_gb', 6)
    resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
    from .llvmir import Module
    from .interp import Interp
    from .engine import EngineError
    t0 = time.time()
    res = {'entry': entry, 'case': opts.get('case'), 'errors': []}
    if opts.get('timeout'):
        opts['deadline'] = t0 + opts['timeout']
    e = None
    try:
        m = Module(bc)
        e = Interp(m, entry, opts=opts)
        try:
            e.run()
        except StopIteration:
            pass
    except EngineError as x:
        res['errors'].append('%s @ %s' % (x, cur(e)))
    except MemoryError:
        res['errors'].append('out of memory @ %s' % cur(e))
    except Exception as x:
        res['errors'].append('internal: %r %s @ %s' % (x, traceback.format_exc()[-1200:], cur(e)))
    if e is not None:
        st = e.stats
        res.update(obligations=st.obl, by_kind=st.by_kind, trivial=st.trivial, by_solver=st.solver,
                   points=len(st.points), queries=st.queries, solver_s=round(st.solver_s, 3), paths=st.paths,
                   instrs=st.instrs, backends=st.backends, covers=e.covers, trusted=sorted(st.trusted),
                   contracts=st.contracts_used, loops=st.loops,
                   failures=[{'kind': f.kind, 'label': f.label, 'where': f.where, 'detail': f.detail,
                              'status': f.status, 'inputs': f.inputs} for f in e.failures])
        lines = {}
        root = opts.get('root', '/repo/')
        for fn, b in st.blocks:
            f = e.m.func(fn)
            for I in f.blocks[b]:
                l = I.loc()
                if l and l[0].startswith(root):
                    lines.setdefault(l[0][len(root):], set()).add(l[1])
        res['lines'] = {k: sorted(v) for k, v in lines.items()}
        res['funcs'] = sorted({fn for fn, _ in st.blocks})
    res['wall_s'] = round(time.time() - t0, 3)
    print('\n@@RESULT ' + json.dumps(res))


def cur(e):
    try:
        return e.where(e.current)
    except Exception:
        return '?'


main()
