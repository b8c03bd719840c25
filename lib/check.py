"""check.py PROPERTY TIER : builds from /repo, decides every case of the property, writes evidence."""
import importlib, json, multiprocessing as mpr, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT + '/props']
import build as B
import common
from engine import run_case

MODULES = [f[:-3] for f in sorted(os.listdir(ROOT + '/props')) if f.endswith('.py') and f != 'common.py']
for m in MODULES:
    importlib.import_module(m)

CFG = {}
CASES = []


def work(i):
    return i, run_case(CFG, CASES[i], CFG['seed'])


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = common.PROPS[pid]
    if os.environ.get('VERIF_NOBUILD'):
        cfg = {'irsym': B.B + '/irsym/release/irsym', 'runner': B.B + '/runner',
               'base': {'ll': B.B + '/base.ll', 'so': B.B + '/h_base/release/libvharness.so'},
               'avx': {'ll': B.B + '/avx.ll', 'so': B.B + '/h_avx/x86_64-unknown-linux-gnu/release/libvharness.so'}}
    else:
        cfg = B.build(P['builds'])
    tb = time.time() - t0
    CFG.update(cfg, seed=seed, scale=1.0 if tier == 'quick' else 6.0, hunt=400)
    cases = P['cases'](tier)
    if only:
        cases = [c for c in cases if only in c.name]
    CASES[:] = cases
    limit = float(os.environ.get('VERIF_LIMIT', 780 if tier == 'quick' else 6 * 3600)) - tb
    res = [None] * len(cases)
    verbose = bool(os.environ.get('VERIF_VERBOSE')) or sys.stdout.isatty()
    n = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
    stop = False
    pool = mpr.Pool(min(n, max(1, len(cases))), maxtasksperchild=1)
    order = sorted(range(len(cases)), key=lambda i: -cases[i].budget)
    it = pool.imap_unordered(work, order)
    end = time.time() + limit
    viol = None
    for _ in cases:
        try:
            i, r = it.next(timeout=max(1, end - time.time()))
        except mpr.TimeoutError:
            break
        res[i] = r
        if verbose or r['status'] != 'ok':
            print('  %-10s %-48s paths=%s obl=%s q=%s solver=%.1fs wall=%.1fs %s' % (r['status'], r['case'], r.get('paths'), r['stats'].get('obligations'),
                  r['stats'].get('queries'), r['stats'].get('solver_s', 0), r['wall'], (r.get('goal', '') + ' ' + str(r.get('detail', '')))[:1600]), flush=True)
        if r['status'] == 'violation' and viol is None:
            viol = r
            if not verbose:
                break
    pool.terminate()
    for i, c in enumerate(cases):
        if res[i] is None:
            res[i] = {'case': c.name, 'fn': c.fn, 'status': 'skipped' if viol else 'undecided', 'detail': 'not finished', 'stats': {}, 'wall': 0}
    bad = [r for r in res if r['status'] in ('undecided', 'error')]
    evidence(pid, tier, seed, cases, res, time.time() - t0, tb)
    if viol:
        os.makedirs(ROOT + '/build/replay', exist_ok=True)
        path = '%s/build/replay/%s.json' % (ROOT, pid)
        json.dump({'property': pid, 'case': viol['case'], 'entry_point': viol['fn'], 'build': viol['build'], 'assertion': viol['goal'], 'detail': viol['detail'],
                   'inputs': viol['inputs'], 'input_hex': viol['input_hex'],
                   'how': "echo '<entry_point> 4096 <input_hex>' | build/runner <libvharness.so of that build> prints the observable output bytes"}, open(path, 'w'), indent=1)
        print('case: %s\nassertion: %s\ninputs: %s\n%s' % (viol['case'], viol['goal'], json.dumps(viol['inputs']), viol['detail']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    if bad:
        print('UNDECIDED property=%s: %d of %d cases' % (pid, len(bad), len(cases)))
        sys.exit(2)
    print('property=%s holds: %d cases, %d obligations, %d queries, %.1f s solver, %.1f s total' % (
        pid, len(cases), tot(res, 'obligations'), tot(res, 'queries'), tot(res, 'solver_s'), time.time() - t0))
    sys.exit(0)


def tot(res, k):
    return sum(r['stats'].get(k, 0) for r in res)


def evidence(pid, tier, seed, cases, res, wall, tb):
    fs = set()
    for r in res:
        fs |= set(r.get('functions', ()))
    mine = sorted(f for f in fs if 'colorspace' in f or f.startswith('h_'))
    cov = {
        'explanation': 'Every path of each entry point (compiled from /repo on this run to LLVM IR) was executed symbolically; each assertion on each path was '
                       'decided by z3 over all inputs in the stated ranges. mode real: exact rational arithmetic plus proved rounding-error bounds; mode fp: bit-precise IEEE-754.',
        'cases': len(cases), 'paths': sum(r.get('paths', 0) for r in res), 'obligations': tot(res, 'obligations'), 'discharged': tot(res, 'discharged'),
        'literally_true': tot(res, 'trivial'), 'queries': tot(res, 'queries'), 'solver_seconds': round(tot(res, 'solver_s'), 2), 'case_splits': tot(res, 'splits'),
        'native_runs': tot(res, 'native_runs'), 'encoding_witnesses_checked_bit_for_bit': tot(res, 'witnesses'),
        'ir_instructions_executed': sum(r.get('instructions', 0) for r in res),
        'functions_encoded': len(fs), 'functions_of_the_crate': mine[:400], 'build_seconds': round(tb, 1),
        'samples': [{'case': c.name, 'entry': c.fn, 'mode': c.mode, 'build': c.build, 'bounds': {k: list(map(float, v)) for k, v in list(c.boxes.items())[:16]},
                     'inputs': len(c.vars), 'status': r['status'], 'paths': r.get('paths'), 'queries': r['stats'].get('queries', 0), 'wall_s': r['wall'], 'note': c.note,
                     'detail': str(r.get('detail', ''))[:300]} for c, r in zip(cases, res)],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(wall, 2),
          'violations': [r['case'] for r in res if r['status'] == 'violation']}
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (ROOT, pid), 'w'), indent=1)


if __name__ == '__main__':
    main()
