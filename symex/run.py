"""Decide one property: explore its harnesses symbolically.

usage: run.py PROP [--tier quick|thorough] [--harness NAME] [--time S] [-v]
"""
import argparse
import gc
import json
import multiprocessing.connection as mpc
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)

from symex import core, rt, xform          # noqa: E402

REPO_SRC = os.environ.get('SX_REPO', '/repo') + '/src'
CHUNK_S = 4.0       # seconds before a worker gives pending work back


# ------------------------------------------------------------------- worker

def explore(h, params, prefix, deadline, out, sample_every, split):
    """Explore the paths below a prefix; returns a result dict."""
    from symex.api import SymCtx, model_value
    eng = core.Engine(h.max_steps)
    core.set_engine(eng)
    eng.load_prefix(prefix)
    res = {'paths': 0, 'aborted': 0, 'checked': 0, 'undecided': [],
           'candidates': [], 'samples': [], 'pending': []}
    t0 = time.time()
    nviol = 0
    while True:
        eng.reset_path()
        ctx = SymCtx(eng)
        outcome = None
        model = None
        try:
            h.f(ctx, **params)
            eng.confirm()
            outcome = ('ok', None)
        except core.PathAbort:
            outcome = ('abort', None)
        except core.Violation as e:
            outcome = ('violation', e.msg)
            model = e.model
        except core.PathBudget:
            outcome = ('budget', 'step budget exceeded')
        except core.EngineError as e:
            outcome = ('engine', str(e))
        except core.Unknown as e:
            outcome = ('unknown', str(e))
        except Exception as e:
            outcome = ('exception', type(e).__name__)
            exc = traceback.format_exc()
        finally:
            ctx.cleanup()
        kind = outcome[0]
        if kind == 'abort':
            res['aborted'] += 1
        else:
            res['paths'] += 1
            if eng.path_checks or kind != 'ok':
                res['checked'] += 1
            if kind != 'ok':
                if model is None:
                    try:
                        model = eng.model()
                    except core.Unknown:
                        model = None
                rec = {'kind': kind, 'msg': outcome[1], 'params': params,
                       'harness': h.name}
                if kind == 'exception':
                    rec['tb'] = exc[-2500:]
                if model is not None:
                    rec['inputs'] = {k: model_value(v, model)
                                     for k, v in ctx.inputs.items()}
                res['candidates'].append(rec)
                nviol += 1
            elif (res['paths'] <= 2 or res['paths'] % sample_every == 0) \
                    and len(res['samples']) < 40:
                model = eng.model()
                if model is not None:
                    res['samples'].append({
                        'harness': h.name, 'params': params,
                        'inputs': {k: model_value(v, model)
                                   for k, v in ctx.inputs.items()},
                        'obs': model_value(ctx.obs, model)})
        # the branches not taken on the rest of an unfinished trace are gone
        eng._unsync(eng.pos)
        del eng.trace[eng.pos:]
        if not eng.backtrack():
            break
        now = time.time()
        if nviol >= 20:
            res['truncated'] = True
            break
        if now > deadline:
            res['pending'] = eng.pending_prefixes() + [
                [(d.value, d.pushed, d.cand) for d in eng.trace]]
            res['timeout'] = True
            break
        if now - t0 > split:
            res['pending'] = eng.pending_prefixes() + [
                [(d.value, d.pushed, d.cand) for d in eng.trace]]
            break
    res['queries'] = eng.queries
    res['solver_s'] = eng.solver_s
    res['checks'] = eng.checks
    res['concretised'] = eng.concretised
    core.set_engine(None)
    return res


def worker_main(rfd, wfd, hs, deadline):
    rf = os.fdopen(rfd, 'rb')
    wf = os.fdopen(wfd, 'wb')
    core.init_z3()
    while True:
        try:
            task = pickle.load(rf)
        except EOFError:
            os._exit(0)
        name, params, prefix, split, every = task
        cov0 = None
        try:
            r = explore(hs[name], params, prefix, deadline, None, every,
                        split)
        except BaseException:
            core.set_engine(None)
            r = {'crash': traceback.format_exc()[-4000:]}
        r['cov'] = [i for i, v in enumerate(rt.COV) if v]
        pickle.dump(r, wf)
        wf.flush()


class Worker:
    def __init__(self, hs, deadline):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                worker_main(r1, w2, hs, deadline)
            finally:
                os._exit(3)
        os.close(r1)
        os.close(w2)
        self.pid = pid
        self.w = os.fdopen(w1, 'wb')
        self.r = os.fdopen(r2, 'rb')
        self.task = None

    def send(self, task):
        self.task = task
        pickle.dump(task, self.w)
        self.w.flush()

    def close(self):
        try:
            self.w.close()
        except OSError:
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


# ------------------------------------------------------------------- replay

class Replayer:
    def __init__(self, prop):
        self.prop = prop
        self.p = None

    def start(self):
        self.p = subprocess.Popen(
            [sys.executable, '-B', os.path.join(HERE, 'symex', 'replay.py'),
             '--server', self.prop], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        line = self._line(120)
        if line != b'ready\n':
            raise RuntimeError('the replay server does not start: %r' % line)

    def _line(self, timeout):
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            return None
        return self.p.stdout.readline()

    def run(self, rec, timeout=20):
        if self.p is None:
            self.start()
        req = {k: rec[k] for k in ('harness', 'params', 'inputs')}
        try:
            self.p.stdin.write(json.dumps(req).encode() + b'\n')
            self.p.stdin.flush()
            line = self._line(timeout)
        except OSError:
            line = b''
        if line is None:
            self.close()
            return {'status': 'timeout'}
        if not line:
            self.close()
            return {'status': 'died'}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p = None


# --------------------------------------------------------------------- main

def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.jsonl')) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get('property') == prop and not d.get('fixed'):
                        out.append(d)
    except FileNotFoundError:
        pass
    return out


def is_known(rec, ans, known):
    for k in known:
        if k['harness'] != rec['harness']:
            continue
        if k.get('msg') and k['msg'] not in (ans.get('msg') or ''):
            continue
        ins = k.get('inputs')
        if ins is not None and any(rec['inputs'].get(n) != v
                                   for n, v in ins.items()):
            continue
        return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--harness')
    ap.add_argument('--params')
    ap.add_argument('--time', type=float)
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = args.prop
    limit = args.time or (150 if args.tier == 'quick' else 780)
    deadline = t0 + limit

    sys.path.insert(0, REPO_SRC)
    import logging
    logging.disable(logging.CRITICAL)
    xform.install({'disseminate': REPO_SRC, 'harness': HERE})
    from symex.api import load_harnesses
    xform.transform_stdlib(xform.stdlib_of(os.path.join(
        HERE, 'harness', prop.lower() + '.py')))
    harnesses = load_harnesses(prop)
    if args.harness:
        harnesses = [h for h in harnesses if h.name.endswith(args.harness)]
    hs = {h.name: h for h in harnesses}
    t_load = time.time() - t0
    replayer = Replayer(prop)
    replayer.start()

    queue = []
    stats = {}
    for h in harnesses:
        stats[h.name] = {'paths': 0, 'aborted': 0, 'checked': 0,
                         'queries': 0, 'solver_s': 0.0, 'checks': 0,
                         'undecided': 0, 'concretised': {},
                         'complete': True, 'params': 0}
        for params in (h.quick if args.tier == 'quick' else h.thorough):
            if args.params and json.loads(args.params) != params:
                continue
            queue.append((h.name, params, [], 0.5))
            stats[h.name]['params'] += 1
    # big ones last in the list are taken first
    workers = [Worker(hs, deadline) for _ in range(args.j)]
    idle = list(workers)
    busy = {}
    cov = set()
    violation = None
    mismatches = []
    samples = []
    validated = 0
    undecided = []
    known = known_findings(prop)
    known_seen = {}
    replays = 0
    crashes = []
    seen_candidates = {}
    while (queue or busy) and violation is None:
        while queue and idle:
            w = idle.pop()
            name, params, prefix, split = queue.pop()
            if time.time() > deadline:
                stats[name]['complete'] = False
                idle.append(w)
                continue
            w.send((name, params, prefix, split, int(os.environ.get('SX_EVERY', '200'))))
            busy[w.r.fileno()] = w
        if not busy:
            continue
        r, _, _ = select.select(list(busy), [], [], 5)
        if not r and time.time() > deadline + 60:
            for w in busy.values():
                stats[w.task[0]]['complete'] = False
            break
        for fd in r:
            w = busy.pop(fd)
            name, params = w.task[0], w.task[1]
            st = stats[name]
            try:
                res = pickle.load(w.r)
            except EOFError:
                crashes.append({'harness': name, 'params': params,
                                'crash': 'worker died'})
                st['complete'] = False
                w.close()
                workers.remove(w)
                w = Worker(hs, deadline)
                workers.append(w)
                idle.append(w)
                continue
            idle.append(w)
            if 'crash' in res:
                crashes.append({'harness': name, 'params': params,
                                'crash': res['crash']})
                st['complete'] = False
                continue
            for k in ('paths', 'aborted', 'checked', 'queries', 'solver_s',
                      'checks'):
                st[k] += res[k]
            for k, v in res['concretised'].items():
                st['concretised'][k] = st['concretised'].get(k, 0) + v
            cov.update(res['cov'])
            if res.get('timeout'):
                st['complete'] = False
            if res.get('truncated'):
                st['complete'] = False
            if not res.get('timeout'):
                for p in res['pending']:
                    queue.append((name, params, p, CHUNK_S))
            for rec in res['samples']:
                if len(samples) < 12 or validated < int(os.environ.get('SX_VALID', '400')):
                    if time.time() > deadline + 30:
                        break
                    ans = replayer.run(rec)
                    validated += 1
                    if len(samples) < 12:
                        samples.append({'harness': rec['harness'],
                                        'params': rec['params'],
                                        'inputs': rec['inputs']})
                    if ans['status'] in ('violation', 'exception',
                                         'timeout', 'died'):
                        # the real code breaks the property on an input
                        # whose path held in the encoding: still a
                        # violation, and an encoding error
                        rec['kind'] = 'sample'
                        rec['msg'] = ans.get('msg')
                        res['candidates'].append(rec)
                    elif ans['status'] != 'ok' or ans['obs'] != rec['obs']:
                        mismatches.append({'sample': rec, 'real': ans})
            for rec in res['candidates']:
                if violation is not None:
                    break
                if 'inputs' not in rec:
                    undecided.append(rec)
                    st['undecided'] += 1
                    continue
                key = (rec['harness'], rec['kind'], rec['msg'])
                seen_candidates[key] = seen_candidates.get(key, 0) + 1
                ans = replayer.run(rec)
                replays += 1
                if ans['status'] in ('violation', 'exception', 'timeout',
                                     'died'):
                    k = is_known(rec, ans, known)
                    if k is not None:
                        known_seen[k['id']] = k
                    else:
                        violation = (rec, ans)
                else:
                    undecided.append(dict(rec, real=ans))
                    st['undecided'] += 1
    for w in workers:
        w.close()

    # ---- results
    wall = time.time() - t0
    tot = {k: sum(s[k] for s in stats.values())
           for k in ('paths', 'checked', 'queries', 'checks', 'undecided',
                     'aborted')}
    solver_s = sum(s['solver_s'] for s in stats.values())
    vacuous = [n for n, s in stats.items()
               if s['params'] and not s['checked'] and violation is None]
    funcs = sorted(rt.COVNAMES[i] for i in cov
                   if rt.COVNAMES[i].startswith('disseminate'))
    concretised = {}
    for s in stats.values():
        for k, v in s['concretised'].items():
            concretised[k] = concretised.get(k, 0) + v
    from symex.manifest import LEVELS
    level = LEVELS.get(prop, 'model_checking')
    cov_d = {
        'explanation': (
            'Symbolic execution of the real code of /repo/src, regenerated '
            'on this run; every branch and every assertion was decided by z3 '
            '(QF_BV characters, integer arithmetic). Each path of each '
            'harness is one state of the exploration; a path condition '
            'covers all inputs which follow the path.'),
        'states': tot['paths'],
        'transitions': tot['queries'],
        'traces_validated_against_impl': validated + replays,
        'paths': tot['paths'],
        'paths_reaching_an_assertion': tot['checked'],
        'assertions_discharged': tot['checks'],
        'solver_queries': tot['queries'],
        'solver_s': round(solver_s, 3),
        'undecided_paths': tot['undecided'],
        'encoding_mismatches': len(mismatches),
        'functions_encoded': funcs,
        'concretisations': concretised,
        'samples': samples,
        'exhaustive': all(s['complete'] for s in stats.values()),
        'harnesses': {
            n: {'doc': hs[n].doc, 'paths': s['paths'],
                'queries': s['queries'], 'assertions': s['checks'],
                'parameter_sets': (hs[n].quick if args.tier == 'quick'
                                   else hs[n].thorough),
                'complete_within_bounds': s['complete'],
                'undecided': s['undecided']}
            for n, s in stats.items()},
    }
    ev = {'property': prop, 'tier': args.tier, 'seed': seed, 'level': level,
          'coverage': cov_d, 'wall_s': round(wall, 2),
          'assumptions': ASSUMPTIONS + [
              'bounds: see harnesses.parameter_sets; inputs outside them '
              'are not covered'],
          'violations': 0 if violation is None else 1}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not args.harness:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %d paths, %d assertions, %d queries, solver %.1fs, load %.1fs,'
          ' wall %.1fs, %d validated, %d undecided, %d mismatches%s' % (
              prop, tot['paths'], tot['checks'], tot['queries'], solver_s,
              t_load, wall, validated, tot['undecided'], len(mismatches),
              '' if cov_d['exhaustive'] else ', INCOMPLETE'))
    if args.v:
        for n, s in stats.items():
            print('  ', n, {k: v for k, v in s.items()})
        for m in mismatches[:5]:
            print('MISMATCH', json.dumps(m)[:1500])
        for u in undecided[:8]:
            print('UNDECIDED', u.get('kind'), u.get('msg'),
                  u.get('inputs'), u.get('real'))
            print(u.get('tb', ''))
    else:
        for u in undecided[:2]:
            print('undecided:', u.get('harness'), u.get('kind'),
                  str(u.get('msg'))[:200], json.dumps(u.get('inputs'))[:300],
                  str(u.get('real'))[:300])
    for c in crashes[:3]:
        print('CRASH', c['harness'], c['params'], c['crash'])
    replayer.close()
    for k in known_seen.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violation is not None:
        rec, ans = violation
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + '.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'harness': rec['harness'],
                       'params': rec['params'], 'inputs': rec['inputs'],
                       'symbolic': {k: rec.get(k) for k in ('kind', 'msg',
                                                            'tb')},
                       'real': ans}, f, indent=1)
        print('counterexample: %s %s inputs=%s' % (
            rec['harness'], json.dumps(rec['params']),
            json.dumps(rec['inputs'])))
        print('real code: %s %s %s' % (
            ans['status'], ans.get('msg'),
            json.dumps(ans.get('details'))[:1500] if ans.get('details')
            else ans.get('tb', '')[-800:]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if vacuous:
        print('ERROR: no assertion reached in %s' % ', '.join(vacuous))
        return 2
    if crashes:
        return 2
    return 0


ASSUMPTIONS = [
    'PyPy 3.9 semantics of the host interpreter; str, dict, set, int and '
    'regular expression operations on symbolic operands follow the models '
    'in symex/ (validated on each run against the real code on samples)',
    'third-party and C code is called with concretised arguments (counted '
    'in concretisations), each possible value within the bounds explored',
]

if __name__ == '__main__':
    sys.exit(main())
