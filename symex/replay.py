"""Runs harnesses concretely on the unmodified code.

As a server (``replay.py --server PROP``): one JSON request per line
{"harness", "params", "inputs"}, one JSON answer per line. As a program
(``replay.py FILE``): replays a stored counterexample and prints what happens.
"""
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('SX_REPO', '/repo') + '/src')
sys.dont_write_bytecode = True


def run(h, params, inputs):
    from symex.api import ConcCtx, AssumeFailed, Beyond, plain
    from symex.core import Violation
    ctx = ConcCtx(inputs)
    try:
        h.f(ctx, **params)
        return {'status': 'ok', 'obs': plain(ctx.obs), 'checks': ctx.nchecks}
    except AssumeFailed:
        return {'status': 'assume'}
    except Beyond as e:
        return {'status': 'beyond', 'msg': 'needs ' + str(e)}
    except Violation as e:
        return {'status': 'violation', 'msg': e.msg,
                'details': {k: plain(v) for k, v in ctx.details.items()}}
    except RecursionError as e:
        return {'status': 'exception', 'type': 'RecursionError',
                'msg': str(e)[:300], 'tb': ''}
    except Exception as e:
        return {'status': 'exception', 'type': type(e).__name__,
                'msg': str(e)[:300],
                'tb': traceback.format_exc()[-3000:]}
    finally:
        ctx.cleanup()


def main(argv):
    import logging
    logging.disable(logging.CRITICAL)
    from symex.api import load_harnesses
    if argv[0] == '--server':
        out = os.fdopen(os.dup(1), 'w')
        os.dup2(2, 1)
        hs = {h.name: h for h in load_harnesses(argv[1])}
        out.write('ready\n')
        out.flush()
        for line in sys.stdin:
            r = json.loads(line)
            try:
                ans = run(hs[r['harness']], r['params'], r['inputs'])
                text = json.dumps(ans)
            except BaseException as e:
                text = json.dumps({'status': 'error', 'msg': repr(e)})
            out.write(text + '\n')
            out.flush()
        return 0
    with open(argv[0]) as f:
        r = json.load(f)
    hs = {h.name: h for h in load_harnesses(r['property'])}
    ans = run(hs[r['harness']], r['params'], r['inputs'])
    print(json.dumps(ans, indent=1))
    return 0 if ans['status'] == 'ok' else 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
