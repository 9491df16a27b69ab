# Runs in Jython: the bounded run-time oracle of one property on the real code.
#   oracle.py SRC PID HINTS OUT soak SEED START COUNT SECONDS | replay CASEFILE
# SRC holds a copy of request_parser; each case is a literal, so a failing one can be replayed.
import sys
sys.dont_write_bytecode = True
import os, json, random, time, traceback, threading, ast, imp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src, pid, hints_file, out_file, mode = sys.argv[1:6]
sys.path.insert(0, src)
sys.path.insert(0, HERE)
from oracles import util
from java.lang import Runtime, Throwable

HANG = 30.0
state = {'case': None, 'since': 0.0}
out = {'evaluations': 0, 'nontrivial': [], 'samples': [], 'failures': [], 'skipped': 0, 'wall': 0.0, 'error': None}


def save():
    f = open(out_file + '.tmp', 'w')
    f.write(json.dumps(out))
    f.close()
    os.rename(out_file + '.tmp', out_file)


def watchdog():
    while True:
        time.sleep(0.5)
        c = state['case']
        if c is not None and time.time() - state['since'] > HANG:
            out['failures'].append({'case': repr(c), 'message': 'no answer within %d s' % HANG})
            save()
            Runtime.getRuntime().halt(0)


th = threading.Thread(target=watchdog)
th.daemon = True
th.start()


def describe(e):
    try:
        return '%s: %s' % (type(e).__name__, e)
    except Exception:
        return type(e).__name__


def one(mod, case):
    state['since'] = time.time()
    state['case'] = case
    try:
        try:
            return mod.check(case)
        except util.Skip:
            out['skipped'] += 1
            return None
        except Throwable as e:
            return 'java error %s' % e
        except Exception as e:
            return 'unexpected %s\n%s' % (describe(e), traceback.format_exc()[-1500:])
    finally:
        state['case'] = None


def main():
    try:
        mod = __import__('oracles.' + pid.lower(), fromlist=['x'])
    except Exception:
        out['error'] = traceback.format_exc()
        save()
        return
    util.HINTS = json.loads(open(hints_file).read()) if hints_file != '-' else {}
    util.prepare_hints()
    t0 = time.time()
    if mode == 'replay':
        cases = [ast.literal_eval(open(sys.argv[6]).read())]
    else:
        seed, start, count, seconds = int(sys.argv[6]), int(sys.argv[7]), int(sys.argv[8]), float(sys.argv[9])
        cases = []

        def make():
            if start == 0 and hasattr(mod, 'fixed'):
                for c in mod.fixed():
                    yield c
            for i in xrange(start, start + count):
                yield mod.gen(random.Random(seed * 1000003 + i))
        cases = make()
    seen = set()
    for case in cases:
        if mode != 'replay' and time.time() - t0 > seconds:
            break
        msg = one(mod, case)
        out['evaluations'] += 1
        if mod.nontrivial(case):
            seen.add(hash(repr(case)))
            if len(out['samples']) < 2:
                out['samples'].append(repr(case)[:400])
        if msg:
            out['failures'].append({'case': repr(case), 'message': msg[:3000]})
            if len(out['failures']) >= 2:
                break
    out['nontrivial'] = sorted(seen)
    out['wall'] = time.time() - t0
    save()


main()
os._exit(0)
