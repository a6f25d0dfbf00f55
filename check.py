#!/usr/bin/env python3
"""Decides one property from /repo's current source.  usage: check.py Cxx [--tier quick|thorough]"""
import sys, os, json, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
sys.dont_write_bytecode = True
import core, facts

def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    os.makedirs(core.EV, exist_ok=True)
    evf = os.path.join(core.EV, prop + '.json')
    if os.path.exists(evf):
        os.remove(evf)
    import rules
    ctx = core.Ctx(prop, tier)
    try:
        text, assumptions = rules.run(ctx, prop)
    except facts.BuildError as x:
        print('ERROR: %s' % x)
        return 2
    except core.Anchor as x:
        # Too little was analysed.  Violations already established stand; a shortfall explained by
        # constructs left undecided is itself undecided; anything else is no answer.
        if not ctx.violations and not ctx.undecided:
            print('ERROR: %s' % x)
            return 2
        ctx.undec(str(x))
        text, assumptions = rules.TEXT.get(prop) or ('', [])
    except Exception as x:
        if os.environ.get('SA_DEBUG'):
            raise
        import traceback
        tb = traceback.extract_tb(x.__traceback__)[-1]
        ctx.undec('analysis stopped early: %s %s at %s:%d' % (type(x).__name__, x, os.path.basename(tb.filename), tb.lineno))
        text, assumptions = rules.TEXT.get(prop) or ('', [])
    kn = core.known()
    vs, kf = [], []
    for key, (msg, detail) in sorted(ctx.violations.items()):
        k = kn.get((prop, key))
        if k:
            kf.append((key, msg))
        else:
            vs.append((key, msg, detail))
    rd = os.path.join(core.EV, 'replay')
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(prop + '-'):
            os.remove(os.path.join(rd, f))
    for key, msg in kf:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, msg))
    for i, (key, msg, detail) in enumerate(vs):
        p = os.path.join(rd, '%s-%d.txt' % (prop, i))
        open(p, 'w').write('%s\n%s\n\n%s\n' % (key, msg, detail))
        print('%s: %s' % (key, msg))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    for u in ctx.undecided:
        print('UNDECIDED: %s' % u)
    expl = text + '  Rules and obligations decided: ' + '; '.join('%s: %d' % kv for kv in sorted(ctx.rules.items())) + '.'
    if ctx.undecided:
        expl += '  Left undecided: ' + '; '.join(ctx.undecided[:10])
    counts = dict(ctx.counts)
    counts['functions_analysed'] = len(ctx.analysed)
    counts['obligations'] = sum(ctx.rules.values())
    counts['undecided'] = len(ctx.undecided)
    counts['unmodelled_calls'] = sum(ctx.unmodelled.values())
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(explanation=expl, counts=counts, functions=sorted(ctx.analysed)[:400]),
              wall_s=round(time.time() - t0, 2), assumptions=assumptions,
              violations=len(vs))
    if vs:
        ev["coverage"]["violations"] = [dict(key=k, message=m) for k, m, _ in vs]
    if kf:
        ev["coverage"]["known_findings"] = [dict(key=k, message=m) for k, m in kf]
    json.dump(ev, open(evf, 'w'), indent=1)
    print('%s: %d obligations, %d functions, %d violations, %d known findings, %d undecided, %.1f s' %
          (prop, counts['obligations'], counts['functions_analysed'], len(vs), len(kf), len(ctx.undecided), time.time() - t0))
    return 1 if vs else 0

if __name__ == '__main__':
    sys.exit(main())
