"""python -m dst.run C01        run a check (VERIF_SEED, VERIF_TIER)
python -m dst.run --replay F  re-execute a replay file"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    from dst import engine
    args = sys.argv[1:]
    try:
        if args[0] == '--setup':
            print(engine.build_shim())
            return
        if args[0] == '--replay':
            with open(args[1]) as f:
                r = json.load(f)
            mod = importlib.import_module('dst.checks.' + r['property'].lower())
            eng = engine.Engine(r['property'], seed=r['seed'])
            req = dict(r['request'], want_lines=1)
            rep = eng.run([req])[0]
            hits = [(c, m) for c, m in mod.judge(eng, r['request'], rep) if c == r['class']]
            same = (rep.get('lines') or [])[:4000] == r.get('trace')
            for c, m in hits:
                print('%s: %s' % (c, m))
            print('trace %s' % ('identical' if same else 'differs'))
            if hits:
                print('VIOLATION property=%s replay=%s' % (r['property'], args[1]))
            eng.cleanup()
            sys.exit(1 if hits else 0)
        mod = importlib.import_module('dst.checks.' + args[0].lower())
        eng = engine.Engine(args[0].upper())
        mod.main(eng)
    except engine.HarnessError as e:
        print('HARNESS ERROR: %s' % e, file=sys.stderr)
        sys.exit(3)


main()
