"""python main.py PROP TIER SEED [CASE]: explore one property (run by check.py
in an environment where `tracer` is the translated working tree of /repo)."""
import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def main():
    prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    only = sys.argv[4] if len(sys.argv) > 4 else None
    from mc import core, rng
    rng.install()
    try:
        module = importlib.import_module('mc.props.' + prop.lower())
        return core.main(module, prop, tier, seed, only)
    except Exception:
        # the package cannot even be imported or its objects built
        traceback.print_exc(file=sys.stdout)
        path = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(path, exist_ok=True)
        path = os.path.join(path, prop + '-import.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'case': only,
                       'what': traceback.format_exc()}, f)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
