#!/usr/bin/env python3
"""check.py PROP [quick|thorough]   explore one property on /repo's working tree
   check.py replay FILE             run the one case of a replay file again

Translates /repo/tracer (Python 2) the way the build does, into a scratch
directory, runs the explorer there with the project's interpreter, and removes
the scratch directory. Exit 0: held; 1: VIOLATION line printed.
"""
import json
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'tools'))
REPO = os.environ.get('TRACER_REPO', '/repo')       # another tree: development only
PYTHON = '/opt/venvpp/bin/python'
TIME_LIMIT = {'quick': 840, 'thorough': 6 * 3600}


def _one(job):
    import py2to3
    src, out = job
    if not src.endswith('.py'):
        shutil.copyfile(src, out)
        return
    try:
        text = py2to3.translate(src)
    except (SyntaxError, ValueError, RecursionError):
        shutil.copyfile(src, out)
        return
    with open(out, 'w', encoding='utf-8') as f:
        f.write(text)


def translate(dest):
    jobs = []
    top = os.path.join(REPO, 'tracer')
    for root, dirs, files in os.walk(top):
        dirs[:] = sorted(d for d in dirs if not d.startswith('.') and d != '__pycache__')
        out = os.path.join(dest, 'tracer', os.path.relpath(root, top))
        os.makedirs(out, exist_ok=True)
        for name in sorted(files):
            if not name.startswith('.') and not name.endswith(('.pyc', '.pyo')):
                jobs.append((os.path.join(root, name), os.path.join(out, name)))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        pool.map(_one, jobs, 1)


def main():
    argv = sys.argv[1:]
    if argv and argv[0] == 'replay':
        with open(argv[1]) as f:
            rep = json.load(f)
        prop, tier, case = rep['property'], rep['tier'], [rep['case']]
    else:
        prop = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
        case = argv[2:3]
    seed = os.environ.get('VERIF_SEED', '0')
    seed = seed if seed.lstrip('-').isdigit() else '0'
    scratch = tempfile.mkdtemp(prefix='tracer-mc-')
    try:
        translate(scratch)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg',
                   PYTHONPATH=scratch + os.pathsep + HERE, PYTHONUNBUFFERED='1',
                   TMPDIR=scratch)
        proc = subprocess.Popen([PYTHON, os.path.join(HERE, 'mc', 'main.py'), prop, tier, seed] + case,
                                env=env, cwd=scratch, start_new_session=True)
        try:
            rc = proc.wait(timeout=TIME_LIMIT[tier])
        except subprocess.TimeoutExpired:
            # orders of magnitude above the normal running time
            os.killpg(proc.pid, signal.SIGKILL)
            proc.wait()
            path = os.path.join(HERE, 'evidence', 'replay')
            os.makedirs(path, exist_ok=True)
            path = os.path.join(path, prop + '-hang.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'what': 'exploration did not end'}, f)
            print('exploration did not end: a call into the code hangs')
            print('VIOLATION property=%s replay=%s' % (prop, path))
            rc = 1
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
