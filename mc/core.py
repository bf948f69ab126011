"""Exploration framework: cases, recorder, parallel runner, evidence, replay.

A property module defines
    cases(tier)    -> list of (key, args): the enumerated space, cut in pieces
    run(args, R)   -> explores one piece completely on the real code
    RULE, ASSUME   -> what is enumerated / assumed (for the evidence file)
and reports through the Recorder R. Nothing is sampled; the seed only changes
the order in which the pieces are explored.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback
import warnings

import numpy as N

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


def plain(x):
    """JSON-friendly copy of anything."""
    if isinstance(x, dict):
        return dict((str(k), plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple, set)):
        return [plain(v) for v in x]
    if isinstance(x, N.ndarray):
        return plain(x.tolist())
    if isinstance(x, (bool, N.bool_)):
        return bool(x)
    if isinstance(x, N.integer):
        return int(x)
    if isinstance(x, (float, N.floating)):
        return float(x) if N.isfinite(x) else repr(float(x))
    if x is None or isinstance(x, (int, str)):
        return x
    return repr(x)


class Recorder(object):
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.undecided = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.findings = []      # (finding id, description)

    def state(self, n=1):
        """n distinct configurations (states, inputs) were reached."""
        self.states += int(n)

    def step(self, n=1):
        """n steps of the implementation were compared with the model."""
        self.transitions += int(n)

    def trace(self, n=1):
        """n executions (traces, histories) were run on the real code."""
        self.traces += int(n)

    def skip(self, n=1):
        """n comparisons that the tolerance leaves undecided (edges, ties)."""
        self.undecided += int(n)

    def outcome(self, label, n=1):
        if n:
            self.outcomes[label] += int(n)

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(plain(kw))

    def fail(self, what, **detail):
        raise Violation(what, plain(detail))

    def finding(self, fid, what):
        """A violation that is identified by fid; listed findings are reported
        as known, others are violations."""
        self.findings.append((fid, what))

    def check(self, ok, what, **detail):
        if not ok:
            self.fail(what, **detail)

    def close(self, got, want, what, tol=1e-7, **detail):
        """Elementwise equality within tol (absolute + relative); NaN fails."""
        got = N.asarray(got, dtype=float)
        want = N.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(what + ": wrong shape", got=got.shape, want=want.shape, **detail)
        with N.errstate(all='ignore'):
            same_inf = N.isinf(got) & N.isinf(want) & (N.sign(got) == N.sign(want))
            ok = same_inf | (N.isfinite(want) & (N.abs(got - want) <= tol * (1. + N.abs(want))))
        if not ok.all():
            got, want, ok = N.atleast_1d(got), N.atleast_1d(want), N.atleast_1d(ok)
            w = N.argwhere(~ok)[0]
            self.fail(what, at=w, got=got[tuple(w)], want=want[tuple(w)],
                      bad=int((~ok).sum()), **detail)

    def pack(self):
        return (self.states, self.transitions, self.traces, self.undecided,
                dict(self.outcomes), self.samples, self.findings)


MODULE = None


def _explore(item):
    idx, key, args = item
    R = Recorder()
    bad = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            N.seterr(all='ignore')
            MODULE.run(args, R)
    except Violation as e:
        bad = {'what': e.args[0], 'detail': e.args[1]}
    except Exception as e:      # the code under test must not raise here
        bad = {'what': 'exception: %s: %s' % (type(e).__name__, e),
               'detail': {'traceback': traceback.format_exc().splitlines()[-12:]}}
    return idx, key, plain(args), R.pack(), bad


def load_known(prop):
    """Known findings of the committed file, by finding id."""
    out = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('known:'):
                # known: property=<id> finding=<fid> <what>
                parts = line[len('known:'):].split(None, 2)
                if parts[0] == 'property=' + prop:
                    out[parts[1][len('finding='):]] = parts[2]
    return out


def main(module, prop, tier, seed, only=None, jobs=None):
    global MODULE
    MODULE = module
    t0 = time.time()
    items = [(i, k, a) for i, (k, a) in enumerate(module.cases(tier))]
    keys = [k for _, k, _ in items]
    assert len(set(keys)) == len(keys), "duplicate case keys"
    if only is not None:
        items = [it for it in items if it[1] == only]
        assert items, "no such case: %s" % only
    total = len(items)
    # the seed permutes the order of exploration, nothing else
    items.sort(key=lambda it: hashlib.md5(('%d:%s' % (seed, it[1])).encode()).digest()
               if seed else it[0])
    jobs = jobs or int(os.environ.get('MC_JOBS', min(8, os.cpu_count() or 1)))
    jobs = max(1, min(jobs, total))

    acc = [0, 0, 0, 0]
    outcomes = collections.Counter()
    samples, findings, bads, done = [], {}, [], 0

    def results():
        if jobs == 1:
            for it in items:
                yield _explore(it)
        else:
            pool = multiprocessing.get_context('fork').Pool(jobs)
            try:
                for r in pool.imap_unordered(_explore, items, 1):
                    yield r
            finally:
                pool.terminate()
                pool.join()

    gen = results()
    for idx, key, args, packed, bad in gen:
        done += 1
        for j in range(4):
            acc[j] += packed[j]
        outcomes.update(packed[4])
        samples.extend(dict(s, case=key) for s in packed[5])
        for fid, what in packed[6]:
            findings.setdefault(fid, (what, key, args))
        if bad is not None:
            bads.append((idx, key, args, bad))
            break
    gen.close()

    known = load_known(prop)
    for fid in sorted(findings):
        what, key, args = findings[fid]
        if fid in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, known[fid]))
        else:
            bads.append((0, key, args, {'what': what, 'detail': {'finding': fid}}))

    samples.sort(key=lambda s: keys.index(s['case']))
    wall = time.time() - t0
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': acc[0], 'transitions': acc[1],
            'traces_validated_against_impl': acc[2],
            'samples': samples[:4],
            'exhaustive': bool(done == total and not bads and only is None),
            'cases': done, 'cases_total': total,
            'undecided_by_tolerance': acc[3],
            'outcomes': dict(sorted(outcomes.items())),
            'rule': ' '.join(module.RULE.split()),
        },
        'assumptions': [' '.join(a.split()) for a in module.ASSUME],
        'wall_s': round(wall, 2),
        'violations': len(bads),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if only is None:
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))

    print("%s %s: cases=%d/%d states=%d transitions=%d traces=%d undecided=%d wall=%.1fs"
          % (prop, tier, done, total, acc[0], acc[1], acc[2], acc[3], wall))
    print("outcomes: " + ', '.join('%s=%d' % kv for kv in sorted(outcomes.items())))
    if not bads:
        return 0
    for idx, key, args, bad in bads:
        print("  %s [%s]" % (bad['what'], key))
        print("  " + json.dumps(bad['detail'])[:1500])
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.md5(key.encode()).hexdigest()[:8]
        path = os.path.join(rdir, '%s-%s.json' % (prop, h))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'case': key, 'args': args,
                       'what': bad['what'], 'detail': bad['detail'],
                       'replay_cmd': 'python3 /verif/check.py replay ' + path}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
