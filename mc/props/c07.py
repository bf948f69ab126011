"""C07: a ray's fate does not depend on the other rays in its bundle."""
import itertools

import numpy as N

from mc import build, ref, rng, zoo, scene as sc
from mc.build import TracerEngine

RULE = """On every scene of the zoo (user-built with mirrors, refracting bodies
and receivers; all ready-made models): the trace of each ray alone is the
reference. For groups of 5 rays that fare differently: all non-empty subsets (so
all ways to split the group) forwards and backwards, all orders of 4, all
sequences of 3 with repetition; for the whole source: as it is, reversed,
shuffled by strides, doubled, enlarged 5 times and to 1300 (two scenes: 70001) rays, split in blocks; for several
numbers of bounces and thresholds. Each is traced for real and compared per
source ray and level. state = one composition; transition = one source ray's
whole descent compared."""
ASSUME = ["Deterministic optics.", "Values are compared to 1e-6 relative."]
PARAMS = ((1, 0.), (3, 1e-3), (6, 0.1), (4, 0.5))


def receivers(asm):
    out = []
    for s in asm.get_surfaces():
        om = s.get_optics_manager()
        if hasattr(om, 'get_all_hits'):
            out.append(om)
    return out


def with_receivers(desc):
    """The same scene with every other mirror turned into a receiver."""
    kind, T, kids = desc
    if kind == 'obj':
        return (kind, T, [(sh, S, ('rec', o[1]) if o[0] == 'refl' and j % 2 == 0 else o) for j, (sh, S, o) in enumerate(kids)])
    return (kind, T, [with_receivers(k) for k in kids])


def skim():
    """Light that skims the floor and the walls of a hall, and passes bowls."""
    P = ref.pose
    desc = sc.asm(sc.obj((('rect', 900., 700.), P(trans=(0, 0, -1.)), ('refl', 0.2)), (('rect', 800., 700.), P((1, 0, 0), 3.1415, (0, 0, 3.)), ('refl', 0.4))),
                  sc.obj((('round', 300.), P((0, 1, 0), 1.4, (260., 0, 0)), ('refl', 0.1))),
                  sc.obj((('hemi', 1.2), P(trans=(0.3, 0.2, 1.)), ('refl', 0.3)), (('dish', 3., 1.), P(trans=(-4., 1., -0.8)), ('refl', 0.3))),
                  sc.obj((('fcyl', 1., 2.), P((1, 0, 0), 0.4, (5., -2., 0.)), ('refr', 1., 1.5)), (('flat',), P((0, 1, 0), 0.3, (0, 0, -300.)), ('refl', 0.5))))
    d = []
    for a in (0.1, 0.9, 2.3, 3.9, 5.1):
        for e in (1e-7, -1e-6, -1e-5, 3e-5, -2e-4, 1e-3, -8e-3, -0.1):
            d.append((N.cos(a), N.sin(a), e))
    o, d = build.cross(N.array([(0.1, 0.2, -0.999), (-3., 1.5, 0.37), (1.5, -0.4, -0.9999)]).T, ref.unit(N.array(d).T))
    return desc, o, d, N.ones(o.shape[1])


def crowd():
    """Many small things: 160 facets in 40 objects, and a dome."""
    P = ref.pose
    objs = []
    for a in range(8):
        for b in range(5):
            ss = [(('rect', 0.42, 0.38), P((1, 0.3*a, 0.2*b + 0.1*c), 0.2*(a - b) + 0.1*c, (a - 3.5 + 0.5*(c % 2), b - 2. + 0.45*(c//2), 0.05*a*b - 1.5)), ('refl', 0.1 + 0.01*c)) for c in range(4)]
            objs.append(sc.obj(*ss))
    return (sc.asm(sc.asm(*objs), sc.obj((('sph', 7.), P(), ('refl', 0.2)))),) + zoo.src(3)


EXTRA = {'skim': skim, 'crowd': crowd}


def scenes():
    for k in zoo.SCENES:
        yield k, 'scene'
    for k in EXTRA:
        yield k, 'scene'
    for k in zoo.MODELS:
        yield k, 'model'


def cases(tier):
    par = PARAMS if tier != 'quick' else ((1, 0.), (5, 1e-3), (4, 0.5))
    out = []
    for k, kind in scenes():
        for q, p in enumerate(par):
            out.append(('%s %s reps %d above %g' % (kind, k, p[0], p[1]), (kind, k, p[0], p[1], tier)))
    for k in ('pool', 'objects') if tier == 'quick' else sorted(zoo.SCENES):
        out.append(('very large bundle in %s' % k, ('huge', k, 2, 1e-3, tier)))
    return out


HUGE = 70001


def huge(R, k, reps, me):
    """A bundle of 70001 rays against the same rays in parts."""
    made, o, d, n = zoo.SCENES[k]()
    asm = sc.Scene(with_receivers(made)).asm
    rec = receivers(asm)
    idx = (N.arange(HUGE)*37) % o.shape[1]
    en = N.array([1., 0.6, 2., 0.3, 1.7])[N.arange(HUGE) % 5]

    def trace(lo, hi):
        for r in rec:
            r.reset()
        e, q = TracerEngine(asm), idx[lo:hi]
        e.ray_tracer(build.bundle(o[:, q], d[:, q], energy=en[lo:hi], ref_index=n[q]), reps, me)
        R.trace()
        snap = zoo.snapshot(e.tree)
        out = [zoo.rows(b, rt + lo) for b, rt in zip(snap, zoo.roots(snap))]
        out += [N.zeros((0, 9))]*(reps + 1 - len(out))
        return out + [N.vstack((N.asarray(a)[None], N.asarray(p).reshape(3, -1))).T for a, p in (r.get_all_hits() for r in rec)]

    whole = trace(0, HUGE)
    parts = [N.vstack(x) for x in zip(*[trace(lo, min(lo + 1777, HUGE)) for lo in range(0, HUGE, 1777)])]
    w = N.array([0.8713, 1.1931, 0.3377, 0.7219, 0.9173, 1.3331, 0.6113, 0.2711])
    for q, (a, b) in enumerate(zip(whole, parts)):
        what = '%d rays, %s' % (HUGE, 'level %d' % q if q <= reps else 'hits of receiver %d' % (q - reps - 1))
        R.check(a.shape == b.shape, what + ': number of rays', got=a.shape, want=b.shape)
        if q <= reps:
            a, b = [x[N.lexsort((N.dot(x[:, 1:], w).round(6), x[:, 0]))] for x in (a, b)]
            R.close(a, b, what, 1e-8)
        else:
            R.close(a.sum(axis=0), b.sum(axis=0), what + ': sum', 1e-6)
    R.state()
    R.step(HUGE)


def run(args, R):
    kind, k, reps, me, tier = args
    if kind == 'huge':
        return huge(R, k, reps, me)
    made, o, d, n = (EXTRA if k in EXTRA else zoo.SCENES if kind == 'scene' else zoo.MODELS)[k]()
    asm = sc.Scene(with_receivers(made)).asm if kind == 'scene' else made
    m = o.shape[1]
    step = max(1, m//(50 if tier == 'quick' else 400))
    pick = N.arange(0, m, step)
    o, d, n = o[:, pick], d[:, pick], n[pick]
    m = o.shape[1]
    en = N.array([1., 0.6, 2., 0.3, 1.7])[N.arange(m) % 5]
    rec = receivers(asm)

    def trace(idx):
        idx = N.asarray(idx)
        for r in rec:
            r.reset()
        e = TracerEngine(asm)
        e.ray_tracer(build.bundle(o[:, idx], d[:, idx], energy=en[idx], ref_index=n[idx]), reps, me)
        snap = zoo.snapshot(e.tree)
        hits = []
        for r in rec:
            a, p = r.get_all_hits()
            hits.append(N.vstack((N.asarray(a)[None], N.asarray(p).reshape(3, -1))).T)
        R.trace()
        return snap, hits

    single = [trace([i]) for i in range(m)]
    fate = {}
    for i, (snap, hits) in enumerate(single):
        key = (len(snap), len(snap[-1]['e']), int(N.argmax([len(h) for h in hits])) if hits else 0, len(hits) and sum(len(h) for h in hits))
        fate.setdefault(key, []).append(i)
    R.outcome('different fates', len(fate))

    def compare(idx, what):
        snap, hits = trace(idx)
        rt = zoo.roots(snap)
        depth = max([len(snap)] + [len(single[i][0]) for i in idx])
        for lvl in range(1, depth):
            if lvl < len(snap):
                got = zoo.rows(snap[lvl], rt[lvl])
            else:
                got = N.zeros((0, 9))
            want = [zoo.rows(single[i][0][lvl], N.full(len(single[i][0][lvl]['e']), pos))
                    for pos, i in enumerate(idx) if lvl < len(single[i][0])]
            want = N.vstack(want) if want else N.zeros((0, 9))
            zoo.match(R, got, want, 1e-6, what + ', level %d' % lvl)
        for j, h in enumerate(hits):
            want = N.vstack([single[i][1][j] for i in idx])
            zoo.match(R, h, want, 1e-6, what + ', hits of receiver %d' % j)
        R.state()
        R.step(len(idx))

    # groups of rays with different fates
    keys = sorted(fate)
    groups = []
    for g in range(2 if tier == 'quick' else 6):
        grp = []
        for q in range(5):
            lst = fate[keys[(q + g) % len(keys)]]
            for c in range(len(lst)):
                i = lst[(7*g + c + q) % len(lst)]
                if i not in grp:
                    grp.append(i)
                    break
            else:
                grp.append((13*q + g) % m)
        groups.append(grp)
    for g, grp in enumerate(groups):
        for r in range(1, 6):
            for sub in itertools.combinations(grp, r):
                compare(list(sub), 'rays %s' % (sub,))
                if r > 2 and (not g or tier != 'quick'):
                    compare(list(sub)[::-1], 'rays %s backwards' % (sub,))
        if g and tier == 'quick':
            continue
        for perm in itertools.permutations(grp[:4]):
            compare(list(perm), 'rays in order %s' % (perm,))
        for seq in itertools.product(grp[:3], repeat=3):
            compare(list(seq), 'rays %s' % (seq,))
    full = list(range(m))
    compare(full, 'all rays')
    compare(full[::-1], 'all rays backwards')
    for st in (7, 31):
        compare([(i*st + 3) % m for i in range(m)], 'every %dth ray' % st)
    compare(full + full, 'all rays twice')
    compare([i for i in full for _ in range(2)], 'each ray twice')
    compare(full*5, 'all rays five times')
    compare(full*(-(-1300//m)), 'more than a thousand rays')
    # one ray among very many of another kind
    short = sorted(range(m), key=lambda i: (len(single[i][0]), i))
    for f, filler in enumerate((short[0], short[min(1, m - 1)])):
        for j, key in enumerate(keys[::max(1, len(keys)//4)]):
            i = fate[key][-1]
            if i != filler:
                many = 6001 if tier != 'quick' or (f == 0 and j in (1, 2)) else 50
                at = (0, many//2, many - 1)[j % 3]
                compare([filler]*at + [i] + [filler]*(many - 1 - at), 'one ray among %d others' % (many - 1))
    R.outcome('one among many')
    if tier != 'quick':
        compare(full*(-(-9000//m)), 'nine thousand rays')
    for size in ((3, 20) if tier == 'quick' else (2, 3, 7, 50)):
        for lo in range(0, m, size):
            compare(full[lo:lo + size], 'block of %d from %d' % (size, lo))
    R.sample(scene=k, reps=reps, threshold=me, rays=m, fates=len(fate))
