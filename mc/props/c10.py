"""C10: moving scene and light together moves the result rigidly."""
import math

import numpy as N

from mc import build, ref, rng, zoo, scene as sc
from mc.build import Assembly, TracerEngine
from mc.props.c07 import receivers, with_receivers

RULE = """Every scene of the zoo and every ready-made model x every motion of a
list (translations, right angles, flips, generic, far away, tiny) x every level
at which it can be applied (transform, location and rotation of the top; a
wrapping assembly; a chain of two wrapping assemblies that share it; every
member of the top; every object of a flat assembly; undone and redone;
of a scene that was traced before or not) x numbers
of bounces; and of every shape alone, with rays just inside and outside of its outline and almost tangential to it. The moved trace is compared with the moved rays of the unmoved one,
level by level, ray by ray with its source ray, and so are the receivers'
records. state = one moved scene; transition = one ray compared."""
ASSUME = ["Deterministic optics; values are compared to 2e-6 relative to the size of the motion."]

P = ref.pose
MOTIONS = {
    'identity': N.eye(4), 'shift': P(trans=(0.7123457, -1.3071829, 2.1046851)), 'x90': P((1, 0, 0), math.pi/2), 'y-90': P((0, 1, 0), -math.pi/2, (0.2019283, 0, 0)),
    'z180': P((0, 0, 1), math.pi), 'flip': P((1, 0, 0), math.pi, (0, 0, 1.)), 'flip y': P((0, 1, 0), math.pi), 'skew': P((1, 2, 3), 1.1, (0.4182736, -0.2294857, 1.5038271)),
    'skew2': P((-2, 1, 0.5), 2.6, (-5.0192837, 3.0475618, -1.0384756)), 'far': P((0.3, -1, 0.2), 4., (120.3847561, -80.0192837, 45.5647382)), 'tiny': P((0, 1, 1), 1e-3, (1e-4, 0, -1e-4)),
    'cycle': N.array([[0, 0, 1., 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1]]),
}
WAYS = ('transform', 'location and rotation', 'wrapped', 'wrapped twice', 'members', 'flat', 'redone')
REPS = ((2, 1e-3), (5, 0.02))


def cases(tier):
    out = []
    for kind, names in (('scene', zoo.SCENES), ('model', zoo.MODELS)):
        for k in names:
            for m in sorted(MOTIONS):
                if tier == 'quick' and m in ('z180', 'flip y', 'cycle', 'skew2'):
                    continue
                out.append(('%s %s moved by %s' % (kind, k, m), (kind, k, m, tier)))
    for i in range(len(build.shapes())):
        out.append(('edges of %s' % build.name(build.shapes()[i]), ('edges', i, None, tier)))
    return out


def members(asm):
    return list(asm.get_local_objects()) + list(asm.get_assemblies())


def move(asm, M, way):
    """Applies the motion to a fresh assembly; returns what to trace."""
    T0 = N.array(asm.get_transform())
    T = N.dot(M, T0)
    if way == 'transform':
        asm.set_transform(T)
    elif way == 'location and rotation':
        asm.set_location(T[:3, 3].copy())
        asm.set_rotation(T[:3, :3].copy())
    elif way == 'wrapped':
        outer = Assembly()
        outer.add_assembly(asm, T0.copy())
        outer.set_transform(M.copy())
        return outer
    elif way == 'wrapped twice':
        half = P((0, 0, 1), 0.7, (1., 0, -2.))
        inner = Assembly(subassemblies=[asm])
        outer = Assembly()
        outer.add_assembly(inner, N.dot(ref.inv(half), M))
        outer.set_rotation(half[:3, :3].copy())
        outer.set_location(half[:3, 3].copy())
        return outer
    elif way == 'members':
        # M T0 x = T0 (T0^-1 M T0) x
        Q = N.dot(ref.inv(T0), T)
        for k in members(asm):
            k.set_transform(N.dot(Q, k.get_transform()))
    elif way == 'flat':
        # all objects taken out and placed directly
        flat = Assembly()
        todo = [(asm, T)]
        while todo:
            a, W = todo.pop(0)
            for o in a.get_local_objects():
                flat.add_object(o, N.dot(W, N.array(o.get_transform())))
            todo += [(s, N.dot(W, N.array(s.get_transform()))) for s in a.get_assemblies()]
        return flat
    elif way == 'redone':
        asm.set_transform(P((1, 1, 0), 0.4, (3., 2., 1.)))
        asm.set_location(N.array([9., 9., 9.]))
        asm.set_transform(T)
    return asm


def run(args, R):
    kind, k, mn, tier = args
    rng.CONTROL.reset()
    if kind == 'edges':
        shape = build.shapes()[k]
        o, d = build.edge_rays(shape)
        go, gd = build.graze_rays(shape)
        o, d = N.hstack((o, go)), N.hstack((d, gd))
        if not o.shape[1]:
            o, d = build.cross(build.starts(1.)[:, ::9], build.directions(1)[:, ::3])
        for mn in sorted(MOTIONS):
            moved(R, kind, (shape, o, d), mn, tier)
        return
    moved(R, kind, k, mn, tier)


def moved(R, kind, k, mn, tier):
    M = MOTIONS[mn]

    def fresh():
        if kind == 'edges':
            shape, o, d = k
            T = P((1, 0.4, -0.2), 0.6, (0.3, 0.2, -0.1))
            made = sc.asm(sc.obj((shape, P((0, 1, 0.3), -0.4, (0.1, 0, 0.05)), ('refl', 0.2)), T=T))
            W = N.dot(T, P((0, 1, 0.3), -0.4, (0.1, 0, 0.05)))
            return sc.Scene(with_receivers(made)).asm, ref.pts(W, o), ref.vecs(W, d), N.ones(o.shape[1])
        made, o, d, n = (zoo.SCENES if kind == 'scene' else zoo.MODELS)[k]()
        if kind == 'scene':
            made = sc.Scene(with_receivers(made)).asm
        return made, o, d, n

    asm, o, d, n = fresh()
    step = max(1, o.shape[1]//((150 if kind != 'edges' else 400) if tier == 'quick' else 1000))
    o, d, n = o[:, ::step], d[:, ::step], n[::step]
    en = 0.5 + N.arange(o.shape[1]) % 3

    def trace(a, o, d, reps, me, which=N.s_[:]):
        rec = receivers(a)
        for r in rec:
            r.reset()
        e = TracerEngine(a)
        e.ray_tracer(build.bundle(o, d, energy=en[which], ref_index=n[which]), reps, me)
        R.trace()
        hits = []
        for r in rec:
            ab, p = r.get_all_hits()
            hits.append(N.vstack((N.asarray(ab)[None], N.asarray(p).reshape(3, -1))))
        return zoo.snapshot(e.tree), hits

    scale = 1 + N.abs(M[:3, 3]).max()
    label = build.name(k[0]) if kind == 'edges' else k
    for reps, me in REPS if kind != 'edges' else REPS[:1]:
        base, hbase = trace(fresh()[0], o, d, reps, me)
        rb = zoo.roots(base)
        for way in WAYS:
            what = '%s moved by %s (%s), %d bounces' % (label, mn, way, reps)
            scn = fresh()[0]
            if way == 'redone' or (way == 'wrapped' and reps == 2):
                # the same surfaces have been traced where they were
                trace(scn, o[:, ::3], d[:, ::3], reps, me, N.arange(0, o.shape[1], 3))
            snap, hits = trace(move(scn, M, way), ref.pts(M, o), ref.vecs(M, d), reps, me)
            R.check(len(snap) == len(base), what + ': number of levels', got=len(snap), want=len(base))
            rs = zoo.roots(snap)
            for lvl in range(len(base)):
                want = dict(base[lvl])
                want['v'], want['d'] = ref.pts(M, want['v']), ref.vecs(M, want['d'])
                extra_w, extra_g = rb[lvl], rs[lvl]
                if lvl:
                    # the parent's energy and position identify it as well
                    extra_w = extra_w + 1e-3*base[lvl - 1]['e'][base[lvl]['p']]
                    extra_g = extra_g + 1e-3*snap[lvl - 1]['e'][snap[lvl]['p']]
                A, B = zoo.rows(snap[lvl], extra_g), zoo.rows(want, extra_w)
                near = (N.abs(B[:, 1:4]) < 1e5).all(axis=1)     # far away only rounding is left
                if not near.all():
                    R.skip((~near).sum())
                    A, B = A[(N.abs(A[:, 1:4]) < 1e5).all(axis=1)], B[near]
                zoo.match(R, A, B, 2e-6*scale, what + ', level %d' % lvl)
                R.step(len(B))
            # the records of the receivers, in any order of surfaces ('flat' changes it)
            want = [N.vstack((h[:1], ref.pts(M, h[1:]))).T for h in hbase]
            zoo.match(R, N.vstack([h.T for h in hits]) if hits else N.zeros((0, 4)),
                      N.vstack(want) if want else N.zeros((0, 4)), 2e-6*scale, what + ', hits')
            R.state()
            R.outcome(way)
            R.outcome('receivers hit', int(sum(len(w) for w in want) > 0))
    R.sample(scene=label, motion=mn, levels=len(base), rays=int(sum(len(b['e']) for b in base)))
