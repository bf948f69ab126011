"""C01: in every trace, every ray goes on from the first surface it meets."""
import itertools
import math

import numpy as N

from mc import build, ref, scene as sc

RULE = """All ordered pairs of 14 placed shapes, inside an enclosing mirror and
without, in three groupings (one object, two objects, nested assemblies with
moved frames), plus rows, stacks, rooms and deep nestings of up to 8 surfaces;
each traced with the ray grid for several bounces, as one bundle and in small
bundles; light that starts 6e-7 to 8e-6 before each shape, among 0 to 23 others; light given in whole numbers; scenes with no surfaces or with empty parts. Each real step is compared with the brute-force model in lockstep.
state = one ray at one level of one trace; transition = one ray's step."""
ASSUME = ["""Ties and hits within 1e-7 of an outline, tangency or the start are
undecided; hits beyond 1e6 are not compared.""",
          "The surface met is identified by a distinct absorptivity per surface."]

P = ref.pose
PLACED = [
    (('flat',), P((1, 0, 0.2), 0.5, (0, 0, -1.9))),
    (('rect', 2.2, 1.4), P((0, 1, 0), 0.6, (0.5, 0.1, 0.4))),
    (('rect', 1.0, 2.5), P((1, 1, 0), -1.2, (-0.6, 0.3, 0.9))),
    (('round', 1.1), P((1, 0, 0), 2.5, (0.2, -0.7, -0.3))),
    (('tri', (1.8, 0, 0), (0.3, 1.5, 0)), P((0.2, 1, 0), 0.9, (-0.8, -0.5, 0.2))),
    (('icyl', 1.3), P((1, 0, 0), 1.3, (0.9, 0.2, 0))),
    (('fcyl', 1.2, 1.6), P((0.3, 1, 0.1), 0.7, (-0.4, 0.6, -0.5))),
    (('sph', 0.8), P((1, 0, 0), 0.4, (0.7, 0.5, 0.6))),
    (('hemi', 1.2), P((0, 1, 0), 0.8, (-0.3, -0.2, 0.5))),
    (('cut', 1.1, ('plane', P(trans=(0, 0, 0.3)))), P((1, 0.4, 0), 1.0, (0.1, 0.8, -0.2))),
    (('cut', 1.0, ('cyl', P((1, 0, 0), 0.5), 1.0)), P((1, 0, 0), 2.0, (-0.9, 0.1, 0.3))),
    (('parab', 1.1, 0.8), P((0, 1, 0.3), 0.4, (0.1, 0.1, -1.))),
    (('dish', 2.0, 0.7), P((1, 0, 0), -0.5, (0.2, 0.4, -0.9))),
    (('hex', 2.2, 1.0), P((0, 1, 0), 2.8, (-0.1, -0.4, 1.2))),
]
DOME = (('sph', 6.), P(trans=(0.3, -0.2, 0.1)))


def optics(i):
    return ('refl', 0.02 + 0.037*(i % 16))


def grouped(placed, how):
    """A scene of the same surfaces, grouped differently."""
    ss = [(s, T, optics(i)) for i, (s, T) in enumerate(placed)]
    if how == 'one':
        return sc.asm(sc.obj(*ss))
    if how == 'each':
        return sc.asm(*[sc.obj(s) for s in ss])
    if how == 'hollow':
        # objects without surfaces and assemblies without anything in between
        kids = [sc.obj()]
        for i, x in enumerate(ss):
            kids += [sc.obj(x)] + [sc.obj()]*(i % 3)
        kids = [sc.asm()] + kids + [sc.asm(sc.obj(), T=P((1, 0, 0), 0.3, (1, 2, 3)))]
        return sc.asm(*kids)
    # nested and moved: world frames stay the same
    A, B = P((1, 2, -1), 0.7, (0.5, 1., -2.)), P((0, 1, 1), 1.9, (-1., 0.2, 0.3))
    def rel(T, *up):
        for U in up:
            T = N.dot(ref.inv(U), T)
        return T
    h = (len(ss) + 1)//2
    first = [sc.obj((s, rel(T, A, B), o), T=N.eye(4)) for s, T, o in ss[:h]]
    rest = [('obj', rel(T, A), [(s, N.eye(4), o)]) for s, T, o in ss[h:]]
    return sc.asm(sc.asm(*first, T=B), *rest, T=A)


def rays(tier, n_start=None):
    o = build.starts(1.1, 1)
    o = o[:, ::5] if tier == 'quick' else o[:, ::2]
    d = build.directions(1)[:, ::2] if tier == 'quick' else build.directions(1)
    return build.cross(o, d)


def cases(tier):
    out = []
    m = len(PLACED)
    for i in range(m):
        out.append(('pairs with %d' % i, ('pairs', i, tier)))
    for k in ('stack', 'room', 'deep', 'pick', 'same', 'sizes', 'spheres', 'many', 'crowd', 'gaps', 'long', 'hollow', 'huge', 'start', 'whole', 'sparse'):
        out.append((k, (k, 0, tier)))
    if tier == 'thorough':
        for i, j in itertools.combinations(range(m), 2):
            out.append(('triples with %d,%d' % (i, j), ('triples', (i, j), tier)))
    return out


def trace(R, placed, how, o, d, reps, what, scale=2.):
    s = sc.Scene(grouped(placed, how))
    b = build.bundle(o, d)
    sc.lockstep(R, s, b, reps, 1e-3, what, scale)


def run(args, R):
    kind, i, tier = args
    o, d = rays(tier)
    if kind == 'pairs':
        for j in range(len(PLACED)):
            if i == j:
                continue
            pl = [PLACED[i], PLACED[j]]
            how = ('one', 'each', 'nested')
            for h in (how if tier == 'thorough' else (how[(i + 2*j) % 3],)):
                trace(R, pl, h, o, d, 4, '%s, %s, %s' % (build.name(pl[0][0]), build.name(pl[1][0]), h))
            h = how[(i + j + 1) % 3]
            trace(R, pl + [DOME] if (i + j) % 2 else [DOME] + pl, h, o, d, 3, '%s, %s in dome, %s' % (build.name(pl[0][0]), build.name(pl[1][0]), h))
        R.sample(pair=[build.name(PLACED[i][0]), 'all others'], rays=o.shape[1])
    elif kind == 'whole':
        # rays given as arrays of whole numbers
        eye = N.eye(3, dtype=int)
        o, d = build.cross(N.array(list(itertools.product((-2, -1, 0, 1, 2), (-2, 0, 1), (-3, -1, 0, 1, 2)))).T, N.hstack((eye, -eye)))
        for a, b in itertools.combinations(range(len(PLACED)), 2):
            for pl, h in (([PLACED[a], PLACED[b]], 'each'), ([PLACED[b], DOME, PLACED[a]], 'one')):
                bund = build.bundle(o, d)
                bund.set_energy(N.ones(o.shape[1], dtype=int))
                sc.lockstep(R, sc.Scene(grouped(pl, h)), bund, 3, 1e-3, 'whole numbers: ' + ', '.join(build.name(x[0]) for x in pl), 2.)
        R.outcome('whole numbers')
    elif kind == 'sparse':
        # scenes with no surfaces at all, and with empty parts among others
        shapes = ((('rect', 2.2, 1.4), ref.pose((1, 0, 0), 0.3, (0.1, 0, -0.5)), ('refl', 0.2)), (('sph', 0.7), ref.pose(trans=(0.2, 0.1, 0.6)), ('refl', 0.1)),
                  (('round', 0.9), ref.pose((0, 1, 0), 2.8, (0, 0.1, 1.6)), ('refl', 0.3)), (('fcyl', 1.1, 0.8), ref.pose((1, 0, 0), 1.2, (0.2, 0, -1.4)), ('refl', 0.)))
        T = ref.pose((0, 0, 1), 0.2, (0.05, 0, 0))
        parts = (lambda s: sc.obj(T=T), lambda s: sc.asm(T=T), lambda s: sc.asm(sc.obj(), sc.asm()), lambda s: sc.obj(s), lambda s: sc.asm(sc.obj(), sc.obj(s), sc.asm(), T=T))
        o, d = build.cross(N.array([(0.1, 0.05, 2.6), (0.15, 0.1, 0.2), (-0.1, 0.3, -2.9)]).T, ref.unit(N.array([(0.03, 0.02, 1.), (0.03, 0.02, -1.), (0.02, 0.01, -0.6), (0.2, 0.1, 0.9), (1., 0.2, 0.1)]).T))
        for m in range(5):
            for seq in itertools.product(range(5), repeat=m):
                scn = sc.asm(*[parts[q](shapes[i]) for i, q in enumerate(seq)])
                for n in ((o.shape[1], 1, 0) if m < 3 else (o.shape[1],)):
                    bund = build.bundle(o[:, :n], d[:, :n], energy=N.ones(n))
                    sc.lockstep(R, sc.Scene(scn), bund, 3, 1e-3, 'parts %s, %d rays' % (seq, n), 2.)
        R.outcome('empty parts')
    elif kind == 'triples':
        for k in range(len(PLACED)):
            if k in i:
                continue
            for perm in itertools.permutations((i[0], i[1], k)):
                pl = [PLACED[q] for q in perm]
                h = ('one', 'each', 'nested')[sum(a*b for a, b in zip(perm, (1, 2, 4))) % 3]
                trace(R, pl, h, o[:, ::2], d[:, ::2], 3, 'triple %s %s' % (perm, h))
    elif kind == 'stack':
        # parallel plates behind one another, all orders
        zs = (-1., -0.999, 0.2, 0.7, 2.)
        oo, dd = build.cross(N.array([(0.1, 0.2, -3.), (0.05, -0.1, 5.), (0.2, 0.1, 0.1), (0., 0.1, 0.6999), (0.3, 0.1, 1.9)]).T,
                             ref.unit(N.array([(0, 0, 1), (0, 0, -1), (0.1, 0.05, 1), (-0.1, 0.02, -1), (0.02, 0.2, -1)], float).T))
        for perm in itertools.permutations(range(5)):
            pl = [(('rect', 4., 4.), P(trans=(0, 0, zs[q]))) if q % 2 else (('round', 3.), P((1, 0, 0), math.pi, (0, 0, zs[q]))) for q in perm]
            for h in ('one', 'each', 'nested'):
                trace(R, pl, h, oo, dd, 4, 'stack %s %s' % (perm, h))
    elif kind == 'room':
        # a closed box of plates with things inside: many bounces, none may leak
        s = 4.
        walls = [(('rect', s, s), P((1, 0, 0), a, t)) for a, t in
                 ((0., (0, 0, -s/2)), (math.pi, (0, 0, s/2)), (math.pi/2, (0, s/2, 0)), (-math.pi/2, (0, -s/2, 0)))]
        walls += [(('rect', s, s), P((0, 1, 0), a, t)) for a, t in ((math.pi/2, (-s/2, 0, 0)), (-math.pi/2, (s/2, 0, 0)))]
        for extra in range(len(PLACED)):
            sh, T = PLACED[extra]
            T = T.copy()
            T[:3, 3] *= 0.5
            gen = ref.unit(build.directions(1)[:, 26:].copy() + 0.01)
            inside = N.array(list(itertools.product((-1.61, 0.17, 1.43), repeat=3))).T
            oo, dd = build.cross(inside, gen)
            for h in ('one', 'nested') if tier == 'quick' else ('one', 'each', 'nested'):
                trace(R, walls + [(sh, T)] if extra % 2 else [(sh, T)] + walls, h, oo, dd, 8, 'room with %s, %s' % (build.name(sh), h))
    elif kind == 'deep':
        # one shape per level of a chain of nested, moved assemblies
        for rot in range(4):
            W, desc, mats = N.eye(4), None, []
            for lvl in range(6):
                T = P((1, lvl - 2, 0.5*rot - 1), 0.4 + 0.3*lvl, (0.2*lvl, -0.3, 0.1*rot))
                mats.append(T)
            for lvl in reversed(range(6)):
                sh, S = PLACED[(3*lvl + rot) % len(PLACED)]
                kids = [('obj', P((0, 0, 1), 0.3*lvl, (0.1, 0, 0)), [(sh, S, optics(lvl))])]
                if desc is not None:
                    kids = [desc] + kids if lvl % 2 else kids + [desc]
                desc = ('asm', mats[lvl], kids)
            s = sc.Scene(desc)
            sc.lockstep(R, s, build.bundle(o, d), 4, 1e-3, 'deep nesting %d' % rot, 3.)
    elif kind == 'pick':
        # all 14 at once, and each subset missing one; all orders rotated
        for r in range(len(PLACED)):
            pl = PLACED[r:] + PLACED[:r]
            trace(R, pl, ('one', 'each', 'nested')[r % 3], o, d, 3, 'all shapes, rotated %d' % r)
            trace(R, pl[1:], ('each', 'nested', 'one')[r % 3], o, d, 3, 'all but one, rotated %d' % r)
    elif kind == 'same':
        # several surfaces of the same shape, one geometry kind at a time
        for sh, T in PLACED:
            pl = []
            for q in range(5):
                M = P((0.2*q, 1, -0.4), 0.9*q, (0.5*q - 1., 0.4*q - 0.7, 0.3*(q % 3)))
                pl.append((sh, N.dot(M, T)))
            for h in ('one', 'each', 'nested'):
                trace(R, pl, h, o, d, 3, 'five of %s, %s' % (build.name(sh), h))
    elif kind == 'sizes':
        # bundles of every small size and some large ones
        pl = [PLACED[q] for q in (1, 6, 8, 12)] + [DOME]
        s = sc.Scene(grouped(pl, 'nested'))
        bo, bd = build.cross(build.starts(1.1, 1), build.directions(1))
        for n in list(range(1, 13)) + [100, 1000, bo.shape[1]]:
            for off in (0, 7, 333):
                idx = (N.arange(n)*37 + off) % bo.shape[1]
                sc.lockstep(R, s, build.bundle(bo[:, idx], bd[:, idx]), 3, 1e-3, 'bundle of %d' % n, 6.)
    elif kind == 'huge':
        # more rays than two bytes can count
        pl = [PLACED[q] for q in (1, 6, 8)] + [DOME]
        s = sc.Scene(grouped(pl, 'nested'))
        bo, bd = build.cross(build.starts(1.1, 1), build.directions(1))
        idx = (N.arange(70001)*37) % bo.shape[1]
        sc.lockstep(R, s, build.bundle(bo[:, idx], bd[:, idx]), 2, 1e-3, 'bundle of 70001', 6.)
    elif kind == 'spheres':
        # inside closed curved mirrors: every bounce finds the far side
        inside = N.array(list(itertools.product((-0.41, 0.13, 0.37), repeat=3))).T
        oo, dd = build.cross(inside, build.directions(1))
        for sh in (('sph', 1.), ('cut', 1., None), ('icyl', 2.)):
            for pn in ('id', 'skew', 'far'):
                T = build.POSES[pn]
                trace(R, [(sh, T)], 'one', ref.pts(T, oo), ref.vecs(T, dd), 12, 'inside %s, pose %s' % (build.name(sh), pn), 1.5)
        for pn in ('id', 'skew2'):
            T = build.POSES[pn]
            can = [(('fcyl', 2., 2.), T), (('round', 1.), N.dot(T, P(trans=(0, 0, 1.)))), (('round', 1.), N.dot(T, P((1, 0, 0), math.pi, (0, 0, -1.))))]
            for h in ('one', 'each', 'nested'):
                trace(R, can, h, ref.pts(T, oo), ref.vecs(T, dd), 10, 'inside a can, pose %s' % pn, 1.5)
    elif kind == 'crowd':
        # several hundred surfaces, in one object, in many, and nested
        pl = []
        for a in range(15):
            for b in range(20):
                pl.append((('rect', 0.3, 0.35) if (a + b) % 3 else ('tri', (0.35, 0., 0.), (0.1, 0.3, 0.)),
                           P((1, 0.3*a, 0.2*b), 0.13*(a - b), (0.5*(a - 7), 0.5*(b - 9.5), 0.02*a*b - 1.5 + 0.4*((a*b) % 3)))))
        oo, dd = build.cross(N.array(list(itertools.product((-3.3, -1.2, 0.7, 2.9), (-4.1, -1.1, 1.3, 3.7), (-4., 5.)))).T,
                             build.directions(1)[:, ::2])
        for h in ('one', 'each', 'nested'):
            trace(R, pl + [DOME], h, oo, dd, 3, 'crowd, ' + h, 5.)
    elif kind == 'gaps':
        # two surfaces of a shape a very narrow gap apart: light goes to and
        # fro between them; and light that starts very near a surface
        for q, (sh, T) in enumerate(PLACED):
            no, nd = build.near_rays(sh)
            oo, dd = N.hstack((o[:, ::3], ref.pts(T, no))), N.hstack((d[:, ::3], ref.vecs(T, nd)))
            for g, gap in enumerate((3e-5, 4e-4, 6e-3)):
                pl = [(sh, T), (sh, N.dot(T, P((1, 0.3, 0.2), 0.2*gap, (0.3*gap, 0.2*gap, gap))))]
                if (q + g) % 2:
                    pl.reverse()
                trace(R, pl, ('one', 'each', 'nested')[(q + g) % 3], oo, dd, 5, 'gap of %g between two of %s' % (gap, build.name(sh)))
    elif kind == 'start':
        # light that starts next to a surface: what it meets within 1e-6 does
        # not count, and what it meets beyond does, however many others there are
        far = [(('rect', 1., 1.), P((1, 0.2*i, 0), 0.3*i, (20. + i, 3.*i, -7.))) for i in range(22)]
        for sh, T in PLACED:
            p = build.surface_points(sh, 5)
            m = ref.margin(sh, p)
            p = p[:, m > 0.02*ref.size(sh)]
            p = p[:, (p**2).sum(axis=0) < 9.]
            p = p[:, ::max(1, p.shape[1]//6)]
            n = ref.normal(sh, p)
            u = ref.unit(N.cross(n.T, (0.3, 0.5, 0.81)).T)
            q, d = N.hstack((p,)*4), N.hstack((n, -n, ref.unit(n + 0.7*u), ref.unit(0.8*u - n)))
            q, d = ref.pts(T, q), ref.vecs(T, d)
            k = q.shape[1]
            for others, h in ((0, 'one'), (1, 'each'), (6, 'nested'), (23, 'each'), (23, 'one')):
                pl = ([(sh, T)] + [DOME] + far)[:others + 1]
                asm = sc.Scene(grouped(pl[::-1] if others % 2 else pl, h)).asm
                for t in (6e-7, 9e-7, 1.2e-6, 1.9e-6, 3.3e-6, 8e-6):
                    e = build.TracerEngine(asm)
                    e.ray_tracer(build.bundle(q - t*d, d), 1, 0.)
                    R.trace()
                    met = N.zeros(k, dtype=bool)
                    if e.tree.num_bunds() > 1:
                        par = N.array(e.tree[1].get_parents()).astype(int)
                        v = N.array(e.tree[1].get_vertices())
                        R.check(len(set(par)) == len(par), 'start %g before %s: a ray goes on twice' % (t, build.name(sh)))
                        met[par] = N.sqrt(((v - q[:, par])**2).sum(axis=0)) < 1e-7
                    R.check((met == (t > 1e-6)).all(), 'start %g before %s among %d others, %s: goes on from there: %d of %d' % (t, build.name(sh), others, h, met.sum(), k))
                    R.state(k)
                    R.step(k)
    elif kind == 'hollow':
        for r in range(len(PLACED)):
            pl = PLACED[r:] + PLACED[:r]
            trace(R, pl[:6] + [DOME], 'hollow', o, d, 3, 'with empty objects, rotated %d' % r, 6.)
    elif kind == 'long':
        # light that goes on and on: hundreds of bounces, nothing may give up
        T = build.POSES['skew']
        oo, dd = build.cross(N.array([(0.1, 0.2, 0.3), (-0.2, 0.05, -0.31)]).T, ref.unit(N.array([(0.3, 0.2, 1.), (-0.7, 0.4, 0.1), (1., 0.9, -0.4)]).T))
        n = 330 if tier == 'quick' else 1500
        s = sc.Scene(sc.asm(sc.obj((('sph', 1.), T, ('refl', 0.)))))
        sc.lockstep(R, s, build.bundle(ref.pts(T, oo), ref.vecs(T, dd)), n, 0., 'long in a sphere', 1.5)
        walls = [(('rect', 2., 2.), P((1, 0, 0), a, t)) for a, t in
                 ((0., (0, 0, -1)), (math.pi, (0, 0, 1)), (math.pi/2, (0, 1, 0)), (-math.pi/2, (0, -1, 0)))]
        walls += [(('rect', 2., 2.), P((0, 1, 0), a, t)) for a, t in ((math.pi/2, (-1, 0, 0)), (-math.pi/2, (1, 0, 0)))]
        for each in (False, True):
            ss = [(sh, M, ('refl', 1e-6*(q + 1))) for q, (sh, M) in enumerate(walls)]
            s = sc.Scene(sc.asm(*[sc.obj(x) for x in ss]) if each else sc.asm(sc.obj(*ss)))
            sc.lockstep(R, s, build.bundle(oo, dd), n, 1e-3, 'long in a box', 2.)
    elif kind == 'many':
        # a wall of 48 facets, one object or many
        pl = []
        for a in range(8):
            for b in range(6):
                pl.append((('rect', 0.9, 0.8), P((1, 0.3*a, 0.2*b), 0.1*(a - b), (a - 3.5, b - 2.5, 0.05*a*b))))
        oo, dd = build.cross(N.array(list(itertools.product((-3.3, -1.2, 0.7, 2.9), (-2.1, 0.3, 1.7), (-4., 5.)))).T,
                             build.directions(1))
        for h in ('one', 'each', 'nested'):
            trace(R, pl, h, oo, dd, 3, 'many facets, ' + h, 5.)
