"""C02: each shape's reported intersections, against closed forms."""
import itertools

import numpy as N

from mc import build, ref

RULE = """Every shape of the alphabet (27 outlines x scales) x every pose x every
(start, direction) of the ray grid, rays aimed 1e-5..3e-2 inside and outside the
outline from both sides, almost tangential rays, whole-number rays given as integers, and rays starting on the
surface, traced as
one bundle, in slices, in reverse and (first rays) one by one and in all pairs
of (hitting, missing, from-behind) classes; all sequences of up to 3 sizes given
to one sphere, hemisphere, cut sphere or triangle, used in between or not; state = one (shape, scale, pose, ray)
with a distinct verdict-relevant configuration; transition = one reported
parameter compared with the reference."""
ASSUME = ["""Verdicts within 1e-7 relative of an outline, tangency, the start
or 1e-8 of parallelism are left undecided; hits beyond 1e6 are not compared.""",
          "Unit directions, rigid frames, sizes 0.01 to 50."]


def cases(tier):
    out = []
    scales = (1., 0.02, 40.) if tier == 'quick' else (1., 0.01, 0.1, 3., 50.)
    poses = list(build.POSES)
    for sc in scales:
        for i, s in enumerate(build.shapes(sc)):
            out.append(('%s@%g' % (build.name(s), sc) + '#%d' % i, (sc, i, tier)))
    out += [('resized %s' % k, (k, None, tier)) for k in sorted(SIZES)]
    return out


V = lambda *p: N.array(p, dtype=float).T
SIZES = {'sph': (0.6, 1.1, 2.3, 1), 'hemi': (1.3, 0.7, 2.1, 3), 'cut': (1.2, 0.8, 1.9),
         'tri': (V((1.5, 0, 0), (0.4, 1.2, 0)), V((-0.3, 1.1, 0), (-1.4, -0.5, 0)), V((0.7, 0.1, 0), (0.2, 0.9, 0)), V((1.5, 0, 0), (-0.4, 1.2, 0)))}


def sized(kind, x):
    if kind == 'tri':
        return ('tri', tuple(x[:, 0]), tuple(x[:, 1]))
    if kind == 'cut':
        return ('cut', x, build.cuts(1.2)[1])
    return (kind, x)


def run_resized(kind, tier, R):
    """All sequences of up to 3 sizes given to one geometry, used (or not)
    at each size, in its turn as one surface and as two."""
    sizes = SIZES[kind]
    rays = [build.all_rays(sized(kind, x), 1, True) for x in sizes]
    want = []
    for x, (o, d) in zip(sizes, rays):
        o, d = o[:, ::3], d[:, ::3]
        want.append((o, d) + ref.nearest(sized(kind, x), o, d))
    for seq in [q for n in (2, 3) for q in itertools.product(range(len(sizes)), repeat=n)]:
        for pname, use in itertools.product(('id', 'skew'), ('full', 'mesh', 'not')):
            T = build.POSES[pname]
            gm = build.gm(sized(kind, sizes[seq[0]]))
            surf = build.Surface(gm, build.opt.Reflective(0.), location=T[:3, 3].copy(), rotation=T[:3, :3].copy())
            for j, q in enumerate(seq):
                if j:
                    gm.set_vertices(sizes[q].copy()) if kind == 'tri' else gm.set_radius(sizes[q])
                o0, d0, r, u = want[q]
                last = j == len(seq) - 1
                if not last and use == 'not':
                    continue
                if use == 'mesh' and kind != 'cut':
                    surf.mesh(4)
                t = reported(surf, ref.pts(T, o0), ref.vecs(T, d0))
                compare(R, sized(kind, sizes[q]), T, o0, d0, t, r, u, 'sizes %s, pose %s, used %s' % (seq[:j + 1], pname, use))
                sel = N.nonzero(N.isfinite(norm(t)))[0]
                if use != 'not' and len(sel):
                    surf.select_rays(sel)
                    p = gm.get_intersection_points_global()
                    w = o0[:, sel] + d0[:, sel]*r[sel]
                    m = ~u[sel]
                    R.close(N.array(p)[:, m], ref.pts(T, w)[:, m], 'resized: hit points', 1e-6)
                surf.done()
                R.state(len(t))
                R.trace()
            R.outcome('resized ' + kind)


def whole(scale):
    k = max(1, int(round(scale)))
    o = N.array(list(itertools.product((-3, -1, 0, 1, 2), (-2, -1, 0, 1, 3), (-4, -1, 0, 1, 2, 4)))).T*k
    o[:2, ::3] += 1 if k > 1 else 0
    return build.cross(o, N.hstack((N.eye(3, dtype=int), -N.eye(3, dtype=int))))


def reported(surf, o, d):
    t = N.array(surf.register_incoming(build.bundle(o, d)), dtype=float)
    return t


def norm(t):
    """What the engine makes of a parameter: too close or too far is no hit."""
    return N.where((t <= ref.START) | (t > ref.HORIZON), N.inf, t)


def compare(R, shape, T, o0, d0, t, r, u, what):
    R.check(t.shape == (o0.shape[1],), what + ': wrong shape', got=t.shape)
    R.check(not N.isnan(t).any() and (t >= -1e-15).all(), what + ': NaN or negative parameter',
            at=N.nonzero(N.isnan(t) | (t < -1e-15))[0][:3])
    t = norm(t)
    ok = u | (N.isinf(t) & N.isinf(r)) | (N.isfinite(r) & (N.abs(t - r) <= ref.t_tol(shape, o0, d0) + 1e-10*N.abs(r)))
    if not ok.all():
        i = N.nonzero(~ok)[0][0]
        R.fail(what, start=o0[:, i], direction=d0[:, i], got=t[i], want=r[i],
               bad=int((~ok).sum()), shape=build.name(shape), pose=T)
    R.step((~u).sum())
    R.skip(u.sum())


def run(args, R):
    scale, i, tier = args
    if i is None:
        return run_resized(scale, tier, R)
    level = 1 if tier == 'quick' else 2
    shape = build.shapes(scale)[i]
    L = ref.size(shape)
    d_all = build.directions(level)
    slow = shape[0] == 'cut' and shape[2] is not None
    o0, d0 = build.all_rays(shape, level, slow)
    # Rays that start on the surface: go on from hits, in lattice directions.
    r0, u0 = ref.nearest(shape, o0, d0)
    h = N.nonzero(~u0 & N.isfinite(r0) & (r0 < 20*L))[0]
    h = h[::max(1, len(h)//40)]
    on = o0[:, h] + d0[:, h]*r0[h]
    oo, od = build.cross(on, d_all[:, ::2])
    ou = N.abs((ref.normal(shape, oo)*od).sum(axis=0)) < 1e-3   # leaving tangentially: undecided
    for pname in sorted(build.POSES):
        T = build.POSES[pname].copy()
        T[:3, 3] *= scale if scale < 1 else 1.
        surf = build.surface(shape, T)
        o, d = ref.pts(T, o0), ref.vecs(T, d0)
        r, u = r0, u0
        what = 'pose %s' % pname
        t = reported(surf, o, d)
        compare(R, shape, T, o0, d0, t, r, u, what + ', full bundle')
        R.trace()
        R.state(o.shape[1])
        fin = ~u & N.isfinite(r)
        R.outcome('hit', fin.sum())
        R.outcome('miss', (~u & N.isinf(r)).sum())

        # starting on the surface
        po, pd = ref.pts(T, oo), ref.vecs(T, od)
        rr, ru = ref.nearest(shape, oo, od)
        t = reported(surf, po, pd)
        compare(R, shape, T, oo, od, t, rr, ru | ou, what + ', starting on the surface')
        R.trace()
        R.state(oo.shape[1])
        R.outcome('from surface: other side', (~(ru | ou) & N.isfinite(rr)).sum())

        # whole-number starts and directions, as arrays of integers
        if scale >= 1:
            io, idr = whole(scale)
            Ti = N.linalg.inv(T)
            lo, ld = ref.pts(Ti, io.astype(float)), ref.vecs(Ti, idr.astype(float))
            ir, iu = ref.nearest(shape, lo, ld)
            for sel in (slice(None), slice(0, 1), slice(5, 9)):
                t = reported(surf, io[:, sel], idr[:, sel])
                compare(R, shape, T, lo[:, sel], ld[:, sel], t, ir[sel], iu[sel], what + ', whole numbers')
                R.trace()
            h = N.nonzero(~iu & N.isfinite(ir))[0]
            if len(h):
                reported(surf, io[:, h], idr[:, h])
                surf.select_rays(N.arange(len(h)))
                p = N.array(surf.get_geometry_manager().get_intersection_points_global())
                R.close(p, io[:, h] + idr[:, h]*ir[h], 'whole numbers: hit points', 1e-6*max(1., L))
            R.state(io.shape[1])
            R.outcome('whole numbers', io.shape[1])

        # other bundle compositions of the same rays
        hits = N.nonzero(fin)[0]
        miss = N.nonzero(~u & N.isinf(r))[0]
        last = N.nonzero(fin & (r > 3*L))[0]
        rev = N.arange(o.shape[1])[::-1]
        comps = [('reversed', rev[:1500] if slow else rev), ('hits only', hits[:600]), ('misses only', miss[:600])]
        pick = list(hits[:4]) + list(miss[:3]) + list(last[:2])
        comps += [('single', N.array([k])) for k in pick]
        comps += [('pair', N.array(p)) for p in itertools.permutations(pick[:6], 2)]
        if hits.size and miss.size:
            comps.append(('hit in the middle', N.r_[miss[:3], hits[:1], miss[3:6]]))
            comps.append(('miss in the middle', N.r_[hits[:3], miss[:1], hits[3:6]]))
            comps.append(('repeated', N.r_[hits[:2], miss[:2], hits[:2], hits[:2]]))
        for label, sel in comps:
            if not len(sel):
                continue
            t = reported(surf, o[:, sel], d[:, sel])
            compare(R, shape, T, o0[:, sel], d0[:, sel], t, r[sel], u[sel], what + ', ' + label)
            R.trace()
            R.outcome('composition ' + label)
        surf.done()
    R.sample(shape=build.name(shape), rays=o0.shape[1], hits=int(fin.sum()), undecided=int(u0.sum()))
