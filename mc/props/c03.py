"""C03: hit points and normals of every selection of rays."""
import itertools

import numpy as N

from mc import build, ref
from mc.props.c02 import whole

RULE = """Every shape x scale x pose x (ray grid, edge and grazing rays): all
decided hits selected at once, reversed and interleaved; then every ordered
selection of up to 3 of 5 mixed hits (both sides, near and far) and every subset
of 6, out of bundles that also hold misses. state = one (shape, scale, pose, ray);
transition = one hit point and normal compared."""
ASSUME = ["""Only rays the reference decides (see C02) are selected; normals of
rays within 1e-6 of tangential may face either way."""]


def cases(tier):
    out = []
    for sc in ((1., 0.05, 30.) if tier == 'quick' else (1., 0.01, 0.1, 3., 50.)):
        for i, s in enumerate(build.shapes(sc)):
            out.append(('%s@%g' % (build.name(s), sc) + '#%d' % i, (sc, i, tier)))
    return out


def verify(R, surf, shape, T, o, d, t, sel, what):
    """Select, then compare what the geometry and the surface report."""
    g = surf.get_geometry_manager()
    surf.select_rays(sel)
    n = len(sel)
    p = N.array(g.get_intersection_points_global())
    nrm = N.array(g.get_normals())
    L = ref.size(shape)
    R.check(p.shape == (3, n) and nrm.shape == (3, n), what + ': wrong shape of answer',
            points=p.shape, normals=nrm.shape, n=n)
    want = o[:, sel] + d[:, sel]*t[sel]
    tol = 1e-7*(L + 1e-2*N.abs(want).max()) + 3*ref.t_tol(shape, ref.pts(ref.inv(T), o[:, sel]), ref.vecs(ref.inv(T), d[:, sel]))
    err = N.sqrt(((p - want)**2).sum(axis=0))
    i = N.argmax(err - tol) if n else 0
    R.check((err <= tol).all(), what + ': hit point is not that of its ray', ray=i, got=p[:, i] if n else None,
            want=want[:, i] if n else None, shape=build.name(shape), pose=T)
    res = N.abs(ref.residual(shape, ref.pts(ref.inv(T), p)))
    R.check((res <= tol).all(), what + ': hit point off the surface', res=res.max() if n else 0)
    ln = N.sqrt((nrm**2).sum(axis=0))
    R.close(ln, N.ones(n), what + ': normal not of unit length', 1e-9)
    rn, inc = ref.facing_normal(shape, T, want, d[:, sel])
    ntol = 1e-6 + 10*tol/L
    diff = N.sqrt(((nrm - rn)**2).sum(axis=0))
    diff = N.where(inc < 1e-6, N.minimum(diff, N.sqrt(((nrm + rn)**2).sum(axis=0))), diff)
    j = N.argmax(diff - ntol) if n else 0
    R.check((diff <= ntol).all(), what + ': wrong normal', ray=j, got=nrm[:, j] if n else None,
            want=rn[:, j] if n else None, direction=d[:, sel][:, j] if n else None,
            shape=build.name(shape), pose=T)
    # asking again gives the same answer
    R.close(g.get_normals(), nrm, what + ': normals change when asked again', 1e-12)
    out = surf.get_outgoing()
    R.close(out.get_vertices(), p, what + ': outgoing rays do not start at the hits', 1e-9)
    R.check(N.array_equal(out.get_parents(), sel), what + ': outgoing rays have wrong parents',
            got=out.get_parents()[:8], want=sel[:8])
    R.check(N.array_equal(out.get_energy(), 1. + sel), what + ': outgoing rays of other energies')
    R.step(n)


def run(args, R):
    scale, i, tier = args
    level = 1 if tier == 'quick' else 2
    shape = build.shapes(scale)[i]
    slow = shape[0] == 'cut' and shape[2] is not None
    o0, d0 = build.all_rays(shape, level, slow)
    r0, u0 = ref.nearest(shape, o0, d0)
    L = ref.size(shape)
    hits = N.nonzero(~u0 & N.isfinite(r0) & (r0 < 1000*L))[0]
    miss = N.nonzero(~u0 & N.isinf(r0))[0][:40]
    grad = (ref.normal(shape, o0[:, hits] + d0[:, hits]*r0[hits])*d0[:, hits]).sum(axis=0)
    front, back = hits[grad < -0.05], hits[grad > 0.05]
    # both sides, near and far
    mix = [a[int(k*(len(a) - 1))] for k in (0., 0.5, 1.) for a in (front, back) if len(a)]
    mix = [int(x) for x in dict.fromkeys(mix)][:6]
    small = N.array(mix[:3] + [int(m) for m in miss[:2]] + mix[3:] + [int(m) for m in miss[2:3]])
    pos = [int(N.nonzero(small == m)[0][0]) for m in mix]     # the hits in the small bundle
    poses = sorted(build.POSES)
    if tier == 'quick' and scale != 1:
        poses = ['far', 'flip', 'skew', 'y-90']
    for pname in poses:
        T = build.POSES[pname].copy()
        T[:3, 3] *= scale if scale < 1 else 1.
        surf = build.surface(shape, T)
        full = N.r_[hits, miss] if slow else N.arange(o0.shape[1])
        where = N.nonzero(N.isin(full, hits))[0]
        o, d, t = ref.pts(T, o0[:, full]), ref.vecs(T, d0[:, full]), r0[full]
        b = build.bundle(o, d, energy=1. + N.arange(len(full)))
        k = len(where)
        for label, sel in (('all hits', where), ('reversed', where[::-1]),
                           ('interleaved', N.r_[where[1::2], where[::2]]),
                           ('tail', where[k//2:])):
            surf.register_incoming(b)
            verify(R, surf, shape, T, o, d, t, sel.copy(), 'pose %s, %s' % (pname, label))
            surf.done()
            R.trace()
        R.state(k)
        R.outcome('front', len(front))
        R.outcome('back', len(back))
        if scale >= 1:
            # rays given as arrays of whole numbers
            io, idr = whole(scale)
            Ti = ref.inv(T)
            ir, iu = ref.nearest(shape, ref.pts(Ti, io.astype(float)), ref.vecs(Ti, idr.astype(float)))
            sel = N.nonzero(~iu & N.isfinite(ir))[0]
            for s in (sel, sel[::-3], sel[:1]):
                if len(s):
                    surf.register_incoming(build.bundle(io, idr, energy=1. + N.arange(io.shape[1])))
                    verify(R, surf, shape, T, io.astype(float), idr.astype(float), ir, s.copy(), 'pose %s, whole numbers' % pname)
                    surf.done()
                    R.trace()
            R.outcome('whole numbers', len(sel))
        o, d, t = ref.pts(T, o0[:, small]), ref.vecs(T, d0[:, small]), r0[small]
        b = build.bundle(o, d, energy=1. + N.arange(len(small)))
        sels = [p for q in range(1, min(3, len(pos)) + 1) for p in itertools.permutations(pos[:5], q)]
        sels += [p for q in range(4, len(pos) + 1) for p in itertools.combinations(pos, q)]
        if pname not in ('skew', 'flip', 'id') and tier == 'quick':
            sels = sels[::7]
        for sel in sels:
            surf.register_incoming(b)
            verify(R, surf, shape, T, o, d, t, N.array(sel), 'pose %s, selection %s' % (pname, list(sel)))
            surf.done()
            R.trace()
            R.state()
    R.sample(shape=build.name(shape), hits=len(hits), selections=len(sels), small_bundle=small)
