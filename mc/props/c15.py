"""C15: light sources and diffuse reflection keep their support and distribution."""
import itertools
import math

import numpy as N

from mc import build, ref, zoo, scene as sc
from mc.rng import CONTROL
from tracer import sources

RULE = """All uniform draws come from the checker. Solar disk: directions x
centres x radii x angular ranges x fluxes, with (a) the full product grid of
midpoints of m intervals for each of the four draws, which must come out as the
full product grid of (area fraction, polar angle, projected solid angle
fraction, azimuth), also drawn 1, 2 or 3 rays at a time, and (b) all combinations of the extreme draws
{0, 1e-17, .25, .5, .75, 1-2^-53}, which must stay in the support; ray counts
1..9. Square source: all ray counts 1..64 and some larger x directions x
centres x widths. Diffuse reflectors (plain and receiver): every shape x pose x
side x incidence, product grid of draws and extreme draws, mixed bundles with
all rays drawing alike, and traces of several bounces in diffuse scenes.
state = one ray drawn; transition = one ray compared."""
ASSUME = ["A uniform draw is a number in [0, 1).",
          "Rounding: 1e-9 of the size of the source; 1e-6 for the position in the grid of draws."]

DIRS = ref.unit(N.array([v for v in itertools.product((-1, 0, 1), repeat=3) if any(v)] +
                        [(0.31, -0.17, -0.93), (-0.62, 0.23, 0.55), (0.01, 0.002, -1.), (1e-9, 0, 1.), (0, -1e-7, -1.), (0.2, 0.9, 1e-8)], dtype=float).T).T
CENTRES = ((0., 0, 0), (3., -2., 7.), (1e4, 2e3, -5e3))
RANGES = (0., 1e-4, 4.65e-3, 0.3, 1.2, math.pi/2)
EXTREME = (0., 1e-17, 0.25, 0.5, 0.75, 1 - 2.**-53)


def product_source(m, k=4):
    """Row j of draws is the j-th coordinate of the product grid."""
    g = (N.array(list(itertools.product(range(m), repeat=k))).T + 0.5)/m
    return g, m**k


def extreme_source(k=4):
    g = N.array(list(itertools.product(EXTREME, repeat=k))).T
    return g, g.shape[1]


def feed(g):
    def source(row, n):
        if n != g.shape[1]:
            return N.resize(g[row % len(g)], n)
        return g[row % len(g)]
    CONTROL.reset(source, g.shape[1])


def frame(d):
    """X horizontal, Z along d; (any X if d is vertical)."""
    d = N.asarray(d, dtype=float)
    h = N.array([d[1], -d[0], 0.])
    h = h/math.sqrt((h**2).sum()) if (h**2).sum() > 0 else N.array([1., 0, 0])
    return h, N.cross(d, h)


def product_cells(R, m, cols, what):
    """cols: (name, values in [0,1], periodic). Together they must take every
    combination of the m values exactly once."""
    cells = []
    for nm, v, periodic in cols:
        x = v*m
        if periodic:
            # an offset common to all rays does not matter
            ph = N.exp(2j*N.pi*x)
            off = N.angle(ph[0])/(2*N.pi)
            x = x - off
            i = N.rint(x)
        else:
            x = x - 0.5
            i = N.rint(x)
            R.check(((i >= 0) & (i < m)).all(), '%s: %s out of its range' % (what, nm), got=v[(i < 0) | (i >= m)][:4])
        bad = ~(N.abs(x - i) < 1e-5)
        R.check(not bad.any(), '%s: equal steps in the random numbers do not give equal steps of the %s' % (what, nm),
                got=N.unique(N.round(v, 7))[:20], steps=m)
        cells.append(i.astype(int) % m)
    code = sum(c*m**j for j, c in enumerate(cells))
    cnt = N.bincount(code, minlength=m**len(cols))
    R.check((cnt == len(code)//m**len(cols)).all(), what + ': ' + ', '.join(c[0] for c in cols) + ' do not come in all combinations equally often',
            missing=int((cnt == 0).sum()), most=int(cnt.max()), of=m**len(cols))
    R.step(len(code))
    R.state(len(code))


def in_disk(R, b, n, c, d, rad, ang, flux, what):
    v, dd = N.array(b.get_vertices(), dtype=float), N.array(b.get_directions(), dtype=float)
    R.check(v.shape == (3, n) and dd.shape == (3, n), what + ': number of rays', vertices=v.shape, directions=dd.shape, want=n)
    rel = v - N.array(c)[:, None]
    size = rad + N.abs(c).max()*1e-3
    R.check((N.abs((rel*d[:, None]).sum(axis=0)) <= 1e-9*size).all(), what + ': a ray does not start on the plane of the disk')
    r = N.sqrt((rel**2).sum(axis=0))
    R.check((r <= rad + 1e-9*size).all(), what + ': a ray starts outside of the disk', got=r.max(), radius=rad)
    R.close((dd**2).sum(axis=0), N.ones(n), what + ': direction not of unit length', 1e-9)
    sa = N.sqrt((N.cross(dd.T, d)**2).sum(axis=1))
    R.check(((dd*d[:, None]).sum(axis=0) >= -1e-9).all() and (sa <= math.sin(ang) + 1e-9).all(),
            what + ': a ray deviates by more than the given angle', got=math.asin(min(1., sa.max())), range=ang)
    if flux is not None:
        en = N.array(b.get_energy(), dtype=float)
        R.close(en, N.full(n, flux*math.pi*rad**2/n), what + ': share of the energy', 1e-10)
    return rel, dd, r, sa


def disk(R, di, tier):
    d = DIRS[di]
    h, g = frame(d)
    m = 5 if tier == 'quick' else 8
    for c, rad, ang in itertools.product(CENTRES, (0.03, 1., 40.), RANGES):
        if tier == 'quick' and c[0] > 100 and rad != 1.:
            continue
        what = 'disk at %s towards %s, radius %g, angle %g' % (c, N.round(d, 4), rad, ang)
        for flux in (None, 0., 850.):
            # extremes of the draws: nothing leaves the support
            u, n = extreme_source()
            if flux == 0.:
                u, n = u[:, ::31], len(u[0, ::31])
            feed(u)
            cc, dc = N.array(c).reshape(3, 1), d.copy()
            b = sources.solar_disk_bundle(n, cc, dc, rad, ang, flux)
            in_disk(R, b, n, c, d, rad, ang, flux, what + ', extreme draws')
            R.check((cc[:, 0] == N.array(c)).all() and (dc == d).all(), what + ': arguments changed')
            R.trace()
            R.state(n)
        feed(product_source(m)[0])
        n = m**4
        b = sources.solar_disk_bundle(n, N.array(c).reshape(3, 1), d.copy(), rad, ang, 3.)
        rel, dd, r, sa = in_disk(R, b, n, c, d, rad, ang, 3., what)
        cols = [('area of the disk', (r/rad)**2, False),
                ('position angle', N.arctan2((rel*g[:, None]).sum(axis=0), (rel*h[:, None]).sum(axis=0))/(2*math.pi), True)]
        if ang > 0:
            cols += [('projected solid angle', (sa/math.sin(ang))**2, False),
                     ('azimuth', N.arctan2((dd*g[:, None]).sum(axis=0), (dd*h[:, None]).sum(axis=0))/(2*math.pi), True)]
        if c[0] < 100:          # (else rounding of the position)
            product_cells(R, m, cols, what)
        R.trace()
    # the same distribution drawn a few rays at a time
    if di % 4 == 0:
        for k in (1, 2, 3):
            m = 4 if k == 2 else 3
            u, n = product_source(m)
            got = []
            for i in range(0, n, k):
                feed(u[:, i:i + k])
                b = sources.solar_disk_bundle(k, N.array([[1.], [2.], [3.]]), d.copy(), 2., 0.3, 3.)
                got.append([N.array(x) for x in in_disk(R, b, k, (1., 2., 3.), d, 2., 0.3, 3., 'disk of %d rays towards %s' % (k, N.round(d, 3)))])
                R.trace()
            rel, dd, r, sa = [N.concatenate(x, axis=-1) for x in zip(*got)]
            product_cells(R, m, [('area of the disk', (r/2.)**2, False),
                                 ('position angle', N.arctan2((rel*g[:, None]).sum(axis=0), (rel*h[:, None]).sum(axis=0))/(2*math.pi), True),
                                 ('projected solid angle', (sa/math.sin(0.3))**2, False),
                                 ('azimuth', N.arctan2((dd*g[:, None]).sum(axis=0), (dd*h[:, None]).sum(axis=0))/(2*math.pi), True)],
                          'disks of %d rays towards %s' % (k, N.round(d, 3)))
    # small numbers of rays, with the plain stream of draws
    for n in range(1, 10):
        for flux in (None, 12.):
            CONTROL.reset()
            b = sources.solar_disk_bundle(n, N.array([[1.], [2.], [3.]]), d.copy(), 2., 0.02, flux)
            in_disk(R, b, n, (1., 2., 3.), d, 2., 0.02, flux, 'disk of %d rays towards %s' % (n, N.round(d, 3)))
            R.trace()
            R.state(n)
    R.outcome('disk sources')


def pillbox(R, tier):
    """The distribution of directions by itself."""
    m = 24 if tier == 'quick' else 60
    for ang in RANGES[1:]:
        for k in (2, 3, 5, m):
            feed(product_source(k, 2)[0])
            a = N.array(sources.pillbox_sunshape_directions(k*k, ang))
            R.check(a.shape == (3, k*k), 'pillbox: shape', got=a.shape)
            R.close((a**2).sum(axis=0), N.ones(k*k), 'pillbox: unit length', 1e-9)
            R.check((a[2] >= 0).all(), 'pillbox: backwards')
            product_cells(R, k, [('projected solid angle', (a[0]**2 + a[1]**2)/math.sin(ang)**2, False),
                                 ('azimuth', N.arctan2(a[1], a[0])/(2*math.pi), True)], 'pillbox of angle %g' % ang)
            R.trace()


def square(R, di, tier):
    d = DIRS[di]
    h, g = frame(d)
    counts = list(range(1, 40)) + [49, 63, 64, 65, 100, 400, 2500]
    for n, c, w in itertools.product(counts, CENTRES, (0.05, 2., 60.)):
        if n > 65 and w != 2.:
            continue
        what = 'square of %d rays at %s towards %s, width %g' % (n, c, N.round(d, 4), w)
        cc, dc = N.array(c).reshape(3, 1), d.copy()
        b = sources.square_bundle(n, cc, dc, w)
        R.check((cc[:, 0] == N.array(c)).all() and (dc == d).all(), what + ': arguments changed')
        k = int(math.ceil(math.sqrt(n) - 1e-12))
        v, dd = N.array(b.get_vertices(), dtype=float), N.array(b.get_directions(), dtype=float)
        R.check(v.shape == (3, k*k), what + ': number of rays', got=v.shape, want=k*k)
        R.check(b.get_num_rays() == k*k, what + ': number of rays', got=b.get_num_rays(), want=k*k)
        R.check(dd.shape == (3, k*k) and (N.abs(dd - d[:, None]) <= 1e-12).all(), what + ': a ray does not go along the direction', got=dd.shape)
        rel = v - N.array(c)[:, None]
        tol = 1e-9*(w + N.abs(c).max()*1e-2) + 1e-11*(abs(c[0]) > 100)*1e2
        R.check((N.abs((rel*d[:, None]).sum(axis=0)) <= tol).all(), what + ': a ray does not start on the plane of the square')
        x, y = (rel*h[:, None]).sum(axis=0), (rel*g[:, None]).sum(axis=0)
        R.check((N.abs(x) <= w + tol).all() and (N.abs(y) <= w + tol).all(), what + ': a ray starts outside of the square', got=[N.abs(x).max(), N.abs(y).max()])
        step = 2*w/math.sqrt(n)
        # each coordinate takes k evenly spaced values, all combinations once
        idx = []
        for nm, q in (('x', x), ('y', y)):
            i = N.rint((q - q.min())/step)
            R.check((N.abs(q - q.min() - i*step) <= 4*tol).all(), what + ': not evenly spaced', axis=nm, got=N.unique(N.round(q, 6))[:8], step=step)
            R.check(q.min() <= -w + step + 4*tol and q.max() >= w - step - 4*tol, what + ': does not span the square', axis=nm, got=[q.min(), q.max()], width=w)
            R.check((i < k).all(), what + ': not evenly spaced', axis=nm)
            idx.append(i.astype(int))
        R.check(len(set(zip(*[list(i) for i in idx]))) == k*k, what + ': rays coincide')
        R.state(k*k)
        R.step(k*k)
        R.trace()
    R.outcome('square sources')


def hitting(shape):
    """Some rays that surely meet the shape (local frame), from both sides."""
    L = ref.size(shape)
    o, d = build.cross(L*zoo.grid3((-1.7, 0.21, 0.4), (-0.13, 0.33, 1.9), (1.6, 0.31, -1.3)), build.directions(1)[:, ::3])
    t, u = ref.nearest(shape, o, d)
    ok = N.isfinite(t) & ~u
    p = o + d*N.where(ok, t, 0.)
    nrm, cosi = ref.facing_normal(shape, N.eye(4), p, d)
    ok &= cosi > 0.02
    # no ray may have the hit of another one
    i = N.nonzero(ok)[0]
    return o[:, i], d[:, i]


def out_of(shape, T, optics, o, d, e=None):
    """What the optics make of the rays: outgoing bundle and facing normals by parent."""
    s = build.surface(shape, T, optics)
    obj = build.AssembledObject(surfs=[s])
    asm = build.Assembly(objects=[obj])
    b = build.bundle(ref.pts(T, o), ref.vecs(T, d), energy=e)
    eng = build.TracerEngine(asm)
    eng.ray_tracer(b, 1, 0.)
    return eng.tree, b


def diffuse(R, si, tier):
    shape = build.shapes()[si]
    m = 6
    for pn in (('skew', 'flip') if tier == 'quick' else sorted(build.POSES)):
        T = build.POSES[pn]
        o, d = hitting(shape)
        sel = range(0, o.shape[1], max(1, o.shape[1]//(12 if tier == 'quick' else 40)))
        for mk, a in itertools.product((build.opt.LambertianReflector, build.opt.LambertianReceiver), (0., 0.3)):
            what = 'diffuse %s in pose %s absorbing %g' % (build.name(shape), pn, a)
            for i in sel:
                # one ray many times, all combinations of draws
                g, n = product_source(m, 2)
                feed(g)
                tree, b = out_of(shape, T, mk(a), N.repeat(o[:, i:i+1], n, 1), N.repeat(d[:, i:i+1], n, 1))
                R.check(tree.num_bunds() == 2 and tree[1].get_num_rays() == n, what + ': rays lost', got=tree[tree.num_bunds() - 1].get_num_rays(), want=n)
                t = ref.nearest(shape, o[:, i:i+1], d[:, i:i+1])[0]
                p = ref.pts(T, o[:, i:i+1] + t*d[:, i:i+1])
                nrm = ref.facing_normal(shape, T, p, ref.vecs(T, d[:, i:i+1]))[0][:, 0]
                dd = N.array(tree[1].get_directions())
                c = (dd*nrm[:, None]).sum(axis=0)
                R.check((c > 0).all(), what + ': light goes to the other side', got=c.min())
                h, q = frame(nrm)
                R.close((dd**2).sum(axis=0), N.ones(n), what + ': unit length', 1e-9)
                product_cells(R, m, [('projected solid angle', 1 - c**2, False),
                                     ('azimuth', N.arctan2((dd*q[:, None]).sum(axis=0), (dd*h[:, None]).sum(axis=0))/(2*math.pi), True)], what)
                R.trace()
            # many rays at once, all drawing alike: the same angle to its own normal for each
            for u1, u2 in itertools.product(EXTREME, repeat=2):
                n = o.shape[1]
                def source(row, k, u=(u1, u2)):
                    return N.full(k, u[row % 2])
                CONTROL.reset(source, n)
                tree, b = out_of(shape, T, mk(a), o, d)
                pr = N.array(tree[1].get_parents()).astype(int)
                R.check(len(pr) == n, what + ': rays lost', got=len(pr), want=n)
                W = ref.vecs(T, d)[:, pr]
                p = N.array(tree[1].get_vertices())
                nrm = ref.facing_normal(shape, T, p, W)[0]
                dd = N.array(tree[1].get_directions())
                c = (dd*nrm).sum(axis=0)
                R.check((c > -1e-7).all(), what + ': light goes to the other side', got=c.min(), draws=(u1, u2))
                R.close(c, N.full(n, c[0]), what + ': rays with the same draws leave at different angles to their normals', 1e-7)
                R.close((dd**2).sum(axis=0), N.ones(n), what + ': unit length', 1e-9)
                R.state(n)
                R.step(n)
                R.trace()
    R.outcome('diffuse reflectors')


def bounces(R, x, tier):
    """Several bounces between diffuse surfaces."""
    M = sorted(build.POSES)[x]
    for a, seq in itertools.product((0., 0.2), range(4)):
        walls = []
        for k, P in enumerate((ref.pose(), ref.pose((1, 0, 0), math.pi), ref.pose((1, 0, 0), math.pi/2), ref.pose((1, 0, 0), -math.pi/2))):
            walls.append(sc.obj((('rect', 4., 4.), N.dot(P, ref.pose(trans=(0, 0, -2.))), (('lamb', 'lrec', 'lamb', 'refl')[(k + seq) % 4], a))))
        walls += [sc.obj((('sph', 0.4), ref.pose(trans=(0.2, 1.2, 0.)), ('lamb', a)), (('dish', 1., 0.7), ref.pose((0, 1, 0), 0.5, (0, 0, -0.9)), ('lrec', a)))]
        s = sc.Scene(sc.asm(*walls, T=build.POSES[M]))
        o, d, n = zoo.src(3)
        CONTROL.reset(lambda row, k: (0.137*(row + 1 + seq) + (N.arange(k) + 0.5)*0.618034) % 1.)
        b = build.bundle(ref.pts(build.POSES[M], o), ref.vecs(build.POSES[M], d))
        what = 'diffuse room %d in pose %s' % (seq, M)
        e, _ = sc.lockstep(R, s, b, 4, 1e-3, what, 4., ('count', 'place', 'energy'))
        for lvl in range(e.tree.num_bunds() - 1):
            bb = e.tree[lvl]
            st = sc.Step(s.surfs, bb, N.ones(bb.get_num_rays(), dtype=bool))
            pr = N.array(e.tree[lvl + 1].get_parents()).astype(int)
            c = (N.array(e.tree[lvl + 1].get_directions())*st.nrm[:, pr]).sum(axis=0)[~st.und[pr]]
            R.check((c > -1e-7).all(), what + ': light goes to the other side', got=c.min() if len(c) else 0)
    R.outcome('diffuse scenes')


def cases(tier):
    out = [('disk %d towards %s' % (i, list(N.round(DIRS[i], 4))), ('disk', i, tier)) for i in range(len(DIRS))]
    out += [('square %d towards %s' % (i, list(N.round(DIRS[i], 4))), ('square', i, tier)) for i in range(len(DIRS))]
    out += [('pillbox', ('pillbox', 0, tier))]
    out += [('diffuse %d %s' % (i, build.name(s)), ('diffuse', i, tier)) for i, s in enumerate(build.shapes())]
    out += [('diffuse room in pose %s' % sorted(build.POSES)[i], ('bounces', i, tier)) for i in range(len(build.POSES))]
    return out


def run(args, R):
    kind, x, tier = args
    try:
        if kind == 'disk':
            disk(R, x, tier)
        elif kind == 'square':
            square(R, x, tier)
        elif kind == 'pillbox':
            pillbox(R, tier)
        elif kind == 'diffuse':
            diffuse(R, x, tier)
        else:
            bounces(R, x, tier)
    finally:
        CONTROL.reset()
