"""C18: a spherical lens is a closed body with the stated optics."""
import itertools
import math

import numpy as N

from mc import build, ref, zoo, scene as sc
from mc.build import Assembly, TracerEngine
from tracer.models.spherical_lens import SphericalLens

RULE = """All lenses from an alphabet of diameters, depths, pairs of radii
(positive, negative, planar given as 0, None, inf or -inf; down to half spheres and up to 3000 diameters; thin rims)
and indices that make a solid lens with power, x poses x ways of placing them.
The vertices are measured with axial rays; a grid of rays from all around and
from inside the body is traced over several bounces in lockstep with the
reference tracer over the stated body (spheres cut at the diameter, closing
cylinder); and near-axis rays from both sides measure the effective focal length
and the focal point. state = one ray at one level; transition = one step."""
ASSUME = ["Lenses without power (plane-parallel, concentric) have no focal length and are left out, as are bodies whose faces cross inside the diameter.",
          "Rays within 1e-7 of an edge of the lens are undecided.",
          "Near-axis rays: at 1e-4 of the smaller radius or diameter; power compared to 1e-5 of the sum of the faces' curvatures."]

DIAMS = (1., 0.6)
DEPTHS = (0.1, 0.35, 1.2)
RADII = (0.5, 0.8, -0.8, 1.7, -1.7, 10., -10., -0.5, 0.56)
PLANAR = (0, None, N.inf, -N.inf)
INDICES = (1.5, 1.9, 1.2)


def sag(R, r):
    """How far the face at distance r from the axis is below its vertex."""
    if R == N.inf:
        return 0.
    s = math.sqrt(max(R*R - r*r, 0.))
    return R - s if R > 0 else R + s


def solid(D, t, r1, r2):
    for R in (r1, r2):
        if R != N.inf and abs(R) < D/2.:
            return False
    return t - sag(r1, D/2.) + sag(r2, D/2.) > 0.01


def flat(R):
    return N.inf if R in (0, None, N.inf, -N.inf) else R


def power(r1, r2, t, n):
    return (n - 1)*(1./r1 - 1./r2 + t*(n - 1)/r1/r2/n)


def lenses(tier):
    out = []
    for D, t in itertools.product(DIAMS, DEPTHS):
        k = 0
        for r1, r2 in itertools.product(RADII + ('planar',), repeat=2):
            n = None
            a, b = [N.inf if r == 'planar' else r for r in (r1, r2)]
            if not solid(D, t, a, b):
                continue
            if D/2. in (-a, b):     # a hollow half sphere has a knife edge
                continue
            for n in INDICES if tier != 'quick' else (INDICES[k % 3],):
                if abs(power(a, b, t, n)) < 0.02:
                    continue
                p = [PLANAR[(k + j) % 4] if r == 'planar' else r for j, r in enumerate((r1, r2))]
                out.append((D, t, p[0], p[1], n))
            k += 1
    # one face almost plane
    for j, (D, t, r1, r2) in enumerate(((1., 0.35, 0.8, 2000.), (1., 0.1, 2500., -1.7), (0.6, 0.1, -1800., 1.7), (0.6, 0.35, 0.8, -3000.), (1., 0.3, 0.9, 100.), (1., 0.3, -100., -1.2))):
        out.append((D, t, r1, r2, INDICES[j % 3]))
    # faces that almost meet at the diameter: a very thin rim
    for j, (rim, D, r1, r2) in enumerate(itertools.product((2e-3, 0.013), (0.9,), (0.7, 1.4, -2.5), (-0.8, -3., 1.9, 'planar'))):
        a, b = [N.inf if r == 'planar' else r for r in (r1, r2)]
        t = rim + sag(a, D/2.) - sag(b, D/2.)
        n = INDICES[j % 3]
        # (the faces must not cross nearer to the axis)
        if min(t - sag(a, x) + sag(b, x) for x in (0., 0.1*D, 0.2*D, 0.3*D, 0.4*D, 0.45*D)) >= rim and abs(power(a, b, t, n)) >= 0.02:
            out.append((D, t, r1, 0 if r2 == 'planar' else r2, n))
    return out


def place(args, T, way):
    if way == 'own':
        l = SphericalLens(*args, transform=T.copy())
        return Assembly(objects=[l]), l
    l = SphericalLens(*args)
    if way == 'object':
        a = Assembly()
        a.add_object(l, T.copy())
        return a, l
    a = Assembly(objects=[l])
    a.set_transform(T.copy())
    return a, l


WAYS = ('own', 'object', 'assembly')


def surfs(args, T, zf, zb):
    D, t, r1, r2, n = args
    out = []
    edge = []
    for R, z in ((flat(r1), zf), (flat(r2), zb)):
        edge.append(z - sag(R, D/2.))
        if R == N.inf:
            out.append((('round', D/2.), N.dot(T, ref.pose(trans=(0, 0, z))), ('refr', 1., n), None))
        else:
            h = math.sqrt(R*R - D*D/4.)
            cut = ref.pose(trans=(0, 0, h)) if R > 0 else ref.pose((1, 0, 0), math.pi, (0, 0, -h))
            out.append((('cut', abs(R), ('plane', cut)), N.dot(T, ref.pose(trans=(0, 0, z - R))), ('refr', 1., n), None))
    out.append((('fcyl', D, edge[0] - edge[1]), N.dot(T, ref.pose(trans=(0, 0, sum(edge)/2.))), ('refr', n, 1.), None))
    return out


class View(object):
    pass


def first(asm, T, o, d, n):
    b = build.bundle(ref.pts(T, o), ref.vecs(T, d), ref_index=N.full(o.shape[1], float(n)))
    e = TracerEngine(asm)
    e.ray_tracer(b, 1, 0.)
    return e


def vertices(R, asm, T, args, what):
    """Where the axis meets the front and the back face (lens frame)."""
    L = 1e3
    o, d = N.array([[0, 0, L], [0, 0, -L]]).T, N.array([[0, 0, -1.], [0, 0, 1.]]).T
    e = first(asm, T, o, d, 1.)
    R.check(e.tree.num_bunds() == 2, what + ': light on the axis does not meet the lens')
    p = ref.pts(ref.inv(T), N.array(e.tree[1].get_vertices()))
    par = N.array(e.tree[1].get_parents()).astype(int)
    R.check(set(par) == {0, 1}, what + ': light on the axis does not meet the lens', got=par)
    return p[2, par == 0][0], p[2, par == 1][0]


def through(R, asm, T, n, sign, h, what):
    """A ray parallel to the axis at height h that crosses both faces: the
    place and direction at which it leaves (lens frame)."""
    az = 0.7
    u = N.array([math.cos(az), math.sin(az), 0])
    o = (h*u + N.array([0, 0, sign*50.]))[:, None]
    d = N.array([[0], [0], [-float(sign)]])
    b = build.bundle(ref.pts(T, o), ref.vecs(T, d))
    e = TracerEngine(asm)
    e.ray_tracer(b, 2, 0.)
    R.check(e.tree.num_bunds() == 3, what + ': light does not cross the lens')
    t1, t2 = e.tree[1], e.tree[2]
    n1, n2 = N.array(t1.get_ref_index()), N.array(t2.get_ref_index())
    q = N.nonzero((n2 == 1.) & (n1[N.array(t2.get_parents()).astype(int)] == n))[0]
    R.check(len(q) == 1, what + ': light does not cross the lens', got=n2, before=n1)
    I = ref.inv(T)
    p = ref.pts(I, N.array(t2.get_vertices())[:, q])[:, 0]
    d = ref.vecs(I, N.array(t2.get_directions())[:, q])[:, 0]
    R.trace()
    return p, d, u


def optics(R, asm, lens, args, T, zf, zb, what):
    D, t, r1, r2, n = args
    a, b = flat(r1), flat(r2)
    f = lens.focal_length()
    want = power(a, b, t, n)
    curv = abs(1./a) + abs(1./b)
    R.check(abs(1./f - want) <= 1e-9*curv, what + ': reported focal length', got=f, want=1./want)
    h = 1e-4*min(D, abs(a), abs(b))
    for sign in (1, -1):
        p, d, u = through(R, asm, T, n, sign, h, what)
        slope = (d*u).sum()/abs(d[2])
        got = -slope/h
        # (the thickness of a plano lens does not matter for its power)
        R.check(abs(got - 1./f) <= 1e-5*curv, what + ': light near the axis is not focused with the reported focal length',
                side=sign, got=1./got if got else 'inf', reported=f)
        R.step()
        if sign == 1 and abs(want) > 1e-3:
            # (slope per unit of |dz|; the ray goes down)
            z = p[2] + (p*u).sum()/slope if slope else N.inf
            tol = 1e-4*(abs(f) + t)*(1 + abs(f)*curv)
            pd = f*t*(n - 1)/n/a
            wrong = -f + 2*pd if b != N.inf else -(f - (t + pd)/n)
            if abs(z + f) <= tol:
                R.outcome('focal point at -f')
            elif abs(z - wrong) <= tol:
                R.finding('focus-offset', what + ': the second focal point is at z=%g, documented at -f=%g' % (z, -f))
                R.outcome('focal point off (known)')
            else:
                R.fail(what + ': second focal point', got=z, want=-f, known_deviation=wrong)
    R.state(2)


def lens(R, args, pn, way, tier, deep):
    D, t, r1, r2, n = args
    T = build.POSES[pn]
    asm, l = place(args, T, way)
    what = 'lens D=%g depth=%g R1=%s R2=%s n=%g in pose %s (%s)' % (D, t, r1, r2, n, pn, way)
    zf, zb = vertices(R, asm, T, args, what)
    a, b = flat(r1), flat(r2)
    pd = t*(n - 1)/n/a/power(a, b, t, n)
    if abs(zf - zb - t) > 1e-7:
        if b == N.inf and abs(zf - zb - t - pd) <= 1e-7:
            R.finding('planar-back-depth', what + ': the axial depth is %g' % (zf - zb))
            R.outcome('too deep (known)')
        else:
            R.fail(what + ': axial depth', got=zf - zb, want=t)
    # (where along its axis the lens sits is documented by its focal point, below)
    optics(R, asm, l, args, T, zf, zb, what)
    R.outcome('lenses')
    if not deep:
        return
    v = View()
    v.asm, v.surfs = asm, surfs(args, T, zf, zb)
    # from all around
    g = zoo.grid3((-0.67, 0.13, 0.44), (-0.31, 0.22, 0.73), (-1.1, 0.17, 1.3))*D
    g[2] += (zf + zb)/2.
    o, d = build.cross(g, build.directions(1)[:, ::2 if tier == 'quick' else 1])
    mid = N.array([[0.03*D], [-0.05*D], [(zf + zb)/2.]])
    aim = ref.unit(mid + N.tile(N.array([[0.2, -0.3, 0.1], [0.1, 0.3, -0.2], [0.05, -0.02, 0.03]]), (1, g.shape[1]//3))[:, :g.shape[1]]*D - g)
    o, d = N.hstack((o, g)), N.hstack((d, aim))
    # which are inside the body
    r = N.sqrt(o[0]**2 + o[1]**2)
    low = N.minimum(r, D/2.)
    up, down = zf - N.array([sag(a, x) for x in low]) - o[2], o[2] - zb + N.array([sag(b, x) for x in low])
    m = N.minimum(N.minimum(up, down), D/2. - r)
    # (not from a face: which side is it?)
    o, d, m = o[:, N.abs(m) > 1e-3], d[:, N.abs(m) > 1e-3], m[N.abs(m) > 1e-3]
    ins = m > 0
    idx = N.where(ins, n, 1.)
    R.outcome('rays started inside', ins.sum())
    bund = build.bundle(ref.pts(T, o), ref.vecs(T, d), ref_index=idx)
    e, _ = sc.lockstep(R, v, bund, 4, 1e-3, what, D, ('count', 'place', 'dir', 'energy', 'index'))
    # light inside the glass meets a face, light outside is not cut off
    for lvl in range(e.tree.num_bunds() - 1):
        bb = e.tree[lvl]
        st = sc.Step(v.surfs, bb, N.array(bb.get_energy()) > 1e-3 if lvl else N.ones(bb.get_num_rays(), dtype=bool))
        cnt = N.bincount(N.array(e.tree[lvl + 1].get_parents()).astype(int), minlength=bb.get_num_rays())
        lost = (N.array(bb.get_ref_index()) == n) & st.alive & ~st.und & (cnt == 0)
        # (not from the rim, where two faces meet)
        q = ref.pts(ref.inv(T), st.o)
        lost &= ~((N.abs(N.sqrt(q[0]**2 + q[1]**2) - D/2.) < 1e-6) & (N.minimum(N.abs(q[2] - zf + sag(a, D/2.)), N.abs(q[2] - zb + sag(b, D/2.))) < 1e-6))
        R.check(not lost.any(), what + ': light leaves the glass without crossing a face', level=lvl, ray=N.nonzero(lost)[0][:3],
                start=ref.pts(ref.inv(T), st.o[:, lost][:, :1]), direction=ref.vecs(ref.inv(T), st.d[:, lost][:, :1]))


def cases(tier):
    ls = lenses(tier)
    size = 12
    return [('lenses %d..%d' % (i, min(i + size, len(ls)) - 1), (i, i + size, tier)) for i in range(0, len(ls), size)]


def run(args, R):
    i, j, tier = args
    poses = sorted(build.POSES)
    for k, l in list(enumerate(lenses(tier)))[i:j]:
        if tier == 'quick':
            lens(R, l, poses[k % len(poses)], WAYS[k % 3], tier, True)
            lens(R, l, poses[(k + 4) % len(poses)], WAYS[(k + 1) % 3], tier, False)
        else:
            for q, pn in enumerate(poses):
                lens(R, l, pn, WAYS[(k + q) % 3], tier, q % 3 == 0)
