"""Builders: from model tuples to the real objects (public API only), and the
shared alphabets (shapes, poses, rays)."""
import itertools
import math

import numpy as N

from mc import ref

from tracer.ray_bundle import RayBundle
from tracer.surface import Surface
from tracer.object import AssembledObject
from tracer.assembly import Assembly
from tracer.tracer_engine import TracerEngine
from tracer.flat_surface import FlatGeometryManager, RectPlateGM, RoundPlateGM
from tracer.triangular_face import TriangularFace
from tracer.cylinder import InfiniteCylinder, FiniteCylinder
from tracer.sphere_surface import SphericalGM, HemisphereGM, CutSphereGM
from tracer.paraboloid import Paraboloid, ParabolicDishGM, HexagonalParabolicDishGM
from tracer.boundary_shape import BoundarySphere, BoundaryPlane, BoundaryCylinder
from tracer import optics_callables as opt


def bound(b):
    if b is None:
        return None
    if b[0] == 'plane':
        return BoundaryPlane(location=b[1][:3, 3].copy(), rotation=b[1][:3, :3].copy())
    if b[0] == 'sphere':
        return BoundarySphere(location=N.array(b[1], dtype=float), radius=b[2])
    return BoundaryCylinder(diameter=b[2], location=b[1][:3, 3].copy(),
                            rotation=b[1][:3, :3].copy())


def gm(shape):
    k = shape[0]
    if k == 'flat':
        return FlatGeometryManager()
    if k == 'rect':
        return RectPlateGM(shape[1], shape[2])
    if k == 'round':
        return RoundPlateGM(shape[1])
    if k == 'tri':
        return TriangularFace(N.array([shape[1], shape[2]], dtype=float).T)
    if k == 'icyl':
        return InfiniteCylinder(shape[1])
    if k == 'fcyl':
        return FiniteCylinder(shape[1], shape[2])
    if k == 'sph':
        return SphericalGM(shape[1])
    if k == 'hemi':
        return HemisphereGM(shape[1])
    if k == 'cut':
        return CutSphereGM(shape[1], bound(shape[2]))
    if k == 'parab':
        return Paraboloid(shape[1], shape[2])
    if k == 'dish':
        return ParabolicDishGM(shape[1], shape[2])
    if k == 'hex':
        return HexagonalParabolicDishGM(shape[1], shape[2])
    raise KeyError(k)


def surface(shape, T=None, optics=None):
    if T is None:
        T = N.eye(4)
    if optics is None:
        optics = opt.Reflective(0.)
    return Surface(gm(shape), optics, location=T[:3, 3].copy(), rotation=T[:3, :3].copy())


def bundle(o, d, energy=None, ref_index=None, **kw):
    n = o.shape[1]
    # a property of the user's own, which rays hand down
    kw.setdefault('tag', 3. + N.arange(n))
    return RayBundle(vertices=o.copy(), directions=d.copy(),
                     energy=N.ones(n) if energy is None else N.array(energy, dtype=float),
                     ref_index=N.ones(n) if ref_index is None else N.array(ref_index, dtype=float),
                     **kw)


# ---------------------------------------------------------------- alphabets
FLIP = ref.pose((1, 0, 0), math.pi)

POSES = {
    'id': N.eye(4),
    'shift': ref.pose(trans=(0.7123457, -1.3071829, 2.1046851)),
    'flip': FLIP,
    'x90': ref.pose((1, 0, 0), math.pi/2, (0., 0.4, 0.)),
    'y-90': ref.pose((0, 1, 0), -math.pi/2, (-0.3, 0., 0.9)),
    'z120': ref.pose((0, 0, 1), 2*math.pi/3, (0.1238476, 0.2049381, 0.3067194)),
    'skew': ref.pose((1, 2, 3), 1.1, (0.4182736, -0.2294857, 1.5038271)),
    'skew2': ref.pose((-2, 1, 0.5), 2.6, (-5.0192837, 3.0475618, -1.0384756)),
    'far': ref.pose((0.3, -1, 0.2), 4.0, (120.3847561, -80.0192837, 45.5647382)),
}


def cuts(R):
    return [None,
            ('plane', ref.pose(trans=(0, 0, 0.4*R))),
            ('plane', ref.pose((1, 0, 0), math.pi, (0, 0, -0.5*R))),
            ('plane', ref.pose((1, 1, 0), 0.9, (0.1*R, 0, 0.2*R))),
            ('sphere', (0., 0., 0.8*R), 0.7*R),
            ('sphere', (0.5*R, -0.6*R, 0.), 0.9*R),
            ('cyl', ref.pose((1, 0, 0), 0.), 1.1*R),
            ('cyl', ref.pose((0, 1, 1), 0.8, (0.3*R, 0.1*R, -0.2*R)), 0.9*R)]


def shapes(scale=1.):
    s = scale
    out = [('flat',),
           ('rect', 2.*s, 1.*s), ('rect', 0.8*s, 3.*s),
           ('round', 1.2*s),
           ('tri', (1.5*s, 0., 0.), (0.4*s, 1.2*s, 0.)),
           ('tri', (-0.3*s, 1.1*s, 0.), (-1.4*s, -0.5*s, 0.)),
           ('icyl', 1.6*s), ('fcyl', 1.4*s, 1.8*s), ('fcyl', 3.*s, 0.7*s),
           ('sph', 1.1*s), ('hemi', 1.3*s),
           ('parab', 1.*s, 1.*s), ('parab', 0.7*s, 1.6*s),
           ('dish', 2.4*s, 0.9*s), ('dish', 1.6*s, 3.*s),
           ('hex', 2.6*s, 0.8*s), ('hex', 1.5*s, 4.*s)]
    out += [('cut', 1.2*s, b) for b in cuts(1.2*s)]
    # deep dishes, steeper than 45 degrees at their rim
    out += [('dish', 2.*s, 0.3*s), ('hex', 1.8*s, 0.28*s)]
    return out


def name(shape):
    k = shape[0]
    if k == 'cut':
        b = shape[2]
        return 'cut(%g,%s)' % (shape[1], 'none' if b is None else
                               b[0] + ':' + '/'.join('%.2g' % x for x in
                                                     N.asarray(b[1], float).reshape(-1)))
    return k + str(tuple(shape[1:])) if len(shape) > 1 else k


def directions(level=1):
    """26 lattice directions, generic ones, and some close to the Z axis."""
    ds = [N.array(v, float) for v in itertools.product((-1, 0, 1), repeat=3) if any(v)]
    gen = [(0.31, -0.17, -0.93), (-0.62, 0.23, 0.55), (0.11, 0.87, -0.2), (-0.4, -0.71, -0.33),
           (0.05, 0.02, -1.), (-0.03, 0.04, 1.), (0.9, 0.05, 0.08)]
    for eps in (1e-4, 3e-3):
        gen += [(eps, 0, -1.), (0, -eps, 1.), (eps, 2*eps, -1.)]
    if level > 1:
        for i in range(40):
            # a fixed spiral over the sphere
            z = 1 - 2*(i + 0.5)/40
            a = 2.399963*i + 0.1
            r = math.sqrt(1 - z*z)
            gen.append((r*math.cos(a), r*math.sin(a), z))
    return ref.unit(N.array(list(ds) + [N.array(g) for g in gen]).T)


def starts(L, level=1):
    """Grid of starting points around a shape of size L, local frame."""
    ax = (-2.3, -0.77, 0.13, 0.58, 1.9) if level == 1 else (-3.1, -1.27, -0.61, -0.09, 0.23, 0.71, 1.43, 2.7)
    g = N.array(list(itertools.product(ax, repeat=3))).T
    extra = N.array([(0, 0, 0), (0, 0, 1), (0, 0, -1.5), (0.5, 0, 0), (0, -0.4, 2.), (0, 0, 6.), (14., 3., 22.)], float).T
    return L*N.hstack((g, extra))


def cross(o, d):
    """All combinations of starts and directions."""
    n, m = o.shape[1], d.shape[1]
    return N.repeat(o, m, axis=1), N.tile(d, (1, n))


# ---------------------------------------------------------------- edge cases of shapes
def project(shape, p):
    """Nearest-ish point of the (untrimmed) surface to local points p."""
    k = shape[0]
    p = N.array(p, dtype=float)
    if k in ('flat', 'rect', 'round', 'tri'):
        p[2] = 0.
    elif k in ('icyl', 'fcyl'):
        p[:2] *= shape[1]/2./N.sqrt(p[0]**2 + p[1]**2)
    elif k in ('sph', 'hemi', 'cut'):
        p *= shape[1]/N.sqrt((p**2).sum(axis=0))
    else:
        a, b = ref._parab_ab(shape)
        p[2] = a*p[0]**2 + b*p[1]**2
    return p


def surface_points(shape, n=7):
    """A lattice of points of the untrimmed surface."""
    L = ref.size(shape)
    ax = N.linspace(-1.53, 1.47, n)*L
    g = N.array(list(itertools.product(ax, ax, ax[::2]))).T
    k = shape[0]
    if k not in ('icyl', 'fcyl', 'sph', 'hemi', 'cut'):
        g = N.array(list(itertools.product(ax, ax, (0.,)))).T
    return project(shape, g)


def edge_points(shape, offsets=(1e-5, 1e-3, 0.03)):
    """Surface points just inside and just outside the outline."""
    p = surface_points(shape)
    m = ref.margin(shape, p)
    ins, outs = N.nonzero(m > 0)[0], N.nonzero(m < 0)[0]
    if not len(ins) or not len(outs) or N.isinf(m).any():
        return N.zeros((3, 0))
    L = ref.size(shape)
    c = ins[N.argmax(m[ins])]
    seconds = ins[::max(1, len(ins)//4)][:4]
    a, b = [], []
    for j in outs[::max(1, len(outs)//24)]:
        for i in [c] + list(seconds[:2]):
            a.append(p[:, i])
            b.append(p[:, j])
    a, b = N.array(a).T, N.array(b).T
    lo, hi = N.zeros(a.shape[1]), N.ones(a.shape[1])
    for _ in range(60):
        mid = (lo + hi)/2
        inside = ref.margin(shape, project(shape, a + (b - a)*mid)) > 0
        lo, hi = N.where(inside, mid, lo), N.where(inside, hi, mid)
    step = 1./N.sqrt(((b - a)**2).sum(axis=0))*L
    out = [project(shape, a + (b - a)*(lo + s*e*step)) for e in offsets for s in (-1, 1)]
    out = N.hstack(out)
    return out[:, N.isfinite(out).all(axis=0)]


AIMS = ref.unit(N.array([(0.2, -0.3, -1.), (-0.5, 0.1, 0.8), (0.9, 0.4, -0.3)]).T)


def edge_rays(shape):
    """Rays from both sides that meet the surface close to its outline."""
    p = edge_points(shape)
    L = ref.size(shape)
    q, d = cross(p, AIMS)
    return q - 2.5*L*d, d


def graze_rays(shape):
    """Rays passing a curved surface almost tangentially, above and below."""
    if shape[0] in ('flat', 'rect', 'round', 'tri'):
        return N.zeros((3, 0)), N.zeros((3, 0))
    L = ref.size(shape)
    p = surface_points(shape, 5)
    p = p[:, ::max(1, p.shape[1]//12)]
    n = ref.normal(shape, p)
    t1 = ref.unit(N.cross(n.T, N.array([0.3, 0.5, 0.81])).T)
    t2 = N.cross(n.T, t1.T).T
    os, ds = [], []
    for t in (t1, t2, ref.unit(t1 + t2)):
        for e in (1e-5, -1e-5, 1e-3, -1e-3, -0.05):
            os.append(p + n*e*L - 2*L*t)
            ds.append(t)
        # at a very small angle, from outside and from inside
        for e in (1e-4, -1e-4, 1e-3, -1e-3):
            d = ref.unit(t + e*n)
            for back in (2., 0.3*abs(e)):
                os.append(p - back*L*d)
                ds.append(d)
    return N.hstack(os), N.hstack(ds)


def skim_rays(shape):
    """Rays that meet a flat surface at a very small angle, from both sides."""
    if shape[0] not in ('flat', 'rect', 'round', 'tri'):
        return N.zeros((3, 0)), N.zeros((3, 0))
    L = ref.size(shape)
    p = surface_points(shape, 7)
    m = ref.margin(shape, p)
    p = p[:, m > 0.02*L]
    p = p[:, ::max(1, p.shape[1]//5)]
    d = []
    for a in (0.3, 1.9, 4.4):
        for e in (1e-6, 1e-5, 1e-4, 7e-4, 5e-3, 0.04):
            d += [(math.cos(a), math.sin(a), e), (math.cos(a), math.sin(a), -e)]
    q, d = cross(p, ref.unit(N.array(d).T))
    return q - 2.3*L*d, d


def near_rays(shape):
    """Rays that start very close to the surface, on both sides, towards and
    away from it."""
    L = ref.size(shape)
    p = surface_points(shape, 5)
    m = ref.margin(shape, p)
    p = p[:, m > 0.02*L] if (m > 0.02*L).any() else p
    p = p[:, ::max(1, p.shape[1]//6)]
    n = ref.normal(shape, p)
    os, ds = [], []
    for e in (3e-5, 4e-4, 6e-3):
        h = max(e*L, 3e-5)
        for s in (-1, 1):
            q, d = cross(p + s*h*n, ref.unit(N.array([(0.1, 0.2, -1.), (-0.3, 0.1, 1.), (0.9, 0.2, 0.3), (-0.2, -0.8, -0.4)]).T))
            os.append(q)
            ds.append(d)
    return N.hstack(os), N.hstack(ds)


def far_rays(shape):
    """Rays from very far away, at and past the surface, and away from it."""
    L = ref.size(shape)
    p = surface_points(shape, 5)
    p = p[:, ::max(1, p.shape[1]//9)]*0.83
    d = ref.unit(N.array([(0.2, -0.3, -1.), (-0.5, 0.1, 0.8), (0.9, 0.4, -0.3), (-0.4, 0.8, 0.1)]).T)
    q, d = cross(p, d)
    return (N.hstack((q - 150*L*d, q - 900*L*d, q + 150*L*d)), N.hstack((d, d, d)))


def all_rays(shape, level=1, slow=False):
    o, d = cross(starts(ref.size(shape), 1 if slow else level), directions(level))
    parts = [(o, d)] + [f(shape) for f in (edge_rays, graze_rays, skim_rays, near_rays, far_rays)]
    return N.hstack([x[0] for x in parts]), N.hstack([x[1] for x in parts])
