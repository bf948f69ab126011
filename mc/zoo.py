"""Scenes shared by several properties: plain descriptions (with a reference
model) and the ready-made assemblies of tracer.models.

SCENES[name]() -> (description, starts, directions, refractive indices)
MODELS[name]() -> (real assembly, starts, directions, refractive indices)"""
import itertools
import math

import numpy as N

from mc import build, ref, scene as sc
from mc.props import c01, c04

P = ref.pose
pi = math.pi


def grid3(xs, ys, zs):
    return N.array(list(itertools.product(xs, ys, zs))).T


def src(step=2):
    o = grid3((-0.71, 0.13, 0.57), (-0.63, 0.22, 0.39), (-0.55, 0.05, 0.81))
    o, d = build.cross(o, build.directions(1)[:, ::step])
    return o, d, N.ones(o.shape[1])


def down(n=4, z=3., width=1.2, tilt=((0, 0, -1.), (0.05, -0.02, -1.), (-0.1, 0.08, -1.))):
    xs = N.linspace(-width, width, n) + 0.0137
    o, d = build.cross(grid3(xs, xs*0.93 - 0.0071, (z,)), ref.unit(N.array(tilt).T))
    return o, d, N.ones(o.shape[1])


# ------------------------------------------------------------ descriptions
def room():
    walls = []
    for k, T in enumerate((P(), P((1, 0, 0), pi), P((1, 0, 0), pi/2), P((1, 0, 0), -pi/2), P((0, 1, 0), pi/2), P((0, 1, 0), -pi/2))):
        walls.append((('rect', 4., 4.), N.dot(T, P(trans=(0, 0, -2.))), ('refl', 0.1 + 0.13*k)))
    return (sc.asm(*[sc.obj(w) for w in walls]),) + src()


def objects():
    kids = [sc.obj((sh, T, ('refl', 0.03 + 0.06*k))) for k, (sh, T) in enumerate(c01.PLACED)]
    return (sc.asm(sc.asm(*kids[::2], T=P((0, 1, 0), 0.2)), *kids[1::2]),) + src()


def pool():
    return (sc.asm(sc.obj((('sph', 0.5), P(trans=(0.2, 0.1, -1.)), ('refr', 1., 1.5))),
                   sc.obj((('rect', 5., 5.), P(trans=(0, 0, -1.8)), ('refr', 1., 1.33)),
                          (('rect', 5., 5.), P(trans=(0, 0, -2.1)), ('refr', 1., 1.33))),
                   sc.obj((('rect', 9., 9.), P((1, 0, 0), 0.1, (0, 0, -3.)), ('refl', 0.4))),
                   sc.obj((('sph', 8.), P(), ('refl', 0.3)))),) + src()


def splitter():
    """A stack of half-mirrors: every hit splits."""
    ss = [(('rect', 6., 7.), P((1, 0.2*k, 0), 0.15*k, (0, 0, -0.7*k)), ('refr', (1., 1.8, 1., 2.2, 1.)[k], (1.8, 1., 2.2, 1., 1.5)[k])) for k in range(5)]
    return (sc.asm(*[sc.obj(s) for s in ss], T=build.POSES['x90']),) + tuple(
        (lambda o, d, n: (ref.pts(build.POSES['x90'], o), ref.vecs(build.POSES['x90'], d), n))(*down()))


def two():
    """Two facing plates and an absorber in between."""
    return (sc.asm(sc.obj((('rect', 3., 3.), P(trans=(0, 0, -1.)), ('refl', 0.5))), sc.obj((('round', 2.), P((1, 0, 0), pi, (0, 0, 1.2)), ('refl', 0.25))),
                   sc.obj((('rect', 0.6, 0.7), P((1, 0, 0), 0.3, (0.4, 0.1, 0)), ('refl', 1.)))),) + src()


def single():
    return (sc.asm(sc.obj((('round', 1.1), P((0, 1, 0), 0.4), ('refl', 0.5)))),) + down()


def prism():
    a = 1.6
    s = (('rect', a, 3.), N.dot(P((0, 1, 0), pi), P(trans=(0, 0, a/2/math.sqrt(3)))), ('refr', 1., 1.6))
    ss = [(('rect', a, 3.), N.dot(P((0, 1, 0), 2*pi*k/3), P(trans=(0, 0, a/2/math.sqrt(3)))), ('refr', 1., 1.6)) for k in range(3)]
    return (sc.asm(sc.obj(*ss)),) + down()


SCENES = {'room': room, 'objects': objects, 'pool': pool, 'splitter': splitter, 'two': two, 'single': single, 'prism': prism}


# ------------------------------------------------------------ ready-made
def minidish():
    from tracer.models.tau_minidish import MiniDish
    return (MiniDish(2.2, 1.3, 0.9, 1.55, 0.41, 0.38, 0.8),) + down(6, 4., 1.05)


def std_minidish():
    from tracer.models.tau_minidish import standard_minidish
    return (standard_minidish(2., 300., 3., 0.85, 0.93)[0],) + down(6, 4., 0.95, ((0, 0, -1.), (0.003, 0.002, -1.)))


def petal():
    from tracer.models.PETAL_dish import PETAL
    return (PETAL(2.6, 1.2, 0.95, 1.4, 0.35, 0.3, 0.9, 1.3),) + down(6, 4., 1.1)


def homogenizer():
    from tracer.models.homogenizer import rect_homogenizer
    o, d, n = down(4, 2.5, 0.3, ((0.1, 0.2, -1), (0.7, -0.4, -1), (-1.3, 0.3, -1), (0.2, 1.1, -1)))
    return rect_homogenizer(1.1, 0.8, 2.1, 0.75), o, d, n


def lens():
    from tracer.models.spherical_lens import SphericalLens
    asm = build.Assembly(objects=[SphericalLens(1.4, 0.5, 2.2, -3.1, 1.55)])
    return (asm,) + down(5, 3., 0.6)


def lens_flat():
    from tracer.models.spherical_lens import SphericalLens
    asm = build.Assembly(objects=[SphericalLens(1.2, 0.4, 0, -1.5, 1.8)])
    return (asm,) + down(5, 3., 0.5)


def field():
    from tracer.models.heliostat_field import HeliostatField
    pos = N.array([[3., 1., 0.], [4., -2., 0.], [-1., 5., 0.2], [2.5, 6., -0.1]])
    f = HeliostatField(pos, 0.8, 0.6, 0.1, 6.)
    f.aim_to_sun(0.7, 0.6)
    from tracer.models.heliostat_field import solar_vector
    s = -solar_vector(0.7, 0.6)
    o = N.hstack([p[:, None] + grid3((-0.11, 0.07), (-0.05, 0.09), (0.013,)) for p in pos]) - 9*s[:, None]
    return f, o, N.repeat(s[:, None], o.shape[1], axis=1), N.ones(o.shape[1])


def facets():
    from tracer.models.triangulated_surface import TriangulatedSurface
    v = N.array([[0, 0, 1.], [1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0], [0, 0, -1]], float)
    f = N.array([[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]])
    o, d, n = src(3)
    # off the symmetry planes, where rays would meet edges
    o = o + N.array([0.0137, -0.0071, 0.0253])[:, None]
    return build.Assembly(objects=[TriangulatedSurface(v*1.3, f, build.opt.Reflective(0.2))]), o, d, n


def oneside():
    from tracer.models.one_sided_mirror import rect_one_sided_mirror, one_sided_receiver
    m = rect_one_sided_mirror(2., 1.5, 0.1)
    front, r = one_sided_receiver(1.8, 1.6, 0.7)
    r.set_transform(P((1, 0, 0), pi, (0.1, 0.2, 2.)))
    return (build.Assembly(objects=[m, r]),) + src(2)


def mixed():
    """A user-built assembly with a movable concentrator, a lens and a wall."""
    a = build.Assembly()
    a.add_assembly(minidish()[0], P((0, 1, 0), 0.05, (0, 0, -1.)))
    a.add_object(lens()[0].get_objects()[0], P((1, 0, 0), 0.1, (0.3, 0.2, 1.4)))
    a.add_object(build.AssembledObject(surfs=[build.surface(('rect', 9., 9.), P(trans=(0, 0, -2.)), build.opt.Reflective(0.5))]))
    return (a,) + down(5, 5., 1.)


MODELS = {'minidish': minidish, 'standard minidish': std_minidish, 'PETAL': petal, 'homogenizer': homogenizer, 'lens': lens,
          'flat lens': lens_flat, 'heliostats': field, 'facets': facets, 'one-sided': oneside, 'mixed': mixed}


# ------------------------------------------------------------ traces as plain data
def snapshot(tree, lo=0):
    """A trace as plain arrays, per level: vertices, directions, energy, index, parents."""
    out = []
    for lvl in range(lo, tree.num_bunds()):
        b = tree[lvl]
        rec = {'v': N.array(b.get_vertices(), dtype=float), 'd': N.array(b.get_directions(), dtype=float),
               'e': N.array(b.get_energy(), dtype=float)}
        try:
            rec['n'] = N.array(b.get_ref_index(), dtype=float)
        except (KeyError, AttributeError):
            rec['n'] = N.ones(len(rec['e']))
        if b.has_property('tag'):
            rec['t'] = N.array(b.get_tag(), dtype=float)
        if lvl:
            rec['p'] = N.array(b.get_parents()).astype(int)
        out.append(rec)
    return out


def roots(snap):
    """For each level, the index in level 0 each ray descends from."""
    out = [N.arange(len(snap[0]['e']))]
    for lvl in snap[1:]:
        out.append(out[-1][lvl['p']])
    return out


def rows(level, extra=None, digits=7):
    """The rays of a level as rows, for comparison as multisets."""
    cols = [level['v'], level['d'], level['e'][None], level['n'][None]]
    if extra is not None:
        cols.insert(0, N.array(extra, float)[None])
    return N.vstack(cols).T


def match(R, A, B, tol, what):
    """A and B (n x k) are equal as multisets of rows, within tol."""
    R.check(A.shape == B.shape, what + ': number of rays', got=A.shape, want=B.shape)
    if not len(A):
        return
    # sort by projections that separate distinct rows; then repair close calls
    w = N.array([0.5137, 0.8713, 1.1931, 0.3377, 0.7219, 0.9173, 1.3331, 0.6113, 0.2711, 1.0391, 0.4457, 1.7])[:A.shape[1]]
    qa, qb = N.argsort(N.dot(A, w), kind='mergesort'), N.argsort(N.dot(B, w), kind='mergesort')
    A, B = A[qa], B[qb]
    lim = tol*(1 + N.abs(B))
    bad = N.nonzero((~(N.abs(A - B) <= lim)).any(axis=1))[0]
    left = list(bad)
    for i in bad:
        for k, j in enumerate(left):
            if (N.abs(A[i] - B[j]) <= tol*(1 + N.abs(B[j]))).all():
                del left[k]
                break
        else:
            R.fail(what + ': a ray differs', got=A[i], closest=B[min(left, key=lambda j: N.abs(A[i] - B[j]).max())] if left else None)
