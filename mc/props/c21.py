"""C21: rotation and transform helpers return the proper rigid motions."""
import itertools
import math

import numpy as N

from mc import ref
from tracer import spatial_geometry as sp

RULE = """All axes of a lattice of the sphere (coordinate axes, face and space
diagonals, near-axis and generic ones) x angles (0, multiples of pi/12 over two
turns either way, tiny, just off right angles, large, integer) x translations;
rotx/roty/rotz and the general rotation must agree with quaternion rotation and
each other, and compose: angles about one axis add, the opposite angle inverts.
Directions to point along: a lattice of 26 + a spiral of several hundred +
near-vertical ones down to 1e-150 off, alone, and in arrays in all orders of up
to 3 of 6 kinds. state = one matrix; transition = one comparison."""
ASSUME = ["Axes and directions are unit vectors, as documented; rounding 1e-12.",
          "Off-vertical components are zero or at least 1e-150 (their squares would underflow)."]

ANGLES = sorted(set([k*math.pi/12 for k in range(-24, 49)] + [1e-12, -1e-9, 1e-7, 1e-6, -5e-6, 4e-5, -9e-5, 7e-4, 1e-3, -0.008, 0.05, math.pi/2 - 1e-9, math.pi + 1e-7, 100.3, -1234.5] + [1, 2, -3]))


def axes(tier):
    out = [N.array(v, float) for v in itertools.product((-1, 0, 1), repeat=3) if any(v)]
    out += [N.array(v) for v in ((1e-9, 0, 1.), (0, 1e-5, -1.), (0.3, -0.2, 0.9), (-0.7, 0.1, 0.05), (0.1, 0.9, -1e-8), (2., 3., -5.))]
    n = 40 if tier == 'quick' else 400
    for i in range(n):
        z = 1 - 2*(i + 0.5)/n
        a = 2.399963*i + 0.1
        r = math.sqrt(1 - z*z)
        out.append(N.array([r*math.cos(a), r*math.sin(a), z]))
    return [ref.unit(v) for v in out]


def quat(axis, ang, v):
    """Rotation by a quaternion product: right-hand rule."""
    w, q = math.cos(ang/2.), math.sin(ang/2.)*N.asarray(axis, dtype=float)
    t = 2*N.cross(q, v)
    return v + w*t + N.cross(q, t)


BASIS = N.vstack((N.eye(3), [(0.3, -0.5, 0.8)]))


def proper(R, M, what, **det):
    R.check(M.shape == (3, 3), what + ': shape', got=M.shape, **det)
    R.close(N.dot(M, M.T), N.eye(3), what + ': not orthonormal', 1e-12, **det)
    R.close(N.dot(M[:, 0], N.cross(M[:, 1], M[:, 2])), 1., what + ': determinant', 1e-12, **det)
    R.state()


def rigid(R, T, what, **det):
    T = N.asarray(T, dtype=float)
    R.check(T.shape == (4, 4), what + ': shape', got=T.shape, **det)
    R.check((T[3] == N.array([0, 0, 0, 1.])).all(), what + ': last row', got=T[3], **det)
    proper(R, T[:3, :3], what, **det)
    return T


def turns(R, M, axis, ang, what):
    tol = 1e-12*(1 + abs(ang))
    for v in BASIS:
        R.close(N.dot(M, v), quat(axis, ang, v), what + ': does not turn by the angle about the axis', tol, axis=axis, angle=ang)
        R.step()
    R.close(N.dot(M, axis), axis, what + ': does not fix its axis', 1e-12, axis=axis, angle=ang)


def rotations(R, i, tier):
    ax = axes(tier)[i]
    for ang in ANGLES:
        a0 = ax.copy()
        M = N.asarray(sp.general_axis_rotation(a0, ang), dtype=float)
        what = 'rotation about a general axis'
        R.check((a0 == ax).all(), what + ': changes its argument')
        proper(R, M, what, axis=ax, angle=ang)
        turns(R, M, ax, ang, what)
        for t in ((0., 0, 0), (1.5, -2., 1e3), (0, -7, 2)):
            col = N.array(t).reshape(3, 1)
            c0 = col.copy()
            T = rigid(R, sp.generate_transform(a0, ang, c0), 'transform', axis=ax, angle=ang)
            R.check((c0 == col).all() and (a0 == ax).all(), 'transform: changes its arguments')
            R.close(T[:3, :3], M, 'transform: its rotation is not that about the axis', 1e-14, axis=ax, angle=ang)
            R.check((T[:3, 3] == col[:, 0]).all(), 'transform: translation', got=T[:3, 3], want=t)
            R.step()
        for b in (0.7, -2.3, math.pi/2):
            R.close(N.dot(M, sp.general_axis_rotation(ax, b)), sp.general_axis_rotation(ax, ang + b), what + ': angles do not add', 1e-12*(1 + abs(ang)), axis=ax)
            R.step()
        R.close(N.dot(M, sp.general_axis_rotation(ax, -ang)), N.eye(3), what + ': opposite angle is not the inverse', 1e-12)
        R.trace()
    R.outcome('general axes')


def principal(R):
    for f, ax in ((sp.rotx, (1., 0, 0)), (sp.roty, (0, 1., 0)), (sp.rotz, (0, 0, 1.))):
        for ang in ANGLES:
            T = rigid(R, f(ang), f.__name__, angle=ang)
            R.check((T[:3, 3] == 0).all(), f.__name__ + ': moves the origin')
            turns(R, T[:3, :3], N.array(ax), ang, f.__name__)
            R.close(T[:3, :3], sp.general_axis_rotation(N.array(ax), ang), f.__name__ + ': differs from the general rotation', 1e-12)
            R.trace()
    vals = (0, 1, -2, 0.5, -1e-9, 1e6, 3.25)
    for t in itertools.product(vals, repeat=3):
        T = rigid(R, sp.translate(*t), 'translate', by=t)
        R.check((T[:3, :3] == N.eye(3)).all() and (T[:3, 3] == N.array(t, float)).all(), 'translate: wrong', got=T, by=t)
        R.step()
        R.trace()
    R.outcome('principal axes and translations')


def points(R, M, d, what):
    proper(R, M, what, direction=d)
    R.close(M[:, 2], d, what + ': Z is not along the direction', 1e-12, direction=d)
    R.check(abs(M[2, 0]) <= 1e-14, what + ': X is not horizontal', got=M[:, 0], direction=d)
    if d[0] == 0 and d[1] == 0 and d[2] > 0:
        R.close(M, N.eye(3), what + ': the original frame is not retained', 1e-14)
    R.step()


def directions(tier):
    out = axes(tier) + [N.array(v) for v in ((1e-150, 0, 1.), (0, -1e-100, 1.), (1e-17, 1e-17, -1.), (-1e-12, 0, -1.), (0, 1e-8, 1.))]
    return out + [N.array([0., 0, 1.]), N.array([0., 0, -1.])]


def pointing(R, tier):
    ds = directions(tier)
    for d in ds:
        d0 = d.copy()
        M = N.asarray(sp.rotation_to_z(d0), dtype=float)
        R.check((d0 == d).all(), 'frame along a direction: changes its argument')
        R.check(M.shape == (3, 3), 'frame along a direction: shape', got=M.shape)
        points(R, M, d, 'frame along a direction')
        R.trace()
    A = N.array(ds)
    for sel in (slice(None), slice(None, None, -1), slice(None, None, 3)):
        M = N.asarray(sp.rotation_to_z(A[sel].copy()), dtype=float)
        R.check(M.shape == (len(A[sel]), 3, 3), 'frames along directions: shape', got=M.shape)
        for m, d in zip(M, A[sel]):
            points(R, m, d, 'frame along a direction in an array')
        R.trace()
    kinds = [N.array([0., 0, 1.]), N.array([0., 0, -1.]), N.array([1., 0, 0]), N.array([0, -1., 0]), ref.unit(N.array([0.3, -0.4, 0.6])), ref.unit(N.array([1e-9, 0, -1.]))]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for c in itertools.product(range(len(kinds)), repeat=n):
            a = N.array([kinds[i] for i in c])
            M = N.asarray(sp.rotation_to_z(a.copy()), dtype=float).reshape(-1, 3, 3)
            R.check(len(M) == n, 'frames along directions: number', got=len(M))
            for m, i in zip(M, c):
                points(R, m, kinds[i], 'frame along direction %d of %s' % (i, c))
            R.trace()
    R.outcome('directions')


def cases(tier):
    return [('axis %d' % i, ('rot', i, tier)) for i in range(len(axes(tier)))] + [('principal', ('principal', 0, tier)), ('pointing', ('pointing', 0, tier))]


def run(args, R):
    kind, x, tier = args
    if kind == 'rot':
        rotations(R, x, tier)
    elif kind == 'principal':
        principal(R)
    else:
        pointing(R, tier)
