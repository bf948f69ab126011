"""C17: a triangulated surface is the union of its non-degenerate faces."""
import itertools
import math

import numpy as N

from mc import build, ref, scene as sc
from mc.build import Assembly, AssembledObject, TracerEngine
from tracer.models.triangulated_surface import TriangulatedSurface

RULE = """Face lists: all sequences of up to 3 (4 in the thorough tier) out of
14 kinds of faces over a common set of vertices (proper ones in all three
rotations and both orientations, needle-shaped, very small, with a vertex used twice or
thrice, with coinciding vertices, collinear along axes and askew), and whole
bodies (tetrahedron, cube, octahedron, icosahedron, height fields, a plate of 180 equal faces) with
degenerate faces interspersed at every position; x scales x poses x ways of
placing x float or integer vertices. Each surface must be the face of its place
in the list, and rays aimed at every face from both sides and from a grid, with
several bounces, are compared in lockstep with a ray/triangle oracle over the
plain face list. state = one ray at one level or one face; transition = one ray
step or one face compared."""
ASSUME = ["Rays within 1e-7 of an edge, or meeting two faces at the same point, are undecided.",
          "A face has no area if the sine of its angle is below 1e-6 or an edge is below 1e-8."]

VERTS = N.array([[0, 0, 0], [2, 0, 0], [0, 3, 0], [0, 0, 2.5],            # 0-3
                 [0.7, 0.3, 1.1], [1.4, 0.6, 2.2], [2.1, 0.9, 3.3],        # 4-6 collinear with 0
                 [4, 0, 0], [1, 0, 0],                                    # 7, 8 on the x axis
                 [-0.9, 1.1, 0.4], [-0.9, 1.1, 0.4],                      # 9, 10 coincide
                 [0.002, 3, 0.001], [9e-5, 3, 4e-5],                      # 11, 12 needles
                 [-3, 1, 1], [-3 + 2e-5, 1, 1 + 2e-5], [-3, 1 + 3e-5, 1]])   # 13-15 very small
FACES = [(0, 1, 2), (2, 1, 0), (3, 9, 1), (1, 3, 9), (4, 2, 7), (2, 0, 11), (0, 12, 2), (13, 14, 15),
         (3, 3, 1), (5, 5, 5), (9, 1, 10), (0, 4, 6), (4, 6, 5), (8, 7, 1)]


def degenerate(tri):
    a, b, c = tri
    u, v, w = b - a, c - a, c - b
    l = [math.sqrt((x**2).sum()) for x in (u, v, w)]
    return min(l[:2]) <= 1e-8 or math.sqrt((N.cross(u, v)**2).sum()) <= 1e-6*l[0]*l[1]


def model(V, F, T):
    """[(shape, world frame, optics, None)] of the faces with an area."""
    out, keep = [], []
    for k, f in enumerate(F):
        tri = V[list(f)].astype(float)
        if degenerate(tri):
            continue
        a, b, c = tri
        z = ref.unit(N.cross(b - a, c - a))
        x = ref.unit(b - a)
        S = N.eye(4)
        S[:3, 0], S[:3, 1], S[:3, 2], S[:3, 3] = x, N.cross(z, x), z, a
        I = ref.inv(S)
        loc = ref.pts(I, tri[1:].T).T
        out.append((('tri', tuple(loc[0]), tuple(loc[1])), N.dot(T, S), ('refl', 0.2), None))
        keep.append(tri)
    return out, keep


class View(object):
    pass


def put(V, F, T, way):
    V, F = V.copy(), N.array(F)
    v0, f0 = V.copy(), F.copy()
    o = build.opt.Reflective(0.2)
    asm = Assembly()
    if way == 'own':
        t = TriangulatedSurface(V, F, o, transform=T.copy())
        asm = Assembly(objects=[t])
    elif way == 'assembly':
        t = TriangulatedSurface(V, F, o)
        asm.add_object(t, T.copy())
    else:
        t = TriangulatedSurface(V, F, o)
        asm.add_object(t, build.POSES['x90'].copy())
        if len(t.get_surfaces()):
            TracerEngine(asm).ray_tracer(build.bundle(N.array([[0.1], [0.2], [9.]]), N.array([[0.], [0.], [-1.]])), 1, 0.)
        t.set_transform(T.copy())
        asm.transform_children()
    return asm, t, (V == v0).all() and (F == f0).all()


WAYS = ('own', 'assembly', 'later')


def same_faces(R, t, keep, T, what):
    """Each surface of the object is the face of its place in the list."""
    ss = list(t.get_surfaces())
    R.check(len(ss) == len(keep), what + ': number of faces', got=len(ss), want=len(keep))
    for k, (s, tri) in enumerate(zip(ss, keep)):
        m = N.array(s.mesh(2)).reshape(3, -1)
        w = ref.pts(T, tri.T)
        tol = 1e-9*(1 + N.abs(w).max())
        dist = N.sqrt(((m[:, :, None] - w[:, None, :])**2).sum(axis=0))
        R.check((dist.min(axis=0) <= tol).all() and (dist.min(axis=1) <= tol).all(), what + ': a face is not in its place', face=k, got=m, want=w)
        R.step()
    R.state(len(keep))


def aimed(V, F, scale):
    """Rays at interior points of every face (degenerate ones too), both sides."""
    os, ds = [], []
    D = ref.unit(N.array([(0.21, -0.33, -1.), (-0.52, 0.14, 0.8), (0.9, 0.41, -0.3), (-0.3, -0.87, 0.25)]).T).T
    for f in F:
        a, b, c = V[list(f)].astype(float)
        for u, v in ((0.31, 0.29), (0.05, 0.07), (0.87, 0.06), (0.06, 0.9), (0.47, 0.49), (-0.1, 0.5), (0.6, 0.55), (0.4, -0.2)):
            p = a + u*(b - a) + v*(c - a)
            for d in D:
                os.append(p - 4.137*scale*d)
                ds.append(d)
    return N.array(os).T, N.array(ds).T


def rays(V, F, scale, grid):
    o, d = aimed(V, F, scale)
    if grid:
        c = (V.max(axis=0) + V.min(axis=0))/2.
        g, h = build.cross(build.starts(scale)[:, ::grid], build.directions(1)[:, ::2])
        o, d = N.hstack((o, g + c[:, None] + scale*N.array([[0.0137], [0.0071], [-0.0253]]))), N.hstack((d, h))
    return o, d


def repeated(F):
    s = [tuple(sorted(f)) for f in F]
    return len(set(s)) < len(s)


def compare(R, V, F, pn, way, what, scale, reps=3, grid=0, thin=1):
    T = build.POSES[pn]
    asm, t, intact = put(V, F, T, way)
    R.check(intact, what + ': the vertices or faces given were changed')
    surfs, keep = model(V, F, T)
    same_faces(R, t, keep, T, what)
    R.outcome('faces', len(keep))
    R.outcome('left out', len(F) - len(keep))
    # a floor, so that there is always something to trace
    fl = N.dot(T, ref.pose((1, 0.3, 0), 0.4, (0.3*scale, 0.2*scale, -3.3*scale)))
    asm.add_object(AssembledObject(surfs=[build.surface(('rect', 40.*scale, 40.*scale), fl, build.opt.Reflective(0.6))]))
    v = View()
    v.asm, v.surfs = asm, surfs + [(('rect', 40.*scale, 40.*scale), fl, ('refl', 0.6), None)]
    o, d = rays(V, F, scale, grid)
    o, d = o[:, ::thin], d[:, ::thin]
    b = build.bundle(ref.pts(T, o), ref.vecs(T, d))
    want = ('count', 'place', 'dir', 'energy')
    sc.lockstep(R, v, b, reps, 1e-4, what, scale, want)
    if repeated(F):
        # faces that coincide: the nearest distance is still that of the list
        e = TracerEngine(asm)
        e.ray_tracer(b, 1, 0.)
        # (the model with each face once)
        once, seen = [], set()
        for s, tri in zip(surfs, keep):
            key = tuple(sorted(map(tuple, tri)))
            if key not in seen:
                seen.add(key)
                once.append(s)
        st = sc.Step(once + v.surfs[-1:], b, N.ones(b.get_num_rays(), dtype=bool))
        cnt = N.zeros(b.get_num_rays(), dtype=bool)
        if e.tree.num_bunds() > 1:
            par = N.array(e.tree[1].get_parents()).astype(int)
            cnt[par] = True
            err = N.sqrt(((N.array(e.tree[1].get_vertices()) - st.p[:, par])**2).sum(axis=0))
            bad = ~st.und[par] & ~(err <= st.tol(scale)[par])
            R.check(not bad.any(), what + ': ray does not go on from the nearest face', ray=par[bad][:3])
        bad = ~st.und & (cnt != (st.who >= 0))
        R.check(not bad.any(), what + ': a ray is (not) stopped by a repeated face', ray=N.nonzero(bad)[0][:4])
        R.trace()


# ---------------------------------------------------------------- bodies
def bodies():
    p = (1 + math.sqrt(5))/2
    ico = N.array([(-1, p, 0), (1, p, 0), (-1, -p, 0), (1, -p, 0), (0, -1, p), (0, 1, p), (0, -1, -p), (0, 1, -p), (p, 0, -1), (p, 0, 1), (-p, 0, -1), (-p, 0, 1)])
    icof = [(0, 11, 5), (0, 5, 1), (0, 1, 7), (0, 7, 10), (0, 10, 11), (1, 5, 9), (5, 11, 4), (11, 10, 2), (10, 7, 6), (7, 1, 8),
            (3, 9, 4), (3, 4, 2), (3, 2, 6), (3, 6, 8), (3, 8, 9), (4, 9, 5), (2, 4, 11), (6, 2, 10), (8, 6, 7), (9, 8, 1)]
    cube = N.array(list(itertools.product((0, 1), repeat=3)), dtype=int)
    cubef = [(0, 1, 3), (0, 3, 2), (4, 6, 7), (4, 7, 5), (0, 4, 5), (0, 5, 1), (2, 3, 7), (2, 7, 6), (0, 2, 6), (0, 6, 4), (1, 5, 7), (1, 7, 3)]
    out = {'icosahedron': (ico, icof), 'cube (integers)': (cube, cubef), 'cube': (cube*1.37 - 0.41, cubef),
           'tetrahedron': (N.array([[0, 0, 0.], [1, 0, 0.2], [0.1, 1.3, 0], [0.3, 0.2, 1.1]]), [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]),
           'octahedron': (N.array([[0, 0, 1.], [1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0], [0, 0, -1]]),
                          [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1), (5, 2, 1), (5, 3, 2), (5, 4, 3), (5, 1, 4)])}
    xs = N.linspace(-1, 1, 5)
    V = N.array([(x, y + 0.03*i, 0.3*math.sin(3*x + 0.4) + 0.2*y*y) for i, x in enumerate(xs) for y in xs])
    F = [f for i in range(4) for j in range(4) for f in ((5*i + j, 5*i + j + 5, 5*i + j + 1), (5*i + j + 6, 5*i + j + 1, 5*i + j + 5))]
    out['height field'] = (V, F)
    # a large regular plate of equal faces, slightly bent along one line
    V = N.array([(0.25*i, 0.2*j, 0.05*max(i - 6, 0)) for i in range(10) for j in range(11)])
    F = [f for i in range(9) for j in range(10) for f in ((11*i + j, 11*i + j + 11, 11*i + j + 1), (11*i + j + 12, 11*i + j + 1, 11*i + j + 11))]
    out['large plate'] = (V, F)
    # a body that uses the last of very many vertices, and two early ones
    W = N.vstack((N.outer(N.cos(N.arange(70000.)), (0.1, 0.2, -0.3)), ico[2:]))
    W[[5, 300]] = ico[:2]
    at = [5, 300] + [70000 + i for i in range(10)]
    out['many vertices'] = (W, [tuple(at[i] for i in f) for f in icof])
    return out


def spoiled(V, F, at, kind):
    """The body with a degenerate face put in at a place of the list."""
    f = F[at % len(F)]
    if kind == 'double':
        extra = (f[0], f[0], f[1])
    elif kind == 'double last':
        extra = (f[2], f[1], f[1])
    elif kind == 'triple':
        extra = (f[1],)*3
    else:
        # a vertex on an edge: collinear
        V = N.vstack((V, [V[f[0]]*(2./3) + V[f[2]]/3.]))
        extra = {'collinear': (f[0], f[2], len(V) - 1), 'collinear middle': (len(V) - 1, f[0], f[2])}[kind]
    return V, list(F[:at]) + [extra] + list(F[at:])


SPOILS = ('double', 'double last', 'triple', 'collinear', 'collinear middle')


def cases(tier):
    n = len(FACES)
    depth = 3 if tier == 'quick' else 4
    out = [('face lists starting with %d' % i, ('list', i, depth, tier)) for i in range(n)]
    for b in sorted(bodies()):
        out += [('%s %s' % (b, k), ('body', b, k, tier)) for k in ('plain',) + (SPOILS if b not in ('large plate', 'many vertices') else SPOILS[:1])]
    return out


def run(args, R):
    kind, x, y, tier = args
    if kind == 'list':
        poses = sorted(build.POSES)
        k = x
        for depth in range(1, y + 1):
            for rest in itertools.product(range(len(FACES)), repeat=depth - 1):
                k += 1
                idx = (x,) + rest
                F = [FACES[i] for i in idx]
                what = 'faces %s' % (F,)
                compare(R, VERTS, F, poses[k % len(poses)], WAYS[k % 3], what, 1., 2, 0, 3 if depth == 3 and tier == 'quick' else 1)
                if depth == 1:
                    for j, (s, pn, way) in enumerate(itertools.product((1e-3, 1., 50.), poses, WAYS)):
                        if tier == 'quick' and (j//3 + j) % 3:
                            continue
                        compare(R, VERTS*s, F, pn, way, what + ' x %g in pose %s (%s)' % (s, pn, way), s, 2, 5)
    else:
        V, F = bodies()[x]
        if y == 'plain':
            for k, (s, pn, way) in enumerate(itertools.product((1, 0.02, 17.), ('id', 'skew', 'flip', 'far'), WAYS)):
                if tier == 'quick' and ((k//3 + k) % 3 or x == 'large plate' and k % 5):
                    continue
                compare(R, V*s, F, pn, way, '%s x %g in pose %s (%s)' % (x, s, pn, way), s, 4 if len(F) < 100 else 2, 3, 1 if len(F) < 100 else 7)
            return
        for at in range(0, len(F) + 1, 59 if len(F) > 100 else 1 if tier != 'quick' or len(F) < 13 else 5):
            W, G = spoiled(V, F, at, y)
            compare(R, W, G, 'skew2', WAYS[at % 3], '%s with %s face %d' % (x, y, at), 1., 2, 0, 1 if len(F) < 100 else 7)
