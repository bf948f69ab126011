"""C16: meshes lie on the surface they represent and cover it."""
import itertools
import math

import numpy as N

from mc import build, ref
from mc.build import AssembledObject, Assembly, TracerEngine

RULE = """Every shape that has a mesh (rectangle, disc, triangle, finite
cylinder, sphere, hemisphere, round dish) x sizes (also integer ones) x
resolutions from coarser than the surface to 60 points over it x poses x ways of
placing it (own frame, object, assembly, nested, moved or resized after a first mesh). All
mesh points are compared with the reference equation and outline, all
neighbouring pairs with the step, a dense lattice of the surface with the
nearest mesh points, and every point inside the outline is shot at by a ray on
the real scene. state = one mesh point; transition = one point or pair compared;
trace = one mesh or bundle of rays."""
ASSUME = ["A step is 1/resolution (a triangle's: its edge over resolution - 1), along the surface's parameters; on a dish it is measured in projection along the axis.",
          "Infinite shapes, the hexagonal dish and cut spheres have no mesh, as documented."]


def shapes():
    out = [('rect', 2., 1.), ('rect', 0.3, 3.7), ('rect', 5, 2), ('rect', 1, 1),
           ('round', 1.2), ('round', 3), ('round', 0.41),
           ('tri', (1.5, 0., 0.), (0.4, 1.2, 0.)), ('tri', (-0.3, 1.1, 0.), (-1.4, -0.5, 0.)), ('tri', (0., 7., 0.), (0.3, 0.1, 0.)),
           ('fcyl', 1.4, 1.8), ('fcyl', 3., 0.7), ('fcyl', 1, 2),
           ('sph', 1.1), ('sph', 2), ('sph', 0.37), ('hemi', 1.3), ('hemi', 2), ('hemi', 0.6),
           ('dish', 2.4, 0.9), ('dish', 1.6, 3.), ('dish', 5, 3), ('dish', 1.3, 0.2)]
    return out


def resolutions(shape, tier):
    if shape[0] == 'tri':
        return (2, 3, 4, 7, 12)
    L = 2*ref.size(shape)
    # points over the size of the shape
    res = [k/L for k in (0.7, 1.3, 2., 3.3, 5., 8.6, 13., 24.)] + [1, 2, 5, 0.5, 10.]
    if tier != 'quick':
        res += [40./L, 61.7/L, 3, 4, 7]
    return res


def lattice(shape):
    """A dense lattice of points of the surface, inside its outline."""
    k = shape[0]
    u = N.linspace(0, 1, 17)
    a = 2*math.pi*N.linspace(0, 1, 31)
    if k == 'rect':
        p = [((x - 0.5)*shape[1], (y - 0.5)*shape[2], 0.) for x in u for y in u]
    elif k == 'round':
        p = [(shape[1]*r*math.cos(t), shape[1]*r*math.sin(t), 0.) for r in u for t in a]
    elif k == 'tri':
        v, w = N.array(shape[1], float), N.array(shape[2], float)
        p = [tuple(x*(1 - y)*v + x*y*w) for x in u for y in u]
    elif k == 'fcyl':
        p = [(shape[1]/2.*math.cos(t), shape[1]/2.*math.sin(t), (x - 0.5)*shape[2]) for x in u for t in a]
    elif k in ('sph', 'hemi'):
        th = math.pi*u if k == 'sph' else math.pi/2*(1 + u)
        p = [(shape[1]*math.sin(x)*math.cos(t), shape[1]*math.sin(x)*math.sin(t), shape[1]*math.cos(x)) for x in th for t in a]
    else:
        p = [(shape[1]/2.*r*math.cos(t), shape[1]/2.*r*math.sin(t), (shape[1]/2.*r)**2/4./shape[2]) for r in u for t in a]
    return N.array(p).T


def arc(shape, p, q):
    """Distance of points in terms of the surface's parameters."""
    if shape[0] == 'dish':
        p, q = p[:2], q[:2]
    c = N.sqrt(((p - q)**2).sum(axis=0))
    if shape[0] in ('sph', 'hemi'):
        return 2*shape[1]*N.arcsin(N.minimum(c/2./shape[1], 1.))
    if shape[0] == 'fcyl':
        R = shape[1]/2.
        h = N.sqrt(((p[:2] - q[:2])**2).sum(axis=0))
        return N.maximum(2*R*N.arcsin(N.minimum(h/2/R, 1.)), N.abs(p[2] - q[2]))
    return c


def step_of(shape, res):
    if shape[0] == 'tri':
        v, w = N.array(shape[1], float), N.array(shape[2], float)
        return max(N.sqrt((e**2).sum()) for e in (v, w, v - w))/(res - 1.)
    return 1./res


def place(shape, T, way, res):
    """(assembly, surface) with the surface at T in the world."""
    Q = build.POSES['skew']
    if way == 'own':
        s = build.surface(shape, T)
        return Assembly(objects=[AssembledObject(surfs=[s])]), s
    if way == 'resized':        # given its size after a mesh at another one
        if shape[0] not in ('sph', 'hemi', 'tri'):
            return place(shape, T, 'object', res)
        old = ('tri', (0.9, 0.3, 0.), (-0.2, 0.7, 0.)) if shape[0] == 'tri' else (shape[0], 0.83*shape[1])
        s = build.surface(old, T)
        s.mesh(res)
        g = s.get_geometry_manager()
        if shape[0] == 'tri':
            g.set_vertices(N.array(shape[1:], dtype=float).T)
        else:
            g.set_radius(shape[1])
        return Assembly(objects=[AssembledObject(surfs=[s])]), s
    s = build.surface(shape, N.eye(4))
    if way == 'object':
        a = Assembly()
        a.add_object(AssembledObject(surfs=[s]), T.copy())
        return a, s
    s = build.surface(shape, N.dot(ref.inv(Q), T))
    if way == 'nested':
        a, t = Assembly(), Assembly()
        a.add_object(AssembledObject(surfs=[s]))
        t.add_assembly(a, Q.copy())
        return t, s
    # moved after it was already meshed and traced
    a = Assembly(objects=[AssembledObject(surfs=[s])])
    s.mesh(3)
    TracerEngine(a).ray_tracer(build.bundle(N.array([[0.1], [0.2], [9.]]), N.array([[0.], [0.], [-1.]])), 1, 0.)
    a.set_transform(Q.copy())
    return a, s


WAYS = ('own', 'object', 'nested', 'moved', 'resized')


def one(R, shape, res, T, way, what, deep):
    asm, s = place(shape, T, way, res)
    m = s.mesh(res)
    R.check(len(m) == 3, what + ': not x, y, z', got=len(m))
    m = N.array([N.array(c, dtype=float) for c in m])
    R.check(m.ndim == 3 and N.isfinite(m).all(), what + ': not a mesh of numbers', shape=m.shape)
    again = N.array([N.array(c, dtype=float) for c in s.mesh(res)])
    R.check(again.shape == m.shape and (again == m).all(), what + ': the second mesh differs')
    rows, cols = m.shape[1:]
    step = step_of(shape, res)
    L = ref.size(shape)
    p = ref.pts(ref.inv(T), m.reshape(3, -1))
    tol = 1e-9*(L + N.abs(T[:3, 3]).max())
    # on the surface, inside its outline
    r = N.abs(ref.residual(shape, p))
    R.check((r <= tol).all(), what + ': a mesh point is off the surface', worst=r.max(), at=p[:, r.argmax()])
    mg = ref.margin(shape, p)
    R.check((mg >= -step - tol).all(), what + ': a mesh point is more than a step outside the outline', worst=mg.min(), step=step, at=p[:, mg.argmin()])
    R.state(p.shape[1])
    R.step(p.shape[1])
    # neighbours
    g = p.reshape(3, rows, cols)
    for nm, x, y in (('rows', g[:, 1:], g[:, :-1]), ('columns', g[:, :, 1:], g[:, :, :-1])):
        if x.size:
            a = arc(shape, x.reshape(3, -1), y.reshape(3, -1))
            R.check((a <= 2*step + 1e-7*L).all(), what + ': neighbouring points are more than two steps apart', across=nm, got=a.max(), step=step)
            R.step(len(a))
    # every part of the surface is near the mesh
    q = lattice(shape)
    for i in range(0, q.shape[1], 64):
        blk = q[:, i:i + 64]
        dist = arc(shape, N.repeat(blk, p.shape[1], 1), N.tile(p, (1, blk.shape[1]))).reshape(blk.shape[1], -1).min(axis=1)
        # a step along each of the two parameters, half of it inside a regular grid
        lim = 1.13 if shape[0] in ('round', 'dish') else 1.02
        lim = lim*N.ones(len(dist))
        if shape[0] == 'rect':      # the grid of a plate starts at its edges, so its steps can be two long
            lim[ref.margin(shape, blk) > 1e-9] = 1.45
        bad = dist > lim*step + 1e-7*L
        R.check(not bad.any(), what + ': a part of the surface is further than a step from the mesh', point=blk[:, dist.argmax()], got=dist.max(), step=step)
    R.step(q.shape[1])
    R.trace()
    # the mesh is where rays hit
    if deep:
        w = m.reshape(3, -1)
        inside = N.nonzero(mg > 1e-6*L)[0] if not N.isinf(mg).all() else N.arange(p.shape[1])
        inside = inside[::max(1, len(inside)//400)]
        if len(inside):
            nrm = ref.vecs(T, ref.normal(shape, p[:, inside]))
            for side in (1, -1):
                d = -side*nrm
                o = w[:, inside] - 0.05*L*d
                e = TracerEngine(asm)
                e.ray_tracer(build.bundle(o, d), 1, 0.)
                R.check(e.tree.num_bunds() == 2, what + ': rays at the mesh do not hit')
                par = N.array(e.tree[1].get_parents()).astype(int)
                R.check(sorted(par) == list(range(len(inside))), what + ': a ray at a mesh point does not hit the surface', got=len(par), want=len(inside))
                R.close(N.array(e.tree[1].get_vertices()), w[:, inside][:, par], what + ': the surface is hit elsewhere than at the mesh', 1e-6)
                R.step(len(par))
                R.trace()
    R.outcome(shape[0])


def cases(tier):
    return [('%d %s' % (i, build.name(s)), (i, tier)) for i, s in enumerate(shapes())]


def run(args, R):
    i, tier = args
    shape = shapes()[i]
    for res in resolutions(shape, tier):
        if shape[0] != 'tri' and res*ref.size(shape) > (31 if tier != 'quick' else 13):
            continue
        for j, (pn, way) in enumerate(itertools.product(sorted(build.POSES), WAYS)):
            if tier == 'quick' and (j + int(7*res)) % 3:
                continue
            one(R, shape, res, build.POSES[pn], way, '%s, resolution %.3g, pose %s (%s)' % (build.name(shape), res, pn, way), j % 2 == 0 or tier != 'quick')
