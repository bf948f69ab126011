"""C20: aimed heliostats send the sun's light to the target."""
import itertools
import math

import numpy as N

from mc import build, ref
from mc.build import Assembly, AssembledObject, TracerEngine
from tracer.models.heliostat_field import HeliostatField, radial_stagger, solar_vector

RULE = """(a) Explicit-state exploration of a heliostat field: all sequences of
up to 4 operations out of 12 (aim at one of 5 suns, two of them 5e-4 rad apart, change the aim height, move
or turn the field, move what contains it, overwrite the caller's array of
positions, trace, list the heliostats), in 3 starting arrangements; after every
prefix each heliostat's place, size and orientation, and what it makes of light
on its centre, are compared with the model (last sun and aim height of the last
aiming, current frames). (b) Single aimings: a grid of sun azimuths and
elevations x aim heights x positions all around, above and below the target
height, float and integer x sizes x absorptivities x poses. (c) Radial-stagger
layouts: all combinations of start and end angles, spacings and radii. state =
one operation prefix or aiming; transition = one heliostat compared."""
ASSUME = ["The sun's direction follows the existing convention: (-sin az sin el, -cos az sin el, cos el), el measured from the vertical.",
          "A sun exactly behind the target as seen from a heliostat has no bisecting mirror and is left out.",
          "A radius or angle within rounding of the end of its range may be in or out."]


def sun(az, el):
    return N.array([-math.sin(az)*math.sin(el), -math.cos(az)*math.sin(el), math.cos(el)])


def corners(m):
    m = N.asarray(m)
    return N.array([m[:, 0, 0], m[:, 0, -1], m[:, -1, -1], m[:, -1, 0]]).T


def judge(R, field, asm, W, pos, size, a, aimed, what):
    """Compare a field with the model: W world frame of the field, pos
    positions, aimed = None or (sun in the field's frame, aim height)."""
    hs = list(field.get_heliostats())
    R.check(len(hs) == len(pos), what + ': number of heliostats', got=len(hs), want=len(pos))
    n = len(pos)
    C = ref.pts(W, pos.T)
    scale = 1 + N.abs(C).max() + (abs(aimed[1]) if aimed else 0)
    if aimed is None:
        normals = N.repeat(N.array([[0.], [0.], [-1.]]), n, 1)
    else:
        s, th = aimed
        tv = ref.unit(N.array([[0.], [0.], [th]]) - pos.T)
        normals = ref.unit(tv + s[:, None])
    normals = ref.vecs(W, normals)
    m = N.array([corners(h.get_surfaces()[0].mesh(1e-3)) for h in hs])      # heliostat, axis, corner
    R.close(m.mean(axis=2).T, C, what + ': a heliostat is not at its position', 1e-9*scale)
    e1, e2 = m[:, :, 1] - m[:, :, 0], m[:, :, 3] - m[:, :, 0]
    l1, l2 = N.sqrt((e1**2).sum(axis=1)), N.sqrt((e2**2).sum(axis=1))
    R.close(N.sort(N.array([l1, l2]), axis=0).T, N.tile(sorted(float(q) for q in size), (n, 1)), what + ': size of a heliostat', 1e-9*scale)
    R.check((N.abs((e1*e2).sum(axis=1)) <= 1e-9*l1*l2*scale).all(), what + ': a heliostat is not rectangular')
    nr = ref.unit(N.cross(e1, e2).T)
    bad = ~(N.abs(N.abs((nr*normals).sum(axis=0)) - 1) <= 1e-9)
    R.check(not bad.any(), what + ': a heliostat is not turned as it should', heliostat=N.nonzero(bad)[0][:3], got=nr[:, bad][:, :1], want=normals[:, bad][:, :1])
    # light on the centres: from the sun, and from behind
    eps = 0.01*min(size)
    if aimed is None:
        d_front = ref.vecs(W, N.repeat(ref.unit(N.array([[0.3], [-0.2], [1.]])), n, 1))
    else:
        d_front = ref.vecs(W, N.repeat(-aimed[0][:, None], n, 1))
    for front in (True, False):
        d = d_front if front else d_front - 2*normals*(d_front*normals).sum(axis=0)
        o = C - eps*d
        b = build.bundle(o, d, energy=2. + N.arange(n))
        e = TracerEngine(asm)
        e.ray_tracer(b, 1, 0.)
        R.trace()
        R.check(e.tree.num_bunds() == 2, what + ': light on the centres of the heliostats misses them')
        par = N.array(e.tree[1].get_parents()).astype(int)
        R.check(sorted(par) == list(range(n)), what + ': light on the centre of a heliostat misses it', got=par)
        v, dd, en = N.array(e.tree[1].get_vertices()), N.array(e.tree[1].get_directions()), N.array(e.tree[1].get_energy())
        R.close(v, C[:, par], what + ': light does not meet a heliostat at its centre', 1e-9*scale)
        if not front:
            R.check((N.abs(en) == 0).all(), what + ': the back of a heliostat reflects', got=en)
            continue
        R.close(en, (2. + par)*(1 - a), what + ': reflected energy', 1e-9)
        if aimed is None:
            R.close(dd, (d - 2*normals*(d*normals).sum(axis=0))[:, par], what + ': light from below on a stowed heliostat', 1e-7)
        else:
            goal = ref.pts(W, N.array([[0.], [0.], [aimed[1]]]))
            way = goal - v
            dist = N.sqrt((way**2).sum(axis=0))
            miss = N.sqrt((N.cross(way.T, dd.T)**2).sum(axis=1))
            R.check((miss <= 1e-6*dist + 1e-9*scale).all() and ((way*dd).sum(axis=0) > 0).all(),
                    what + ': a heliostat does not send the sun to the target', heliostat=par[miss.argmax()], misses_by=miss.max(), distance=dist[miss.argmax()])
        R.step(n)
    R.state()


# ------------------------------------------------------------------ histories
POS = N.array([[30., 4., 0.], [-25., 12., 1.5], [3., -40., -2.], [18., 33., 0.5]])
SUNS = [(math.pi/2, math.pi/4), (0.3, 1.1), (-2.2, 0.2), (4., 0.), (0.3 + 4e-4, 1.1 - 3e-4)]
MOVE = ref.pose((1, 0.4, -0.2), 0.6, (5., -7., 3.))
OPS = [('aim', 0), ('aim', 1), ('aim', 2), ('aim', 3), ('aim', 4), ('height', 55.), ('height', -6.), ('move', 'transform'), ('move', 'location'), ('outer',), ('overwrite',), ('look',)]


class World(object):
    def __init__(self, arrangement):
        self.given = POS.copy()
        self.size = (3., 2.2)
        self.a = 0.15
        self.field = HeliostatField(self.given, self.size[0], self.size[1], self.a, 40.)
        self.th = 40.
        self.aimed = None
        self.F = N.eye(4)
        self.outer = N.eye(4)
        self.asm = self.field
        self.arr = arrangement
        if arrangement == 'nested':
            self.asm = Assembly(subassemblies=[self.field])
        elif arrangement == 'placed':
            self.asm = Assembly()
            self.F = build.POSES['skew'].copy()
            self.asm.add_assembly(self.field, self.F.copy())

    def do(self, op, R, what):
        k = op[0]
        if k == 'aim':
            az, el = SUNS[op[1]]
            self.field.aim_to_sun(az, el)
            self.aimed = (sun(az, el), self.th)
        elif k == 'height':
            self.field.set_aim_height(op[1])
            self.th = op[1]
        elif k == 'move':
            if op[1] == 'transform':
                self.F = N.dot(MOVE, self.F)
                self.field.set_transform(self.F.copy())
            else:
                self.F = self.F.copy()
                self.F[:3, 3] += (2., 3., -1.)
                self.field.set_location(self.F[:3, 3].copy())
        elif k == 'outer':
            if self.asm is not self.field:
                self.outer = N.dot(self.outer, build.POSES['y-90'])
                self.asm.set_transform(self.outer.copy())
        elif k == 'overwrite':
            self.given += 11.
        else:
            list(self.field.get_heliostats())
            R.check(len(self.asm.get_surfaces()) == len(POS), what + ': surfaces')

    def judge(self, R, what):
        judge(R, self.field, self.asm, N.dot(self.outer, self.F), POS, self.size, self.a, self.aimed, what)


def histories(R, arrangement, first, depth):
    """Every sequence beginning with `first`; only the last state of each is
    judged (its prefixes are sequences of their own)."""
    for n in range(depth):
        for rest in itertools.product(range(len(OPS)), repeat=n):
            seq = (first,) + rest
            w = World(arrangement)
            what = '%s: %s' % (arrangement, ' '.join('-'.join(map(str, OPS[i])) for i in seq))
            for i in seq:
                w.do(OPS[i], R, what)
            w.judge(R, what)
            R.outcome('aimed' if w.aimed else 'stowed')


# ------------------------------------------------------------------ single aimings
def single(R, pn, tier):
    T = build.POSES[pn]
    ring = N.array([(r*math.cos(p + r), r*math.sin(p + r), z) for (r, z), p in itertools.product(((7., 0.), (60., 4.5), (400., 0.)), N.arange(0.1, 6.2, 1.0471))] +
                   [(10., 0., 0.), (0., 20., 0.), (-30., 0., 1.), (0., -40., 2.), (0., 0., 0.), (80., 0., 30.)])
    whole = N.array([(10, 0, 0), (0, 20, 1), (-30, 5, 0), (3, -4, 2)], dtype=int)
    azs = N.arange(-3., 6.9, 1.9 if tier == 'quick' else 0.37)
    els = (0., 0.02, 0.4, math.pi/4, 1.2, math.pi/2 - 0.01) if tier == 'quick' else N.linspace(0, math.pi/2, 14)
    for th, pos in ((90., ring), (12.5, whole), (2, ring), (90, whole), (-3.5, whole)) if tier == 'quick' else list(itertools.product((90., 12.5, 2), (ring, whole))) + [(-3.5, whole)]:
        pos0 = pos.copy()
        size, a = ((0.9, 0.7), 0.) if th == 90. else ((1.4, 2.), 0.23)
        for az, el in itertools.product(list(azs) + [math.pi/2, 0.], els):
            f = HeliostatField(pos, size[0], size[1], a, th)
            f.set_transform(T.copy())
            s = sun(az, el)
            tv = ref.unit(N.array([[0.], [0.], [th]]) - pos.T)
            if (N.sqrt(((tv + s[:, None])**2).sum(axis=0)) < 1e-3).any():
                continue
            R.close(N.array(solar_vector(az, el)), s, 'solar vector', 1e-9, azimuth=az, elevation=el)
            f.aim_to_sun(az, el)
            # heliostats far apart do not shade each other's centre from so near
            judge(R, f, f, T, pos.astype(float), size, a, (s, th), 'sun %.3g %.3g, target at %g, pose %s' % (az, el, th, pn))
            R.check((pos == pos0).all(), 'the positions given were changed')
    R.outcome('single aimings')


# ------------------------------------------------------------------ layouts
def span(lo, hi, step):
    """Values of the range, and those at its very end that rounding decides."""
    out, maybe = [], []
    k = 0
    while lo + k*step < hi + 1e-9*abs(step):
        v = lo + k*step
        (maybe if v > hi - 1e-9*abs(step) else out).append(v)
        k += 1
    return out, maybe


STARTS = (-math.pi/4, 0., 1.1, -3., 0)


def layouts(R, s0, tier):
    starts = (STARTS[s0],)
    widths = (0.3, 1.57, math.pi/2, 3.9, 6.2, 2)
    for s, w, az, rmin, dr, sp in itertools.product(starts, widths, (0.11, 0.4, math.pi/2, 1), (5, 20., 71.3), (0.5, 9., 31), (1, 2.7, 11.)):
        what = 'radial stagger from %g to %g by %g, radii %g to %g by %g' % (s, s + w, az, rmin, rmin + dr, sp)
        p = N.array(radial_stagger(s, s + w, az, rmin, rmin + dr, sp), dtype=float)
        R.check(p.ndim == 2 and p.shape[1] == 2, what + ': shape', got=p.shape)
        rs, rm = span(rmin, rmin + dr, sp)
        an, am = span(s, s + w, az/2.)
        must, may = set(), set()
        for i, r in enumerate(rs + rm):
            for j, t in enumerate(an + am):
                if i % 2 == j % 2:
                    (must if i < len(rs) and j < len(an) else may).add((i, j))
        angs = N.array(an + am)
        r = N.hypot(p[:, 0], p[:, 1])
        rows = N.rint((r - rmin)/sp).astype(int)
        bad = ~(N.abs(r - rmin - rows*sp) <= 1e-7*r)
        R.check(not bad.any(), what + ': off the radii', got=r[bad][:3])
        near = (N.abs(N.outer(r, N.cos(angs)) - p[:, :1]) < 1e-7*r[:, None]) & (N.abs(N.outer(r, N.sin(angs)) - p[:, 1:]) < 1e-7*r[:, None])
        got, used = [], set()
        for q in range(len(p)):
            # (angles may wrap around)
            js = [(rows[q], j) for j in N.nonzero(near[q])[0] if (rows[q], j) in must or (rows[q], j) in may]
            R.check(len(js) >= 1, what + ': a heliostat is off the stated angles', at=p[q], row=rows[q])
            js = [c for c in js if c not in used] or js
            got.append(js[0])
            used.add(js[0])
        R.check(len(set(got)) == len(got), what + ': a place is used twice')
        R.check(must <= set(got), what + ': a place is left out', missing=sorted(must - set(got))[:4])
        R.state()
        R.step(len(p))
        R.trace()
        R.outcome('places', len(p))
    R.outcome('layouts')


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    out = [('%s field, first %s' % (arr, '-'.join(map(str, OPS[i]))), ('hist', arr, i, depth)) for arr in ('top', 'nested', 'placed') for i in range(len(OPS))]
    out += [('aiming in pose %s' % pn, ('single', pn, 0, tier)) for pn in sorted(build.POSES)]
    out += [('layouts from %d: %g' % (i, s), ('layouts', i, 0, tier)) for i, s in enumerate(STARTS)]
    return out


def run(args, R):
    kind, x, y, tier = args
    if kind == 'hist':
        histories(R, x, y, tier)
    elif kind == 'single':
        single(R, x, tier)
    else:
        layouts(R, x, tier)
