"""C23: bounding volumes contain exactly the points they describe, in any pose."""
import itertools
import math

import numpy as N

from mc import build, ref
from mc.build import Assembly, AssembledObject, BoundarySphere, BoundaryPlane, BoundaryCylinder

RULE = """Explicit-state exploration: sphere, half-space and cylinder volumes of
several sizes x six ways of holding them (alone, told their container's frame,
in an object of an assembly, in an object of a nested assembly, added to an
object already in place, and as the bound
of a cut sphere) x all sequences of up to 3 (4 in the thorough tier) operations
out of 9 (set location, rotation or transform of the volume, of its object, of
the assembly above, with two values each, turn it only, or ask about other points in between);
after each sequence a lattice of points, near and far, alone and together, in
several orders, is compared with the signed distance to the placed volume.
Bounding rectangles: spheres x placings x planes around them, against the exact
circle of intersection. state = one history; transition = one point decided."""
ASSUME = ["Points within 1e-9 of the volume's border are undecided.",
          "The bounding rectangle is only asked for planes that meet the sphere."]

P1 = ref.pose((1, 2, 3), 1.1, (0.4, -0.2, 1.5))
P2 = ref.pose((-2, 1, 0.5), 2.6, (-1.2, 0.9, -0.3))
P3 = ref.pose((0, 1, 0), math.pi/2, (0.5, 0., 0.))
P4 = ref.pose((1, -1, 2), 0.9)        # only turned
VOLUMES = [('sphere', 1.), ('sphere', 0.35), ('sphere', 3), ('plane', 0), ('cyl', 2.), ('cyl', 0.7), ('cyl', 3)]
HOLD = ('alone', 'told', 'object', 'nested', 'late', 'cut')
OPS = ('loc1', 'loc2', 'rot1', 'trans1', 'trans2', 'outer1', 'outer2', 'outer3', 'ask')


def make(vol, T=None):
    loc = T[:3, 3].copy() if T is not None else None
    rot = T[:3, :3].copy() if T is not None else None
    if vol[0] == 'sphere':
        return BoundarySphere(location=loc, radius=vol[1])
    if vol[0] == 'plane':
        return BoundaryPlane(location=loc, rotation=rot)
    return BoundaryCylinder(diameter=vol[1], location=loc, rotation=rot)


def margin(vol, W, p):
    q = ref.pts(ref.inv(W), p)
    if vol[0] == 'sphere':
        return vol[1] - N.sqrt((q**2).sum(axis=0))
    if vol[0] == 'plane':
        return q[2]
    return vol[1]/2. - N.sqrt(q[0]**2 + q[1]**2)


AX = (-2.3, -0.81, -0.07, 0.44, 1.3)
POINTS = N.array(list(itertools.product(AX, AX, AX)) + [(0, 0, 0), (1, 1, 1), (2, 2, 2), (0.4, -0.2, 1.5), (50., -30., 20.), (1e3, 2e3, -4e3)], dtype=float).T


def points(vol, W):
    """A lattice around the volume, and points close to its border."""
    p = ref.pts(W, POINTS)
    extra = []
    dirs = build.directions(1)[:, ::3]
    if vol[0] == 'sphere':
        for e in (1e-7, -1e-7, 1e-3, -1e-3):
            extra.append(dirs*(vol[1] + e))
    elif vol[0] == 'cyl':
        u = N.array([(math.cos(t), math.sin(t), z) for t in N.arange(0, 6.2, 0.9) for z in (-5., 0., 0.7)]).T
        for e in (1e-7, -1e-7, 1e-3, -1e-3):
            extra.append(u*N.array([[vol[1]/2. + e], [vol[1]/2. + e], [1.]]))
    else:
        for e in (1e-7, -1e-7, 1e-3, -1e-3):
            extra.append(N.array([POINTS[0], POINTS[1], N.full(POINTS.shape[1], e)])[:, ::5])
    return N.hstack([p, POINTS] + [ref.pts(W, x) for x in extra])


class Held(object):
    def __init__(self, vol, how):
        self.vol, self.how = vol, how
        self.b = make(vol)
        self.T = N.eye(4)           # the volume's own frame
        self.O = N.eye(4)           # of its container in the world
        if how == 'object':
            self.obj = AssembledObject(bounds=[self.b])
            self.asm = Assembly(objects=[self.obj])
        elif how == 'late':         # added when everything is in place
            self.obj = AssembledObject(surfs=[build.surface(('flat',))], transform=P3.copy())
            self.inner = Assembly(objects=[self.obj], location=P2[:3, 3].copy(), rotation=P2[:3, :3].copy())
            self.asm = Assembly(subassemblies=[self.inner])
            self.asm.set_transform(P1.copy())
            self.top = P1
            self.b.set_location(N.array([0.2, -0.3, 0.1]))
            self.T[:3, 3] = (0.2, -0.3, 0.1)
            self.obj.add_boundary(self.b)
            self.O = N.dot(N.dot(P1, P2), P3)
        elif how == 'nested':
            self.obj = AssembledObject(surfs=[build.surface(('flat',))])
            self.obj.add_boundary(self.b)
            self.inner = Assembly()
            self.inner.add_object(self.obj, P3.copy())
            self.asm = Assembly()
            self.asm.add_assembly(self.inner, P2.copy())
            self.O = N.dot(P2, P3)
        elif how == 'cut':
            self.R = 40.
            self.cut = build.CutSphereGM(self.R, self.b)
        if how in ('nested', 'late'):   # strangers, which move elsewhere
            self.by = AssembledObject(surfs=[build.surface(('flat',))])
            self.by2 = AssembledObject()
            self.by2.add_boundary(make(('plane', 0)))
            self.far = Assembly(objects=[self.by, self.by2])

    def do(self, op):
        k, which = op[:-1], op[-1]
        M = {'1': P1, '3': P4}.get(which, P2)
        if hasattr(self, 'far'):
            self.by.set_transform(P2.copy())
            self.far.set_transform(N.dot(P3, M))
        if k == 'loc':
            self.b.set_location(M[:3, 3].copy())
            self.T = self.T.copy()
            self.T[:3, 3] = M[:3, 3]
        elif k == 'rot':
            self.b.set_rotation(M[:3, :3].copy())
            self.T = self.T.copy()
            self.T[:3, :3] = M[:3, :3]
        elif k == 'trans':
            self.b.set_transform(M.copy())
            self.T = M.copy()
        elif k == 'outer':
            if self.how == 'told':
                self.b.transform_frame(M.copy())
                self.O = M.copy()
            elif self.how == 'object':
                if which == '1':
                    self.obj.set_transform(M.copy())
                    self.O = N.dot(getattr(self, 'top', N.eye(4)), M)
                    self.mid = M
                else:
                    self.asm.set_transform(M.copy())
                    self.top = M
                    self.O = N.dot(M, getattr(self, 'mid', N.eye(4)))
            elif self.how in ('nested', 'late'):
                if which == '1':
                    self.inner.set_transform(M.copy())
                    self.mid = M
                else:
                    self.asm.set_transform(M.copy())
                    self.top = M
                self.O = N.dot(N.dot(getattr(self, 'top', N.eye(4)), getattr(self, 'mid', P2)), P3)
            elif self.how == 'cut':
                self.O = M.copy()
        else:
            self.b.in_bounds(POINTS.T[:3].copy())

    def world(self):
        return N.dot(self.O, self.T)

    def judge(self, R, what, full):
        if self.how == 'cut':
            self.judge_cut(R, what)
            return
        if hasattr(self, 'far'):
            R.check(list(self.obj.get_boundaries()) == [self.b] and not len(self.by.get_boundaries()) and len(self.by2.get_boundaries()) == 1,
                    what + ': the volumes of an object are not those given to it')
        W = self.world()
        p = points(self.vol, W)
        m = margin(self.vol, W, p)
        want = m > 0
        ok = N.abs(m) > 1e-9*(1 + N.abs(p).max(axis=0))
        R.skip((~ok).sum())
        a = p.T.copy()
        got = N.array(self.b.in_bounds(a))
        R.check((a == p.T).all(), what + ': the points were changed')
        R.check(got.shape == want.shape, what + ': number of answers', got=got.shape, want=want.shape)
        bad = ok & (got.astype(bool) != want)
        R.check(not bad.any(), what + ': wrong about a point', point=p[:, bad][:, :1], got=got[bad][:1], margin=m[bad][:1])
        R.step(ok.sum())
        R.outcome('inside', want.sum())
        R.outcome('outside', (~want).sum())
        if full:
            # points given as whole numbers
            w = N.array(list(itertools.product((-3, -1, 0, 1, 2), repeat=3)))
            m2 = margin(self.vol, W, w.T.astype(float))
            got = N.array(self.b.in_bounds(w.copy()))
            R.check(got.shape == (len(w),), what + ': number of answers', got=got.shape)
            bad = (N.abs(m2) > 1e-8) & (got.astype(bool) != (m2 > 0))
            R.check(not bad.any(), what + ': wrong about a whole-number point', point=w[bad][:1], margin=m2[bad][:1])
            R.step(len(w))
            idx = list(range(0, p.shape[1], 7))
            for n in (0, 1, 2, 3, 4):
                for s in range(0, len(idx) - n + 1, 5):
                    j = idx[s:s + n][::-1]
                    got = N.array(self.b.in_bounds(p[:, j].T.copy()))
                    R.check(got.shape == (n,), what + ': number of answers', got=got.shape, want=n)
                    bad = ok[j] & (got.astype(bool) != want[j])
                    R.check(not bad.any(), what + ': wrong about a point among %d' % n, point=p[:, j][:, bad][:, :1])
                    R.step(n)

    def judge_cut(self, R, what):
        """The volume as the bound of a cut sphere: rays from the centre."""
        W = self.world()
        d = build.directions(2)
        o = N.repeat(self.O[:3, 3][:, None], d.shape[1], 1)
        t = N.array(self.cut.find_intersections(self.O.copy(), build.bundle(o, d)))
        m = margin(self.vol, W, o + self.R*d)
        ok = N.abs(m) > 1e-6
        got = N.isfinite(t)
        bad = ok & (got != (m > 0))
        R.check(not bad.any(), what + ': wrong about a point of a cut sphere', point=(o + self.R*d)[:, bad][:, :1])
        R.step(ok.sum())
        R.outcome('cut sphere')


def histories(R, vol, how, tier):
    depth = 3 if tier == 'quick' else 4
    for n in range(depth + 1):
        for seq in itertools.product(OPS, repeat=n):
            if how == 'alone' and any(s.startswith('outer') for s in seq):
                continue
            if tier == 'quick' and n == 3 and 'ask' in seq[1:]:
                continue
            h = Held(vol, how)
            what = '%s %g (%s) after %s' % (vol[0], vol[1], how, ' '.join(seq) or 'nothing')
            for s in seq:
                h.do(s)
            h.judge(R, what, n <= 1)
            R.state()
            R.trace()


def given(R, vol):
    """Frames given at creation; the caller's arrays stay the caller's."""
    for pn in sorted(build.POSES):
        T = build.POSES[pn]
        loc, rot = T[:3, 3].copy(), T[:3, :3].copy()
        h = Held(vol, 'alone')
        if vol[0] == 'sphere':
            h.b = BoundarySphere(location=loc, radius=vol[1])
        elif vol[0] == 'plane':
            h.b = BoundaryPlane(location=loc, rotation=rot)
        else:
            h.b = BoundaryCylinder(diameter=vol[1], location=loc, rotation=rot)
        h.T = T.copy()
        for spoil in (False, True):
            if spoil:
                loc += 1.
                rot *= -1.
            h.judge(R, '%s %g given in pose %s' % (vol[0], vol[1], pn) + (', arrays then overwritten' if spoil else ''), not spoil)
            R.state()
            R.trace()


def rects(R, how, tier):
    for rad, (T1, O1), pn in itertools.product((1., 0.35, 3), itertools.product((N.eye(4), P1, P2), (N.eye(4), P2, P3)), sorted(build.POSES)):
        h = Held(('sphere', rad), how)
        h.b.set_location(T1[:3, 3].copy())
        if how != 'alone':
            h.b.transform_frame(O1.copy())
        c = T1[:3, 3] if how == 'alone' else ref.pts(O1, T1[:3, 3][:, None])[:, 0]
        # planes through, above and below the centre
        for off in (0., 0.3*rad, -0.62*rad, 0.99*rad, -0.2*rad):
            Q = build.POSES[pn].copy()
            # place the plane so that it passes at distance off from the centre
            shift = c - off*Q[:3, 2] + 0.7*Q[:3, 0] - 1.3*Q[:3, 1]
            F = Q.copy()
            F[:3, 3] = shift
            F0 = F.copy()
            got = h.b.bounding_rect_for_plane(F)
            R.check((F == F0).all(), 'bounding rectangle: argument changed')
            R.check(len(got) == 4, 'bounding rectangle: four numbers')
            r = math.sqrt(rad*rad - off*off)
            q = ref.pts(ref.inv(F0), c[:, None])[:, 0]
            want = (q[0] - r, q[0] + r, q[1] - r, q[1] + r)
            R.close(N.array(got, dtype=float), N.array(want), 'bounding rectangle of sphere %g (%s) for a plane in pose %s at %g' % (rad, how, pn, off), 1e-7)
            R.step()
            R.state()
            R.trace()
    R.outcome('bounding rectangles')


def cases(tier):
    out = [('%s %g %s' % (v[0], v[1], h), ('hist', i, h, tier)) for i, v in enumerate(VOLUMES) for h in HOLD]
    out += [('%s %g given' % v, ('given', i, None, tier)) for i, v in enumerate(VOLUMES)]
    out += [('rectangles, sphere %s' % h, ('rect', 0, h, tier)) for h in ('alone', 'told')]
    return out


def run(args, R):
    kind, i, how, tier = args
    if kind == 'hist':
        histories(R, VOLUMES[i], how, tier)
    elif kind == 'given':
        given(R, VOLUMES[i])
    else:
        rects(R, how, tier)
