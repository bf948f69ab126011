"""C14: one-sided mirrors and receivers act on one side only."""
import itertools
import math

import numpy as N

from mc import build, ref, zoo, scene as sc
from mc.build import AssembledObject, Assembly, TracerEngine
from tracer.models.one_sided_mirror import rect_one_sided_mirror, one_sided_receiver

RULE = """One-sided mirrors, one-sided receivers and directional absorbing
reflectors (on rectangles, discs, triangles and planes) x sizes x absorptivities
x poses (direct, by object, by assembly, moved or turned in place after use) x a grid of starts on
both sides and directions from head-on to 1e-5 (the back of receivers: 1e-3) off the surface; all sequences of up to 3 out
of 7 ray classes (front, back, oblique, missing on either side, leaving);
rays given in whole numbers; multi-bounce scenes of facing, back-to-back and boxed one-sided plates with
other objects around. Every step is compared with the side rule in lockstep with
the reference tracer, and every receiver's record with the front hits. state =
one ray at one level; transition = one step."""
ASSUME = ["Rays closer than 1e-6 to an edge, or tangential, are undecided.",
          "A one-sided receiver's two surfaces (1e-10 apart) are one plate to the reference."]

P = ref.pose
ABS = (0., 0.1, 0.45, 1.)
SIZES = ((1.4, 0.9), (0.6, 2.2), (7., 7.))


def plate(kind, size, a):
    """(real object, [model surface without frame], receiver surface or None)"""
    if kind == 'mirror':
        return rect_one_sided_mirror(size[0], size[1], a), ('rect',) + size, None
    if kind == 'receiver':
        front, o = one_sided_receiver(size[0], size[1], a)
        return o, ('rect',) + size, front
    shape = {'rect': ('rect',) + size, 'round': ('round', size[0]/2.), 'tri': ('tri', (size[0], 0, 0), (0.2*size[0], size[1], 0)), 'flat': ('flat',)}[kind]
    return AssembledObject(surfs=[build.surface(shape, None, build.opt.AbsorberReflector(a))]), shape, None


KINDS = ('mirror', 'receiver', 'rect', 'round', 'tri', 'flat')


class View(object):
    """A scene of one-sided plates and plain objects, for lockstep."""
    def __init__(self):
        self.asm = Assembly()
        self.surfs = []
        self.front = []

    def add(self, kind, size, a, T):
        o, shape, front = plate(kind, size, a)
        self.asm.add_object(o, T.copy())
        if front is not None:
            self.front.append((len(self.surfs), front))
        self.surfs.append((shape, T.copy(), ('updown', a), None))
        return o

    def plain(self, shape, T, optics):
        self.asm.add_object(AssembledObject(surfs=[build.surface(shape, None, sc.make_optics(optics))]), T.copy())
        self.surfs.append((shape, T.copy(), optics, None))

    def move(self, M):
        self.asm.set_transform(M.copy())
        self.surfs = [(s[0], N.dot(M, s[1]), s[2], s[3]) for s in self.surfs]


def cases(tier):
    out = [('%s in pose %s' % (k, p), ('single', k, p, tier)) for k in KINDS for p in sorted(build.POSES)]
    out += [('mixtures on %s, absorbing %g' % (k, a), ('mix', k, a, tier)) for k in KINDS for a in ABS]
    out += [('whole numbers, %s' % k, ('whole', k, None, tier)) for k in KINDS]
    out += [('scene %s %d' % (s, m), ('scene', s, m, tier)) for s in SCENES for m in range(4)]
    return out


def records(R, view, e, me, reps, what):
    """Every receiver has exactly its front hits."""
    want = dict((q, []) for q, _ in view.front)
    for lvl in range(min(e.tree.num_bunds(), reps)):
        b = e.tree[lvl]
        alive = N.array(b.get_energy()) > me if lvl else N.ones(b.get_num_rays(), dtype=bool)
        st = sc.Step(view.surfs, b, alive)
        if (st.und & alive).any():
            return
        for q, f in view.front:
            m = (st.who == q) & ((st.d*view.surfs[q][1][:3, 2][:, None]).sum(axis=0) < 0)
            want[q].append(N.vstack((st.e[m]*view.surfs[q][2][1], st.p[:, m])).T)
    for q, f in view.front:
        ab, pts = f.get_optics_manager().get_all_hits()
        w = N.vstack(want[q]) if want[q] else N.zeros((0, 4))
        R.check(len(ab) == len(w), what + ': hits recorded', got=len(ab), want=len(w))
        zoo.match(R, N.vstack((N.asarray(ab)[None], N.asarray(pts).reshape(3, -1))).T, w, 1e-6, what + ': record')
        R.outcome('recorded', len(w))


def sides(R, view, bund, e, what):
    """The first interaction, spelled out without the reference tracer's
    optics: from above the stated part goes on upwards, from below nothing."""
    tree = e.tree
    if tree.num_bunds() < 2:
        return
    par = N.array(tree[1].get_parents()).astype(int)
    up = view.surfs[0][1][:3, 2]
    din = N.array(bund.get_directions())[:, par]
    out = N.array(tree[1].get_directions())
    en, before = N.array(tree[1].get_energy()), N.array(bund.get_energy())[par]
    proj = (din*up[:, None]).sum(axis=0)
    a = view.surfs[0][2][1]
    R.check((N.abs(en[proj > 1e-9]) == 0).all(), what + ': light from below is not absorbed', got=en[proj > 1e-9][:3])
    m = proj < -1e-9
    R.close(en[m], before[m]*(1 - a), what + ': light from above is not reflected with the stated efficiency', 1e-9)
    R.check(((out*up[:, None]).sum(axis=0)[m] > 0).all(), what + ': light from above does not leave upwards')
    R.outcome('from above', m.sum())
    R.outcome('from below', (proj > 1e-9).sum())


def run(args, R):
    kind, k, x, tier = args
    if kind == 'single':
        T = build.POSES[x]
        for size in SIZES:
            L = max(size)
            o, d = build.cross(L*zoo.grid3((-0.39, 0.07, 0.61), (-0.24, 0.11, 0.33), (0.8, -0.8, 0.02, -0.02)), build.directions(1))
            # grazing light from both sides, starting close to the plate
            go, gd = [], []
            for eps in (1e-5, 1e-4, 1e-3, 4e-3, 1e-2, 3e-2):
                for ang in (0.3, 1.9, 3.4, 5.2):
                    for s in (1, -1):
                        if k == 'receiver' and s == -1 and eps < 1e-3:
                            continue        # (its back is 1e-10 below)
                        gd.append((math.cos(ang), math.sin(ang), -s*eps))
                        go.append((0.07*min(size)*math.cos(2*ang), 0.06*min(size)*math.sin(ang), s*eps*0.1*min(size)))
            o, d = N.hstack((o, N.array(go).T)), N.hstack((d, ref.unit(N.array(gd).T)))
            for a in ABS:
                for way in ('object', 'moved', 'later', 'turned'):
                    if tier == 'quick' and way != 'object' and a in (0., 1.):
                        continue
                    v = View()
                    if way == 'object':
                        v.add(k, size, a, T)
                    elif way == 'moved':
                        v.add(k, size, a, N.dot(ref.inv(build.POSES['skew']), T))
                        v.move(build.POSES['skew'])
                    else:
                        F = build.POSES['x90'].copy()
                        if way == 'turned':         # in place
                            F[:3, 3] = T[:3, 3]
                        obj = v.add(k, size, a, F)
                        TracerEngine(v.asm).ray_tracer(build.bundle(ref.pts(F, o), ref.vecs(F, d)), 2, 0.)
                        for _, f in v.front:
                            f.get_optics_manager().reset()
                        obj.set_transform(T.copy())
                        v.asm.transform_children()
                        v.surfs = [(v.surfs[0][0], T.copy()) + v.surfs[0][2:]]
                    b = build.bundle(ref.pts(T, o), ref.vecs(T, d), energy=1. + N.arange(o.shape[1]) % 4)
                    what = '%s %s absorbing %g in pose %s (%s)' % (k, size, a, x, way)
                    e, _ = sc.lockstep(R, v, b, 3, 0., what, L, ('count', 'place', 'dir', 'energy'))
                    sides(R, v, b, e, what)
                    R.check(e.tree.num_bunds() <= 2, what + ': light meets the plate again', levels=e.tree.num_bunds())
                    records(R, v, e, 0., 3, what)
    elif kind == 'mix':
        size, T = (2., 3.), build.POSES['skew2']
        cls = [((0.1, 0.2, 1.), (0, 0, -1.)), ((0.2, 0.1, -1.), (0, 0, 1.)), ((0.3, 0.3, 0.5), (0.2, -0.3, -1.)), ((0.1, 0.4, -0.6), (-0.1, 0.2, 1.)),
               ((9., 0, 1.), (0, 0, -1.)), ((0.1, 0.1, 0.3), (0.1, 0, 1.)), ((0.3, 0.2, -0.3), (0, 0.1, -1.))]
        for q in (1, 2, 3):
            for c in itertools.product(range(len(cls)), repeat=q):
                if tier == 'quick' and q == 3 and (sum(c) + len(k)) % 2:
                    continue
                o = N.array([cls[i][0] for i in c]).T
                d = ref.unit(N.array([cls[i][1] for i in c]).T)
                v = View()
                v.add(k, size, x, T)
                b = build.bundle(ref.pts(T, o), ref.vecs(T, d), energy=2. + N.arange(q))
                what = '%s absorbing %g, rays %s' % (k, x, c)
                e, _ = sc.lockstep(R, v, b, 2, 0., what, 3., ('count', 'place', 'dir', 'energy'))
                sides(R, v, b, e, what)
                records(R, v, e, 0., 2, what)
    elif kind == 'whole':
        # rays given as arrays of whole numbers
        eye = N.eye(3, dtype=int)
        o, d = build.cross(N.array(list(itertools.product((-2, -1, 0, 1), (-1, 0, 1, 2), (-3, 0, 2)))).T, N.hstack((eye, -eye)))
        for pn, a in itertools.product(sorted(build.POSES), ABS):
            T = build.POSES[pn].copy()
            T[:3, 3] = (0.13, -0.21, 0.34)
            v = View()
            v.add(k, (7.3, 8.1), a, T)
            b = build.bundle(o, d)
            b.set_energy(1 + N.arange(o.shape[1]) % 4)
            what = 'whole numbers, %s absorbing %g in pose %s' % (k, a, pn)
            e, _ = sc.lockstep(R, v, b, 2, 0, what, 8., ('count', 'place', 'dir', 'energy'))
            sides(R, v, b, e, what)
            records(R, v, e, 0., 2, what)
    else:
        M = (N.eye(4), build.POSES['skew'], build.POSES['flip'], build.POSES['y-90'])[x]
        for kinds in (('mirror', 'mirror'), ('mirror', 'receiver'), ('receiver', 'rect'), ('receiver', 'receiver')):
            for a in (0.1, 0.45):
                v = View()
                SCENES[k](v, kinds, a)
                v.move(M)
                o, d, n = zoo.src(3)
                b = build.bundle(ref.pts(M, o), ref.vecs(M, d))
                what = 'scene %s of %s absorbing %g, moved %d' % (k, kinds, a, x)
                e, _ = sc.lockstep(R, v, b, 6, 1e-3, what, 4., ('count', 'place', 'dir', 'energy'))
                records(R, v, e, 1e-3, 6, what)


def s_facing(v, kinds, a):
    v.add(kinds[0], (3.1, 3.3), a, P((1, 0, 0), 0.02, (0, 0, -1.)))
    v.add(kinds[1], (3.2, 2.9), a/2, P((1, 0.1, 0), math.pi, (0, 0, 1.1)))


def s_back(v, kinds, a):
    """Back to back, a mirror wall on either side."""
    v.add(kinds[0], (1.7, 1.9), a, P((0, 1, 0), 0.1, (0, 0, 0.013)))
    v.add(kinds[1], (1.7, 1.9), a/3, P((0, 1, 0), math.pi + 0.1, (0, 0, -0.02)))
    v.plain(('rect', 9., 9.), P((1, 0, 0), 0.1, (0, 0, -2.)), ('refl', 0.2))
    v.plain(('rect', 9., 9.), P((1, 0, 0), 3., (0, 0, 2.)), ('refl', 0.3))


def s_box(v, kinds, a):
    for i in range(4):
        T = N.dot(P((0, 0, 1), i*math.pi/2 + 0.01), P((0, 1, 0), -math.pi/2, (1., 0, 0)))
        v.add(kinds[i % 2], (2.3, 2.02), a*(1 + 0.2*i), T)


def s_dome(v, kinds, a):
    v.add(kinds[0], (1.1, 1.3), a, P((1, 0.3, 0), 0.8, (0.5, 0.2, -0.3)))
    v.add(kinds[1], (1.4, 0.7), a/2, P((0.2, 1, 0), 2.4, (-0.6, 0, 0.4)))
    v.plain(('sph', 3.), P(), ('refl', 0.1))


SCENES = {'facing': s_facing, 'back to back': s_back, 'box': s_box, 'dome': s_dome}
