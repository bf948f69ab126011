"""C12: receivers account for every hit since the last reset."""
import itertools
import math

import numpy as N

from mc import build, ref, rng, zoo, scene as sc
from mc.build import TracerEngine
from tracer.models.tau_minidish import MiniDish, standard_minidish
from tracer.models.PETAL_dish import PETAL
from tracer.models.homogenized_local_receiver import HomogenizedLocalReceiver
from tracer.models.one_sided_mirror import one_sided_receiver

RULE = """All histories of up to 4 (thorough: 5) actions (tracing different
bundles with several bounces, a bundle that misses, a single ray; resetting one
or all receivers; direct use of the optics with full, partial and empty
selections), with the records asked for after each action or only at the
end, on scenes with specular and diffuse receivers of several
absorptivities, nested and moved: after each, every record is compared as a
multiset with the hits the reference tracer predicts since the last reset.
Histograms: concentrator kinds x receiver sizes and aspects x poses x numbers of
bins, with rays placed in chosen positions of the receiver, over two traces and
a reset, compared with brute-force binning. state = one history; transition =
one recorded hit."""
ASSUME = ["Diffuse reflection is driven by a fixed stream in place of random numbers.", "Hits on a bin's edge are not used."]

P = ref.pose
ACTIONS = ('A', 'B', 'miss', 'one', 'reset first', 'reset all', 'part', 'empty')


def s_specular():
    return sc.asm(sc.obj((('rect', 3., 3.), P(trans=(0, 0, -1.)), ('rec', 0.3)), (('rect', 3., 3.), P((1, 0, 0), math.pi, (0, 0, 1.)), ('rec', 1.))),
                  sc.asm(sc.obj((('sph', 0.4), P(trans=(0.3, 0.1, 0.1)), ('rec', 0.15))), T=P((0, 0, 1), 0.3, (0.1, 0, 0))),
                  sc.obj((('sph', 7.), P(), ('refl', 0.2))))


def s_diffuse():
    return sc.asm(sc.obj((('rect', 3., 3.), P(trans=(0, 0, -1.)), ('lrec', 0.4))), sc.obj((('sph', 3.), P(), ('lrec', 0.25)), (('round', 0.6), P((1, 0, 0), 1., (0.2, 0, 0.5)), ('rec', 0.7))),
                  T=build.POSES['shift'])


def s_refracting():
    return sc.asm(sc.obj((('rect', 4., 4.), P(trans=(0, 0, -0.5)), ('refr', 1., 1.5)), (('rect', 4., 4.), P(trans=(0, 0, -0.8)), ('refr', 1., 1.5))),
                  sc.obj((('rect', 5., 5.), P((1, 0, 0), 0.2, (0, 0, -1.6)), ('rec', 0.5))), sc.obj((('rect', 9., 9.), P((0, 1, 0), math.pi, (0, 0, 2.)), ('rec', 0.)),))


def s_curved():
    return sc.asm(sc.obj((('dish', 3., 1.), P(trans=(0, 0, -1.)), ('rec', 0.1))), sc.obj((('fcyl', 1.2, 1.), P((1, 0, 0), 1.2, (0.3, 0, 0.2)), ('rec', 0.35))),
                  sc.obj((('hemi', 2.6), P((0, 1, 0), 0.3), ('lrec', 0.55))), sc.obj((('cut', 1., ('plane', P(trans=(0, 0, 0.3)))), P((1, 0, 0), 2.4, (0, 0, 0.5)), ('rec', 0.8))))


def s_facets():
    return sc.asm(sc.obj((('tri', (2., 0, 0), (0, 2., 0)), P(trans=(-0.5, -0.5, -0.4)), ('rec', 0.6)), (('tri', (2., 0, 0), (0.3, 1.5, 0)), P((1, 1, 0), 1., (0.1, -0.3, 0.6)), ('rec', 0.9)),
                         (('round', 5.), P(trans=(0, 0, -2.)), ('rec', 0.2)), (('hex', 3., 1.), P((1, 0, 0), math.pi, (0, 0, 2.)), ('rec', 0.45))), T=build.POSES['z120'])


SCENES = {'specular': s_specular, 'diffuse': s_diffuse, 'refracting': s_refracting, 'curved': s_curved, 'facets': s_facets}
BINS = (1, 2, 3, 7, 50, (2, 5), (9, 3))


def cases(tier):
    out = [('%s: %s' % (k, a), ('hist', k, a, tier)) for k in SCENES for a in ACTIONS]
    for k in ('minidish', 'petal', 'standard', 'plain', 'square'):
        for pn in sorted(build.POSES):
            out.append(('histogram %s in pose %s' % (k, pn), ('bins', k, pn, tier)))
    out.append(('one-sided receiver', ('oneside', None, None, tier)))
    return out


class Lab(object):
    def __init__(self, R, k):
        self.R, self.k = R, k
        rng.CONTROL.reset()
        self.s = sc.Scene(SCENES[k]())
        self.recs = [q for q, x in enumerate(self.s.surfs) if x[2][0] in ('rec', 'lrec')]
        o, d, n = zoo.src(5)
        T = self.s.desc[1]
        o, d = ref.pts(T, o), ref.vecs(T, d)
        self.rays = {'A': (o[:, ::2], d[:, ::2], n[::2]), 'B': (o[:, 1::3], d[:, 1::3], n[1::3]), 'one': (o[:, 7:8], d[:, 7:8], n[7:8]),
                     'miss': (N.array([[900., 800., 700.]]).T, N.array([[1., 0, 0]]).T, N.ones(1))}
        self.want = dict((q, []) for q in self.recs)

    def act(self, a):
        if a in self.rays:
            o, d, n = self.rays[a]
            e = TracerEngine(self.s.asm)
            en = 0.5*((N.arange(len(n)) + 1) % 4)     # some carry nothing
            reps = {'A': 3, 'B': 1, 'one': 2, 'miss': 2}[a]
            b = build.bundle(o, d, energy=en, ref_index=n)
            if a in ('B', 'one'):
                # energies given as whole numbers
                b.set_energy((N.arange(len(n)) + 1) % 4)
            e.ray_tracer(b, reps, 0.02)
            for lvl in range(min(e.tree.num_bunds(), reps)):
                b = e.tree[lvl]
                alive = N.array(b.get_energy()) > 0.02 if lvl else N.ones(b.get_num_rays(), dtype=bool)
                st = sc.Step(self.s.surfs, b, alive)
                self.R.check(not (st.und & alive).any(), 'reference undecided: choose other rays')
                for q in self.recs:
                    m = st.who == q
                    self.want[q].append(N.vstack((st.e[m]*self.s.surfs[q][2][1], st.p[:, m])).T)
        elif a == 'reset first':
            self.om(0).reset()
            self.want[self.recs[0]] = []
        elif a == 'reset all':
            for j in range(len(self.recs)):
                self.om(j).reset()
            self.want = dict((q, []) for q in self.recs)
        else:
            # direct use of one surface by its protocol
            surf = self.s.surfs[self.recs[-1]]
            o, d, n = self.rays['A']
            t, u = ref.hits_world(surf[0], surf[1], o, d)
            h = N.nonzero(N.isfinite(t) & ~u)[0]
            sel = h[::-2] if a == 'part' else h[:0]
            en = 2. + N.arange(len(n))
            surf[3].register_incoming(build.bundle(o, d, energy=en, ref_index=n))
            surf[3].select_rays(sel)
            surf[3].get_outgoing()
            surf[3].done()
            self.want[self.recs[-1]].append(N.vstack((en[sel]*surf[2][1], o[:, sel] + d[:, sel]*t[sel])).T)

    def om(self, j):
        return self.s.surfs[self.recs[j]][3].get_optics_manager()

    def check(self, what):
        for j, q in enumerate(self.recs):
            ab, pts = self.om(j).get_all_hits()
            ab, pts = N.asarray(ab), N.asarray(pts)
            want = N.vstack(self.want[q]) if self.want[q] else N.zeros((0, 4))
            self.R.check(ab.shape == (len(want),) and pts.shape == (3, len(want)), what + ': number of hits of receiver %d' % j,
                         absorbed=ab.shape, points=pts.shape, want=len(want))
            if len(want):
                zoo.match(self.R, N.vstack((ab[None], pts)).T, want, 1e-6, what + ': record of receiver %d' % j)
                self.R.close(ab.sum(), want[:, 0].sum(), what + ': total of receiver %d' % j, 1e-8)
            self.R.step(len(want))


def run(args, R):
    kind, k, first, tier = args
    if kind == 'bins':
        return bins(R, k, first, tier)
    if kind == 'oneside':
        return oneside(R)
    depth = 3 if tier == 'quick' else 4

    def go(seq, both=True):
        # every other history asks for the record after each action
        ask = sum(ACTIONS.index(a) for a in seq) % 2
        for look in (0, 1) if both else (ask,):
            lab = Lab(R, k)
            for a in seq:
                lab.act(a)
                if look:
                    for j in range(len(lab.recs)):
                        # (what was returned is the caller's)
                        for x in lab.om(j).get_all_hits():
                            N.asarray(x)[...] = 7.
            lab.check('%s after %s%s' % (k, ', '.join(seq), ', asked after each' if look else ''))
        R.state()
        R.trace()
    # depth-first; a prefix is checked as its own history
    for q in range(1, depth + 1):
        for rest in itertools.product(ACTIONS, repeat=q - 1):
            seq = (first,) + rest
            if tier == 'quick' and q == 3 and seq[1] in ('one', 'part'):
                continue
            go(seq, q < 3 or tier != 'quick')
            R.outcome('length %d' % q)
    if tier == 'quick' and first in ('A', 'empty'):
        for rest in itertools.product(('A', 'miss', 'reset all', 'empty'), repeat=3):
            go((first,) + rest, False)
            R.outcome('length 4')
    R.sample(scene=k, first=first)


# ------------------------------------------------------------------ histograms
def concentrator(k):
    """(assembly, receiver position along the axis, x side, y side)"""
    if k == 'minidish':
        return MiniDish(2.2, 1.3, 0.9, 1.55, 0.41, 0.38, 0.8), 1.55, 0.41, 0.41
    if k == 'petal':
        return PETAL(2.6, 1.2, 0.95, 1.4, 0.35, 0.3, 0.9, 1.3), 1.4, 0.35*1.3, 0.35
    if k == 'standard':
        a, f, W, H = standard_minidish(2., 300., 3.)
        return a, f + H, W, W
    surf = build.surface(('dish', 3., 1.1), None, build.opt.Reflective(0.1))
    if k == 'plain':
        return HomogenizedLocalReceiver(surf, 1.2, (0.5, 0.2), 0.3, 0.9), 1.2, 0.5, 0.2
    return HomogenizedLocalReceiver(surf, 1.3, 0.6, 0.2, 0.9), 1.3, 0.6, 0.6


def bins(R, k, pn, tier):
    T = build.POSES[pn]
    asm, pos, sx, sy = concentrator(k)
    asm.set_transform(T.copy())
    # rays that start just in front of the receiver, all over it, x and y unevenly
    us, vs = (N.arange(13) + 0.37)/13 - 0.5, (N.arange(11) + 0.53)/11 - 0.5
    g = N.array([(u*sx, v*sy) for u in us for v in vs if not (u > 0.1 and v > 0.2)]).T
    n = g.shape[1]
    en = 1. + (N.arange(n) % 17)
    # the receiver's frame is turned over: its x is the dish's x, its y and z are reversed
    o = N.vstack((g[0], -g[1], N.full(n, pos - 0.01)))
    d = N.tile(N.array([[0.], [0.], [1.]]), (1, n))
    rec = asm.get_receiver_surf().get_optics_manager()
    R.check(len(rec.get_all_hits()[0]) == 0, 'a new receiver has hits')

    def expected(sel, nx, ny):
        H = N.zeros((nx, ny))
        for i in sel:
            H[int((g[0, i]/sx + 0.5)*nx), int((g[1, i]/sy + 0.5)*ny)] += en[i]
        return H
    halves = [N.arange(0, n, 2), N.arange(1, n, 3), N.arange(n)]
    seen = []
    for step, sel in enumerate(halves):
        if step == 2:
            rec.reset()
            seen = []
        e = TracerEngine(asm)
        e.ray_tracer(build.bundle(ref.pts(T, o[:, sel]), ref.vecs(T, d[:, sel]), energy=en[sel]), 10, 1e-6)
        R.trace()
        seen += list(sel)
        for nb in BINS:
            # (a hit on an edge between bins is not used)
            nx, ny = nb if isinstance(nb, tuple) else (nb, nb)
            fx, fy = (g[0]/sx + 0.5)*nx, (g[1]/sy + 0.5)*ny
            assert N.abs(fx - N.round(fx)).min() > 1e-6 and N.abs(fy - N.round(fy)).min() > 1e-6
            H, xb, yb = asm.histogram_hits(nb)
            R.close(xb, N.linspace(-sx/2., sx/2., nx + 1), 'edges of the bins along x', 1e-9)
            R.close(yb, N.linspace(-sy/2., sy/2., ny + 1), 'edges of the bins along y', 1e-9)
            want = expected(seen, nx, ny)
            R.close(N.asarray(H), want, 'histogram of %s in pose %s, %dx%d bins' % (k, pn, nx, ny), 1e-8)
            R.close(N.sum(H), en[seen].sum(), 'histogram total', 1e-9)
            R.state()
            R.step(len(seen))
        H = asm.histogram_hits()[0]
        R.check(N.shape(H) == (50, 50), 'default number of bins', got=N.shape(H))
    # no hits, hits without energy, and energies of very different size
    rec.reset()
    R.check(not N.asarray(asm.histogram_hits(5)[0]).any(), 'histogram without hits')
    sel = N.arange(0, n, 4)
    for en2 in (N.zeros(n), N.where(N.arange(n) % 8 == 0, 1e9, 1e-7), N.where(N.arange(n) % 8 == 0, 0., 3.)):
        rec.reset()
        TracerEngine(asm).ray_tracer(build.bundle(ref.pts(T, o[:, sel]), ref.vecs(T, d[:, sel]), energy=en2[sel]), 10, 0.)
        want = N.zeros((6, 6))
        for i in sel:
            want[int((g[0, i]/sx + 0.5)*6), int((g[1, i]/sy + 0.5)*6)] += en2[i]
        H = N.asarray(asm.histogram_hits(6)[0])
        bad = N.abs(H - want) > 1e-8*want
        R.check(not bad.any(), 'histogram of hits with little or no energy', got=H[bad][:3], want=want[bad][:3])
        R.trace()
    # what comes through the optics: everything recorded is in the histogram
    rec.reset()
    oo, dd, nn = zoo.down(9, 4., 1.)
    e = TracerEngine(asm)
    e.ray_tracer(build.bundle(ref.pts(T, oo), ref.vecs(T, dd)), 20, 1e-6)
    ab, pts = rec.get_all_hits()
    loc = ref.pts(N.dot(N.dot(P((1, 0, 0), math.pi), P(trans=(0, 0, -pos))), ref.inv(T)), N.asarray(pts).reshape(3, -1))
    for nb in (4, 9):
        H = N.asarray(asm.histogram_hits(nb)[0])
        R.close(H.sum(), N.sum(ab), 'energy is lost by the histogram', 1e-8)
        for ax, side in ((0, sx), (1, sy)):
            f = (loc[ax]/side + 0.5)*nb
            clear = N.abs(f - N.round(f)) > 1e-6
            marg = H.sum(axis=1 - ax)
            want = N.zeros(nb)
            N.add.at(want, N.clip(f.astype(int), 0, nb - 1), ab)
            if clear.all():
                R.close(marg, want, 'histogram along axis %d' % ax, 1e-8)
    R.outcome('hits through the optics', len(ab))
    R.outcome('histograms')


def oneside(R):
    """One-sided receiver: one record per front hit."""
    for pn in sorted(build.POSES):
        T = build.POSES[pn]
        for a in (0., 0.3, 1.):
            front, obj = one_sided_receiver(1.4, 0.9, a)
            asm = build.Assembly()
            asm.add_object(obj, T.copy())
            o, d = build.cross(zoo.grid3((-0.61, 0.13, 0.78), (-0.38, 0.21, 0.52), (1., -1.)), ref.unit(N.array([(0, 0, -1.), (0, 0, 1), (0.1, 0.05, -1), (-0.1, 0.1, 1)]).T))
            en = 1. + N.arange(o.shape[1]) % 5
            t, u = ref.nearest(('rect', 1.4, 0.9), o, d)
            want = []
            for rep in range(3):
                e = TracerEngine(asm)
                e.ray_tracer(build.bundle(ref.pts(T, o), ref.vecs(T, d), energy=en), 4, 1e-9)
                m = N.isfinite(t) & (d[2] < 0)
                want.append(N.vstack((en[m]*a, ref.pts(T, o[:, m] + d[:, m]*t[m]))).T)
                ab, pts = front.get_optics_manager().get_all_hits()
                R.check(len(ab) == sum(map(len, want)), 'one-sided receiver in pose %s: number of hits' % pn, got=len(ab), want=sum(map(len, want)))
                zoo.match(R, N.vstack((N.asarray(ab)[None], pts)).T, N.vstack(want), 1e-6, 'one-sided receiver in pose %s' % pn)
                R.trace()
                R.state()
                R.step(len(ab))
                if rep == 1:
                    front.get_optics_manager().reset()
                    want = []
