"""C11: tracing has no side effects and can be repeated."""
import itertools

import numpy as N

from mc import build, ref, rng, zoo, scene as sc
from mc.build import TracerEngine, Assembly, AssembledObject

RULE = """All histories of up to 2 actions (3 of the six main ones on two scenes; thorough: 3 everywhere, 4 on five)
out of: tracing this or another bundle with the same or a new engine, with and
without a tree, tracing a single ray, moving a member or the whole scene and
back, turning every part in place and back, drawing all meshes, asking surfaces for intersections without finishing;
on every scene and ready-made model. After each history the reference trace is
repeated, with the used and with a new engine, and must equal that of a fresh
scene, and again after an object or surface is added; source bundles, frames, meshes and every bundle recorded earlier are
unchanged. Geometry protocol: for every shape all sequences of up to 3 uses
(bundle, frame, selection, finished or not) answer as a fresh geometry does, and all pairs of uses of one bundle and frame
array that the caller refills, and uses of two spheres cut by the same volume.
state = one history; transition = one action."""
ASSUME = ["Deterministic optics."]

ACTIONS = ('trace A', 'trace B', 'trace A new', 'trace C', 'no tree', 'move top', 'move part', 'turn', 'draw', 'ask')
DEEP = ('two', 'one-sided', 'pool', 'minidish', 'lens')


def cases(tier):
    out = []
    for kind, names in (('scene', zoo.SCENES), ('model', zoo.MODELS)):
        for k in names:
            for a in ACTIONS:
                out.append(('%s %s: %s' % (kind, k, a), (kind, k, a, tier)))
    out += [('protocol %d' % i, ('protocol', i, None, tier)) for i in range(len(build.shapes()))]
    return out


def frames(asm):
    out = [N.array(asm.get_transform())]
    for x in list(asm.get_assemblies()):
        out += frames(x)
    for o in asm.get_local_objects():
        out.append(N.array(o.get_transform()))
        out += [N.array(s.get_transform()) for s in o.get_surfaces()]
    return out


PTS = N.array([(0.3, -0.2, 0.9), (1., 2., -3.), (0, 0, 0)]).T


def placed(asm):
    return [N.array(s.global_to_local(PTS))[:3] for s in asm.get_surfaces()]


def same(R, a, b, what):
    R.check(len(a) == len(b), what + ': number')
    for x, y in zip(a, b):
        R.close(x, y, what, 0)


def same_trace(R, got, want, what):
    R.check(len(got) == len(want), what + ': number of levels', got=len(got), want=len(want))
    for lvl, (g, w) in enumerate(zip(got, want)):
        for k in w:
            R.close(g[k], w[k], what + ', level %d: %s' % (lvl, {'v': 'vertices', 'd': 'directions', 'e': 'energy', 'n': 'index', 'p': 'parents', 't': 'custom property'}[k]), 1e-12)


class Lab(object):
    def __init__(self, kind, k, few):
        made, o, d, n = (zoo.SCENES if kind == 'scene' else zoo.MODELS)[k]()
        self.asm = sc.Scene(made).asm if kind == 'scene' else made
        step = max(1, o.shape[1]//few)
        sel = {'A': N.arange(0, o.shape[1], step), 'B': N.arange(1, o.shape[1], step + 1)[::-1], 'C': N.array([o.shape[1]//3])}
        self.src = dict((x, {'v': o[:, s].copy(), 'd': d[:, s].copy(), 'e': 0.4 + 0.3*(s % 4), 'n': n[s].copy()}) for x, s in sel.items())
        # (B comes from inside a medium, C from another)
        for x, n in (('B', 1.5), ('C', 1.33)):
            self.src[x]['n'][:] = n
        self.bund = dict((x, build.bundle(v['v'], v['d'], energy=v['e'], ref_index=v['n'])) for x, v in self.src.items())
        self.eng = TracerEngine(self.asm)
        self.kept = []      # (tree bundles, snapshot)
        self.returned = []

    def trace(self, which, eng=None, tree=True, reps=4):
        eng = eng or self.eng
        ret = eng.ray_tracer(self.bund[which], reps, 0.05, tree=tree) if not tree else eng.ray_tracer(self.bund[which], reps, 0.05)
        self.returned.append((ret, [N.array(x) for x in ret]))
        if tree:
            self.kept.append((eng.tree, zoo.snapshot(eng.tree)))

    def act(self, a):
        if a == 'trace A':
            self.trace('A')
        elif a == 'trace B':
            self.trace('B')
        elif a == 'trace C':
            self.trace('C', reps=2)
        elif a == 'trace A new':
            self.trace('A', TracerEngine(self.asm))
        elif a == 'no tree':
            self.trace('A', tree=False, reps=3)
        elif a == 'move top':
            T = N.array(self.asm.get_transform())
            self.asm.set_transform(ref.pose((1, 1, 0), 0.3, (0.1, 5., -0.2)))
            self.trace('B', TracerEngine(self.asm), reps=2)
            self.asm.set_transform(T)
        elif a == 'move part':
            part = (list(self.asm.get_local_objects()) + list(self.asm.get_assemblies()))[-1]
            T = N.array(part.get_transform())
            part.set_transform(N.dot(ref.pose((0, 1, 0), 0.2, (0.3, 0., 0.1)), T))
            self.trace('A', reps=1)
            part.set_transform(T)
        elif a == 'turn':       # every surface and object, where it is
            parts = list(self.asm.get_objects()) + list(self.asm.get_surfaces())
            was = [N.array(x.get_rotation()) for x in parts]
            for i, (x, r) in enumerate(zip(parts, was)):
                x.set_rotation(N.dot(ref.pose((1, i % 3, 1), 0.15)[:3, :3], r))
            self.trace('A', reps=1)
            for x, r in zip(parts, was):
                x.set_rotation(r)
        elif a == 'draw':
            for s in self.asm.get_surfaces():
                if hasattr(s.get_geometry_manager(), 'mesh'):
                    s.mesh(3.)
        elif a == 'ask':
            for s in self.asm.get_surfaces():
                s.register_incoming(self.bund['B'])
                # as many rays as A has, but others
                s.register_incoming(self.bund['A'].inherit(N.arange(len(self.src['A']['e']))[::-1], energy=7. + 0*self.src['A']['e']))

    def grow(self, way):
        """Adds a mirror around everything, as an object or to an object."""
        r = 1.5*N.abs(self.src['A']['v']).max() + 1.
        T = ref.pose(trans=(0.031*r, -0.017*r, 0.043*r))
        if way == 0:
            self.asm.add_object(AssembledObject(surfs=[build.surface(('sph', r), None, build.opt.Reflective(0.25))]), T)
        else:
            self.asm.get_objects()[0].add_surface(build.surface(('sph', r), T, build.opt.Reflective(0.25)))

    def check(self, R, what):
        for x, v in self.src.items():
            b = self.bund[x]
            got = {'v': b.get_vertices(), 'd': b.get_directions(), 'e': b.get_energy(), 'n': b.get_ref_index()}
            for q in v:
                R.close(got[q], v[q], what + ': the source bundle was changed', 0)
            try:
                par = b.get_parents()
            except (KeyError, AttributeError):
                par = None
            R.check(par is None, what + ': the source bundle was given parents', got=par)
        for tree, snap in self.kept:
            same_trace(R, zoo.snapshot(tree), snap, what + ': bundles recorded by an earlier trace changed')
        for ret, copy in self.returned:
            for x, y in zip(ret, copy):
                R.close(x, y, what + ': rays returned earlier changed', 0)


def run(args, R):
    kind, k, first, tier = args
    rng.CONTROL.reset()
    if kind == 'protocol':
        return protocol(R, build.shapes()[k], tier)
    few = 24
    fresh = Lab(kind, k, few)
    fresh.trace('A')
    want = fresh.kept[0][1]
    grown = []
    for way in (0, 1):
        lab = Lab(kind, k, few)
        lab.grow(way)
        lab.trace('A', TracerEngine(lab.asm))
        grown.append(lab.kept[0][1])
    f0, p0 = frames(fresh.asm), placed(fresh.asm)
    depth = (3 if k in (DEEP[:2] if tier == 'quick' else DEEP) else 2) + (tier != 'quick')
    for q in range(1, depth + 1):
        for rest in itertools.product(ACTIONS, repeat=q - 1):
            seq0 = (first,) + rest
            if tier == 'quick' and q == 3 and (set(seq0) & set(('trace C', 'trace A new', 'draw'))):
                continue
            lab = Lab(kind, k, few)
            seq = (first,) + rest
            what = '%s after %s' % (k, ', '.join(seq))
            for a in seq:
                lab.act(a)
                R.step()
            same(R, frames(lab.asm), f0, what + ': a frame was changed')
            same(R, placed(lab.asm), p0, what + ': a surface was moved')
            lab.trace('A')
            same_trace(R, lab.kept[-1][1], want, what + ': trace with the used engine')
            lab.trace('A', TracerEngine(lab.asm))
            same_trace(R, lab.kept[-1][1], want, what + ': trace with a new engine')
            lab.check(R, what)
            # the scene grows; the used engine sees it
            if q < 3:
                lab.grow(len(seq) % 2)
                lab.trace('A')
                same_trace(R, lab.kept[-1][1], grown[len(seq) % 2], what + ', then adding to the scene: trace with the used engine')
                R.step()
            R.state()
            R.trace()
            R.outcome('last action ' + seq[-1])
    R.sample(scene=k, first=first, depth=depth)


# ------------------------------------------------------------------ protocol
def use(g, T, b, sel, finish):
    """One use of a geometry by its protocol; returns its answers."""
    t = N.array(g.find_intersections(T, b))
    p = n = None
    if sel is not None:
        g.select_rays(sel)
        n = N.array(g.get_normals())
        p = N.array(g.get_intersection_points_global())
    if finish:
        g.done()
    return t, p, n


TURNED, SHIFTED = build.POSES['skew'].copy(), build.POSES['skew'].copy()
TURNED[:3, :3] = build.POSES['skew2'][:3, :3]
SHIFTED[:3, 3] += (0.2, -0.7, 0.4)


def refill(T0, b0, T, b):
    """The caller's own frame and bundle, filled anew."""
    T0[:] = T
    b0.set_vertices(N.array(b.get_vertices()))
    b0.set_directions(N.array(b.get_directions()))


def protocol(R, shape, tier):
    o0, d0 = build.all_rays(shape)
    r0, u0 = ref.nearest(shape, o0, d0)
    hits = N.nonzero(~u0 & N.isfinite(r0) & (r0 < 50))[0]
    miss = N.nonzero(~u0 & N.isinf(r0))[0]
    uses = []
    poses = ('id', 'skew', 'flip')
    picks = [N.r_[hits[:3], miss[:2], hits[-2:]], N.r_[miss[:3]], N.r_[hits[len(hits)//2:len(hits)//2 + 4]], N.r_[hits[5:6]], N.r_[miss[2:4], hits[1:9:2]]]
    for j, idx in enumerate(picks if tier != 'quick' else picks[:3]):
        if not len(idx):
            continue
        T = build.POSES[poses[j % 3]]
        b = build.bundle(ref.pts(T, o0[:, idx]), ref.vecs(T, d0[:, idx]))
        h = N.nonzero(N.isin(idx, hits))[0]
        sels = [None] if not len(h) else [h, h[::-1][:2], None]
        for sel in sels:
            for fin in (True, False):
                if sel is None or fin or j % 2 == 0:
                    uses.append((T, b, sel, fin))
    main = len(uses)
    # the frame turned where it is, and moved without turning
    for T in (TURNED, SHIFTED, build.POSES['skew']):
        for idx in picks[:1]:
            b = build.bundle(ref.pts(T, o0[:, idx]), ref.vecs(T, d0[:, idx]))
            uses.append((T, b, N.nonzero(N.isin(idx, hits))[0], True))
    want = [use(build.gm(shape), *u) for u in uses]
    # one frame array and one bundle, refilled between uses
    for seq in itertools.product(range(len(uses)), repeat=2):
        g, T0, b0 = build.gm(shape), N.eye(4), build.bundle(N.zeros((3, 1)), N.zeros((3, 1)))
        for s in seq:
            T, b, sel, fin = uses[s]
            refill(T0, b0, T, b)
            got = use(g, T0, b0, sel, fin)
        for a, b, nm in zip(got, want[seq[-1]], ('distances', 'hit points', 'normals')):
            if b is not None:
                R.close(a, b, '%s: %s after uses %s of the same, refilled bundle and frame' % (build.name(shape), nm, seq), 1e-12)
                R.step()
        R.state()
        R.trace()
    if shape[0] == 'cut':
        # two geometries that share the bounding volume
        for seq in itertools.product(range(len(uses)), repeat=3):
            if tier == 'quick' and sum(seq) % 3:
                continue
            bd = build.bound(shape[2])
            gs = [build.CutSphereGM(shape[1], bd), build.CutSphereGM(shape[1], bd)]
            for s, who in zip(seq, (0, 1, 0)):
                got = use(gs[who], *uses[s])
            for a, b, nm in zip(got, want[seq[-1]], ('distances', 'hit points', 'normals')):
                if b is not None:
                    R.close(a, b, '%s: %s after uses %s of two with a shared bounding volume' % (build.name(shape), nm, seq), 1e-12)
                    R.step()
            R.state()
            R.trace()
    for q in (1, 2, 3):
        for seq in itertools.product(range(len(uses)), repeat=q):
            if q == 3 and (tier == 'quick' and not all(s % 5 == 0 for s in seq) or max(seq) >= main):
                continue
            g = build.gm(shape)
            for s in seq[:-1]:
                use(g, *uses[s])
            got = use(g, *uses[seq[-1]])
            for a, b, nm in zip(got, want[seq[-1]], ('distances', 'hit points', 'normals')):
                if b is not None:
                    R.close(a, b, '%s: %s after uses %s' % (build.name(shape), nm, seq), 1e-12)
                    R.step()
            R.state()
            R.trace()
    R.outcome('protocol uses', len(uses))
