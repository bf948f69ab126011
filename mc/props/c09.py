"""C09: global placement is the product of the frames after any edit history."""
import itertools
import math

import numpy as N

from mc import build, ref, scene as sc
from mc.build import Assembly, AssembledObject

RULE = """All histories of up to 2 edits (thorough: 3), and up to 3 (thorough: 4) over a
core of 13 edits, from 4 initial
hierarchies (a chain of three assemblies; a ready tree built by the
constructors; everything loose; objects without surfaces), over an alphabet of
setting location, rotation or transform of each assembly, object and surface and
adding surfaces, objects and assemblies at each depth, with and without a frame.
Nudges by a few 1e-6 count as edits. The arrays given are overwritten by the
caller after each call. Single edits and half of the longer histories are also
made on items that are drawn and hit before each edit. After each
history every surface under the top is compared with the tree-of-frames model:
coordinate transform, mesh, nearest hit of probe rays; membership listings; and
for histories of up to 2 edits a whole trace in lockstep with the reference
tracer. state = one hierarchy; transition = one edit."""
ASSUME = ["Each item has at most one container."]

P = ref.pose
FR = {'a': P((1, 2, 3), 1.1, (0.4, -0.2, 1.5)), 'b': P((1, 0, 0), math.pi/2, (0., 0.4, -0.7)), 'c': P((-2, 1, 0.5), 2.6, (-1., 0.3, 0.2)), 'i': N.eye(4)}
SHAPES = {'s1': ('rect', 1.2, 0.8), 's2': ('rect', 0.5, 1.), 's3': ('round', 0.6), 's4': ('rect', 0.9, 0.9), 's5': ('rect', 0.3, 0.4)}


class World(object):
    """The real items and the model: frames and children by name."""
    def __init__(self, start):
        self.real, self.frame, self.kids = {}, {}, {}
        self.start = start
        getattr(self, 'start_' + start)()

    def surf(self, nm, T):
        self.real[nm] = build.surface(SHAPES[nm], T, build.opt.Reflective(0.1*int(nm[1])))
        self.frame[nm], self.kids[nm] = T.copy(), []

    def put(self, nm, real, T, kids):
        self.real[nm], self.frame[nm], self.kids[nm] = real, T.copy(), list(kids)

    def start_chain(self):
        r = self.real
        for nm, f in (('s1', 'a'), ('s2', 'b'), ('s3', 'i'), ('s4', 'c')):
            self.surf(nm, FR[f])
        self.put('o1', AssembledObject(surfs=[r['s1']], transform=FR['c'].copy()), FR['c'], ['s1'])
        self.put('o2', AssembledObject(surfs=[r['s2']]), FR['i'], ['s2'])
        self.put('o3', AssembledObject(surfs=[r['s4']]), FR['i'], ['s4'])
        for nm in ('A', 'B', 'C', 'D'):
            self.put(nm, Assembly(), FR['i'], [])
        self.do(('addasm', 'A', 'B', 'a'))
        self.do(('addasm', 'B', 'C', 'b'))
        self.do(('addobj', 'C', 'o1', 'c'))
        self.do(('addobj', 'A', 'o2', 'a'))

    def start_built(self):
        r = self.real
        for nm, f in (('s1', 'b'), ('s2', 'a'), ('s3', 'c'), ('s4', 'i')):
            self.surf(nm, FR[f])
        self.put('o1', AssembledObject(surfs=[r['s1'], r['s2']], transform=FR['a'].copy()), FR['a'], ['s1', 's2'])
        self.put('o2', AssembledObject(surfs=[r['s3']], transform=FR['b'].copy()), FR['b'], ['s3'])
        self.put('o3', AssembledObject(), FR['i'], [])
        self.put('C', Assembly(objects=[r['o1']], location=FR['c'][:3, 3].copy(), rotation=FR['c'][:3, :3].copy()), FR['c'], ['o1'])
        self.put('B', Assembly(objects=[], subassemblies=[r['C']]), FR['i'], ['C'])
        self.put('A', Assembly(objects=[r['o2']], subassemblies=[r['B']], location=FR['b'][:3, 3].copy()), P(trans=FR['b'][:3, 3]), ['o2', 'B'])
        self.put('D', Assembly(), FR['i'], [])

    def start_loose(self):
        r = self.real
        for nm, f in (('s1', 'a'), ('s2', 'b'), ('s3', 'i'), ('s4', 'c')):
            self.surf(nm, FR[f])
        for nm in ('o1', 'o2', 'o3'):
            self.put(nm, AssembledObject(surfs=[], transform=FR['b'].copy()), FR['b'], [])
        self.put('o3', AssembledObject(surfs=[r['s4']]), FR['i'], ['s4'])
        for nm in ('A', 'B', 'C', 'D'):
            self.put(nm, Assembly(), FR['i'], [])

    def start_pair(self):
        r = self.real
        for nm, f in (('s1', 'a'), ('s2', 'b'), ('s3', 'i'), ('s4', 'c')):
            self.surf(nm, FR[f])
        self.put('o1', AssembledObject(surfs=[r['s1']]), FR['i'], ['s1'])
        self.put('o2', AssembledObject(surfs=[r['s2']]), FR['i'], ['s2'])
        self.put('o3', AssembledObject(surfs=[r['s4']]), FR['i'], ['s4'])
        self.put('B', Assembly(objects=[r['o1']]), FR['i'], ['o1'])
        self.put('C', Assembly(objects=[r['o2']]), FR['i'], ['o2'])
        self.put('D', Assembly(), FR['i'], [])
        self.put('A', Assembly(subassemblies=[r['B']]), FR['i'], ['B'])
        self.do(('addasm', 'B', 'C', None))

    # ---------------------------------------------------------------- edits
    def parent(self, nm):
        for p, ks in self.kids.items():
            if nm in ks:
                return p
        return None

    def legal(self, e):
        if e[0] in ('addobj', 'addasm', 'addsurf'):
            if self.parent(e[2]) is not None or e[2] not in self.real or e[1] not in self.real:
                return False
            # no loops
            up = e[1]
            while up is not None:
                if up == e[2]:
                    return False
                up = self.parent(up)
        return True

    def do(self, e):
        k = e[0]
        if k in ('addobj', 'addasm'):
            f = getattr(self.real[e[1]], 'add_object' if k == 'addobj' else 'add_assembly')
            if e[3] is None:
                f(self.real[e[2]])
                self.frame[e[2]] = N.eye(4)
            else:
                a = FR[e[3]].copy()
                f(self.real[e[2]], a)
                a[:3] = 77.
                self.frame[e[2]] = FR[e[3]].copy()
            self.kids[e[1]].append(e[2])
        elif k == 'addsurf':
            self.real[e[1]].add_surface(self.real[e[2]])
            self.kids[e[1]].append(e[2])
        elif k == 'loc':
            a = FR[e[2]][:3, 3].copy()
            self.real[e[1]].set_location(a)
            a[:] = 55.
            self.frame[e[1]][:3, 3] = FR[e[2]][:3, 3]
        elif k == 'iloc':
            self.real[e[1]].set_location(N.array([1, -2, 3]))
            self.frame[e[1]][:3, 3] = (1, -2, 3)
        elif k == 'rot':
            a = FR[e[2]][:3, :3].copy()
            self.real[e[1]].set_rotation(a)
            a[:] = 55.
            self.frame[e[1]][:3, :3] = FR[e[2]][:3, :3]
        elif k in ('nloc', 'nrot', 'ntrf'):     # a nudge
            a = N.dot(NUDGE, self.frame[e[1]])
            if k == 'nloc':
                a[:3, :3] = self.frame[e[1]][:3, :3]
                self.real[e[1]].set_location(a[:3, 3].copy())
            elif k == 'nrot':
                a[:3, 3] = self.frame[e[1]][:3, 3]
                self.real[e[1]].set_rotation(a[:3, :3].copy())
            else:
                self.real[e[1]].set_transform(a.copy())
            self.frame[e[1]] = a
        elif k == 'trf':
            a = FR[e[2]].copy()
            self.real[e[1]].set_transform(a)
            a[:3] = 33.
            self.frame[e[1]] = FR[e[2]].copy()
        elif k == 'itrf':
            a = N.array([[0, -1, 0, 2], [1, 0, 0, 0], [0, 0, 1, -1], [0, 0, 0, 1]])
            self.real[e[1]].set_transform(a)
            self.frame[e[1]] = a.astype(float)

    def world(self, nm='A', above=None):
        """[(surface name, world frame)] under nm."""
        above = N.eye(4) if above is None else above
        W = N.dot(above, self.frame[nm])
        if nm in SHAPES:
            return [(nm, W)]
        return sum([self.world(k, W) for k in self.kids[nm]], [])

    def under(self, nm, pred):
        out = []
        for k in self.kids[nm]:
            if pred(k):
                out.append(k)
            out += self.under(k, pred)
        return out

    def look(self):
        """Uses every surface as a viewer or a tracer does."""
        for nm in self.real:
            if nm in SHAPES:
                s = self.real[nm]
                s.mesh(3.)
                s.global_to_local(PROBE)
                s.register_incoming(LOOK)
                s.done()
        for nm in ('A', 'B', 'C', 'D'):
            self.real[nm].get_surfaces()
            self.real[nm].get_objects()

    # ---------------------------------------------------------------- check
    def check(self, R, what, trace):
        r = self.real
        placed = self.world()
        for nm, W in placed:
            s = r[nm]
            pts = ref.pts(W, PROBE)
            R.close(N.asarray(s.global_to_local(pts))[:3], PROBE, what + ': global to local frame of %s' % nm, 1e-9)
            mesh = N.array(s.mesh(3.))
            loc = ref.pts(ref.inv(W), mesh.reshape(3, -1))
            want = N.array(build.gm(SHAPES[nm]).mesh(3.)).reshape(3, -1)
            R.close(loc, want, what + ': mesh of %s' % nm, 1e-9)
            # a probe from above and one that passes by
            z = W[:3, 2]
            o = N.array([W[:3, 3] + 1.25*z + 0.1*W[:3, 0], W[:3, 3] + 1.25*z + 3*W[:3, 1]]).T
            t = s.register_incoming(build.bundle(o, N.array([-z, -z]).T))
            R.check(abs(t[0] - 1.25) < 1e-9 and N.isinf(t[1]), what + ': %s is not hit where it is' % nm, got=t)
            s.done()
            R.step()
        for nm in self.frame:
            R.close(r[nm].get_transform(), self.frame[nm], what + ': transform of %s' % nm, 1e-12)
            R.close(r[nm].get_location(), self.frame[nm][:3, 3], what + ': location of %s' % nm, 1e-12)
            R.close(r[nm].get_rotation(), self.frame[nm][:3, :3], what + ': rotation of %s' % nm, 1e-12)
        for nm in ('A', 'B', 'C', 'D'):
            objs = [r[k] for k in self.under(nm, lambda k: k[0] == 'o')]
            got = list(r[nm].get_objects())
            R.check(sorted(map(id, got)) == sorted(map(id, objs)), what + ': objects of %s' % nm, got=len(got), want=len(objs))
            R.check([id(x) for x in r[nm].get_local_objects()] == [id(r[k]) for k in self.kids[nm] if k[0] == 'o'], what + ': own objects of %s' % nm)
            R.check([id(x) for x in r[nm].get_assemblies()] == [id(r[k]) for k in self.kids[nm] if k in 'ABCD'], what + ': subassemblies of %s' % nm)
            want = [id(s) for ob in got for s in ob.get_surfaces()]
            R.check([id(s) for s in r[nm].get_surfaces()] == want, what + ': surfaces of %s' % nm)
        for nm in ('o1', 'o2', 'o3'):
            R.check([id(x) for x in r[nm].get_surfaces()] == [id(r[k]) for k in self.kids[nm]], what + ': surfaces of %s' % nm)
        if trace and placed:
            view = sc.Scene.__new__(sc.Scene)
            view.asm = r['A']
            view.surfs = [(SHAPES[nm], W, ('refl', 0.1*int(nm[1])), r[nm]) for nm, W in placed]
            o, d = [], []
            for j, (nm, W) in enumerate(placed):
                for q in range(3):
                    di = -W[:3, 2] + 0.2*W[:3, q]*(q + 1)
                    di /= math.sqrt((di**2).sum())
                    o.append(W[:3, 3] + 0.05*W[:3, 0] - 2*di)
                    d.append(di)
            sc.lockstep(R, view, build.bundle(N.array(o).T, N.array(d).T), 3, 1e-9, what, 5.)


NUDGE = P((1, -2, 0.5), 2e-6, (3e-6, -2e-6, 1e-6))
LOOK = build.bundle(N.array([[0.1, 0.2, 5.]]).T, N.array([[0., 0., -1.]]).T)
PROBE = N.array([(0.2, -0.3, 0.4), (1., 2., 3.), (0, 0, 0), (-5., 0.1, 2.)]).T

EDITS = []
for t in ('A', 'B', 'C', 'o1', 'o2', 's1', 's2'):
    EDITS += [('loc', t, 'c'), ('rot', t, 'a'), ('trf', t, 'b')]
EDITS += [('nrot', 'A', None), ('nloc', 'B', None), ('nrot', 'o1', None), ('ntrf', 'C', None), ('nrot', 's1', None), ('nloc', 's1', None)]
EDITS += [('itrf', 'B', None), ('iloc', 'o1', None), ('itrf', 's1', None)]
for p in ('A', 'B', 'C'):
    EDITS += [('addobj', p, 'o3', 'a'), ('addobj', p, 'o3', None), ('addasm', p, 'D', 'c')]
EDITS += [('addobj', 'D', 'o3', 'b'), ('addasm', 'D', 'B', 'a'), ('addasm', 'A', 'B', None), ('addasm', 'A', 'C', 'b'), ('addasm', 'B', 'C', 'c'),
          ('addobj', 'A', 'o1', 'c'), ('addobj', 'C', 'o1', None), ('addobj', 'C', 'o2', 'a'), ('addobj', 'B', 'o1', 'b'),
          ('addsurf', 'o1', 's3', None), ('addsurf', 'o2', 's4', None), ('addsurf', 'o1', 's1', None), ('addsurf', 'o3', 's2', None), ('addsurf', 'o3', 's3', None)]
CORE = [('loc', 'A', 'c'), ('rot', 'B', 'a'), ('trf', 'C', 'b'), ('trf', 'o1', 'b'), ('loc', 's1', 'c'), ('itrf', 'B', None), ('addobj', 'C', 'o3', 'a'),
        ('addasm', 'B', 'D', 'c'), ('addobj', 'D', 'o3', 'b'), ('addsurf', 'o1', 's3', None), ('addasm', 'A', 'C', 'b'), ('addobj', 'A', 'o1', 'c'), ('addasm', 'A', 'B', None)]
STARTS = ('chain', 'built', 'loose', 'pair')


def history(R, start, seq, trace, look=False):
    w = World(start)
    for e in seq:
        if not w.legal(e):
            return False
        if look:
            w.look()
        w.do(e)
    w.check(R, '%s%s: %s' % (start, ', used before each edit' if look else '', ' / '.join('%s %s %s %s' % (e + (None,))[:4] for e in seq)), trace)
    R.trace()
    R.state()
    return True


def cases(tier):
    return [('%s: %d %s' % (s, i, ' '.join(map(str, e))), (s, i, tier)) for s in STARTS for i, e in enumerate(EDITS)]


def run(args, R):
    start, i, tier = args
    a = EDITS[i]
    if i == 0:
        history(R, start, (), True)
    if not history(R, start, (a,), True):
        return
    history(R, start, (a,), True, True)
    for j, b in enumerate(EDITS):
        if not history(R, start, (a, b), tier != 'quick' or (i + j) % 3 == 0, tier == 'quick' and (i + j) % 2 == 0):
            continue
        if tier != 'quick':
            history(R, start, (a, b), False, True)
        core = a in CORE and b in CORE
        for c in EDITS if tier != 'quick' else CORE if core else ():
            if history(R, start, (a, b, c), False, len(c[1]) == 1) and tier != 'quick' and core and c in CORE:
                for e in CORE:
                    history(R, start, (a, b, c, e), False)
    R.sample(start=start, first=a)
