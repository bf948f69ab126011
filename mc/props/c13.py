"""C13: ray ownership and surface relevance are honoured exactly."""
import itertools

import numpy as N

from mc import build, ref, scene as sc
from mc.build import AssembledObject, Assembly, TracerEngine, RayBundle

RULE = """Two or three objects of 1 to 5 parallel plates each, interleaved along
an axis, whose ownership and relevance answers are tables over (surface hit,
ray, surface): all 16 x 256 tables of one object for two rays (the other
objects' answers: defaults, their complement, and all tables with one answer
set), all one- and two-bit tables for three rays and three surfaces, in several
groupings and orders of objects (also with surfaceless objects between them, and
among several hundred other objects), with mirrors and with splitting surfaces, with
each subset of rays discarded on the way; traced 4 bounces. Each step is
compared with a reference engine that applies the tables ray by ray. state = one
ray with its owner and relevance; transition = one step; trace = one table."""
ASSUME = ["Rays are told apart by a custom ray property which the optics pass on."]

P = ref.pose
# objects: name -> heights of the plates
LAYOUTS = {
    'XY': {'X': (0., 3.), 'Y': (1., 2.)},
    'XYZ': {'X': (0., 2.), 'Y': (1.,), 'Z': (3.,)},
    'X3': {'X': (0., 1.5, 3.), 'Y': (0.7, 2.2)},
    'X5': {'X': (0., 0.7, 1.4, 2.3, 3.), 'Y': (1.1,)},
}


class Policy(AssembledObject):
    """An object that answers by table."""
    def __init__(self, name, own, rel, log, **kw):
        AssembledObject.__init__(self, **kw)
        self.pname, self.own, self.rel, self.log = name, own, rel, log

    def own_rays(self, rays, surface_id):
        tag = N.array(rays.get_tag()).astype(int) if rays.get_num_rays() else N.zeros(0, int)
        self.log.append((self.pname, int(surface_id), tuple(tag)))
        return self.own[int(surface_id)][tag]

    def surfaces_for_next_iteration(self, rays, surface_id):
        tag = N.array(rays.get_tag()).astype(int) if rays.get_num_rays() else N.zeros(0, int)
        return self.rel[int(surface_id)][:, tag]


def default(ns, nr):
    """own[surface hit][ray], rel[surface hit][surface, ray]"""
    return N.zeros((ns, nr), dtype=bool), N.ones((ns, ns, nr), dtype=bool)


def from_bits(bits, ns, nr):
    b = N.array([(bits >> i) & 1 for i in range(ns*nr + ns*ns*nr)], dtype=bool)
    return b[:ns*nr].reshape(ns, nr), ~b[ns*nr:].reshape(ns, ns, nr)


def build_scene(layout, tables, grouping, kind, log):
    """Real assembly; and the model's surfaces in a list of its own order:
    (shape, world frame, optics, object name, index in object)."""
    objs, surfs = {}, []
    ab = 0.
    for name in sorted(LAYOUTS[layout]):
        ss = []
        for i, z in enumerate(LAYOUTS[layout][name]):
            ab += 0.02
            o = ('refl', ab) if not (kind == 'split' and name == 'Y') else ('refr', 1., 1.6)
            T = P((1, 0, 0), 0.01*(i + 1), (0, 0, z))
            ss.append(build.surface(('rect', 90., 90.), T, sc.make_optics(o)))
            surfs.append((('rect', 90., 90.), T, o, name, i))
        objs[name] = Policy(name, tables[name][0], tables[name][1], log, surfs=ss)
    names = sorted(objs)
    if grouping == 'plain':
        asm = Assembly(objects=[objs[n] for n in names])
    elif grouping == 'hollow':
        # objects without surfaces between the others
        e = lambda: Policy('-', N.zeros((0, 9), bool), N.zeros((0, 0, 9), bool), log, surfs=[])
        kids = [e()]
        for i, n in enumerate(names):
            kids += [objs[n]] + [e() for q in range(i + 1)]
        asm = Assembly(objects=kids, subassemblies=[Assembly(), Assembly(objects=[e()])])
    elif grouping == 'crowd':
        # hundreds of objects out of the rays' way
        def out_of_way(m):
            return [AssembledObject(surfs=[build.surface(('rect', 1e-3, 1e-3), P(trans=(1e5 + q, 2e5, -1e5)), sc.make_optics(('refl', 0.)))]
                                    if q % 16 == 0 else []) for q in range(m)]
        kids = []
        for n in names:
            kids += out_of_way(137) + [objs[n]]
        asm = Assembly(objects=kids)
    elif grouping == 'reversed':
        asm = Assembly(objects=[objs[n] for n in names[::-1]])
    else:
        # the first in a subassembly (listed before the top's own objects)
        asm = Assembly(objects=[objs[n] for n in names[:-1]], subassemblies=[Assembly(objects=[objs[names[-1]]])])
    return asm, surfs


def rays(nr, off=0):
    zs = (0.5, 1.6, 2.6, 0.3, 2.1)
    up = (1, -1, 1, 1, -1)
    o = N.array([(0.1*i, -0.2*i, zs[(i + off) % 5]) for i in range(nr)]).T
    d = ref.unit(N.array([(0.05 + 0.01*i, -0.03, up[(i + off) % 5]) for i in range(nr)]).T)
    return o, d


def lockstep(R, layout, tables, grouping, kind, nr, weak, what, off=0, reps=4):
    log = []
    asm, surfs = build_scene(layout, tables, grouping, kind, log)
    o, d = rays(nr, off)
    en = N.where([(weak >> i) & 1 for i in range(nr)], 0.85, 20.)
    me = 0.8
    b = RayBundle(vertices=o.copy(), directions=d.copy(), energy=en.copy(), ref_index=N.ones(nr), tag=N.arange(nr))
    e = TracerEngine(asm)
    e.ray_tracer(b, reps, me)
    tree = e.tree
    ns = len(surfs)
    objs = [s[3] for s in surfs]
    allowed = N.ones((ns, nr), dtype=bool)
    asked = set()
    for lvl in range(min(tree.num_bunds(), reps)):
        cur = tree[lvl]
        alive = N.array(cur.get_energy()) > me if lvl else N.ones(nr, dtype=bool)
        tag = N.array(cur.get_tag()).astype(int)
        v, dr = N.array(cur.get_vertices()), N.array(cur.get_directions())
        st = sc.Step.__new__(sc.Step)
        st.surfs, st.o, st.d, st.e, st.alive = surfs, v, dr, N.array(cur.get_energy()), alive
        st.n = N.array(cur.get_ref_index())
        n = len(alive)
        T = N.full((ns, n), N.inf)
        und = N.zeros(n, dtype=bool)
        for k, s in enumerate(surfs):
            t, u = ref.hits_world(s[0], s[1], v, dr)
            T[k] = N.where(allowed[k], t, N.inf)
            und |= u & allowed[k]
        R.check(not (und & alive).any(), 'reference undecided: choose other rays')
        st.und = N.zeros(n, dtype=bool)
        st.t = T.min(axis=0) if ns else N.full(n, N.inf)
        st.who = N.where(alive & N.isfinite(st.t), T.argmin(axis=0), -1)
        st.p = v + dr*N.where(st.who >= 0, st.t, 0.)
        st.nrm, st.inc = N.zeros_like(v), N.zeros(n)
        for k, s in enumerate(surfs):
            m = st.who == k
            if m.any():
                st.nrm[:, m], st.inc[m] = ref.facing_normal(s[0], s[1], st.p[:, m], dr[:, m])
        child = tree[lvl + 1] if lvl + 1 < tree.num_bunds() else None
        sc.check_step(R, st, child, what + ', step %d' % lvl, 3., ('count', 'place', 'surface'))
        R.state(alive.sum())
        if child is None:
            break
        par = N.array(child.get_parents()).astype(int)
        ctag = N.array(child.get_tag()).astype(int)
        R.check((ctag == tag[par]).all(), what + ': ray property lost')
        goes = N.array(child.get_energy()) > me
        allowed = N.ones((ns, len(par)), dtype=bool)
        for j in range(len(par)):
            _, _, _, ob, si = surfs[st.who[par[j]]]
            own, rel = tables[ob]
            for k in range(ns):
                if objs[k] == ob:
                    allowed[k, j] = rel[si][surfs[k][4], ctag[j]]
                elif own[si][ctag[j]]:
                    allowed[k, j] = False
            if goes[j]:
                asked.add((ob, si, ctag[j]))
    # the objects were asked about the rays that hit them, and no others
    got = set((nm, si, t) for nm, si, ts in log for t in ts)
    R.check(got == asked, what + ': objects were asked about other rays than those they sent on', got=sorted(got)[:6], want=sorted(asked)[:6])
    R.trace()
    return tree.num_bunds()


def cases(tier):
    out = []
    for g in ('plain', 'nested', 'reversed'):
        for kind in ('mirror', 'split'):
            for hi in range(16):
                if tier == 'quick' and (g, kind) not in (('plain', 'mirror'), ('nested', 'mirror')):
                    continue
                out.append(('all tables of X, owns %d, %s, %s' % (hi, g, kind), ('X', hi, g, kind, tier)))
    for lay in LAYOUTS:
        for g in ('plain', 'nested', 'reversed'):
            for kind in ('mirror', 'split'):
                if tier == 'quick' and lay == 'X5' and kind == 'split':
                    continue
                out.append(('sparse tables in %s, %s, %s' % (lay, g, kind), ('sparse', lay, g, kind, tier)))
    for lay in LAYOUTS:
        for g in ('hollow', 'crowd'):
            for kind in ('mirror', 'split'):
                if tier == 'quick' and lay == 'X5':
                    continue
                out.append(('sparse tables in %s, %s, %s' % (lay, g, kind), ('sparse', lay, g, kind, tier)))
    return out


def run(args, R):
    what, a, g, kind, tier = args
    if what == 'X':
        for rel in range(256):
            own = a
            if tier == 'quick' and g == 'nested' and rel % 16 != own:
                continue
            bits = own | rel << 4
            tx = from_bits(bits, 2, 2)
            ys = (default(2, 2), (~default(2, 2)[0], default(2, 2)[1]))
            for yi, ty in enumerate(ys):
                if tier == 'quick' and yi and rel % 8 != own % 8:
                    continue
                for off in ((0, 3) if tier != 'quick' else (0,)):
                    n = lockstep(R, 'XY', {'X': tx, 'Y': ty}, g, kind, 2, 0, 'X owns %d, irrelevant %d, Y owns %d' % (own, rel, yi), off,
                                 4 if tier != 'quick' or rel % 16 == 5 else 3)
                    R.outcome('levels %d' % n)
        R.sample(own=a, grouping=g)
        return
    lay = LAYOUTS[a]
    nr = 3
    names = sorted(lay)
    size = dict((nm, len(lay[nm])) for nm in names)
    base = dict((nm, default(size[nm], nr)) for nm in names)
    count = 0
    for nm in names:
        ns = size[nm]
        nb = ns*nr + ns*ns*nr
        singles = list(range(nb))
        combos = [()] + [(i,) for i in singles] + list(itertools.combinations(singles, 2))
        if tier == 'quick':
            step = max(1, len(combos)//12)
            combos = combos[:nb + 1] + combos[nb + 1::step]
        if g == 'crowd':
            combos = combos[::7] if tier == 'quick' else combos[::3]
        for q, c in enumerate(combos):
            bits = sum(1 << i for i in c)
            for inv in ((False, True) if tier != 'quick' else (q % 2 == 1,) if q > 6 else (False, True)):
                # the given answers, or all owned except these
                t = from_bits(bits, ns, nr)
                if inv:
                    t = (~t[0], t[1])
                tabs = dict(base)
                tabs[nm] = t
                weak = q % 8
                lockstep(R, a, tabs, g, kind, nr, weak, '%s answers %s%s, weak rays %d' % (nm, c, ' inverted' if inv else '', weak), q % 5)
                count += 1
    # every subset of rays discarded, with one object owning everything
    for nm in names:
        for weak in range(8) if g != 'crowd' else (0, 5):
            for off in (range(5) if tier != 'quick' else ((weak + len(g)) % 5,)):
                tabs = dict(base)
                tabs[nm] = (~base[nm][0], base[nm][1])
                lockstep(R, a, tabs, g, kind, nr, weak, '%s owns all, weak rays %d' % (nm, weak), off)
    R.outcome('tables', count)
