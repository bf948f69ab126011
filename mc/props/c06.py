"""C06: the ray tree is a faithful record."""
import itertools

import numpy as N

from mc import build, ref, rng, zoo, scene as sc
from mc.build import TracerEngine
from tracer.trace_tree import RayTree

RULE = """All (scene x number of bounces x energy threshold x bundle
composition) of a list, on user-built and ready-made scenes: levels, parents,
order of discarded rays, continuation of every ray, history of every ray from
every level, and the trace without a tree; traces of several hundred levels and of 70001 rays; thresholds at, just above and just below rays' energies; and all trees of up to 4 levels with
every parent table over up to 3 rays per level, for the history queries. state =
one ray of a tree; transition = one parent link."""
ASSUME = ["Source rays are traced whatever their energy."]

REPS = (1, 2, 3, 4, 6, 9)
MIN = (0., 1e-5, 0.01, 0.125, 0.25, 0.5, 0.9, 5.)


def cases(tier):
    out = []
    for k in zoo.SCENES:
        for r in REPS if tier != 'quick' else REPS[:3] + REPS[4:]:
            out.append(('scene %s reps %d' % (k, r), ('scene', (k, r), tier)))
    for k in zoo.MODELS:
        for r in (1, 2, 4, 8):
            out.append(('model %s reps %d' % (k, r), ('model', (k, r), tier)))
    out += [('histories %d' % k, ('hist', k, tier)) for k in (1, 2, 3, 4)]
    out.append(('long', ('long', 0, tier)))
    out.append(('huge', ('huge', 0, tier)))
    out.append(('thresholds', ('tight', 0, tier)))
    out.append(('no bounces', ('none', 0, tier)))
    return out


def check_tree(R, e, bund, src, reps, me, ret, what):
    tree = e.tree
    nb = tree.num_bunds()
    R.check(1 <= nb <= reps + 1, what + ': number of levels', got=nb, reps=reps)
    snap = zoo.snapshot(tree)
    for k, want in src.items():
        R.close(snap[0][k], want, what + ': level 0 is not the source (%s)' % k, 0)
    for lvl in range(1, nb):
        cur, prev = snap[lvl], snap[lvl - 1]
        n = len(cur['e'])
        R.check(n > 0, what + ': empty level', level=lvl)
        R.check(all(cur[k].shape[-1] == n for k in ('v', 'd', 'e', 'n', 'p')), what + ': incomplete level', level=lvl)
        par = cur['p']
        R.check(((par >= 0) & (par < len(prev['e']))).all(), what + ': parent out of range', level=lvl)
        if lvl > 1:
            bad = prev['e'][par] <= me
            R.check(not bad.any(), what + ': a discarded ray was continued', level=lvl, energy=prev['e'][par][bad][:3], threshold=me)
        weak = cur['e'] <= me
        if weak.any():
            R.check(weak[N.argmax(weak):].all(), what + ': discarded rays are not after the others', level=lvl)
            R.outcome('levels with discarded rays')
        # on the parent's line, ahead of it
        off = cur['v'] - prev['v'][:, par]
        t = (off*prev['d'][:, par]).sum(axis=0)
        dist = N.sqrt(((off - t*prev['d'][:, par])**2).sum(axis=0))
        near = N.abs(t) < ref.HORIZON
        bad = near & ~((dist <= 1e-7*(1 + N.abs(t))) & (t > 0))
        R.check(not bad.any(), what + ": a ray does not start on its parent's line", level=lvl, ray=N.nonzero(bad)[0][:3], parent=par[bad][:3])
        bad = cur['e'] > prev['e'][par]*(1 + 1e-9)
        R.check(not bad.any(), what + ": a ray with more energy than its parent", level=lvl)
        R.check('t' in cur and N.array_equal(cur['t'], prev['t'][par]), what + ": a ray has not its parent's own property", level=lvl)
        R.step(n)
        R.state(n)
    op = tree.ordered_parents()
    R.check(len(op) == nb - 1, what + ': ordered_parents', got=len(op), want=nb - 1)
    for lvl in range(1, nb):
        R.close(op[lvl - 1], snap[lvl]['p'], what + ': ordered_parents', 0)
    # histories of all rays (at most 40 of a level, evenly spread)
    for lvl in range(nb):
        n = len(snap[lvl]['e'])
        for i in range(0, n, max(1, n//40)):
            want = [i]
            for q in range(lvl, 0, -1):
                want.append(int(snap[q]['p'][want[-1]]))
            got = [int(x) for x in tree.ray_history(i, lvl)]
            R.check(got == want, what + ': history of ray %d of level %d' % (i, lvl), got=got, want=want)
            if lvl == nb - 1:
                R.check([int(x) for x in tree.ray_history(i)] == want, what + ': history from the last level')
    # what is returned: the rays that go on after the last level
    v, d = N.array(ret[0]), N.array(ret[1])
    if nb - 1 == reps:
        go = snap[-1]['e'] > me
        want = N.vstack((snap[-1]['v'][:, go], snap[-1]['d'][:, go])).T
    else:
        want = N.zeros((0, 6))
    zoo.match(R, N.vstack((v, d)).T, want, 1e-12, what + ': returned rays')
    return snap


def no_tree(R, make, bund, reps, me, snap, what):
    """Tracing without a tree: the same last bundle."""
    e = TracerEngine(make())
    v, d = e.ray_tracer(bund, reps, me, tree=False)
    if len(snap) - 1 == reps:
        go = snap[-1]['e'] > me
        want = N.vstack((snap[-1]['v'][:, go], snap[-1]['d'][:, go])).T
        R.check(e.tree.num_bunds() == 1, what + ': without a tree only the last bundle is kept', got=e.tree.num_bunds())
        b = e.tree[0]
        got = {'v': N.array(b.get_vertices()), 'd': N.array(b.get_directions()), 'e': N.array(b.get_energy()), 'n': N.array(b.get_ref_index())}
        zoo.match(R, zoo.rows(got), zoo.rows(snap[-1]), 1e-9, what + ': last bundle without a tree')
        R.close(N.sort(N.array(b.get_parents())), N.sort(snap[-1]['p']), what + ': parents without a tree', 0)
    else:
        want = N.zeros((0, 6))
    zoo.match(R, N.vstack((v, d)).T, want, 1e-9, what + ': rays returned without a tree')
    R.trace()


def run(args, R):
    kind, a, tier = args
    rng.CONTROL.reset()
    if kind == 'hist':
        return histories(R, a, tier)
    if kind == 'long':
        # hundreds of levels, between two plates of which one lets some pass
        reps = 300 if tier == 'quick' else 1200
        made = sc.asm(sc.obj((('flat',), ref.pose(trans=(0, 0, -1.)), ('refl', 0.001)), (('rect', 400., 400.), ref.pose((1, 0, 0), 3.14, (0, 0, 1.)), ('refl', 0.002))))
        o = N.array([(0.1, 0.2, 0.3), (-0.2, 0.05, -0.31), (0., 0., -3.), (0.4, 0.1, 0.)]).T
        d = ref.unit(N.array([(0.01, 0.02, 1.), (-0.02, 0.01, -1.), (0., 0., -1), (0.3, 0, 1)]).T)
        for me in (0., 0.5, 0.8):
            bund = build.bundle(o, d, energy=N.ones(4))
            what = 'long, %d bounces above %g' % (reps, me)
            e, ret = sc.lockstep(R, sc.Scene(made), bund, reps, me, what, 3., ('count', 'place', 'surface'))
            snap = check_tree(R, e, bund, {'v': o, 'd': d, 'e': N.ones(4)}, reps, me, ret, what)
            R.outcome('levels %d' % len(snap))
            no_tree(R, lambda: sc.Scene(made).asm, bund, reps, me, snap, what)
        return
    if kind == 'tight':
        # thresholds at, just above and just below the energies of a level
        made = sc.asm(sc.obj((('flat',), ref.pose(trans=(0, 0, -1.)), ('refl', 0.5))), sc.obj((('rect', 400., 400.), ref.pose((1, 0, 0), 3.14, (0, 0, 1.)), ('refl', 0.5))))
        o = N.array([(0.1, 0.2, 0.3), (-0.2, 0.05, -0.31), (0.4, 0.1, 0.)]).T
        d = ref.unit(N.array([(0.01, 0.02, 1.), (-0.02, 0.01, -1.), (0.3, 0, 1)]).T)
        tiny = 2.**-50
        for unit, en, (lvl, off) in itertools.product((1., 2.**-40, 2.**20), ((1., 1., 1.), (1., 0.5, 2.), (1., 0.25, 1.)), itertools.product((1, 2, 4), (0., tiny, -tiny, 1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6, 5e-5, -5e-5, 1e-3, -1e-3))):
            me = unit*0.5**lvl*(1 + off)
            e0 = unit*N.array(en)
            for sel in (N.arange(3), N.arange(1)):
                bund = build.bundle(o[:, sel], d[:, sel], energy=e0[sel])
                what = 'energies %s, threshold %r' % (e0[sel], me)
                e, ret = sc.lockstep(R, sc.Scene(made), bund, 6, me, what, 3., ('count', 'place', 'surface'))
                snap = check_tree(R, e, bund, {'v': o[:, sel], 'd': d[:, sel], 'e': e0[sel]}, 6, me, ret, what)
                # a ray goes on until the level at which its energy is not above the threshold
                for q in range(len(sel)):
                    w = e0[sel][q]
                    n = 1
                    while w*0.5**n > me and n < 6:
                        n += 1
                    cnt = 0
                    for L in range(len(snap)):
                        cnt += sum(1 for i in range(len(snap[L]['e'])) if snap[L]['t'][i] == snap[0]['t'][q])
                    R.check(cnt == n + 1, what + ': a ray is not traced down to the threshold', ray=q, got=cnt - 1, want=n)
                no_tree(R, lambda: sc.Scene(made).asm, bund, 6, me, snap, what)
        # below zero: also rays without energy go on
        black = sc.asm(sc.obj((('flat',), ref.pose(trans=(0, 0, -1.)), ('refl', 1.))), sc.obj((('rect', 400., 400.), ref.pose((1, 0, 0), 3.14, (0, 0, 1.)), ('refl', 0.5))))
        for scn, me, en, reps in itertools.product((made, black), (-1., -1e-300, -1e-9), ((0., 1., 2.), (1., 1., 1.), (0., 0., 0.)), (1, 2, 4)):
            bund = build.bundle(o, d, energy=en)
            what = 'energies %s, threshold %r, %d bounces' % (en, me, reps)
            e, ret = sc.lockstep(R, sc.Scene(scn), bund, reps, me, what, 3., ('count', 'place'))
            snap = check_tree(R, e, bund, {'v': o, 'd': d, 'e': N.array(en)}, reps, me, ret, what)
            R.check(len(snap) == reps + 1 and all(len(x['e']) == 3 for x in snap), what + ': a ray above the threshold is not followed', levels=len(snap))
            no_tree(R, lambda: sc.Scene(scn).asm, bund, reps, me, snap, what)
        R.outcome('thresholds next to energies')
        return
    if kind == 'none':
        # no repetitions: the source is the last bundle, with or without a tree
        for makers in (zoo.SCENES, zoo.MODELS):
            for k in makers:
                for me, tree, few in itertools.product((0., 0.5, 5.), (True, False), (0, 1, 7)):
                    made, o, d, n = makers[k]()
                    o, d, n = o[:, :few], d[:, :few], n[:few]
                    bund = build.bundle(o, d, ref_index=n, energy=N.linspace(0, 1, few))
                    e = TracerEngine(sc.Scene(made).asm if makers is zoo.SCENES else made)
                    v, dd = e.ray_tracer(bund, 0, me, tree=tree)
                    what = '%s, no bounces above %g, %d rays, tree %s' % (k, me, few, tree)
                    R.check(e.tree.num_bunds() == 1, what + ': number of levels', got=e.tree.num_bunds())
                    b = e.tree[0]
                    for got, want, name in ((v, o, 'vertices'), (dd, d, 'directions'), (b.get_vertices(), o, 'vertices'), (b.get_directions(), d, 'directions'), (b.get_energy(), N.linspace(0, 1, few), 'energies'), (b.get_ref_index(), n, 'indices')):
                        R.close(N.array(got), want, what + ': the last bundle is not the source (%s)' % name, 0)
                    R.trace()
                    R.state(few)
                    R.step(few)
        R.outcome('no bounces')
        return
    if kind == 'huge':
        # more rays than two bytes can count
        made, o, d, n = zoo.SCENES['two']()
        sel = (N.arange(70001)*37) % o.shape[1]
        en = N.array([1., 0.5, 0.3, 2.])[N.arange(len(sel)) % 4]
        bund = build.bundle(o[:, sel], d[:, sel], ref_index=n[sel], energy=en)
        e = TracerEngine(sc.Scene(made).asm)
        ret = e.ray_tracer(bund, 2, 0.25)
        R.trace()
        snap = check_tree(R, e, bund, {'v': o[:, sel], 'd': d[:, sel], 'e': en}, 2, 0.25, ret, '70001 rays')
        no_tree(R, lambda: sc.Scene(made).asm, bund, 2, 0.25, snap, '70001 rays')
        return
    k, reps = a
    make = zoo.SCENES[k] if kind == 'scene' else zoo.MODELS[k]
    made, o, d, n = make()
    m = o.shape[1]
    comps = [N.arange(m), N.arange(m)[::-1][::3], N.arange(0, m, 11), N.array([m//2])]
    if kind == 'scene' and m > 400 and tier == 'quick':
        comps[0] = N.arange(0, m, 2)
    for me in (MIN if tier != 'quick' else (0., 0.01, 0.25, 0.5, 5.)):
        for sel in comps:
            en = N.array([1., 0.5, 0.3, 2.])[N.arange(len(sel)) % 4]
            what = '%s, %d bounces above %g, %d rays' % (k, reps, me, len(sel))
            bund = build.bundle(o[:, sel], d[:, sel], ref_index=n[sel], energy=en)
            src = {'v': o[:, sel].copy(), 'd': d[:, sel].copy(), 'e': en.copy()}
            if kind == 'scene':
                s = sc.Scene(made)
                e, ret = sc.lockstep(R, s, bund, reps, me, what, 3., ('count', 'place', 'surface'))
                again = lambda: sc.Scene(made).asm
            else:
                e = TracerEngine(make()[0])
                ret = e.ray_tracer(bund, reps, me)
                R.trace()
                again = lambda: make()[0]
            snap = check_tree(R, e, bund, src, reps, me, ret, what)
            R.outcome('levels %d' % len(snap))
            no_tree(R, again, bund, reps, me, snap, what)
    R.sample(scene=k, reps=reps, levels=len(snap))


def histories(R, levels, tier):
    """All trees with up to 3 rays per level and every parent table."""
    sizes = (1, 2, 3) if levels < 4 else (2, 3) if tier != 'quick' else (2,)
    tables = {}
    for n in sizes:
        for m in sizes:
            tables[n, m] = list(itertools.product(range(n), repeat=m))
    count = 0
    for sz in itertools.product(sizes, repeat=levels):
        for tab in itertools.product(*[tables[sz[i], sz[i + 1]] for i in range(levels - 1)]):
            count += 1
            t = RayTree()
            for i in range(levels):
                z = N.zeros((3, sz[i]))
                b = build.RayBundle(vertices=z, directions=z, energy=N.ones(sz[i]))
                if i:
                    b.set_parents(N.array(tab[i - 1]))
                t.append(b)
            for lvl in range(levels):
                for i in range(sz[lvl]):
                    want = [i]
                    for q in range(lvl, 0, -1):
                        want.append(tab[q - 1][want[-1]])
                    got = list(t.ray_history(i, lvl))
                    R.check(got == want, 'history', parents=tab, level=lvl, ray=i, got=got, want=want)
                    R.step(lvl)
            R.state(levels)
    R.trace(count)
    R.outcome('trees', count)
