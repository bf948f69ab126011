"""Reference tracer: scenes as plain data, and the step relation of a trace.

A scene is ('asm', T, [children]) with children 'asm' or 'obj';
('obj', T, [surfaces]); a surface is (shape, T, optics) with optics one of
('refl', a) ('rec', a) ('lamb', a) ('lrec', a) ('updown', a) ('refr', n1, n2).

The model is kept bound to the code in lockstep: every level of a real trace is
the model's start state for the next step, and what the real code made of each
ray is compared with the model's only allowed successors.
"""
import numpy as N

from mc import ref, build
from mc.build import opt, Surface, AssembledObject, Assembly, TracerEngine


def make_optics(spec):
    k = spec[0]
    if k == 'refl':
        return opt.Reflective(spec[1])
    if k == 'rec':
        return opt.ReflectiveReceiver(spec[1])
    if k == 'lamb':
        return opt.LambertianReflector(spec[1])
    if k == 'lrec':
        return opt.LambertianReceiver(spec[1])
    if k == 'updown':
        return opt.AbsorberReflector(spec[1])
    if k == 'refr':
        return opt.RefractiveHomogenous(spec[1], spec[2])
    raise KeyError(k)


class Scene(object):
    """The real assembly of a scene description, with the model's flat list of
    placed surfaces: self.surfs = [(shape, world frame, optics, real surface)]."""
    def __init__(self, desc):
        self.surfs = []
        self.desc = desc
        self.asm = self._make(desc, N.eye(4))

    def _make(self, desc, above):
        kind, T, kids = desc
        W = N.dot(above, T)
        if kind == 'obj':
            ss = []
            for shape, S, o in kids:
                s = build.surface(shape, S, make_optics(o))
                ss.append(s)
                self.surfs.append((shape, N.dot(W, S), o, s))
            return AssembledObject(surfs=ss, transform=T.copy())
        asm = Assembly()
        for k in kids:
            real = self._make(k, W)
            if k[0] == 'obj':
                asm.add_object(real, k[1].copy())
            else:
                asm.add_assembly(real, k[1].copy())
        asm.set_transform(T.copy())
        return asm


def obj(*surfs, **kw):
    return ('obj', kw.get('T', N.eye(4)), list(surfs))


def asm(*kids, **kw):
    return ('asm', kw.get('T', N.eye(4)), list(kids))


def first_hit(surfs, o, d):
    """Model: index of the surface each ray meets first (-1: none), its
    distance, and whether the reference leaves it undecided."""
    n = o.shape[1]
    best = N.full(n, N.inf)
    who = N.full(n, -1)
    und = N.zeros(n, dtype=bool)
    second = N.full(n, N.inf)
    for k, s in enumerate(surfs):
        t, u = ref.hits_world(s[0], s[1], o, d)
        und |= u
        closer = t < best
        second = N.minimum(second, N.where(closer, best, t))
        who = N.where(closer, k, who)
        best = N.where(closer, t, best)
    with N.errstate(all='ignore'):
        und |= N.isfinite(second) & (second - best <= 1e-6*(1 + best))
    return who, best, und


class Step(object):
    """The model's prediction for one trace step of a bundle of rays."""
    def __init__(self, surfs, bund, alive):
        self.surfs = surfs
        self.o = N.array(bund.get_vertices(), dtype=float)
        self.d = N.array(bund.get_directions(), dtype=float)
        self.e = N.array(bund.get_energy(), dtype=float)
        try:
            self.n = N.array(bund.get_ref_index(), dtype=float)
        except (KeyError, AttributeError):      # not set
            self.n = None
        self.tag = N.array(bund.get_tag()) if bund.has_property('tag') else None
        self.alive = alive
        # (only the rays that go on are looked at)
        self.who, self.t, self.und = first_hit(surfs, self.o, self.d)
        with N.errstate(all='ignore'):
            # beyond the horizon nothing is compared
            self.und |= ~(N.sqrt((self.o**2).sum(axis=0)) < 0.25*ref.HORIZON)
            self.und |= N.isfinite(self.t) & (self.t > 0.25*ref.HORIZON)
        self.who = N.where(alive, self.who, -1)
        with N.errstate(all='ignore'):
            self.p = self.o + self.d*N.where(self.who >= 0, self.t, 0.)
        self.nrm = N.zeros_like(self.o)
        self.inc = N.zeros(len(alive))
        for k, s in enumerate(surfs):
            m = self.who == k
            if m.any():
                self.nrm[:, m], self.inc[m] = ref.facing_normal(s[0], s[1], self.p[:, m], self.d[:, m])

    def tol(self, scale):
        with N.errstate(all='ignore'):
            tol = 1e-7*(scale + N.where(self.who >= 0, self.t, 0.))
        for k, s in enumerate(self.surfs):
            m = self.who == k
            if m.any():
                I = ref.inv(s[1])
                tol[m] += ref.t_tol(s[0], ref.pts(I, self.o[:, m]), ref.vecs(I, self.d[:, m]))
        return tol


def check_step(R, step, child, what, scale=1., want=('count', 'place', 'surface', 'dir', 'energy', 'index')):
    """Compare the real successors of a bundle with the model's. `want` says
    which aspects the property at hand is about."""
    n = len(step.alive)
    par = N.array(child.get_parents()).astype(int) if child is not None else N.zeros(0, int)
    R.check(((par >= 0) & (par < n)).all(), what + ': parent index out of range', got=par[:10], n=n)
    cnt = N.bincount(par, minlength=n)
    und = step.und & step.alive
    R.skip(und.sum())
    kinds = N.array([s[2][0] for s in step.surfs] + ['none'])[step.who]
    if 'count' in want:
        bad = ~step.alive & (cnt > 0)
        R.check(not bad.any(), what + ': a discarded ray goes on', ray=N.nonzero(bad)[0][:4])
        far = N.zeros(n, dtype=bool)
        if child is not None and len(par):
            dist = N.sqrt(((child.get_vertices() - step.o[:, par])**2).sum(axis=0))
            far[par[dist > 0.5*ref.HORIZON]] = True
        bad = step.alive & ~und & ~far & (step.who < 0) & (cnt > 0)
        if bad.any():
            i = N.nonzero(bad)[0][0]
            R.fail(what + ': a ray that meets no surface goes on', ray=i, start=step.o[:, i],
                   direction=step.d[:, i], child=child.get_vertices()[:, par == i])
        bad = step.alive & ~und & (step.who >= 0) & (cnt == 0)
        if bad.any():
            i = N.nonzero(bad)[0][0]
            R.fail(what + ': a ray that meets a surface does not go on', ray=i, start=step.o[:, i],
                   direction=step.d[:, i], surface=build.name(step.surfs[step.who[i]][0]),
                   distance=step.t[i])
        single = kinds != 'refr'
        bad = ~und & (step.who >= 0) & single & (cnt != 1)
        R.check(not bad.any(), what + ': not exactly one reflected ray', ray=N.nonzero(bad)[0][:4],
                got=cnt[bad][:4])
        R.outcome('escape', (step.alive & ~und & (step.who < 0)).sum())
        R.outcome('hit', (~und & (step.who >= 0)).sum())
    R.step((step.alive & ~und).sum())
    if child is None or not len(par):
        return
    if 'tag' in want and step.tag is not None:
        got = N.array(child.get_tag()) if child.has_property('tag') else None
        R.check(got is not None and got.shape == par.shape, what + ': rays lose a property their parents have')
        bad = got != step.tag[par]
        R.check(not bad.any(), what + ': a ray has a property of another ray than its parent', ray=N.nonzero(bad)[0][:4], parent=par[bad][:4])
    cv, cd = N.array(child.get_vertices()), N.array(child.get_directions())
    ce = N.array(child.get_energy())
    ok = ~und[par] & (step.who[par] >= 0)
    q = par[ok]
    tol = step.tol(scale)[q]
    if 'place' in want:
        err = N.sqrt(((cv[:, ok] - step.p[:, q])**2).sum(axis=0))
        bad = ~(err <= tol)
        if bad.any():
            i = N.nonzero(bad)[0][0]
            R.fail(what + ': ray goes on from another point than the first it meets', ray=q[i],
                   start=step.o[:, q[i]], direction=step.d[:, q[i]], got=cv[:, ok][:, i],
                   want=step.p[:, q[i]], surface=build.name(step.surfs[step.who[q[i]]][0]))
    nrm, din = step.nrm[:, q], step.d[:, q]
    side = (cd[:, ok]*nrm).sum(axis=0)
    refl = side > 0
    grazing = step.inc[q] < 1e-4
    spec = [s[2] for s in step.surfs]
    absn = N.array([s[1] if s[0] != 'refr' else 0. for s in spec])[step.who[q]]
    isrefr = kinds[q] == 'refr'
    n1 = n2 = None
    Rf = N.zeros(len(q))
    if isrefr.any():
        n1 = step.n[q]
        ia = N.array([s[1] if s[0] == 'refr' else 1. for s in spec])[step.who[q]]
        ib = N.array([s[2] if s[0] == 'refr' else 1. for s in spec])[step.who[q]]
        n2 = N.where(n1 == ia, ib, ia)
        out_dir, sin2 = ref.snell(din, nrm, n1, n2)
        Rf = ref.fresnel(step.inc[q], n1, n2)
        crit = N.abs(sin2 - 1) < 1e-7
        if 'count' in want:
            c_refl = N.bincount(q[isrefr & refl], minlength=n)
            c_refr = N.bincount(q[isrefr & ~refl], minlength=n)
            must = N.zeros(n, dtype=int)
            must[q[isrefr & (sin2 < 1)]] = 1
            sure = N.zeros(n, dtype=bool)
            sure[q[isrefr & ~crit & ~grazing]] = True
            bad = sure & ((c_refl != 1) | (c_refr != must))
            R.check(not bad.any(), what + ': wrong number of reflected/refracted rays',
                    ray=N.nonzero(bad)[0][:4], reflected=c_refl[bad][:4], refracted=c_refr[bad][:4],
                    want_refracted=must[bad][:4])
            R.outcome('refracted', (isrefr & ~refl).sum())
            R.outcome('totally reflected', (isrefr & (sin2 > 1) & ~crit).sum())
    if 'dir' in want:
        exp = ref.mirror(din, nrm)
        if isrefr.any():
            exp = N.where(isrefr & ~refl, out_dir, exp)
        det = N.array([s[0] not in ('lamb', 'lrec') for s in spec])[step.who[q]]
        err = N.sqrt(((cd[:, ok] - exp)**2).sum(axis=0))
        lim = N.where(isrefr & (crit if isrefr.any() else False), 1e-2, 1e-6)
        bad = det & ~grazing & ~(err <= lim)
        if bad.any():
            i = N.nonzero(bad)[0][0]
            R.fail(what + ': wrong outgoing direction', got=cd[:, ok][:, i], want=exp[:, i],
                   direction=din[:, i], normal=nrm[:, i], surface=build.name(step.surfs[step.who[q[i]]][0]))
        R.close(N.sqrt((cd[:, ok]**2).sum(axis=0)), N.ones(len(q)), what + ': direction not of unit length', 1e-8)
    if 'energy' in want or 'surface' in want:
        fac = 1 - absn
        upd = kinds[q] == 'updown'
        if upd.any():
            ups = N.array([s[1][:3, 2] for s in step.surfs]).T[:, step.who[q]]
            fac = N.where(upd & ((din*ups).sum(axis=0) > 0), 0., fac)
        fac = N.where(isrefr, N.where(refl, Rf, 1 - Rf), fac)
        exp = step.e[q]*fac
        err = N.abs(ce[ok] - exp)
        lim = (1e-7 + N.where(isrefr, 1e-8/N.maximum(step.inc[q], 1e-3), 0.))*N.maximum(step.e[q], 1e-300) + N.where(isrefr & (step.inc[q] < 1e-3), 1e-2*step.e[q], 0.)
        if isrefr.any():
            # the reflectance has a vertical tangent at the critical angle
            lim = lim + N.where(isrefr, N.where(N.abs(sin2 - 1) < 1e-6, 2e-2, 1e-7/N.sqrt(N.maximum(N.abs(sin2 - 1), 1e-6))), 0.)*step.e[q]
            if 'energy' not in want:
                lim = N.where(isrefr, N.inf, lim)
        bad = ~(err <= lim)
        if bad.any():
            i = N.nonzero(bad)[0][0]
            R.fail(what + ': ray does not carry the energy that the surface it meets first leaves it',
                   got=ce[ok][i], want=exp[i], before=step.e[q[i]],
                   surface=build.name(step.surfs[step.who[q[i]]][0]), optics=spec[step.who[q[i]]],
                   incidence_cos=step.inc[q[i]])
    if 'index' in want and step.n is not None:
        exp = step.n[q]
        if isrefr.any():
            exp = N.where(isrefr & ~refl, n2, exp)
        got = N.array(child.get_ref_index())[ok]
        bad = (got != exp) & ~grazing
        R.check(not bad.any(), what + ': wrong refractive index', ray=q[bad][:4], got=got[bad][:4], want=exp[bad][:4])


def lockstep(R, scene, bund, reps, min_energy, what, scale=1., want=('count', 'place', 'surface'), engine=None):
    """Trace for real, and compare every step with the model."""
    e = engine if engine is not None else TracerEngine(scene.asm)
    v, d = e.ray_tracer(bund, reps, min_energy)
    tree = e.tree
    nb = tree.num_bunds()
    R.check(1 <= nb <= reps + 1, what + ': number of levels', got=nb, reps=reps)
    R.trace()
    for lvl in range(nb):
        b = tree[lvl]
        alive = N.array(b.get_energy()) > min_energy if lvl else N.ones(b.get_num_rays(), dtype=bool)
        if lvl == nb - 1 and nb - 1 == reps:
            break
        st = Step(scene.surfs, b, alive)
        check_step(R, st, tree[lvl + 1] if lvl + 1 < nb else None,
                   '%s, step %d' % (what, lvl), scale, want)
        R.state(alive.sum())
    R.outcome('levels %d' % nb)
    return e, (v, d)
