"""C05: energy at every interaction and over whole traces."""
import itertools
import math

import numpy as N

from mc import build, ref, rng, scene as sc
from mc.props.c04 import INDICES, NORMALS, angle_set, incoming, grid, TRACES, beams, WHOLE, whole
from mc.props import c01
from tracer import optics

RULE = """Fresnel reflectance on the full grid of C04 (index pairs x angles x
azimuths x normals, scalar, array and mixed indices); every optics kind x
absorptivity x incoming energy (0 to 1e9 in one bundle) x pose x side x shape;
energies given as whole numbers; all ordered mixtures of up to 3 ray classes on a refracting surface; whole
traces of scenes of receivers, diffusers and refracting bodies for every energy
threshold and number of bounces of a list, in which source = absorbed + energy
of all rays without continuation. state = one ray and its energy; transition =
one interaction compared."""
ASSUME = ["Within 1e-6 (sine) of the critical angle and below 1e-3 (cosine) of grazing the reflectance is compared to 2e-2 only.",
          "Diffuse reflection is driven by a fixed evenly filling stream in place of random numbers; C15 enumerates the random outcomes."]

ABS = (0., 1e-3, 0.1, 0.37, 0.5, 0.9, 1.)
ENERGY = N.array([0., 1e-12, 1e-3, 0.25, 1., 3.7, 1e3, 7.3e5, 1e9])
KINDS = ('refl', 'rec', 'lamb', 'lrec', 'updown')


def cases(tier):
    out = [('fresnel n=%g/%g' % p, ('fn', i, tier)) for i, p in enumerate(INDICES)]
    out += [('%s pose %s' % (k, p), ('opaque', (k, p), tier)) for k in KINDS for p in sorted(build.POSES)]
    out += [('refracting n=%g/%g' % p, ('refr', i, tier)) for i, p in enumerate(INDICES)]
    out += [('mixtures n=%g/%g' % p, ('mix', i, tier)) for i, p in enumerate(INDICES) if p[0] != p[1]]
    out += [('trace ' + k, ('trace', k, tier)) for k in TRACES]
    out += [('whole numbers %s' % (op,), ('whole', op, tier)) for op in WHOLE]
    out += [('balance %s %d' % (k, r), ('balance', (k, r), tier)) for k in SCENES for r in (1, 2, 3, 5, 8)]
    out += [('shapes %d' % i, ('shapes', i, tier)) for i in range(len(build.shapes()))]
    return out


def balance(R, e, src, receivers, total, what):
    """The energy balance of a whole trace."""
    tree = e.tree
    leaves = 0.
    for lvl in range(tree.num_bunds()):
        en = N.array(tree[lvl].get_energy())
        R.check(N.isfinite(en).all() and (en >= 0).all(), what + ': negative or undefined energy', level=lvl, got=en[~(en >= 0)][:4])
        if lvl:
            par = N.array(tree[lvl].get_parents()).astype(int)
            before = N.array(tree[lvl - 1].get_energy())[par]
            bad = en > before*(1 + 1e-12)
            R.check(not bad.any(), what + ': more energy than the ray it came from', got=en[bad][:3], before=before[bad][:3])
        kids = N.zeros(len(en), dtype=bool)
        if lvl + 1 < tree.num_bunds():
            kids[N.array(tree[lvl + 1].get_parents()).astype(int)] = True
        leaves += en[~kids].sum()
        R.step(len(en))
    absorbed = sum(s.get_optics_manager().get_all_hits()[0].sum() for s in receivers)
    R.close(absorbed + leaves, total, what + ': source energy is not absorbed + escaped + discarded + in flight', 1e-9,
            absorbed=absorbed, leaves=leaves)
    R.outcome('balanced traces')
    R.outcome('absorbing traces', int(absorbed > 0))


def run(args, R):
    kind, i, tier = args
    rng.CONTROL.reset()
    if kind == 'fn':
        n1, n2 = INDICES[i]
        d, nf = grid(n1, n2)
        sub = n1/n2*N.sqrt(N.maximum(1 - (d*nf).sum(axis=0)**2, 0)) < 1 - 1e-9
        d, nf = d[:, sub], nf[:, sub]
        cos = N.abs((d*nf).sum(axis=0))
        want = ref.fresnel(cos, n1, n2)
        # near the critical angle the reflectance is only compared coarsely
        tol = N.where(N.abs(n1/n2*N.sqrt(N.maximum(1 - cos**2, 0)) - 1) < 1e-6, 2e-2, 1e-7)
        m = d.shape[1]
        R.state(m)

        def cmp(got, what, w=want, t=tol):
            got = N.array(got)
            R.check(got.shape == w.shape, what + ': shape', got=got.shape)
            bad = ~(N.abs(got - w) <= t)
            R.check(not bad.any(), what + ': reflectance', got=got[bad][:3], want=w[bad][:3], cos=cos[:len(w)][bad[:len(cos)]][:3])
            R.check((got >= 0).all() and (got <= 1 + 1e-12).all(), what + ': reflectance out of [0,1]')
            R.step(len(got))
            R.trace()
        for flip in (1, -1):
            cmp(optics.fresnel(d, flip*nf, n1, n2), 'scalar indices')
            cmp(optics.fresnel(d, flip*nf, N.full(m, n1), N.full(m, n2)), 'array indices')
        for j in range(len(INDICES)):
            p2 = INDICES[j]
            if not (n1/n2 <= 1 and p2[0]/p2[1] <= 1):
                continue
            alt = N.arange(m) % 2 == 0
            a, b = N.where(alt, n1, p2[0]), N.where(alt, n2, p2[1])
            w = ref.fresnel(cos, a, b)
            cmp(optics.fresnel(d, nf, a, b), 'mixed indices', w, 1e-7 + 0*tol)
        for c in range(0, m, 7):
            cmp(optics.fresnel(d[:, c:c+1], nf[:, c:c+1], n1, n2), 'single ray', want[c:c+1], tol[c:c+1])
        if n1 == n2:
            R.check((N.abs(want) < 1e-12).all(), 'reference')
        R.sample(n1=n1, n2=n2, normal_incidence=float(want[0]))
    elif kind == 'opaque':
        k, pn = i
        T = build.POSES[pn]
        for shape in (('rect', 8., 9.), ('sph', 1.1), ('fcyl', 1.6, 40.), ('dish', 9., 2.)):
            if k == 'updown' and shape[0] not in ('rect',):
                continue
            if tier == 'quick' and shape[0] == 'fcyl' and pn not in ('id', 'skew'):
                continue
            o, d = build.cross(N.array([(0.2, 0.1, 3.), (-0.3, 0.2, -3.), (0.05, -0.1, 0.2)]).T, build.directions(1))
            o, d = N.repeat(o, len(ENERGY), axis=1), N.repeat(d, len(ENERGY), axis=1)
            en = N.tile(ENERGY, o.shape[1]//len(ENERGY))
            for a in ABS:
                s = sc.Scene(sc.asm(sc.obj((shape, T, (k, a)))))
                if k in ('rec', 'lrec'):
                    s.surfs[0][3].get_optics_manager().reset()
                e, _ = sc.lockstep(R, s, build.bundle(ref.pts(T, o), ref.vecs(T, d), energy=en), 2, 1e-13,
                                   '%s(%g) on %s' % (k, a, shape[0]), 4., ('count', 'energy'))
                if k in ('rec', 'lrec'):
                    balance(R, e, None, [s.surfs[0][3]], en.sum(), '%s(%g) on %s' % (k, a, shape[0]))
    elif kind == 'refr':
        n1, n2 = INDICES[i]
        for pn in sorted(build.POSES):
            T = build.POSES[pn]
            d, o, n = [], [], []
            for side, (na, nb), az in itertools.product((1, -1), ((n1, n2), (n2, n1)), (0., 2., 3.9)):
                nf = N.array([0., 0., side])
                for a in angle_set(na, nb):
                    if a < 1.56:
                        di = incoming(nf, a, az)
                        d.append(di)
                        o.append(N.array([0.3, -0.2, 0.]) - di*1.7)
                        n.append(na)
            d, o, n = ref.vecs(T, N.array(d).T), ref.pts(T, N.array(o).T), N.array(n)
            s = sc.Scene(sc.asm(sc.obj((('rect', 400., 500.), T, ('refr', n1, n2)))))
            for scale in (1., 1e-9, 1e6):
                en = scale*(2. + N.arange(len(n)) % 7)
                e, _ = sc.lockstep(R, s, build.bundle(o, d, ref_index=n, energy=en), 1, 0.,
                                   'plate in pose %s' % pn, 2., ('count', 'energy'))
                balance(R, e, None, [], en.sum(), 'plate in pose %s' % pn)
    elif kind == 'mix':
        na, nb = INDICES[i]
        hi, lo = max(na, nb), min(na, nb)
        c = math.asin(lo/hi)
        z = N.array([0., 0., 1.])
        classes = [(incoming(z, 0.6, 0.3), lo), (incoming(z, 0., 0.), hi), (incoming(z, min(c + 0.3*(math.pi/2 - c), 1.5), 1.), hi),
                   (incoming(z, 0.5*c, 2.), hi), (incoming(-z, 0.4*c, 1.5), hi), (incoming(-z, c + 0.5*(math.pi/2 - c), 1.5), hi),
                   (incoming(z, 0.3, 0.2)*N.array([1, 1, -1.]), lo)]
        T = build.POSES['skew2']
        s = sc.Scene(sc.asm(sc.obj((('rect', 50., 60.), T, ('refr', na, nb)))))
        # all small mixtures, and one ray of a class among many of another
        combos = [c for q in (1, 2, 3) for c in itertools.product(range(len(classes)), repeat=q)]
        combos += [(a,)*k + (b,) + (a,)*(m - k - 1) for a, b in itertools.permutations(range(len(classes)), 2) for m, k in ((8, 0), (25, 24), (40, 17), (120, 60))]
        for combo in combos:
                q = len(combo)
                d = N.array([classes[k][0] for k in combo]).T
                o = N.array([[0.1*j, -0.2*j, 0.] for j in range(q)]).T - 1.3*d
                en = 1. + 3*N.arange(q)
                e, _ = sc.lockstep(R, s, build.bundle(ref.pts(T, o), ref.vecs(T, d), ref_index=[classes[k][1] for k in combo], energy=en),
                                   1, 0., 'mixture %s' % (combo,), 2. + 0.2*q, ('count', 'energy'))
                balance(R, e, None, [], en.sum(), 'mixture')
    elif kind == 'whole':
        whole(R, i, ('count', 'energy'), balance if i[0] in ('rec', 'lrec', 'refr') else None)
    elif kind == 'trace':
        for label, desc, o, d, n in TRACES[i]():
            for me in (0., 1e-4, 0.02, 0.3):
                s = sc.Scene(desc)
                e, _ = sc.lockstep(R, s, build.bundle(o, d, ref_index=n), 5, me, '%s above %g' % (label, me), 2., ('count', 'energy'))
                if 'refl' not in str(desc):
                    balance(R, e, None, [], float(len(n)), '%s above %g' % (label, me))
    elif kind == 'balance':
        k, reps = i
        desc, o, d = SCENES[k]()
        for me in (0., 1e-6, 1e-2, 0.2, 0.6, 2.):
            s = sc.Scene(desc)
            rec = [x[3] for x in s.surfs if x[2][0] in ('rec', 'lrec')]
            en = 0.3 + (N.arange(o.shape[1]) % 5)
            what = 'scene %s, %d bounces above %g' % (k, reps, me)
            e, _ = sc.lockstep(R, s, build.bundle(o, d, energy=en), reps, me, what, 3., ('count', 'energy'))
            balance(R, e, None, rec, en.sum(), what)
    elif kind == 'shapes':
        shape = build.shapes()[i]
        o0, d0 = build.all_rays(shape)
        o0, d0 = o0[:, ::7], d0[:, ::7]
        for pn, op in itertools.product(('skew', 'far'), (('refr', 1.5, 1.2), ('refl', 0.15), ('rec', 0.6), ('lamb', 0.4))):
            T = build.POSES[pn]
            idx = N.where(N.arange(o0.shape[1]) % 2, 1.5, 1.2)
            s = sc.Scene(sc.asm(sc.obj((shape, T, op))))
            en = 0.5 + N.arange(o0.shape[1]) % 11
            sc.lockstep(R, s, build.bundle(ref.pts(T, o0), ref.vecs(T, d0), ref_index=idx, energy=en), 2, 0.,
                        '%s %s pose %s' % (op, build.name(shape), pn), ref.size(shape), ('count', 'energy'))


P = ref.pose


def src():
    return build.cross(N.array(list(itertools.product((-0.71, 0.13, 0.57), (-0.63, 0.22, 0.39), (-0.55, 0.05, 0.81)))).T, build.directions(1)[:, ::2])


def s_room():
    walls = []
    for k, T in enumerate((P(), P((1, 0, 0), math.pi), P((1, 0, 0), math.pi/2), P((1, 0, 0), -math.pi/2), P((0, 1, 0), math.pi/2), P((0, 1, 0), -math.pi/2))):
        walls.append((('rect', 4., 4.), N.dot(T, P(trans=(0, 0, -2.))), (('rec', 'lrec')[k % 2], 0.1 + 0.13*k)))
    return (sc.asm(*[sc.obj(w) for w in walls]),) + src()


def s_objects():
    kids = []
    for k, (sh, T) in enumerate(c01.PLACED):
        if sh[0] == 'cut' and sh[2][0] == 'cyl':
            continue
        kids.append(sc.obj((sh, T, (('rec', 'lrec')[k % 2], 0.05 + 0.06*k))))
    return (sc.asm(*kids),) + src()


def s_pool():
    """A refracting ball and plate over a receiving floor, in a diffusing dome."""
    return (sc.asm(sc.obj((('sph', 0.5), P(trans=(0.2, 0.1, -1.)), ('refr', 1., 1.5))),
                   sc.obj((('rect', 5., 5.), P(trans=(0, 0, -1.8)), ('refr', 1., 1.33)), (('rect', 5., 5.), P(trans=(0, 0, -2.1)), ('refr', 1., 1.33))),
                   sc.obj((('rect', 9., 9.), P((1, 0, 0), 0.1, (0, 0, -3.)), ('rec', 0.7))),
                   sc.obj((('sph', 8.), P(), ('lrec', 0.35))), T=build.POSES['shift']),) + src()


SCENES = {'room': s_room, 'objects': s_objects, 'pool': s_pool}
