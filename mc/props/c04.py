"""C04: directions and indices of reflected and refracted rays."""
import itertools
import math

import numpy as N

from mc import build, ref, rng, scene as sc
from tracer import optics

RULE = """All (incidence angle x azimuth x normal x index pair) of a grid, near
and beyond the critical angle, through the optics functions (scalar and array
indices, one normal for all or one each) and through real refracting and
reflecting surfaces; all ordered mixtures of up to 4 ray classes (refracted,
totally reflected, head-on, from the other side) in one bundle, and one of a
class among up to 119 of another; rays given in whole numbers; multi-bounce
traces through plates, balls, prisms and mirrors in lockstep with the model.
state = one incidence configuration; transition = one outgoing ray compared."""
ASSUME = ["Within 1e-9 (sine) of the critical angle either outcome is accepted.",
          "Unit normals and directions; indices 1 to 4."]

INDICES = [(1., 1.5), (1.5, 1.), (1., 1.0), (1.33, 1.7), (1.7, 1.33), (1., 4.), (4., 1.), (1.5, 1.4999), (1.0003, 2.4)]
ANGLES = [0., 1e-6, 1e-3, 0.2, 0.5, 0.7, math.pi/4, 0.9, 1.1, 1.3, 1.5, 1.56, 1.5705, math.pi/2 - 1e-4, math.pi/2 - 1e-5, math.pi/2 - 1e-6]
NORMALS = ref.unit(N.array([(0, 0, 1.), (0, 0, -1), (1, 0, 0), (0, -1, 0), (1, 1, 0), (0.3, -0.7, 0.4), (-0.5, -0.1, 0.9)]).T)


def basis(n):
    a = N.array([0.6, -0.48, 0.64]) if abs(n[0]) < 0.9 else N.array([0., 0.8, 0.6])
    t = N.cross(n, a)
    t /= N.sqrt((t**2).sum())
    return t, N.cross(n, t)


def incoming(n, angle, az):
    """Unit direction hitting a surface whose normal n faces it."""
    t1, t2 = basis(n)
    return -math.cos(angle)*n + math.sin(angle)*(math.cos(az)*t1 + math.sin(az)*t2)


def angle_set(n1, n2):
    A = list(ANGLES)
    if n1 > n2:
        c = math.asin(n2/n1)
        A += [c - 1e-4, c + 1e-4, c - 1e-2, c + 1e-2, c - 1e-7, c + 1e-7]
        A = [a for a in A if 0 <= a < math.pi/2]
    return A


def cases(tier):
    out = [('functions n=%g/%g' % p, ('fn', i, tier)) for i, p in enumerate(INDICES)]
    out += [('reflections', ('refl', 0, tier)), ('hartmann', ('hart', 0, tier))]
    out += [('surface n=%g/%g' % p, ('surf', i, tier)) for i, p in enumerate(INDICES)]
    out += [('mixtures n=%g/%g' % p, ('mix', i, tier)) for i, p in enumerate(INDICES) if p[0] != p[1]]
    out += [('trace %s' % k, ('trace', k, tier)) for k in TRACES]
    out += [('whole numbers %s' % (op,), ('whole', op, tier)) for op in WHOLE]
    out += [('shapes %d' % i, ('shapes', i, tier)) for i in range(len(build.shapes()))]
    return out


WHOLE = (('refl', 0.2), ('rec', 0.37), ('lamb', 0.3), ('lrec', 0.6), ('updown', 0.25), ('refr', 1., 1.5), ('refr', 1, 2))


def whole(R, op, want, balance=None):
    """Rays all of whose properties are given as arrays of whole numbers."""
    eye = N.eye(3, dtype=int)
    o, d = build.cross(N.array(list(itertools.product((-2, 0, 1), (-1, 0, 2), (-3, 0, 4)))).T, N.hstack((eye, -eye)))
    m = o.shape[1]
    for pn, shape in itertools.product(('id', 'skew', 'far', 'x90'), (('rect', 40., 50.), ('round', 3.7), ('sph', 2.3), ('fcyl', 2.2, 5.), ('dish', 6., 1.))):
        if op[0] == 'updown' and shape[0] != 'rect':
            continue
        T = build.POSES[pn].copy()
        T[:3, 3] = (0.13, -0.21, 0.34)
        for step in (1, 7):
            s = sc.Scene(sc.asm(sc.obj((shape, T, op))))
            b = build.bundle(o[:, ::step], d[:, ::step])
            k = b.get_num_rays()
            b.set_energy(1 + N.arange(k) % 7)
            b.set_ref_index(1 + (N.arange(k) % 2 if op[1:] == (1, 2) else 0*N.arange(k)))
            what = 'whole numbers, %s on %s in pose %s' % (op, shape[0], pn)
            e, _ = sc.lockstep(R, s, b, 2, 0, what, 4., want)
            if balance:
                balance(R, e, None, [x[3] for x in s.surfs if op[0] in ('rec', 'lrec')], float(b.get_energy().sum()), what)
    R.outcome('whole numbers ' + op[0])


def check_refr(R, n1, n2, d, nf, refr, out, what):
    """nf faces the ray. refr: boolean; out: directions of the refracted."""
    refr = N.array(refr)
    R.check(refr.shape == (d.shape[1],), what + ': shape of mask', got=refr.shape)
    cos1 = -(d*nf).sum(axis=0)
    tang = N.sqrt(((d + nf*cos1)**2).sum(axis=0))
    sin2 = n1/n2*tang
    crit = N.abs(sin2 - 1) < 1e-9
    bad = ~crit & (refr != (sin2 < 1))
    R.check(not bad.any(), what + ': total reflection on the wrong side of the critical angle',
            sin2=sin2[bad][:3], got=refr[bad][:3])
    out = N.array(out)
    R.check(out.shape == (3, int(refr.sum())), what + ': number of refracted rays', got=out.shape, want=int(refr.sum()))
    d, nf, tang, crit = d[:, refr], nf[:, refr], tang[refr], crit[refr]
    k = N.broadcast_to(n1/n2, refr.shape)[refr]
    R.close(N.sqrt((out**2).sum(axis=0)), N.ones(d.shape[1]), what + ': refracted direction not of unit length', 1e-8)
    # crosses to the other side
    side = (out*nf).sum(axis=0)
    R.check((side <= 1e-7).all(), what + ': refracted ray does not cross the surface', worst=side.max() if len(side) else 0)
    # Snell's law and plane of incidence: tangential component scales by n1/n2
    t_out = out - nf*side
    t_in = d - nf*(d*nf).sum(axis=0)
    R.close(t_out, N.where(crit, t_out, k*t_in), what + ": Snell's law or plane of incidence", 1e-8)
    R.step(d.shape[1])


def grid(n1, n2):
    dd, nn = [], []
    for j in range(NORMALS.shape[1]):
        for a in angle_set(n1, n2):
            for az in (0., 1.1, 2.5, math.pi, 4.4):
                dd.append(incoming(NORMALS[:, j], a, az))
                nn.append(NORMALS[:, j])
    return N.array(dd).T, N.array(nn).T


def run(args, R):
    kind, i, tier = args
    rng.CONTROL.reset()
    if kind == 'fn':
        n1, n2 = INDICES[i]
        d, nf = grid(n1, n2)
        R.state(d.shape[1])
        m = d.shape[1]
        for label, a, b in (('scalar', n1, n2), ('array', N.full(m, n1), N.full(m, n2))):
            for flip in (1, -1):
                refr, out = optics.refractions(a, b, d.copy(), flip*nf)
                check_refr(R, n1, n2, d, nf, refr, out, '%s indices, normal %s' % (label, 'facing' if flip > 0 else 'along'))
                R.trace()
        # one by one, and one normal for all rays
        for c in range(0, m, 3):
            refr, out = optics.refractions(n1, n2, d[:, c:c+1], nf[:, c:c+1])
            check_refr(R, n1, n2, d[:, c:c+1], nf[:, c:c+1], refr, out, 'single ray')
            R.trace()
        per = m//NORMALS.shape[1]
        for j in range(NORMALS.shape[1]):
            s = N.s_[j*per:(j + 1)*per]
            refr, out = optics.refractions(n1, n2, d[:, s], nf[:, j*per:j*per + 1])
            check_refr(R, n1, n2, d[:, s], nf[:, s], refr, out, 'one normal for all')
        # going back along the refracted ray restores the direction
        refr, out = optics.refractions(n1, n2, d, nf)
        back, orig = optics.refractions(n2, n1, -out, nf[:, refr])
        cosr = N.abs((out*nf[:, refr]).sum(axis=0))
        good = cosr > 1e-3
        R.check(back[good].all(), 'refracted ray cannot go back')
        R.close(orig[:, good[back]], -d[:, refr][:, good & back], 'going back does not restore the ray', 1e-6)
        # mixed index pairs in one call
        p2 = INDICES[(i + 3) % len(INDICES)]
        alt = N.arange(m) % 2 == 0
        a, b = N.where(alt, n1, p2[0]), N.where(alt, n2, p2[1])
        refr, out = optics.refractions(a, b, d, nf)
        check_refr(R, a, b, d, nf, refr, out, 'mixed index pairs')
        R.outcome('refracted', refr.sum())
        R.outcome('totally reflected', (~refr).sum())
        R.sample(n1=n1, n2=n2, rays=m, refracted=int(refr.sum()))
    elif kind == 'refl':
        d, nf = grid(1., 1.)
        for label, nn in (('facing', nf), ('along', -nf)):
            out = N.array(optics.reflections(d.copy(), nn.copy()))
            R.close(out, ref.mirror(d, nf), 'reflection, normal ' + label, 1e-9)
            R.close(optics.reflections(out, nn), d, 'reflecting twice', 1e-9)
            for c in range(0, d.shape[1], 5):
                R.close(optics.reflections(d[:, c:c+1], nn[:, c:c+1]), out[:, c:c+1], 'single reflection', 1e-12)
                R.trace()
        R.state(d.shape[1])
        R.step(2*d.shape[1])
    elif kind == 'hart':
        for a, b, c, dd, e in itertools.product((1.2, 2.), (0., -0.04, 12.3), (0.1, -3.), (0., 0.07, -5.), (0.2, 4.7)):
            lam = N.array([0.35, 0.4, 0.55, 0.6328, 0.8, 1.064, 1.55, 2.5, 10.6])
            want = a + b/(c - lam) + dd/(e - lam)
            R.close(optics.refr_idx_hartmann(lam, a, b, c, dd, e), want, 'dispersion', 1e-10, prm=(a, b, c, dd, e))
            R.close([optics.refr_idx_hartmann(float(x), a, b, c, dd, e) for x in lam], want, 'dispersion of one wavelength', 1e-10)
            R.state(len(lam))
            R.step(2*len(lam))
            R.trace(2)
    elif kind == 'surf':
        n1, n2 = INDICES[i]
        # a flat refracting plate in every pose, hit from both sides and from both media
        for pn in sorted(build.POSES):
            T = build.POSES[pn]
            for shape in (('flat',), ('rect', 400., 500.), ('round', 300.)):
                d, o, n = [], [], []
                for side in (1, -1):
                    nf = N.array([0., 0., side])
                    for (na, nb) in ((n1, n2), (n2, n1)):
                        for a in angle_set(na, nb):
                            if a > 1.56:
                                continue
                            for az in (0., 2., 3.9):
                                di = incoming(nf, a, az)
                                d.append(di)
                                o.append(N.array([0.3, -0.2, 0.]) - di*1.7)
                                n.append(na)
                d, o, n = ref.vecs(T, N.array(d).T), ref.pts(T, N.array(o).T), N.array(n)
                s = sc.Scene(sc.asm(sc.obj((shape, T, ('refr', n1, n2)))))
                sc.lockstep(R, s, build.bundle(o, d, ref_index=n, energy=2. + N.arange(len(n))), 1, 0., 'plate in pose %s' % pn, 2.,
                            ('count', 'place', 'dir', 'index', 'tag'))
                for k in ('refl', 'rec', 'updown', 'lamb', 'lrec') if shape[0] == 'rect' else ('refl',):
                    s = sc.Scene(sc.asm(sc.obj((shape, T, (k, 0.2)))))
                    sc.lockstep(R, s, build.bundle(o, d, ref_index=n, energy=2. + N.arange(len(n))), 1, 0.,
                                '%s in pose %s' % ('mirror' if k == 'refl' else k, pn), 2., ('count', 'place', 'dir', 'index', 'tag'))
    elif kind == 'mix':
        na, nb = INDICES[i]
        hi, lo = max(na, nb), min(na, nb)
        c = math.asin(lo/hi)
        z = N.array([0., 0., 1.])
        classes = [('refracted in', incoming(z, 0.6, 0.3), lo), ('head-on', incoming(z, 0., 0.), hi),
                   ('totally reflected', incoming(z, min(c + 0.3*(math.pi/2 - c), 1.5), 1.), hi),
                   ('refracted out', incoming(z, 0.5*c, 2.), hi),
                   ('below', incoming(-z, 0.4*c, 1.5), hi),
                   ('below, total', incoming(-z, c + 0.5*(math.pi/2 - c), 1.5), hi),
                   ('misses', incoming(z, 0.3, 0.2)*N.array([1, 1, -1.]), lo)]
        T = build.POSES['skew']
        for pair in ((na, nb), (nb, na)):
            s = sc.Scene(sc.asm(sc.obj((('rect', 50., 60.), T, ('refr', pair[0], pair[1])))))
            for q in (1, 2, 3, 4):
                combos = itertools.product(range(len(classes)), repeat=q) if q < 4 else itertools.permutations(range(len(classes)), 4)
                for n_c, combo in enumerate(combos):
                    if tier == 'quick' and q == 4 and n_c % 4:
                        continue
                    d = N.array([classes[k][1] for k in combo]).T
                    o = N.array([[0.1*j, -0.2*j, 0.] for j in range(q)]).T - 1.3*d
                    b = build.bundle(ref.pts(T, o), ref.vecs(T, d), ref_index=[classes[k][2] for k in combo], energy=1. + N.arange(q))
                    sc.lockstep(R, s, b, 1, 0., 'mixture %s' % [classes[k][0] for k in combo], 2., ('count', 'place', 'dir', 'index', 'tag'))
            # one ray of a class among many of another
            for (a, b), (m, at) in itertools.product(itertools.permutations(range(len(classes)), 2), ((8, 0), (25, 24), (40, 17), (120, 60))):
                combo = [a]*at + [b] + [a]*(m - at - 1)
                d = N.array([classes[k][1] for k in combo]).T
                o = N.array([[0.1*j, -0.2*j, 0.] for j in range(m)]).T - 1.3*d
                b_ = build.bundle(ref.pts(T, o), ref.vecs(T, d), ref_index=[classes[k][2] for k in combo], energy=1. + N.arange(m))
                sc.lockstep(R, s, b_, 1, 0., 'one %s among %d %s' % (classes[b][0], m - 1, classes[a][0]), 2. + 0.2*m, ('count', 'place', 'dir', 'index', 'tag'))
            for cl in classes:
                R.outcome('class ' + cl[0])
    elif kind == 'whole':
        whole(R, i, ('count', 'place', 'dir', 'index', 'tag'))
    elif kind == 'trace':
        for label, desc, o, d, n in TRACES[i]():
            s = sc.Scene(desc)
            sc.lockstep(R, s, build.bundle(o, d, ref_index=n), 6, 1e-4, label, 2., ('count', 'place', 'dir', 'index', 'tag'))
    elif kind == 'shapes':
        shape = build.shapes()[i]
        o0, d0 = build.all_rays(shape)
        o0, d0 = o0[:, ::3], d0[:, ::3]
        for pn in ('id', 'skew', 'flip', 'far'):
            T = build.POSES[pn]
            idx = N.where(N.arange(o0.shape[1]) % 2, 1.5, 1.2)
            for op in (('refr', 1.5, 1.2), ('refl', 0.1)):
                s = sc.Scene(sc.asm(sc.obj((shape, T, op))))
                sc.lockstep(R, s, build.bundle(ref.pts(T, o0), ref.vecs(T, d0), ref_index=idx), 2, 0.,
                            '%s %s pose %s' % (op, build.name(shape), pn), ref.size(shape), ('count', 'place', 'dir', 'index', 'tag'))


def beams():
    o = N.array(list(itertools.product((-0.41, 0.03, 0.27), (-0.35, 0.11, 0.44), (2.2,)))).T
    return build.cross(o, ref.unit(N.array([(0, 0, -1.), (0.1, 0.05, -1), (-0.2, 0.1, -1), (0.02, -0.25, -1)]).T))


def t_plate():
    P = ref.pose
    for n in (1.3, 1.5, 2.4):
        for T in (N.eye(4), build.POSES['skew']):
            o, d = beams()
            desc = sc.asm(sc.obj((('rect', 9., 9.), P(), ('refr', 1., n)), (('rect', 9., 9.), P(trans=(0, 0, -0.4)), ('refr', 1., n))), T=T)
            yield 'plate n=%g' % n, desc, ref.pts(T, o), ref.vecs(T, d), N.ones(o.shape[1])


def t_layers():
    P = ref.pose
    for T in (N.eye(4), build.POSES['x90']):
        o, d = beams()
        ns = (1., 1.5, 1.2, 2.0, 1.)
        surfs = [(('rect', 9., 9.), P(trans=(0, 0, -0.3*k)), ('refr', ns[k], ns[k + 1])) for k in range(4)]
        yield 'layers', sc.asm(*[sc.obj(s) for s in surfs], T=T), ref.pts(T, o), ref.vecs(T, d), N.ones(o.shape[1])


def t_ball():
    for n in (1.3, 1.8, 2.6):
        for T in (N.eye(4), build.POSES['skew2']):
            o, d = beams()
            desc = sc.asm(sc.obj((('sph', 0.9), N.eye(4), ('refr', 1., n))), T=T)
            yield 'ball n=%g' % n, desc, ref.pts(T, o), ref.vecs(T, d), N.ones(o.shape[1])


def t_rod():
    P = ref.pose
    for n in (1.4, 2.):
        for T in (N.eye(4), build.POSES['skew']):
            o, d = beams()
            desc = sc.asm(sc.obj((('fcyl', 1.3, 1.5), P(), ('refr', n, 1.)), (('round', 0.65), P(trans=(0, 0, 0.75)), ('refr', 1., n)),
                                 (('round', 0.65), P((1, 0, 0), math.pi, (0, 0, -0.75)), ('refr', 1., n))), T=T)
            yield 'rod n=%g' % n, desc, ref.pts(T, o), ref.vecs(T, d), N.ones(o.shape[1])


def t_mirrored():
    P = ref.pose
    o, d = beams()
    desc = sc.asm(sc.obj((('rect', 9., 9.), P(), ('refr', 1., 1.6))), sc.obj((('rect', 9., 9.), P(trans=(0, 0, -0.5)), ('refl', 0.1))))
    yield 'back mirror', desc, o, d, N.ones(o.shape[1])


TRACES = {'plate': t_plate, 'layers': t_layers, 'ball': t_ball, 'rod': t_rod, 'mirrored': t_mirrored}
