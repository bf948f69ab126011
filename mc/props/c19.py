"""C19: dish concentrators and homogenizers deliver light as their design says."""
import itertools
import math

import numpy as N

from mc import build, ref, zoo
from mc.build import Assembly, AssembledObject, TracerEngine
from tracer.models.homogenizer import rect_homogenizer
from tracer.models.homogenized_local_receiver import HomogenizedLocalReceiver
from tracer.models.tau_minidish import MiniDish, standard_minidish, standard_minidish_measures
from tracer.models.PETAL_dish import PETAL

RULE = """Homogenizers: apertures x heights x efficiencies x poses, a grid of
entry points x directions from either end and from inside (up to 12 wall
bounces); the chain of each ray in the real tree is followed to its end and
compared with the straight path unfolded over the mirrored copies of the pipe.
Concentrators (MiniDish, standard minidish, PETAL and the general class with a
user's reflector): diameters x focal lengths x receiver positions, sizes and
depths x efficiencies x aspect x poses, a grid of axis-parallel rays over and
beyond the aperture and close to both sides of its outline; which rays are blocked by the back of the receiver, miss,
reflect, enter and arrive, where and with which energy, is computed in closed
form. state = one source ray; transition = one ray compared; trace = one
engine run."""
ASSUME = ["Rays that come within 1e-6 of an edge of a wall, outline or aperture are undecided.",
          "Closed form: axis-parallel light, dish rim below the mouth of the homogenizer."]


def fold(x, half):
    """Position inside the pipe of an unfolded coordinate, number of walls
    crossed, and whether the direction is reversed; walls at +-half."""
    k = N.floor((x + half)/(2*half))
    y = x - 2*half*k
    odd = (k.astype(int) % 2) != 0
    return N.where(odd, -y, y), N.abs(k).astype(int), odd


def near_wall(x, half, tol):
    r = (x + half)/(2*half)
    return N.abs(r - N.rint(r))*2*half < tol


def corner(x, dx, half_x, y, dy, half_y, dist, tol):
    """Whether a straight path comes close to an edge between two walls."""
    bad = N.zeros(len(x), dtype=bool)
    for i in range(len(x)):
        ts = []
        for p, v, h in ((x[i], dx[i], half_x), (y[i], dy[i], half_y)):
            t = []
            if abs(v) > 1e-12:
                lo, hi = sorted((p, p + v*dist[i]))
                for k in range(int(math.ceil((lo - h)/(2*h))) - 1, int(math.floor((hi - h)/(2*h))) + 2):
                    t.append((h + 2*h*k - p)/v)
            ts.append(t)
        bad[i] = any(abs(a - b) < tol for a in ts[0] for b in ts[1])
    return bad


def ends(tree, n, what, R):
    """For each source ray the last ray of its chain, and the chain's length."""
    last = [None]*n
    owner = N.arange(n)
    for lvl in range(tree.num_bunds()):
        b = tree[lvl]
        if lvl:
            par = N.array(b.get_parents()).astype(int)
            R.check(len(set(par)) == len(par), what + ': a ray splits')
            owner = owner[par]
        v, d, e = N.array(b.get_vertices()), N.array(b.get_directions()), N.array(b.get_energy())
        for j, i in enumerate(owner):
            last[i] = (lvl, v[:, j], d[:, j], e[j])
    return last


# ------------------------------------------------------------------ pipes
PIPES = [(1., 1., 2.), (1.1, 0.4, 3.), (0.3, 0.7, 0.5), (5, 3, 10), (2., 2.5, 0.8), (1.4, 0.3, 0.9), (0.25, 1.1, 0.6)]


def pipe(R, X, Y, H, eff, pn, way, tier):
    T = build.POSES[pn]
    what = 'homogenizer %g x %g x %g, efficiency %g, pose %s (%s)' % (X, Y, H, eff, pn, way)
    h = rect_homogenizer(X, Y, H, eff)
    if way == 'own':
        h.set_transform(T.copy())
        asm = h
    else:
        asm = Assembly()
        asm.add_assembly(h, T.copy())
    hx, hy = X/2., Y/2.
    g = zoo.grid3((-0.83*hx, -0.21*hx, 0.37*hx, 0.919*hx), (-0.71*hy, 0.157*hy, 0.883*hy), (0.,))
    slopes = N.array([(0, 0), (0.2, 0.07), (-0.31, 0.11), (0.13, -0.47), (-0.7, -0.9), (1.31, 0.21), (-0.05, 1.7), (2.3, -1.9), (0.003, 0.001)]).T
    if tier != 'quick':
        slopes = N.hstack((slopes, N.array(list(itertools.product((-3.1, -0.57, 0.013, 0.83, 1.9), (-2.3, -0.41, 0.02, 0.61, 1.33)))).T))
    xy = N.repeat(g[:2], slopes.shape[1], axis=1)
    s = N.tile(slopes, (1, g.shape[1]))
    for start in ('top', 'bottom', 'inside down', 'inside up', 'above'):
        down = start in ('top', 'inside down', 'above')
        z0 = {'top': H, 'bottom': 0., 'inside down': 0.77*H, 'inside up': 0.31*H, 'above': H}[start]
        z1 = 0. if down else H
        L = abs(z1 - z0)
        n = xy.shape[1]
        d = ref.unit(N.vstack((s, N.full(n, -1. if down else 1.))))
        o = N.vstack((xy, N.full(n, z0)))
        if start == 'above':
            o = o - 0.7*d/N.abs(d[2])
        # (at the mouth itself: start just outside of it)
        elif start in ('top', 'bottom'):
            o = o - 1e-3*d
        ux, uy = xy[0] + s[0]*L, xy[1] + s[1]*L
        ex, kx, ox = fold(ux, hx)
        ey, ky, oy = fold(uy, hy)
        und = near_wall(ux, hx, 1e-5*(1 + L)) | near_wall(uy, hy, 1e-5*(1 + L)) | corner(xy[0], s[0], hx, xy[1], s[1], hy, N.full(n, L), 1e-5)
        R.skip(und.sum())
        k = kx + ky
        e0 = 1. + N.arange(n) % 3
        b = build.bundle(ref.pts(T, o), ref.vecs(T, d), energy=e0)
        eng = TracerEngine(asm)
        eng.ray_tracer(b, int(k.max()) + 2, -1.)
        last = ends(eng.tree, n, what, R)
        I = ref.inv(T)
        for i in N.nonzero(~und)[0]:
            lvl, v, dd, e = last[i]
            v, dd = ref.pts(I, v[:, None])[:, 0], ref.vecs(I, dd[:, None])[:, 0]
            det = dict(start=o[:, i], direction=d[:, i], bounces=k[i], end=start)
            R.check(lvl == k[i], what + ': number of wall bounces', got=lvl, **det)
            t = (z1 - v[2])/dd[2] if dd[2] else N.inf
            out = v + dd*t
            R.close(out, N.array([ex[i], ey[i], z1]), what + ': leaves the pipe elsewhere than the unfolded path', 1e-7*(1 + L), **det)
            R.close(dd, d[:, i]*N.array([-1 if ox[i] else 1, -1 if oy[i] else 1, 1]), what + ': direction of leaving', 1e-8, **det)
            R.close(e, e0[i]*eff**k[i], what + ': energy after the bounces', 1e-9, **det)
        R.state(n)
        R.step((~und).sum())
        R.trace()
        R.outcome('no bounce', (k == 0).sum())
        R.outcome('1-3 bounces', ((k > 0) & (k < 4)).sum())
        R.outcome('4 or more bounces', (k > 3).sum())


# ------------------------------------------------------------------ dishes
def outline(hexa, D, x, y):
    """Margin inside the dish's outline."""
    return ref.margin(('hex' if hexa else 'dish', D, 1.), N.array([x, y, 0*x]))


def check_concentrator(R, c, T, hexa, D, f, deff, pos, sx, sy, depth, heff, what, asm=None):
    """Axis-parallel light, in closed form."""
    g = N.linspace(-0.62, 0.62, 17)*D + 0.00371*D
    x, y = [q.ravel() for q in N.meshgrid(g, g*0.97 - 0.0023*D)]
    # just inside and just outside of the outline, all around
    ang = N.linspace(0, 2*math.pi, 61)[:-1] + 0.0137
    reach = D/2.*N.ones(len(ang))
    if hexa:
        reach = N.array([min(math.sqrt(3)/2*D/2/max(abs(math.cos(t)), 1e-9), D/2./(abs(math.sin(t)) + abs(math.cos(t))/math.sqrt(3))) for t in ang])
    for k in (1 - 2e-3, 1 + 2e-3, 0.98, 1.015):
        x, y = N.r_[x, k*reach*N.cos(ang)], N.r_[y, k*reach*N.sin(ang)]
    n = len(x)
    zin = pos - depth               # mouth of the homogenizer
    tol = 1e-6*(D + pos)
    m_dish = outline(hexa, D, x, y)
    m_rec = N.minimum(sx/2. - N.abs(x), sy/2. - N.abs(y))
    und = (N.abs(m_dish) < tol) | (N.abs(m_rec) < tol)
    zd = (x*x + y*y)/4./f
    rim = (D/2.)**2/4./f
    assert rim < zin, what
    blocked = m_rec > 0
    on_dish = ~blocked & (m_dish > 0)
    # after the dish: through the focus
    sl = 1./(f - zd)
    mx, my = x*(1 - (zin - zd)*sl), y*(1 - (zin - zd)*sl)
    m_in = N.minimum(sx/2. - N.abs(mx), sy/2. - N.abs(my))
    und |= on_dish & (N.abs(m_in) < tol)
    enters = on_dish & (m_in > 0)
    ux, uy = x*(1 - (pos - zd)*sl), y*(1 - (pos - zd)*sl)
    ex, kx, _ = fold(ux, sx/2.)
    ey, ky, _ = fold(uy, sy/2.)
    und |= enters & (near_wall(ux, sx/2., 1e-5*(1 + D)) | near_wall(uy, sy/2., 1e-5*(1 + D)))
    co = corner(mx, -x*sl, sx/2., my, -y*sl, sy/2., N.full(n, depth), 1e-5)
    und |= enters & co
    # no mirror copy of a start may be outside of the outline of the walls
    R.skip(und.sum())
    use = ~und
    x, y, zd, blocked, on_dish, enters = [q[use] for q in (x, y, zd, blocked, on_dish, enters)]
    ex, ey, k = ex[use], ey[use], (kx + ky)[use]
    n = len(x)
    o = N.vstack((x, y, N.full(n, pos + 1.7*D)))
    d = N.tile(N.array([[0.], [0.], [-1.]]), (1, n))
    e0 = 1. + N.arange(n) % 5
    b = build.bundle(ref.pts(T, o), ref.vecs(T, d), energy=e0)
    c.get_receiver_surf().get_optics_manager().reset()
    eng = TracerEngine(asm or c)
    eng.ray_tracer(b, int(k[enters].max() if enters.any() else 0) + 4, -1.)
    R.trace()
    I = ref.inv(T)
    # the first interaction
    par = N.array(eng.tree[1].get_parents()).astype(int)
    hit = N.zeros(n, dtype=bool)
    hit[par] = True
    R.check((hit == (blocked | on_dish)).all(), what + ': light is (not) met by the dish or the receiver',
            at=[x[hit != (blocked | on_dish)][:3], y[hit != (blocked | on_dish)][:3]])
    v = ref.pts(I, N.array(eng.tree[1].get_vertices()))
    dd = ref.vecs(I, N.array(eng.tree[1].get_directions()))
    e = N.array(eng.tree[1].get_energy())
    m = on_dish[par]
    q = par[m]
    R.close(v[:, m], N.vstack((x[q], y[q], zd[q])), what + ': place on the dish', 1e-7)
    R.close(e[m], e0[q]*deff, what + ': efficiency of the dish', 1e-9)
    miss = N.cross(N.array([0, 0, f]) - v[:, m].T, dd[:, m].T)
    R.check((N.sqrt((miss**2).sum(axis=1)) <= 1e-7*(D + f)).all() and (((N.array([[0], [0], [f]]) - v[:, m])*dd[:, m]).sum(axis=0) > 0).all(),
            what + ': light from the dish does not go through the focus')
    R.check((N.abs(e[~m]) == 0).all(), what + ': the back of the receiver does not absorb')
    R.outcome('blocked', blocked.sum())
    R.outcome('past the dish', (~blocked & ~on_dish).sum())
    R.outcome('enters', enters.sum())
    R.outcome('misses the mouth', (on_dish & ~enters).sum())
    # what arrives
    ab, pts = c.get_receiver_surf().get_optics_manager().get_all_hits()
    pts = ref.pts(I, N.asarray(pts).reshape(3, -1))
    got = N.vstack((N.asarray(ab)[None], pts)).T
    full = e0*deff*heff**k
    want = N.vstack((full[enters], ex[enters], ey[enters], N.full(enters.sum(), float(pos)))).T
    # hits without energy may or may not be listed
    got, want = got[got[:, 0] > 0], want[want[:, 0] > 0]
    R.check(len(got) == len(want), what + ': number of rays at the receiver', got=len(got), want=len(want))
    zoo.match(R, got, want, 1e-6*(1 + D), what + ': light at the receiver')
    R.state(n)
    R.step(n + len(want))


DISHES = [(2.4, 1.5, 1.7, 0.11, 0.06), (2.2, 1.3, 1.55, 0.41, 0.38), (5, 5, 5.7, .4, 0.7), (1., 2.5, 2.6, 0.05, 0.02), (2.6, 1.2, 1.4, 0.35, 0.1), (3., 2., 2.4, 0.6, 0.55), (2., 1.1, 1.9, 0.5, 0.85)]
# the last two: focus inside the homogenizer / well below its mouth


def place(c, T, way):
    if way == 'own':
        c.set_transform(T.copy())
        return None
    a = Assembly()
    a.add_assembly(c, T.copy())
    return a


def concentrator(R, i, kind, tier):
    D, f, pos, side, depth = DISHES[i]
    for (deff, heff), aspect, (pn, way) in itertools.product(((0.9, 0.8), (1., 1.), (0.4, 0.95), (0.7, 0.)), (1., 0.6, 1.7),
                                                             [(p, w) for p in sorted(build.POSES) for w in ('own', 'nested')]):
        if tier == 'quick' and (hash_((deff, aspect, pn, way)) + i) % 7:
            continue
        what = '%s %s, efficiencies %g and %g, aspect %g, pose %s (%s)' % (kind, DISHES[i], deff, heff, aspect, pn, way)
        if kind == 'MiniDish':
            c = MiniDish(D, f, deff, pos, side, depth, heff, aspect)
            sx, sy = side, side*aspect
        elif kind == 'PETAL':
            c = PETAL(D, f, deff, pos, side, depth, heff, aspect)
            sx, sy = side*aspect, side
        else:
            s = build.surface(('dish', D, f), None, build.opt.Reflective(1 - deff))
            c = HomogenizedLocalReceiver(s, pos, (side, side*aspect) if aspect != 1. else side, depth, heff)
            sx, sy = side, side*aspect
            R.check(c.get_main_reflector() is s, what + ': main reflector')
        if kind != 'general':
            ext = c.get_external_dimensions()
            R.check(tuple(ext) == (D, pos), what + ': external dimensions', got=ext)
        asm = place(c, build.POSES[pn], way)
        check_concentrator(R, c, build.POSES[pn], kind == 'PETAL', D, f, deff, pos, sx, sy, depth, heff, what, asm)


def hash_(t):
    """Same in every run."""
    s = repr(t)
    return sum((i + 1)*ord(ch) for i, ch in enumerate(s))


def standard(R, D, tier):
    for conc, virt, (deff, heff), pn in itertools.product((100., 300., 1200.), (0., 1., 3., 4.5), ((0.9, 0.9), (0.8, 0.95), (1., 0.7)), sorted(build.POSES)):
        if tier == 'quick' and hash_((conc, virt, deff, pn)) % 3:
            continue
        what = 'standard minidish %g, concentration %g, %g virtual sources, pose %s' % (D, conc, virt, pn)
        c, f, W, H = standard_minidish(D, conc, virt, deff, heff)
        m = standard_minidish_measures(D, conc, virt)
        R.close(N.array([f, W, H]), N.array(m), what + ': measures', 1e-12)
        # the rim is seen from the focus at 45 degrees to the axis
        zr = D*D/16./f
        R.close((D/2.)/(f - zr), 1., what + ': rim angle', 1e-9)
        R.close(math.pi*D*D/4./W**2, conc, what + ': concentration', 1e-9)
        R.close(D*H, (virt + 1)*W*(f + H), what + ': distance of the receiver', 1e-9)
        c.set_transform(build.POSES[pn].copy())
        check_concentrator(R, c, build.POSES[pn], False, D, f, deff, f + H, W, W, H, heff, what)


def cases(tier):
    out = [('pipe %s in pose %s' % (p, pn), ('pipe', i, pn, tier)) for i, p in enumerate(PIPES) for pn in sorted(build.POSES)]
    out += [('%s %s' % (k, DISHES[i]), ('dish', i, k, tier)) for i in range(len(DISHES)) for k in ('MiniDish', 'PETAL', 'general')]
    out += [('standard minidish %g' % D, ('std', D, None, tier)) for D in (1., 2.7)]
    return out


def run(args, R):
    kind, x, y, tier = args
    if kind == 'pipe':
        X, Y, H = PIPES[x]
        for eff, way in itertools.product((0.9, 1., 0.35, 0.), ('own', 'nested')):
            if tier == 'quick' and ((eff in (1., 0.) and way == 'nested') or (x + sorted(build.POSES).index(y) + int(10*eff)) % 2):
                continue
            pipe(R, X, Y, H, eff, y, way, tier)
    elif kind == 'dish':
        concentrator(R, x, y, tier)
    else:
        standard(R, x, tier)
