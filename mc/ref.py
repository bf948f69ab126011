"""Reference model of the geometry: shapes in their local frames.

Written from the documentation, not from the code: closed forms or implicit
equations, with explicit margins so that verdicts that depend on rounding
(edges, tangency, starting points) are marked as undecided instead of compared.

A shape is a plain tuple ('kind', params...). Everything is vectorised over
rays: o, d are 3 x n arrays in the local frame.
"""
import math

import numpy as N

START = 1e-6        # documented: a meeting that close to the start is ignored
HORIZON = 1e6       # hits further away than this are not compared


# ---------------------------------------------------------------- rigid motions
def rot(axis, angle):
    """Rodrigues' formula, as sums of outer products."""
    x, y, z = N.asarray(axis, dtype=float) / math.sqrt(sum(float(c)**2 for c in axis))
    c, s = math.cos(angle), math.sin(angle)
    C = 1. - c
    return N.array([[c + x*x*C, x*y*C - z*s, x*z*C + y*s],
                    [y*x*C + z*s, c + y*y*C, y*z*C - x*s],
                    [z*x*C - y*s, z*y*C + x*s, c + z*z*C]])


def pose(axis=(0, 0, 1), angle=0., trans=(0, 0, 0)):
    T = N.eye(4)
    T[:3, :3] = rot(axis, angle)
    T[:3, 3] = trans
    return T


def inv(T):
    """Inverse of a rigid motion."""
    I = N.eye(4)
    I[:3, :3] = T[:3, :3].T
    I[:3, 3] = -N.dot(T[:3, :3].T, T[:3, 3])
    return I


def pts(T, p):
    return N.dot(T[:3, :3], p) + T[:3, 3][:, None]


def vecs(T, v):
    return N.dot(T[:3, :3], v)


def unit(v):
    v = N.asarray(v, dtype=float)
    return v / N.sqrt((v**2).sum(axis=0))


# ---------------------------------------------------------------- roots
def _quad(A, B, C, scale=1.):
    """Roots of A t^2 + B t + C, ascending, with a flag for near-tangency.
    Where A vanishes, the single root is repeated; no root: nan."""
    A, B, C = N.broadcast_arrays(A, B, C)
    D = B*B - 4*A*C
    ref = B*B + N.abs(4*A*C)
    shaky = N.abs(D) <= 1e-8*ref
    with N.errstate(all='ignore'):
        s = N.sqrt(N.maximum(D, 0.))
        q = -0.5*(B + N.where(B >= 0, s, -s))
        r1 = N.where(A != 0, q/N.where(A != 0, A, 1.), N.inf)
        r2 = N.where(q != 0, C/N.where(q != 0, q, 1.), r1)
        lo, hi = N.minimum(r1, r2), N.maximum(r1, r2)
    none = (D < 0) & ~shaky
    lo = N.where(none, N.nan, lo)
    hi = N.where(none, N.nan, hi)
    return N.array([lo, hi]), N.array([shaky, shaky])


# ---------------------------------------------------------------- shapes
def tri_margin(v0, v1, p):
    """Signed distance (approx.) to the outline of the triangle 0, v0, v1."""
    P = [N.zeros(2), N.asarray(v0, float)[:2], N.asarray(v1, float)[:2]]
    area2 = P[1][0]*P[2][1] - P[1][1]*P[2][0]
    sgn = 1. if area2 > 0 else -1.
    m = None
    for i in range(3):
        a, b = P[i], P[(i+1) % 3]
        e = b - a
        n = sgn*N.array([-e[1], e[0]])/math.hypot(*e)
        dist = n[0]*(p[0] - a[0]) + n[1]*(p[1] - a[1])
        m = dist if m is None else N.minimum(m, dist)
    return m


def bound_margin(bound, p):
    """Signed margin of local points p in a bounding volume."""
    kind = bound[0]
    if kind == 'plane':
        T = bound[1]
        return pts(inv(T), p)[2]
    if kind == 'sphere':
        c, r = N.asarray(bound[1], float), bound[2]
        return r - N.sqrt(((p - c[:, None])**2).sum(axis=0))
    if kind == 'cyl':
        T, diam = bound[1], bound[2]
        q = pts(inv(T), p)
        return diam/2. - N.sqrt(q[0]**2 + q[1]**2)
    raise KeyError(kind)


def margin(shape, p):
    """How far inside the outline of the shape its point p is (inf: no outline)."""
    k = shape[0]
    if k in ('flat', 'icyl', 'sph', 'parab'):
        return N.full(p.shape[1], N.inf)
    if k == 'rect':
        return N.minimum(shape[1]/2. - N.abs(p[0]), shape[2]/2. - N.abs(p[1]))
    if k == 'round':
        return shape[1] - N.sqrt(p[0]**2 + p[1]**2)
    if k == 'tri':
        return tri_margin(shape[1], shape[2], p)
    if k == 'fcyl':
        return shape[2]/2. - N.abs(p[2])
    if k == 'hemi':
        return -p[2]
    if k == 'cut':
        if shape[2] is None:
            return N.full(p.shape[1], N.inf)
        return bound_margin(shape[2], p)
    if k == 'dish':
        return shape[1]/2. - N.sqrt(p[0]**2 + p[1]**2)
    if k == 'hex':
        R = shape[1]/2.
        x, y = N.abs(p[0]), N.abs(p[1])
        return N.minimum(math.sqrt(3)/2*R - x, (R - x/math.sqrt(3) - y)*math.sqrt(3)/2)
    raise KeyError(k)


def _parab_ab(shape):
    if shape[0] == 'parab':
        return 1./shape[1]**2, 1./shape[2]**2
    f = float(shape[2])
    return 1./(4*f), 1./(4*f)


def residual(shape, p):
    """Distance-like residual of the shape's equation at local points."""
    k = shape[0]
    if k in ('flat', 'rect', 'round', 'tri'):
        return p[2]
    if k in ('icyl', 'fcyl'):
        return N.sqrt(p[0]**2 + p[1]**2) - shape[1]/2.
    if k in ('sph', 'hemi', 'cut'):
        return N.sqrt((p**2).sum(axis=0)) - shape[1]
    a, b = _parab_ab(shape)
    g = N.sqrt(1 + (2*a*p[0])**2 + (2*b*p[1])**2)
    return (p[2] - a*p[0]**2 - b*p[1]**2)/g


def normal(shape, p):
    """Unit gradient of the shape's equation at local points."""
    k = shape[0]
    n = N.zeros_like(p)
    if k in ('flat', 'rect', 'round', 'tri'):
        n[2] = 1.
        return n
    if k in ('icyl', 'fcyl'):
        n[:2] = p[:2]
        return unit(n)
    if k in ('sph', 'hemi', 'cut'):
        return unit(p)
    a, b = _parab_ab(shape)
    n[0], n[1], n[2] = -2*a*p[0], -2*b*p[1], 1.
    return unit(n)


def size(shape):
    """Characteristic length."""
    k = shape[0]
    if k == 'flat':
        return 1.
    if k == 'rect':
        return max(shape[1], shape[2])/2.
    if k == 'round':
        return float(shape[1])
    if k == 'tri':
        return max(N.abs(shape[1]).max(), N.abs(shape[2]).max())
    if k == 'icyl':
        return shape[1]/2.
    if k == 'fcyl':
        return max(shape[1], shape[2])/2.
    if k in ('sph', 'hemi', 'cut'):
        return float(shape[1])
    if k == 'parab':
        return float(max(shape[1], shape[2]))
    return shape[1]/2.


def candidates(shape, o, d):
    """All solutions of the shape's equation along the rays: t (k,n), shaky (k,n)."""
    k = shape[0]
    if k in ('flat', 'rect', 'round', 'tri'):
        with N.errstate(all='ignore'):
            t = N.where(d[2] != 0, -o[2]/d[2], N.nan)
        # Nearly parallel rays are undecided
        par = N.abs(d[2]) <= 1e-8
        t = N.where(N.abs(d[2]) <= 1e-14, N.nan, t)
        return t[None], (par & ~N.isnan(t))[None]
    if k in ('sph', 'hemi', 'cut'):
        R = shape[1]
        b = (o*d).sum(axis=0)
        foot = o - b*d
        h2 = (foot**2).sum(axis=0)
        disc = R*R - h2
        shaky = N.abs(disc) <= 1e-8*(R*R + h2)
        # from far away the rounding of the distance itself counts
        s = N.where((disc < 0) & ~shaky, N.nan, N.sqrt(N.maximum(disc, 0.)))
        return N.array([-b - s, -b + s]), N.array([shaky, shaky])
    if k in ('icyl', 'fcyl'):
        R = shape[1]/2.
        A = d[0]**2 + d[1]**2
        axial = A <= 1e-20
        t, shaky = _quad(N.where(axial, 1., A), N.where(axial, 0., 2*(o[0]*d[0] + o[1]*d[1])),
                         N.where(axial, 1., o[0]**2 + o[1]**2 - R*R))
        near = (A <= 2e-10) & ~axial        # documented shortcut of the code: undecided
        return t, shaky | near
    a, b = _parab_ab(shape)
    A = a*d[0]**2 + b*d[1]**2
    B = 2*a*o[0]*d[0] + 2*b*o[1]*d[1] - d[2]
    C = a*o[0]**2 + b*o[1]**2 - o[2]
    axial = A <= 1e-10
    t, shaky = _quad(N.where(axial, 0., A), B, C)
    # (for axis-parallel rays there is only the near root; the far one of a
    # nearly parallel ray is beyond 1e9 and of no interest)
    return t, shaky


def nearest(shape, o, d, eps=None):
    """First hit ahead of each ray: t (inf if none), undecided (bool).

    d need not be of unit length... it always is here."""
    t, shaky = candidates(shape, o, d)
    L = size(shape)
    n = o.shape[1]
    best = N.full(n, N.inf)
    doubt = N.full(n, N.inf)
    with N.errstate(all='ignore'):
        for tk, sk in zip(t, shaky):
            p = o + d*tk
            reach = N.abs(tk) + N.sqrt((o**2).sum(axis=0)) + L
            tol = (eps if eps is not None else 1e-7)*reach
            m = margin(shape, p)
            valid = ~N.isnan(tk) & (tk < HORIZON)
            ahead = tk > 1e-5
            grey_t = (N.abs(tk) <= 1e-5) & (N.abs(tk) >= 2e-7) & (m > -tol)
            sure = valid & ahead & (m > tol) & ~sk
            grey = valid & (((ahead & (N.abs(m) <= tol)) | grey_t) |
                            (sk & (tk > -1e-5 - 1e-3*reach) & (m > -1e-3*reach)))
            best = N.where(sure, N.minimum(best, tk), best)
            doubt = N.where(grey, N.minimum(doubt, tk), doubt)
    undecided = N.isfinite(doubt) & (doubt <= best + 1e-6*(1 + N.where(N.isinf(best), 0, best)))
    return best, undecided


def t_tol(shape, o, d):
    """Tolerance for the ray parameter: what double precision leaves of the
    textbook quadratic formula."""
    tol = 1e-9*(1 + N.sqrt((o**2).sum(axis=0)) + size(shape))
    if shape[0] in ('parab', 'dish', 'hex'):
        a, b = _parab_ab(shape)
        A = a*d[0]**2 + b*d[1]**2
        B = N.abs(2*a*o[0]*d[0] + 2*b*o[1]*d[1] - d[2])
        tol = tol + 2e-15*(1 + B)/N.maximum(A, 1e-10)
    elif shape[0] in ('icyl', 'fcyl'):
        tol = tol + 2e-15*(1 + (o**2).sum(axis=0))/N.maximum(d[0]**2 + d[1]**2, 1e-10)
    elif shape[0] in ('flat', 'rect', 'round', 'tri'):
        tol = tol + 1e-14*(1 + N.abs(o).sum(axis=0))/N.maximum(N.abs(d[2]), 1e-8)
    return tol


def hits_world(shape, T, o, d):
    """nearest() for a placed shape, world coordinates."""
    I = inv(T)
    return nearest(shape, pts(I, o), vecs(I, d))


def facing_normal(shape, T, p, d):
    """Unit normals at world points p, facing the incoming directions d."""
    n = vecs(T, normal(shape, pts(inv(T), p)))
    s = (n*d).sum(axis=0)
    return N.where(s > 0, -n, n), N.abs(s)


# ---------------------------------------------------------------- optics
def mirror(d, n):
    return d - 2*n*(d*n).sum(axis=0)


def snell(d, n, n1, n2):
    """n faces the incoming ray. Returns (refracted directions, sin2) - where
    sin2 > 1 there is total reflection."""
    cos1 = -(d*n).sum(axis=0)
    tang = d + n*cos1
    k = n1/n2
    sin2 = k*N.sqrt((tang**2).sum(axis=0))
    cos2 = N.sqrt(N.maximum(1 - sin2**2, 0.))
    return tang*k - n*cos2, sin2


def fresnel(cos1, n1, n2):
    """Unpolarised reflectance from the cosine of incidence."""
    sin2 = n1/n2*N.sqrt(N.maximum(1 - cos1**2, 0.))
    cos2 = N.sqrt(N.maximum(1 - sin2**2, 0.))
    rs = (n1*cos1 - n2*cos2)/(n1*cos1 + n2*cos2)
    rp = (n2*cos1 - n1*cos2)/(n2*cos1 + n1*cos2)
    return N.where(sin2 >= 1, 1., 0.5*(rs**2 + rp**2))
