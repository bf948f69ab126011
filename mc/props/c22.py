"""C22: the displayed scene shows exactly the traced rays and current surfaces."""
import itertools
import math

import numpy as N

from mc import build, ref, toolkits
from mc.build import RayBundle, AssembledObject, Assembly, TracerEngine, opt
toolkits.install_mayavi()
from tracer.mayavi_ui import scene_view                     # noqa: E402
from tracer.trace_tree import RayTree                       # noqa: E402

RULE = """Drawing: all ray trees of 1 to 3 levels with up to 3, 3 and 2 (thorough: 3)
rays, all assignments of parents, zero or non-zero energy at each ray and ray selectors;
plus the trees of real traces (splitting, absorption, escape, weak rays). The
drawn segments are compared as a set with those computed ray by ray. Scene: all
histories of 3 (thorough: 4) display operations (replacing the assembly and the
source, adding and removing objects, moving, redrawing all or some surfaces,
clearing, retracing, trace limits), from several initial scenes; after each the
meshes and lines on display are compared with a model of the display. state =
one tree or history; transition = one segment or mesh."""
ASSUME = ["The plotting toolkit is replaced by a stand-in that records meshes and lines.",
          "Which rays a trace contains is taken from the tracing engine (C01, C04-C06)."]

P = ref.pose
EN = (0., 1e-11, 1.)


# ------------------------------------------------------------------- drawing
def want_segments(tree, esc, sel):
    """The statement, ray by ray."""
    out = []
    n = tree.num_bunds()
    for lev in range(n):
        b = tree[lev]
        v, d, e = b.get_vertices(), b.get_directions(), b.get_energy()
        shown = [True] * b.get_num_rays() if sel is None else list(sel(b))
        kids = {}
        if lev + 1 < n:
            nxt = tree[lev + 1]
            nv = nxt.get_vertices()
            for k, p in enumerate(nxt.get_parents()):
                kids.setdefault(int(p), []).append(nv[:, k])
        for i in range(b.get_num_rays()):
            if e[i] == 0 or not shown[i]:
                continue
            for end in kids.get(i, [v[:, i] + esc * d[:, i]]):
                out.append((v[:, i], end))
    return out


def same_segments(R, got, want, what, **detail):
    def flat(segs):
        return N.array([N.hstack(s) for s in segs]).reshape(-1, 6)
    g, w = flat(got), flat(want)
    if len(g) and len(w):
        gap = abs(g[:, None, :] - w[None, :, :]).max(axis=2)
        # a segment may be drawn in either direction
        back = N.hstack((g[:, 3:], g[:, :3]))
        gap = N.minimum(gap, abs(back[:, None, :] - w[None, :, :]).max(axis=2))
        extra = ~(gap <= 1e-7).any(axis=1)
        missing = ~(gap <= 1e-7).any(axis=0)
    else:
        extra, missing = N.ones(len(g), dtype=bool), N.ones(len(w), dtype=bool)
    R.check(not extra.any(), what + ": a line is drawn where no shown ray goes", line=g[extra][:1], count=int(extra.sum()), **detail)
    R.check(not missing.any(), what + ": a ray is not drawn", line=w[missing][:1], count=int(missing.sum()), **detail)
    R.step(len(w))


SELECTORS = {
    'none': None,
    'all': lambda b: N.ones(b.get_num_rays(), dtype=bool),
    'low': lambda b: b.get_vertices()[0] < 1.,
    'strong': lambda b: b.get_energy() > 0.1,
    'odd': lambda b: N.arange(b.get_num_rays()) % 2 == 1,
    'first': lambda b: N.arange(b.get_num_rays()) == 0,
    'nothing': lambda b: N.zeros(b.get_num_rays(), dtype=bool),
}


def level(lev, n, parents, energy):
    i = N.arange(n)
    v = N.array([0.7 * i + 0.1 * lev * (1 + i), 0.3 * lev + 0.11 * i, 1.3 * lev + 0.17 * i * i])
    ang = 0.4 + 1.1 * i + 0.7 * lev
    d = N.array([N.cos(ang), N.sin(ang), 0.2 * N.ones(n)])
    d /= N.sqrt((d ** 2).sum(axis=0))
    b = RayBundle(vertices=v, directions=d, energy=N.array(energy, dtype=float))
    if parents is not None:
        b.set_parents(N.array(parents, dtype=int))
    return b


def draw(tree, esc, sel):
    canvas = toolkits.Canvas()
    scene_view.show_rays(canvas, tree, esc, SELECTORS[sel])
    return canvas.segments()


def run_trees(n0, n1, tier, R):
    """All trees with n0 source rays and n1 rays after the first hit."""
    n2s = (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3)
    if n1 == 0:
        n2s = (0,)
    e0s = list(itertools.product(EN if n1 == 0 else (0., 1.), repeat=n0))
    if tier == 'quick' and n0 == 3 and n1 >= 2:
        e0s = [e for e in e0s if sum(e) >= 2]
        n2s = (0, 1)
    for e0 in e0s:
        b0 = level(0, n0, None, e0)
        for p1 in itertools.product(range(n0), repeat=n1):
            for e1 in itertools.product((0., 1.) if n1 > 1 else EN, repeat=n1):
                b1 = level(1, n1, p1, e1) if n1 else None
                for n2 in n2s:
                    for p2 in itertools.product(range(n1), repeat=n2):
                        e2s = list(itertools.product((0., 1.), repeat=n2)) if n2 and tier == 'thorough' else [(1.,) * n2] if n2 < 2 else [(1., 0.)]
                        for e2 in e2s:
                            tree = RayTree()
                            tree.append(b0)
                            if n1:
                                tree.append(b1)
                            if n2:
                                tree.append(level(2, n2, p2, e2))
                            sels = ('none', 'odd', 'low') if n0 + n1 + n2 < 8 else ('none', 'odd')
                            if n0 + n1 + n2 <= 4:
                                sels = sorted(SELECTORS)
                            for sel in sels:
                                esc = (1., 0.25, 0., 7.)[(n0 + n1 + n2 + len(sel)) % 4]
                                want = want_segments(tree, esc, SELECTORS[sel])
                                if not want and n0 + n1 + n2 > 6:
                                    continue
                                got = draw(tree, esc, sel)
                                same_segments(R, got, want, 'drawing a trace', energies=(e0, e1, e2), parents=(p1, p2), selector=sel)
                                R.state()
                                R.trace()
    R.outcome('trees drawn', R.states)


# ------------------------------------------------------------- real scenes
def mirror_box(off=0.):
    a = AssembledObject(surfs=[build.surface(('rect', 3., 2.), P(trans=(0, 0, -1. - off)), opt.Reflective(0.3))])
    b = AssembledObject(surfs=[build.surface(('rect', 2., 2.), P((1, 0, 0), math.pi - 0.2, (0.2, 0.1, 1. + off)), opt.Reflective(0.5)),
                               build.surface(('round', 1.2), P((0, 1, 0), 1.3, (1.5 + off, 0, 0)), opt.Reflective(1.))])
    return Assembly(objects=[a], subassemblies=[Assembly(objects=[b], location=N.array([0.05, 0., 0.]))])


def glass_box():
    slab = AssembledObject(surfs=[build.surface(('rect', 3., 3.), P(trans=(0, 0, -0.5)), opt.RefractiveHomogenous(1., 1.5)),
                                  build.surface(('rect', 3., 3.), P(trans=(0, 0, -0.9)), opt.RefractiveHomogenous(1.5, 1.))])
    ball = AssembledObject(surfs=[build.surface(('sph', 0.4), P(trans=(0.3, -0.2, 0.6)), opt.Reflective(0.1))])
    ball.get_surfaces()[0].colour = (1., 0., 0.)
    ball.get_surfaces()[0].resolution = 4
    ball.get_surfaces()[0].opacity = 0.4
    return Assembly(objects=[slab, ball])


def extra_object():
    s = build.surface(('hemi', 0.9), P((1, 0, 0), 0.4, (0.1, 0.1, 2.)), opt.Reflective(0.4))
    # invisible and black
    s.opacity, s.colour = 0., (0., 0., 0.)
    return AssembledObject(surfs=[s])


SCENES = {'mirrors': mirror_box, 'glass': glass_box, 'far mirrors': lambda: mirror_box(0.4)}


def source(name):
    if name is None:
        return None
    if name == 'wide':
        x = N.array([-0.83, -0.31, 0.23, 0.71])
        o = N.array([x, 0.37 * x + 0.05, N.full(4, 0.1)])
        d = N.array([0.13 * x, [0.21, -0.17, 0.05, 0.3], [-1., -1., 1., -1.]])
        e = [1., 0.5, 2., 0.]
    else:
        o = N.array([[0.31], [0.17], [3.]])
        d = N.array([[0.07], [-0.03], [-1.]])
        e = [1.]
    d = d / N.sqrt((d ** 2).sum(axis=0))
    return build.bundle(o, d, e)


def expected_lines(asm, src, limits, sel, esc=1.):
    if src is None:
        return []
    eng = TracerEngine(asm)
    eng.ray_tracer(src, limits[0], limits[1])
    return want_segments(eng.tree, esc, SELECTORS[sel])


def check_display(R, canvas, want_mesh, maybe, lines, what, hist):
    """want_mesh: {surface: (arrays, colour, opacity)} that must be on display;
    maybe: surfaces that were cleared and may or may not have come back."""
    shown = list(canvas.meshes())
    for surf, (arrays, col, op) in want_mesh.items():
        found = [m for m in shown if same_mesh(m, arrays)]
        R.check(len(found) == 1, what + ": a current surface must be displayed once, where it is", times=len(found), displayed=len(shown), expected=len(want_mesh), history=hist)
        m = found[0]
        R.check(tuple(m.kw.get('color', ())) == tuple(col) and m.kw.get('opacity', 1.) == op,
                what + ": colour and opacity", got=m.kw, want=(col, op), history=hist)
        shown = [s for s in shown if s is not m]
        R.step()
    for surf in maybe:
        arrays = mesh_of(surf)[0]
        for m in [m for m in shown if same_mesh(m, arrays)][:1]:
            shown = [s for s in shown if s is not m]
            want_mesh[surf] = mesh_of(surf)
    R.check(not shown, what + ": a mesh of no current surface is displayed", displayed=len(shown), history=hist)
    same_segments(R, canvas.segments(), lines, what, history=hist)


def same_mesh(m, arrays):
    got = m.mlab_source.xyz
    return len(got) == 3 and all(g.shape == N.shape(a) and abs(g - a).max() <= 1e-9 for g, a in zip(got, arrays))


def mesh_of(s, res=10, col=(0.5, 0.5, 0.5), op=1.):
    arrays = [N.array(a) for a in s.mesh(getattr(s, 'resolution', res))]
    return arrays, getattr(s, 'colour', col), getattr(s, 'opacity', op)


OPS = ('asm mirrors', 'asm glass', 'same asm', 'add', 'remove', 'add here, show nothing', 'move and redraw', 'move and redraw one', 'redraw red coarse',
       'clear', 'retrace', 'source thin', 'source wide', 'same source changed', 'remove all', 'no source', 'limits', 'background')


class Model(object):
    """The display as it should be, next to the real scene."""
    def __init__(self, start, src, sel):
        self.asm = SCENES[start]()
        self.src = source(src)
        self.sel = sel
        self.limits = (200000000, 0.05)
        kw = {} if sel == 'none' else {'ray_selector': SELECTORS[sel]}
        self.esc = {'none': 1., 'all': 0.4, 'odd': 2.5}.get(sel, 0.7)
        if self.esc != 1.:
            kw['escaping'] = self.esc
        self.real = scene_view.TracerScene(self.asm, self.src, **kw)
        self.canvas = toolkits.Canvas.made[-1]
        self.maybe = []
        self.redraw()
        self.extra = []
        self.k = 0
        self.retrace()

    def redraw(self, **kw):
        self.mesh = dict((s, mesh_of(s, **kw)) for s in self.asm.get_surfaces())
        self.maybe = []

    def retrace(self):
        self.lines = expected_lines(self.asm, self.src, self.limits, self.sel, self.esc)

    def do(self, op):
        real = self.real
        self.k += 1
        if not self.asm.get_surfaces() and (op.startswith('source') or op == 'move and redraw one'):
            return False            # an engine needs a surface
        if op == 'asm mirrors' or op == 'asm glass':
            self.asm = SCENES['far mirrors' if op == 'asm mirrors' else 'glass']()
            self.extra = []
            real.set_assembly(self.asm)
            self.redraw()
        elif op == 'same asm':
            real.set_assembly(self.asm)
            self.redraw()
        elif op == 'add':
            ob = extra_object()
            self.asm.add_object(ob, P(trans=(0, 0.1 * self.k, 0.3 * self.k)))
            self.extra.append(ob)
            real.update_surfaces()
            for s in ob.get_surfaces():
                self.mesh[s] = mesh_of(s)
        elif op == 'add here, show nothing':
            real.update_surfaces()
        elif op == 'remove':
            objs = self.asm.get_local_objects()
            if not objs or len(self.asm.get_surfaces()) == len(objs[0].get_surfaces()):
                return False
            ob = objs[0]
            objs.remove(ob)
            if any(s in self.asm.get_surfaces() for s in ob.get_surfaces()):
                return False
            real.update_surfaces()
            for s in ob.get_surfaces():
                self.mesh.pop(s, None)
                self.maybe = [m for m in self.maybe if m is not s]
        elif op == 'move and redraw':
            self.asm.set_location(N.array([0.13 * self.k, 0., 0.05]))
            real.show_assembly()
            self.redraw()
        elif op == 'move and redraw one':
            if self.maybe:
                return False
            s = self.asm.get_surfaces()[-1]
            s.set_location(s.get_location() + N.array([0., 0.07, 0.01]))
            real.show_assembly(update=[id(s)])
            self.mesh[s] = mesh_of(s)
        elif op == 'redraw red coarse':
            real.show_assembly(colour=(1., 0., 0.), resolution=5, opacity=0.5)
            self.redraw(res=5, col=(1., 0., 0.), op=0.5)
        elif op == 'clear':
            real.clear_scene()
            self.mesh, self.maybe, self.lines = {}, list(self.asm.get_surfaces()), []
        elif op == 'retrace':
            real.plot_ray_trace()
            self.retrace()
        elif op == 'remove all':
            a = self.asm
            kept = [list(a.get_local_objects()), list(a.get_assemblies())]
            for lst, get in zip(kept, (a.get_local_objects, a.get_assemblies)):
                for m in lst:
                    get().remove(m)
            if a.get_surfaces():
                return False
            real.update_surfaces()
            self.mesh, self.maybe = {}, []
            if self.src is not None:
                real.set_source(None)
                self.src, self.lines = None, []
        elif op == 'same source changed':
            if self.src is None:
                return False
            self.src.set_energy(self.src.get_energy()*0.5 + 0.01)
            self.src.set_vertices(self.src.get_vertices() + N.array([[0.02], [0.01], [0.]]))
            real.set_source(self.src)
            self.retrace()
        elif op.startswith('source') or op == 'no source':
            self.src = source(None if op == 'no source' else op.split()[1])
            real.set_source(self.src)
            self.retrace()
        elif op == 'limits':
            for new in (({'max_iter': 1, 'min_energy': 0.6},), ({'max_iter': 2, 'min_energy': 0.},), ({'max_iter': 0},),
                        ({'max_iter': 200000000}, {'min_energy': 0.3}))[self.k % 4]:
                real.set_trace_control(**new)
                self.limits = (new.get('max_iter', self.limits[0]), new.get('min_energy', self.limits[1]))
            real.plot_ray_trace()
            self.retrace()
        elif op == 'background':
            real.set_background((0., 0.1 * self.k, 1.))
        return True

    def check(self, R, hist, op):
        what = 'after ' + op
        may = self.maybe if op in ('add', 'remove', 'add here, show nothing') else []
        check_display(R, self.canvas, self.mesh, may, self.lines, what, hist)
        if may:
            self.maybe = [s for s in may if s not in self.mesh]
        got = tuple(self.real.trace_control())
        R.check(got == self.limits, what + ': trace limits', got=got, want=self.limits, history=hist)
        if op == 'background':
            R.check(self.canvas.background is not None, 'background not set')


STARTS = (('mirrors', 'wide', 'none'), ('glass', 'thin', 'none'), ('glass', 'wide', 'odd'), ('mirrors', None, 'none'))


def run_history(start, first, depth, R):
    for rest in itertools.product(range(len(OPS)), repeat=depth - 1):
        m = Model(*start)
        hist = [OPS[first]] + [OPS[i] for i in rest]
        if not any(rest) and first == 0:
            m.check(R, [], 'the first display')
        good = True
        for j, op in enumerate(hist):
            if not m.do(op):
                good = False
                break
            if j == depth - 1 or not any(rest[j:]):         # prefixes are checked once
                m.check(R, hist[:j + 1], op)
        R.state()
        if good:
            R.trace()
            R.outcome('history ends with ' + hist[-1])


def run_crowd(R):
    """Many surfaces coming and going at once."""
    m = Model('mirrors', 'thin', 'none')
    for n in (70, 3, 150):
        new = []
        for i in range(n):
            ob = AssembledObject(surfs=[build.surface(('rect', 0.3, 0.2 + 0.001*i), P(trans=(0.1*i, n, 9.)), opt.Reflective(0.1))])
            m.asm.add_object(ob, P(trans=(0.1*i, 0.01*n, 3.)))
            new.append(ob)
        m.real.update_surfaces()
        for ob in new:
            for s in ob.get_surfaces():
                m.mesh[s] = mesh_of(s)
        m.check(R, ['add %d' % n], 'adding %d surfaces' % n)
        m.real.plot_ray_trace()
        m.retrace()
        m.check(R, ['add %d' % n, 'retrace'], 'retrace')
        for ob in new[::2]:
            m.asm.get_local_objects().remove(ob)
            for s in ob.get_surfaces():
                del m.mesh[s]
        m.real.update_surfaces()
        m.check(R, ['add %d' % n, 'remove half'], 'removing surfaces')
        m.real.show_assembly()
        m.redraw()
        m.check(R, ['add %d' % n, 'remove half', 'redraw'], 'redraw')
        R.state(3)
        R.trace(4)
    R.outcome('crowds')


def run_real(name, R):
    """Trees of real traces, all selectors, escaping lengths and limits."""
    asm = SCENES[name]()
    for src in ('wide', 'thin'):
        for limits in ((1, 0.05), (2, 0.05), (3, 0.3), (100, 0.05), (100, 1e-6)):
            eng = TracerEngine(asm)
            eng.ray_tracer(source(src), *limits)
            for esc in (0.1, 1., 7.):
                for sel in sorted(SELECTORS):
                    canvas = toolkits.Canvas()
                    lines = scene_view.show_rays(canvas, eng.tree, esc, SELECTORS[sel])
                    same_segments(R, canvas.segments(), want_segments(eng.tree, esc, SELECTORS[sel]), 'drawing a real trace', scene=name, source=src, limits=limits, selector=sel)
                    R.state()
                    R.trace()
                    if lines is not None and hasattr(lines, 'remove'):
                        lines.remove()
                        R.check(not canvas.segments(), 'removing the returned lines must clear them')
    R.outcome('real traces drawn', R.traces)


def cases(tier):
    out = [('trees %d-%d' % (a, b), ['trees', a, b, tier]) for a in (3, 2, 1) for b in (3, 2, 1, 0)]
    out += [('real ' + n, ['real', n]) for n in sorted(SCENES)]
    out += [('crowd', ['crowd'])]
    depth = 3 if tier == 'quick' else 4
    starts = STARTS if tier == 'thorough' else STARTS[:3]
    out += [('history %d %s' % (i, op), ['hist', list(s), k, depth if i == 0 else depth - 1]) for i, s in enumerate(starts) for k, op in enumerate(OPS)]
    return out


def run(args, R):
    if args[0] == 'trees':
        run_trees(args[1], args[2], args[3], R)
    elif args[0] == 'crowd':
        run_crowd(R)
    elif args[0] == 'real':
        run_real(args[1], R)
    else:
        run_history(tuple(args[1]), args[2], args[3], R)
