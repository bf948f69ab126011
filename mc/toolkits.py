"""Stand-ins for the graphical toolkits, which are not installed here: they only
record what the code puts on display."""
import sys
import types

import numpy as N


class Anything(object):
    """Accepts any use."""
    def __init__(self, *args, **kwds):
        self.args, self.kwds = args, kwds

    def __call__(self, *args, **kwds):
        return Anything(*args, **kwds)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()

    def __iter__(self):
        return iter(())


class AnyModule(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything


# ------------------------------------------------------------------- mayavi
class Dataset(object):
    lines = None


class MlabSource(object):
    def __init__(self, xyz):
        self.xyz = [N.array(a, dtype=float) for a in xyz]
        self.dataset = Dataset()

    def set(self, **kw):
        for i, k in enumerate('xyz'):
            if k in kw:
                self.xyz[i] = N.array(kw[k], dtype=float)
        if 'points' in kw:
            self.xyz = list(N.array(kw['points'], dtype=float).T)

    reset = set
    trait_set = set


class Actor(object):
    """Something on display: a mesh, or lines between points."""
    def __init__(self, canvas, kind, source, kw):
        self.canvas, self.kind, self.mlab_source, self.kw = canvas, kind, source, kw
        canvas.actors.append(self)

    def remove(self):
        self.canvas.actors = [a for a in self.canvas.actors if a is not self]


class PointSource(object):
    def __init__(self, canvas, xyz, kw):
        self.mlab_source = MlabSource(xyz)
        self.canvas = canvas

    def update(self):
        pass

    def remove(self):
        self.canvas.actors = [a for a in self.canvas.actors if a.mlab_source is not self.mlab_source]


class Pipeline(object):
    def __init__(self, canvas):
        self.canvas = canvas

    def scalar_scatter(self, *xyz, **kw):
        return PointSource(self.canvas, xyz[:3], kw)

    def surface(self, src, **kw):
        return Actor(self.canvas, 'lines', src.mlab_source, kw)


class Mlab(object):
    def __init__(self, canvas):
        self.canvas = canvas
        self.pipeline = Pipeline(canvas)

    def mesh(self, *xyz, **kw):
        return Actor(self.canvas, 'mesh', MlabSource(xyz), kw)

    def clf(self, *args):
        self.canvas.actors = []


class Canvas(object):
    """The scene: a list of what is displayed."""
    made = []

    def __init__(self, *args, **kw):
        Canvas.made[:] = [self]
        self.actors = []
        self.mlab = Mlab(self)
        self.disable_render = False
        self.background = None

    def meshes(self):
        return [a for a in self.actors if a.kind == 'mesh']

    def segments(self):
        """Pairs of points that are connected by a displayed line."""
        out = []
        for a in self.actors:
            if a.kind == 'lines' and a.mlab_source.dataset.lines is not None:
                pts = N.array(a.mlab_source.xyz)
                for ends in N.asarray(a.mlab_source.dataset.lines):
                    ends = [int(e) for e in ends]
                    if min(ends) < 0 or max(ends) >= pts.shape[1]:
                        raise IndexError("line between points that don't exist: %s" % ends)
                    for a0, a1 in zip(ends[:-1], ends[1:]):
                        out.append((pts[:, a0], pts[:, a1]))
        return out


class Instance(object):
    """A trait whose default is made on first use, for each object."""
    def __init__(self, cls=None, args=None, *rest, **kw):
        self.cls, self.args = cls, args

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        if self.name not in obj.__dict__:
            obj.__dict__[self.name] = self.cls(*self.args) if self.args is not None else None
        return obj.__dict__[self.name]

    def __set__(self, obj, val):
        obj.__dict__[self.name] = val


class HasTraits(object):
    def __init__(self, *args, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    set = trait_set = lambda self, **kw: [setattr(self, k, v) for k, v in kw.items()] and self


def install_mayavi():
    for name in ('traits', 'traitsui', 'traitsui.api', 'mayavi', 'mayavi.tools', 'mayavi.core', 'mayavi.core.ui', 'mayavi.core.ui.mayavi_scene',
                 'mayavi.core.api', 'mayavi.core.ui.api', 'tvtk', 'tvtk.api', 'tvtk.pyface', 'tvtk.pyface.api', 'tvtk.pyface.scene_editor',
                 'traits.api', 'mayavi.tools.mlab_scene_model'):
        sys.modules[name] = AnyModule(name)
        if '.' in name:
            up, last = name.rsplit('.', 1)
            setattr(sys.modules[up], last, sys.modules[name])
    sys.modules['traits.api'].HasTraits = HasTraits
    sys.modules['traits.api'].Instance = Instance
    for name in ('mayavi.tools.mlab_scene_model', 'mayavi.core.ui.api'):
        sys.modules[name].MlabSceneModel = Canvas


# ----------------------------------------------------------------------- Qt
class Signal(object):
    def __init__(self):
        self.slots = []

    def connect(self, slot):
        self.slots.append(slot)

    def disconnect(self, slot=None):
        if slot is None:
            self.slots = []
        else:
            self.slots.remove(slot)

    def emit(self, *args):
        for slot in list(self.slots):
            # like Qt: a slot may take fewer arguments than the signal carries
            n = len(args)
            code = getattr(getattr(slot, '__func__', slot), '__code__', None)
            if code is not None and not code.co_flags & 4:
                n = min(n, code.co_argcount - (1 if hasattr(slot, '__func__') else 0))
            slot(*args[:n])


class QTreeWidgetItem(object):
    def __init__(self, *args):
        self._text, self._kids, self._up, self._tree, self._flags = {}, [], None, None, 1 | 4 | 32
        self._font = None
        for a in args:
            if isinstance(a, QTreeWidgetItem):
                a.addChild(self)
            elif isinstance(a, QTreeWidget):
                a.addTopLevelItem(self)
            elif isinstance(a, (list, tuple)):
                self._text = dict((i, str(t)) for i, t in enumerate(a))

    def flags(self):
        return self._flags

    def setFlags(self, f):
        self._flags = f
        self._changed(0)

    def text(self, col):
        return self._text.get(col, '')

    def setText(self, col, text):
        if self._text.get(col) != text:
            self._text[col] = text
            self._changed(col)

    def _root(self):
        it = self
        while it._up is not None:
            it = it._up
        return it._tree

    treeWidget = _root

    def _changed(self, col):
        tree = self._root()
        if tree is not None and not tree._blocked:
            tree.itemChanged.emit(self, col)

    def addChild(self, it):
        self.insertChild(len(self._kids), it)

    def insertChild(self, at, it):
        it._up = self
        self._kids.insert(at, it)

    def addChildren(self, items):
        for it in items:
            self.addChild(it)

    def removeChild(self, it):
        self._kids.remove(it)
        it._up = None

    def takeChildren(self):
        kids, self._kids = self._kids, []
        for it in kids:
            it._up = None
        return kids

    def child(self, i):
        return self._kids[i] if 0 <= i < len(self._kids) else None

    def childCount(self):
        return len(self._kids)

    def indexOfChild(self, it):
        return self._kids.index(it) if it in self._kids else -1

    def parent(self):
        return self._up

    def setExpanded(self, on):
        pass


class QTreeWidget(object):
    def __init__(self, *args, **kw):
        self.itemChanged = Signal()
        self._tops, self._blocked = [], False

    def clear(self):
        for it in self._tops:
            it._tree = None
        self._tops = []

    def addTopLevelItem(self, it):
        self.insertTopLevelItem(len(self._tops), it)

    def insertTopLevelItem(self, at, it):
        it._tree = self
        self._tops.insert(at, it)

    def addTopLevelItems(self, items):
        for it in items:
            self.addTopLevelItem(it)

    def topLevelItem(self, i):
        return self._tops[i] if 0 <= i < len(self._tops) else None

    def topLevelItemCount(self):
        return len(self._tops)

    def takeTopLevelItem(self, i):
        it = self._tops.pop(i)
        it._tree = None
        return it

    def invisibleRootItem(self):
        root = QTreeWidgetItem()
        root._kids = self._tops
        root.addChild = self.addTopLevelItem
        return root

    def expandItem(self, it):
        pass

    def blockSignals(self, on):
        was, self._blocked = self._blocked, bool(on)
        return was

    def __getattr__(self, name):        # headers, sizes, fonts: no effect here
        if name.startswith(('set', 'resize', 'expand', 'collapse', 'scroll', 'sort', 'update', 'show')):
            return lambda *a, **k: None
        raise AttributeError(name)


def install_qt():
    for name in ('PyQt4', 'PyQt4.QtCore', 'PyQt4.QtGui'):
        sys.modules[name] = AnyModule(name)
    qt, core, gui = [sys.modules[n] for n in ('PyQt4', 'PyQt4.QtCore', 'PyQt4.QtGui')]
    qt.QtCore, qt.QtGui = core, gui

    class Qt(object):
        ItemIsSelectable, ItemIsEditable, ItemIsDragEnabled, ItemIsDropEnabled, ItemIsUserCheckable, ItemIsEnabled = 1, 2, 4, 8, 16, 32
    core.Qt = Qt
    gui.QTreeWidgetItem, gui.QTreeWidget = QTreeWidgetItem, QTreeWidget
