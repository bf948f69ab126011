"""C24: the assembly tree widget mirrors the assembly."""
import itertools

import numpy as N

from mc import build, toolkits
from mc.build import AssembledObject, Assembly, opt
toolkits.install_qt()
from tracer.qt.assembly_tree import AssemblyTree            # noqa: E402
from tracer.models.tau_minidish import standard_minidish    # noqa: E402

RULE = """Structure: all assembly hierarchies with up to 2 sub-assemblies at each
of 2 levels and up to 2 (thorough: 3) objects of 0 to 2 surfaces in each, x where
caption tags are set beforehand; hierarchies with 12 to 102 members in one place
and of 8 levels; the entries are compared with the assembly.
Histories: all sequences of 3 (thorough: 4) actions (editing the caption of each
kind of entry, editing twice, setting a tag, displaying the assembly again,
displaying another assembly and coming back, adding sub-assemblies, objects and
surfaces, removing the first object); after each, entries and tags are compared
with a model. state = one hierarchy or history; transition = one entry."""
ASSUME = ["The widget toolkit is replaced by a stand-in with the same tree and signal semantics.",
          "A numbered default may either follow the present position or keep the number under which it was first shown."]

CATEGORY = {'a': 'Subassemblies', 'o': 'Optical objects'}
NAME = {'a': 'Assembly %d', 'o': 'Object %d', 's': 'Surface %d'}


def surf():
    return build.surface(('rect', 1., 1.))


def make_obj(n):
    return AssembledObject(surfs=[surf() for _ in range(n)])


def make_asm(spec):
    objs, subs = spec
    return Assembly(objects=[make_obj(n) for n in objs], subassemblies=[make_asm(s) for s in subs])


class Model(object):
    """Captions by identity of the members: set (by tag or edit), or default
    numbers under which the member was shown."""
    def __init__(self, asm):
        self.set, self.shown = {}, {}
        self.keep = [asm]
        self.tree = AssemblyTree()

    def caption_ok(self, member, kind, index, got):
        if id(member) in self.set:
            return got == self.set[id(member)]
        if kind == 'top':
            return True if not isinstance(got, str) else len(got) > 0
        good = [NAME[kind] % index] + [NAME[kind] % i for i in self.shown.get(id(member), ())]
        if got in good:
            self.shown.setdefault(id(member), set()).add(index)
            return True
        return False

    def tag_ok(self, member):
        tag = self.tree.get_tag(member, 'caption')
        if id(member) in self.set:
            return tag == self.set[id(member)]
        return tag is None or any(tag == n % i for n in NAME.values() for i in self.shown.get(id(member), ()))

    def compare(self, R, asm, what, **detail):
        """Entries of the widget against the assembly."""
        t = self.tree
        R.check(t.get_assembly() is asm, what + ': get_assembly', **detail)
        R.check(t.topLevelItemCount() == 1, what + ': one top entry', got=t.topLevelItemCount(), **detail)
        self.entries = []
        self._asm(R, t.topLevelItem(0), asm, 'top', 0, what, detail)
        R.step(len(self.entries))

    def _entry(self, R, item, member, kind, index, what, detail):
        got = item.text(0)
        R.check(self.caption_ok(member, kind, index, got), what + ': caption of an entry', kind=kind, index=index, got=got, want=self.set.get(id(member), 'default'), **detail)
        R.check(self.tag_ok(member), what + ': caption tag of a member', kind=kind, index=index, tag=t_(self.tree.get_tag(member, 'caption')), want=self.set.get(id(member), 'default'), **detail)
        R.check(item.flags() & 2, what + ': entries of members must be editable', kind=kind, **detail)
        self.entries.append((item, member, kind, index))

    def _asm(self, R, item, asm, kind, index, what, detail):
        self._entry(R, item, asm, kind, index, what, detail)
        kids = [item.child(i) for i in range(item.childCount())]
        by = {}
        for k in kids:
            R.check(k.text(0) in CATEGORY.values() and k.text(0) not in by, what + ': categories under an assembly', got=k.text(0), **detail)
            by[k.text(0)] = [k.child(i) for i in range(k.childCount())]
        subs, objs = list(asm.get_assemblies()), list(asm.get_local_objects())
        for cat, members in (('a', subs), ('o', objs)):
            items = by.get(CATEGORY[cat], [])
            R.check(len(items) == len(members), what + ': number of entries', category=CATEGORY[cat], got=len(items), want=len(members), **detail)
            R.check(members or CATEGORY[cat] not in by, what + ': an empty category', category=CATEGORY[cat], **detail)
        for i, (it, m) in enumerate(zip(by.get(CATEGORY['a'], []), subs)):
            self._asm(R, it, m, 'a', i, what, detail)
        for i, (it, m) in enumerate(zip(by.get(CATEGORY['o'], []), objs)):
            self._entry(R, it, m, 'o', i, what, detail)
            surfs = list(m.get_surfaces())
            R.check(it.childCount() == len(surfs), what + ': surfaces of an object', got=it.childCount(), want=len(surfs), **detail)
            for j, s in enumerate(surfs):
                self._entry(R, it.child(j), s, 's', j, what, detail)


def t_(x):
    return repr(x)


# ----------------------------------------------------------------- structure
def leaf_specs(tier):
    counts = (0, 1, 2)
    out = [()] + [(n,) for n in counts] + [(2, 1), (0, 2)]
    if tier == 'thorough':
        out = [()] + [c for k in (1, 2, 3) for c in itertools.product(counts, repeat=k)]
    return out


def specs(tier):
    # many members in one place, and many levels
    chain = ((1,), ())
    for _ in range(7):
        chain = ((1, 0), (chain,))
    for big in (((1,)*13, ()), ((13, 2), ()), ((), (((1,), ()),)*13), ((0,)*102, ()), ((1,), (((12,)*12, ()),)), chain):
        yield big
    leaves = leaf_specs(tier)
    small = [(), (1,), (2, 1)]
    low = [(o, ()) for o in small]
    mid = [(o, ()) for o in small] + [(o, s) for o in ((), (1,)) for s in [(a,) for a in low] + [(low[1], low[2])]]
    for o in leaves:
        yield (o, ())
        for m in mid:
            yield (o, (m,))
        for m1, m2 in itertools.product(mid if tier == 'thorough' else mid[1:6], mid):
            yield (o, (m1, m2))


def members(asm):
    """All members in a fixed order: (member, kind)"""
    out = [(asm, 'a')]
    for ob in asm.get_local_objects():
        out.append((ob, 'o'))
        out += [(s, 's') for s in ob.get_surfaces()]
    for sub in asm.get_assemblies():
        out += members(sub)
    return out


def run_structure(part, parts, tier, R):
    for k, spec in enumerate(specs(tier)):
        if k % parts != part:
            continue
        n = len(members(make_asm(spec)))
        # no tags, every member tagged, each member alone, alternate ones
        tagged = [(), range(n)] + [(i,) for i in range(min(n, 4))] + [range(1, n, 2), range(2, n, 3)]
        for style, idx in itertools.product(('tag', 'set_tag'), tagged):
            asm = make_asm(spec)
            m = Model(asm)
            for i in idx:
                mem = members(asm)[i][0]
                if style == 'tag':
                    mem._tree_tags = {'caption': 'the %d' % i}
                else:
                    m.tree.set_tag(mem, 'caption', 'the %d' % i)
                    R.check(m.tree.get_tag(mem, 'caption') == 'the %d' % i, 'set_tag then get_tag')
                m.set[id(mem)] = 'the %d' % i
            m.tree.set_assembly(asm)
            m.compare(R, asm, 'first display', spec=spec, tagged=list(idx), style=style)
            m.tree.set_assembly(asm)
            m.compare(R, asm, 'second display', spec=spec, tagged=list(idx), style=style)
            R.state()
            R.trace()
        R.outcome('hierarchy with %d members' % n)


# ----------------------------------------------------------------- histories
def start(name):
    if name == 'nested':
        return make_asm(((2, 1), (((1,), (((1,), ()),)), ((1,), ()))))
    if name == 'flat':
        return make_asm(((1, 2, 0), ()))
    return standard_minidish(1., 500, 1.)[0]


OPS = ('edit top', 'edit first object', 'edit last object', 'edit first surface', 'edit last surface', 'edit first sub', 'edit last sub', 'edit twice', 'same text on two',
       'empty caption', 'tag', 'tag unseen', 'show again', 'show other', 'show back', 'add object', 'add sub', 'add surface', 'remove', 'edit after redisplay', 'odd captions', 'default captions')


class Session(object):
    def __init__(self, name, R):
        self.asms = [start(name), start('flat')]
        self.now = 0
        self.m = Model(self.asms[0])
        self.k = 0
        self.R = R
        self.hist = []
        self.m.tree.set_assembly(self.asms[0])
        self.ok_show('first display')

    def asm(self):
        return self.asms[self.now]

    def show(self, what):
        self.m.tree.set_assembly(self.asm())

    def ok_show(self, what):
        self.m.compare(self.R, self.asm(), what, history=self.hist)

    def pick(self, kind, last):
        found = [e for e in self.m.entries if e[2] == kind]
        return (found[-1] if last else found[0]) if found else None

    def edit(self, entry, text):
        entry[0].setText(0, text)
        self.m.set[id(entry[1])] = text

    def do(self, op):
        self.k += 1
        self.hist.append(op)
        R, m = self.R, self.m
        text = 'edited %d' % self.k
        if op.startswith('edit') and op not in ('edit twice', 'edit after redisplay'):
            kind = {'top': 'top', 'object': 'o', 'surface': 's', 'sub': 'a'}[op.split()[-1]]
            e = self.pick(kind, 'last' in op)
            if e is None:
                return False
            self.edit(e, text)
        elif op == 'edit twice':
            e = self.pick('o', False)
            if e is None:
                return False
            self.edit(e, text)
            self.edit(e, text + ' again')
        elif op == 'same text on two':
            a, b = self.pick('o', False), self.pick('s', True)
            if a is None or b is None:
                return False
            self.edit(a, 'twin')
            self.edit(b, 'twin')
        elif op == 'empty caption':
            if self.pick('s', False) is None:
                return False
            for kind in ('s', 'top', 'o', 'a'):
                e = self.pick(kind, kind == 'a')
                if e is not None:
                    self.edit(e, '')
        elif op == 'odd captions':
            for e, t in zip(self.m.entries[1:], ('  padded ', 'Optical objects', 'two\nlines', u'\xe9t\xe9 \u2600', '7', 'MiXed', 'x'*300)):
                self.edit(e, t)
        elif op == 'default captions':
            # captions that look like other entries' defaults
            for kind in ('o', 's', 'a'):
                e = self.pick(kind, True)
                if e is not None:
                    self.edit(e, NAME[kind] % 0)
        elif op == 'tag':
            e = self.pick('o', True)
            if e is None:
                return False
            m.tree.set_tag(e[1], 'caption', text)
            m.set[id(e[1])] = text
            m.tree.set_tag(e[1], 'other', 'x')
            R.check(m.tree.get_tag(e[1], 'other') == 'x' and m.tree.get_tag(e[1], 'none such') is None, 'tags other than captions', history=self.hist)
            self.show('')
        elif op == 'tag unseen':
            # a tag set while its old caption is on display, and another entry
            # given that caption
            e, f = self.pick('o', True), self.pick('s', False)
            if e is None or f is None:
                return False
            m.tree.set_tag(e[1], 'caption', text)
            m.set[id(e[1])] = text
            self.edit(f, e[0].text(0))
            R.check(m.tag_ok(e[1]) and m.tag_ok(f[1]), 'after editing another entry: caption tag of a member', history=self.hist)
            self.show('')
        elif op == 'show again':
            self.show('')
        elif op in ('show other', 'show back'):
            self.now = 1 if op == 'show other' else 0
            self.show('')
        elif op in ('add object', 'add sub', 'add surface'):
            asm = self.asm()
            if op == 'add object':
                new = make_obj(self.k % 3)
                asm.add_object(new)
            elif op == 'add sub':
                new = make_asm(((1,), ()))
                asm.add_assembly(new)
            else:
                new = surf()
                asm.get_local_objects()[0].add_surface(new)
            m.keep.append(new)
            self.show('')
        elif op == 'remove':
            objs = self.asm().get_local_objects()
            if len(objs) < 2:
                return False
            gone = objs[0]
            m.keep.append(gone)
            objs.remove(gone)
            if gone in self.asm().get_local_objects():
                return False
            self.show('')
        elif op == 'edit after redisplay':
            e = self.pick('o', False)
            if e is None:
                return False
            self.show('')
            m.compare(R, self.asm(), 'shown again', history=self.hist)
            new = self.pick('o', False)
            self.edit(new, text)
        self.ok_show('after ' + op)
        return True


def run_history(name, first, depth, R):
    for rest in itertools.product(range(len(OPS)), repeat=depth - 1):
        s = Session(name, R)
        hist = [OPS[first]] + [OPS[i] for i in rest]
        good = True
        for op in hist:
            if not s.do(op):
                good = False
                break
        R.state()
        if good:
            s.hist.append('show again')
            s.show('')
            s.ok_show('displayed again at the end')
            R.trace()
            R.outcome('history ends with ' + hist[-1])


def cases(tier):
    parts = 16
    out = [('structure %d' % i, ['structure', i, parts, tier]) for i in range(parts)]
    depth = 3 if tier == 'quick' else 4
    for name in ('nested', 'flat', 'minidish'):
        d = depth if name == 'nested' else depth - 1
        out += [('history %s %s' % (name, op), ['hist', name, k, d]) for k, op in enumerate(OPS)]
    return out


def run(args, R):
    if args[0] == 'structure':
        run_structure(args[1], args[2], args[3], R)
    else:
        run_history(args[1], args[2], args[3], R)
