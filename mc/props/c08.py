"""C08: ray bundles behave as lists of independent ray records."""
import itertools

import numpy as N

from mc.build import RayBundle
from tracer.ray_bundle import concatenate_rays

RULE = """All sequences of up to 3 operations (thorough: 4) of an alphabet of
inheriting (with index arrays, repetitions, masks, slices, nothing; with and
without overrides, of basic and custom properties), deleting, adding,
concatenating and setting (whole properties and selected rays), from 5 initial
bundles (full, other sizes, custom properties of 1 to 3 dimensions, unset
properties, empty). After each operation the result, and every bundle that
existed before, is compared with a list-of-records model. state = one bundle
after one history; transition = one operation."""
ASSUME = ["Bundles joined by concatenate_rays() have the same properties set, as documented."]

BASE = ('vertices', 'directions', 'energy', 'parents', 'ref_index')


def val(prop, tag):
    """A value of one ray for a property, made unique by tag."""
    if prop in ('vertices', 'directions'):
        return N.array([tag, tag + 0.25, -tag])
    if prop == 'parents':
        return N.array(int(tag))
    if prop == 'pol':
        return N.array([tag, 0.5*tag])
    if prop == 'jones':
        return N.array([[tag, 1 + tag], [-tag, 2*tag]])
    return N.array(float(tag))


def arr(prop, tags):
    if not len(tags):
        shape = N.shape(val(prop, 1)) + (0,)
        return N.zeros(shape)
    return N.array([val(prop, t) for t in tags]).transpose(tuple(range(1, N.ndim(val(prop, 1)) + 1)) + (0,)).copy()


class Model(object):
    """A list of records: record = {property: value of the ray}."""
    def __init__(self, recs, props):
        self.recs = [dict(r) for r in recs]
        self.props = set(props)

    def copy(self):
        return Model(self.recs, self.props)


def make(kind):
    if kind == 'empty':
        return RayBundle.empty_bund(), Model([], BASE)
    spec = {'full': (3, BASE + ('wave', 'pol'), 1.), 'full2': (2, BASE + ('wave', 'pol'), 20.), 'plain': (3, ('vertices', 'directions', 'energy'), 40.),
            'cube': (2, BASE + ('jones', 'wave'), 60.), 'bare': (2, ('vertices', 'directions'), 80.)}[kind]
    n, props, t0 = spec
    kw = dict((p, arr(p, [t0 + i + 0.01*len(p) if p != 'parents' else i for i in range(n)])) for p in props)
    recs = [dict((p, kw[p][..., i].copy()) for p in props) for i in range(n)]
    return RayBundle(**kw), Model(recs, props)


def compare(R, b, m, what):
    R.check(b.get_num_rays() == len(m.recs), what + ': number of rays', got=b.get_num_rays(), want=len(m.recs))
    for p in sorted(m.props):
        R.check(b.has_property(p), what + ': property %s is missing' % p)
        got = N.asarray(getattr(b, 'get_' + p)())
        R.check(got.shape[-1] == len(m.recs), what + ': length of %s' % p, got=got.shape, want=len(m.recs))
        for i, r in enumerate(m.recs):
            R.check(N.array_equal(got[..., i], r[p]), what + ': %s of ray %d' % (p, i), got=got[..., i], want=r[p])
        if len(m.recs):
            part = N.asarray(getattr(b, 'get_' + p)(N.array([len(m.recs) - 1, 0])))
            R.check(N.array_equal(part[..., 0], m.recs[-1][p]) and N.array_equal(part[..., 1], m.recs[0][p]),
                    what + ': %s of selected rays' % p)
    for p in BASE:
        if p not in m.props:
            try:
                x = getattr(b, 'get_' + p)()
            except (KeyError, AttributeError):
                x = None
            R.check(x is None, what + ': unset property %s has a value' % p, got=x)


# ---------------------------------------------------------------- operations
# selectors are written for any number of rays n
SELS = {
    'all': lambda n: slice(None), 'none': lambda n: N.array([], dtype=int), 'first': lambda n: N.array([0]) if n else N.array([], dtype=int),
    'last': lambda n: N.arange(n)[-1:], 'rev': lambda n: N.arange(n)[::-1], 'rep': lambda n: N.array([n - 1, 0, n - 1]) if n else N.array([], dtype=int),
    'mask': lambda n: N.arange(n) % 2 == 0, 'nomask': lambda n: N.zeros(n, dtype=bool), 'slice': lambda n: slice(1, None), 'tail': lambda n: N.arange(n)[1:],
}
TAG = [100.]


def pick(sel, n):
    return list(N.arange(n)[sel])


def tags(k):
    TAG[0] += 1
    return [TAG[0] + 0.1*i for i in range(k)]


def op_inherit(selname, over):
    def op(bund, m, pool):
        s = SELS[selname](len(m.recs))
        idx = pick(s, len(m.recs))
        recs = [dict(m.recs[i]) for i in idx]
        kw, props = {}, set(m.props)
        for p in over:
            a = arr(p, tags(len(idx)))
            kw['direction' if p == 'directions' else p] = a.copy()
            for i in range(len(idx)):
                recs[i][p] = a[..., i].copy()
            props.add(p)
        out = bund.inherit(s, **kw) if selname != 'all' else bund.inherit(**kw)
        return out, Model(recs, props)
    return op


def op_delete(selname):
    def op(bund, m, pool):
        s = SELS[selname](len(m.recs))
        gone = set(pick(s, len(m.recs)))
        return bund.delete_rays(s), Model([r for i, r in enumerate(m.recs) if i not in gone], m.props)
    return op


def op_add(other, left):
    def op(bund, m, pool):
        b2, m2 = pool[other] if other != 'self' else (bund, m)
        props = m.props & m2.props
        first, second = (m, m2) if left else (m2, m)
        out = bund + b2 if left else b2 + bund
        return out, Model([dict((p, r[p]) for p in props) for r in first.recs + second.recs], props)
    return op


def op_whole(left, concat):
    """Joined with a copy whose properties are whole numbers, stored as such."""
    def op(bund, m, pool):
        recs = [dict((p, N.array(v).astype(int)) for p, v in r.items()) for r in m.recs]
        kw = dict((p, N.asarray(getattr(bund, 'get_' + p)()).astype(int)) for p in m.props)
        b2, m2 = RayBundle(**kw), Model(recs, m.props)
        first, second = ((bund, m), (b2, m2)) if left else ((b2, m2), (bund, m))
        out = concatenate_rays([first[0], second[0]]) if concat else first[0] + second[0]
        return out, Model(first[1].recs + second[1].recs, m.props)
    return op


def op_concat(names):
    def op(bund, m, pool):
        # a shallow list: derived bundles, the current one
        parts = [(bund, m) if nm == 'cur' else (bund.inherit(SELS[nm](len(m.recs))), Model([m.recs[i] for i in pick(SELS[nm](len(m.recs)), len(m.recs))], m.props)) for nm in names]
        out = concatenate_rays([p[0] for p in parts])
        if not parts:
            return out, Model([], BASE)
        return out, Model(sum([p[1].recs for p in parts], []), m.props)
    return op


def op_set(prop, selname):
    """Changes the current bundle in place."""
    def op(bund, m, pool):
        if selname is None:
            a = arr(prop, tags(len(m.recs)))
            getattr(bund, 'set_' + prop)(a.copy())
            for i, r in enumerate(m.recs):
                r[prop] = a[..., i].copy()
            m.props.add(prop)
        elif prop in m.props:
            s = SELS[selname](len(m.recs))
            idx = pick(s, len(m.recs))
            a = arr(prop, tags(len(idx)))
            getattr(bund, 'set_' + prop)(a.copy(), s)
            for j, i in enumerate(idx):
                m.recs[i][prop] = a[..., j].copy()
        return bund, m
    op.inplace = True
    return op


OPS = {}
for sname in SELS:
    OPS['inherit %s' % sname] = op_inherit(sname, ())
for sname, over in (('rev', ('energy',)), ('rep', ('vertices', 'directions', 'energy', 'parents')), ('tail', ('parents', 'ref_index')),
                    ('mask', ('wave',)), ('all', ('pol',)), ('all', ('energy', 'wave')), ('none', ('energy', 'parents')), ('slice', ('jones',))):
    OPS['inherit %s with %s' % (sname, '+'.join(over))] = op_inherit(sname, over)
for sname in ('none', 'first', 'last', 'rev', 'rep', 'slice'):
    OPS['delete %s' % sname] = op_delete(sname)
for other in ('full2', 'plain', 'cube', 'empty', 'self'):
    for left in (True, False):
        if other != 'self' or left:
            OPS['%s %s' % ('add' if left else 'add to', other)] = op_add(other, left)
OPS['add whole numbers'] = op_whole(True, False)
OPS['add to whole numbers'] = op_whole(False, False)
OPS['concatenate with whole numbers'] = op_whole(True, True)
OPS['concatenate whole numbers with'] = op_whole(False, True)
for names in ((), ('cur',), ('cur', 'cur'), ('rev', 'cur', 'first'), ('none', 'tail', 'none'), ('cur', 'none')):
    OPS['concatenate [%s]' % ','.join(names)] = op_concat(names)
for prop, sname in (('energy', None), ('vertices', None), ('energy', 'first'), ('energy', 'mask'), ('vertices', 'last'), ('directions', 'rev'), ('ref_index', 'tail'),
                    ('parents', None), ('parents', 'slice'), ('wave', 'first'), ('pol', 'last'), ('jones', 'first')):
    OPS['set %s of %s' % (prop, sname)] = op_set(prop, sname)

QUICK3 = ['inherit all', 'inherit rep', 'inherit slice', 'inherit mask with wave', 'inherit all with pol', 'delete first', 'delete none', 'add full2', 'add self', 'add to plain',
          'concatenate [cur]', 'concatenate [rev,cur,first]', 'set energy of first', 'set vertices of last', 'set wave of first', 'set pol of last', 'set energy of None', 'inherit none']
START = ('full', 'plain', 'cube', 'bare', 'empty')


def legal(name, m):
    """set_<custom> exists only where the property does; the rest always."""
    if name.startswith('set '):
        p = name.split()[1]
        return p in m.props or p in BASE
    if name.startswith('concatenate') or name.startswith('add'):
        return True
    return True


def cases(tier):
    out = []
    ops = sorted(OPS)
    for st in START:
        for a in ops:
            out.append(('%s: %s' % (st, a), (st, a, tier)))
    return out


def explore(R, st, seq):
    """Executes one history; returns False if its last operation is not legal."""
    TAG[0] = 100.
    pool = dict((k, make(k)) for k in ('full2', 'plain', 'cube', 'empty') if any(nm.endswith(' ' + k) for nm in seq))
    bund, m = make(st)
    alive = list(pool.values()) + [(bund, m)]
    frozen = [(b, mm.copy()) for b, mm in alive]
    for k, name in enumerate(seq):
        if not legal(name, m):
            return False
        op = OPS[name]
        bund, m = op(bund, m, pool)
        if getattr(op, 'inplace', False):
            frozen[-1] = (bund, m.copy())
        else:
            frozen.append((bund, m.copy()))
        if k == len(seq) - 1:
            compare(R, bund, m, '%s: %s' % (st, ' / '.join(seq)))
    for b, mm in frozen[:-1]:
        compare(R, b, mm, '%s: %s, an earlier bundle' % (st, ' / '.join(seq)))
    R.trace()
    R.step()
    R.state()
    R.outcome('rays %d' % min(len(m.recs), 9))
    return True


def run(args, R):
    st, a, tier = args
    if not explore(R, st, (a,)):
        return
    for b in sorted(OPS):
        if not explore(R, st, (a, b)):
            continue
        third = sorted(OPS) if tier != 'quick' else QUICK3
        if tier == 'quick' and (a not in QUICK3 or b not in QUICK3):
            continue
        for c in third:
            if explore(R, st, (a, b, c)) and tier != 'quick' and a in QUICK3 and b in QUICK3 and c in QUICK3:
                for e in QUICK3:
                    explore(R, st, (a, b, c, e))
    R.sample(start=st, first=a)
