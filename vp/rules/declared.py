"""What a declared field is: its options, and what migrations see of it."""
from ..core import NoVerdict
from ..traces import functions

R_PLAIN = 'computed-deconstructs-as-plain'
R_OWN = 'own-path-and-relation'
R_AGAIN = 'rebuilt-from-deconstruction'
R_EDIT = 'never-editable'
R_ZERO = 'zero-default'
R_OPTS = 'options-reach-the-column'


def norm(v):
    """Order of keyword arguments does not matter."""
    if isinstance(v, tuple):
        if v and v[0] == 'dict':
            return ('dict',) + tuple(sorted((norm(x) for x in v[2:]), key=repr))
        return tuple(norm(x) for x in v)
    return v


LABELS = {
    'declared': ('char', 'int', 'big', 'text', 'bool', 'nullbool', 'decimal', 'date', 'now', 'positional', 'colour', 'renamed',
                 'fk', 'fkname', 'fkopts', 'fkto', 'fkpos', 'self', 'o2o', 'm2m', 'm2mopts'),
    'own': ('count', 'sum', 'key', 'cached'),
}


def rows(ctx, fn, label, backend='sqlite'):
    got = {}

    def run(it, x):
        v = it.call(it.getattr(it.import_module('shapes.decl'), fn), [], {})
        got['v'] = it.freeze(v)
    x = ctx.extraction('decl', backend, config={'labels': (label,)}, run=run)
    r = ctx.ok_result(x, 'declaring fields', 'declare/' + label)
    if r is None:
        return x, ()
    if len(got['v']) < 6:
        raise NoVerdict('too few declared fields')
    return x, [norm(t) for t in got['v']]


def kwargs_of(d):
    """Keyword arguments of a deconstruction."""
    if not (isinstance(d, tuple) and len(d) == 4 and isinstance(d[3], tuple) and d[3][:1] == ('dict',)):
        raise NoVerdict('unexpected form of a deconstruction: %r' % (d,))
    return dict(d[3][1:])


def differ(a, b):
    """First keyword that differs, with both values."""
    for k in sorted(set(a) | set(b)):
        if a.get(k, 'nothing') != b.get(k, 'nothing') or (k in a) != (k in b):
            return '%s is %r instead of %r' % (k, a.get(k, 'missing'), b.get(k, 'missing'))


def deconstruction(ctx):
    ctx.rule(R_PLAIN, 'for each wrapped field class and option set, name, path, arguments and keywords of the computed field equal those of the plain non-editable field')
    ctx.rule(R_OWN, 'a count, sum, cache-key or cached field gives the import path of its class, and a count or sum field its relation name')
    ctx.rule(R_AGAIN, 'the class called with the deconstructed arguments gives a field with the same deconstruction, relation name and column options')
    ctx.parallel(lambda c: {'declared': plain_case, 'own': own_case}[c[0]](ctx, c[1]), [(k, l) for k, ls in LABELS.items() for l in ls])


def plain_case(ctx, label):
    x, out = rows(ctx, 'declared', label)
    here = functions(x.it, 'deconstruct')
    for label, (da, attrs_a), (db, attrs_b) in out:
        ctx.ob(R_PLAIN, 4)
        kind = label.split('/')[0]
        for i, what in ((0, 'name'), (1, 'path'), (2, 'arguments')):
            if da[i] != db[i]:
                ctx.finding('%s:%s:%s' % (R_PLAIN, kind, what), 'the %s of a computed %s field in migrations is %r instead of %r' % (what, kind, da[i], db[i]), here)
        plain = kwargs_of(db)
        if str(plain.get('to', '')).startswith('two.'):
            # the plain fields live in an application of their own
            plain['to'] = 'one.' + plain['to'][4:]
        d = differ(kwargs_of(da), plain)
        if d:
            ctx.finding('%s:%s:keywords' % (R_PLAIN, kind), 'a computed %s field deconstructs with other keywords than the plain field: %s' % (kind, d), here)


def own_case(ctx, label):
    x, out = rows(ctx, 'own', label)
    here = functions(x.it, 'deconstruct')
    for label, path, d, again, af, ap, ag, managers in out:
        kind = label.split('/')[0]
        ctx.ob(R_OWN, 2)
        if d[1] != path:
            ctx.finding('%s:%s:path' % (R_OWN, kind), 'a %s field deconstructs to the path %r instead of %r' % (kind, d[1], path), here)
        if kind in ('count', 'sum'):
            given = d[2][1:2] + tuple(v for k, v in kwargs_of(d).items() if k == 'manager_name')
            if given != ('kids',):
                ctx.finding('%s:%s:relation' % (R_OWN, kind), 'a %s field deconstructs to the relation name %r' % (kind, given), here)
            if managers != ('kids', 'kids'):
                ctx.finding('%s:%s:manager' % (R_AGAIN, kind), 'a rebuilt %s field is about the relation %r' % (kind, managers[1]), here)
        ctx.ob(R_AGAIN, 2)
        if d[:1] + d[1:] != again:
            ctx.finding('%s:%s:again' % (R_AGAIN, kind), 'a %s field deconstructs differently after being rebuilt: %s' % (
                kind, differ(kwargs_of(d), kwargs_of(again)) or '%r and %r' % (d[1:3], again[1:3])), here)
        diff = differ(dict(af), dict(ag))
        if diff:
            ctx.finding('%s:%s:options' % (R_AGAIN, kind), 'a rebuilt %s field has other column options: %s' % (kind, diff), here)
    ctx.sample('%d own fields compared with their rebuilt selves' % len(out))


def options(ctx):
    ctx.rule(R_EDIT, 'for each field kind and each set of user options the resulting field is not editable')
    ctx.rule(R_ZERO, 'count, sum, cache-key and cached fields default to the number zero for each set of user options')
    ctx.rule(R_OPTS, 'every other option has the value it has in a plain column field given the same options')
    ctx.parallel(lambda c: option_case(ctx, *c), [(k, l) for k, ls in LABELS.items() for l in ls])


def option_case(ctx, fn, case):
    x, out = rows(ctx, fn, case)
    here = functions(x.it, '__init__')
    for row in out:
        label = row[0]
        kind = label.split('/')[0]
        a, b = (dict(row[1][1]), dict(row[2][1])) if fn == 'declared' else (dict(row[4]), dict(row[5]))
        ctx.ob(R_EDIT)
        if a.get('editable') is not False:
            ctx.finding('%s:%s' % (R_EDIT, kind), 'a %s field is editable with the options of case %s' % (kind, label), here)
        if fn == 'own':
            ctx.ob(R_ZERO)
            if a.get('default') != 0 or a.get('default') is False:
                ctx.finding('%s:%s' % (R_ZERO, kind), 'a %s field defaults to %r with the options of case %s' % (kind, a.get('default'), label), here)
        ctx.ob(R_OPTS, len(b))
        d = differ(dict((k, v) for k, v in a.items() if k not in ('editable',)), dict((k, v) for k, v in b.items() if k not in ('editable',)))
        if d and not (fn == 'own' and d.startswith('default ')):
            ctx.finding('%s:%s' % (R_OPTS, kind), 'an option of a %s field is not what the user gave: %s' % (kind, d), here)
    ctx.sample('%d fields with options' % len(out))
