"""C02: what does not fit the definition of an option is rejected, never guessed."""
import copy
from hv import work, sut, parse_ref as P
RULE = ('a valid random option/value pair (as in C01) is broken in one way (length, nesting depth, item type, value check, missing '
        'option, brackets or commas missing or too many, text around the list, empty items, not expandable, wrong boolean; the length of '
        'any single list where the shape is ragged); the parser must raise and must still parse the valid text afterwards; the same definitions are used for several files whose '
        'referenced lists differ in length; distinct = '
        'distinct (breakage, shape, type)')
ASSUMPTIONS = ['any exception counts as a rejection']


def cases(tier, seed):
    return work.seeds('C02', seed, work.n_cases(tier, 600, 8000))


def paths(t, lv=0, pre=()):
    """paths of all lists in t"""
    if isinstance(t, list):
        yield pre
        for i, x in enumerate(t):
            yield from paths(x, lv + 1, pre + (i,))


def at(t, p):
    for i in p:
        t = t[i]
    return t


def resolve(shape, known):
    """flat dimensions of a shape, None if it is not flat"""
    if isinstance(shape, int):
        return [shape] if shape != -1 else None
    if isinstance(shape, str):
        return None
    out = []
    for s in shape:
        if isinstance(s, list):
            return None
        out.append(len(known[s]) if isinstance(s, str) else s)
    return out


def depth(t):
    return 1 + depth(t[0]) if isinstance(t, list) else 0


def breakages(r, o, known):
    """(kind, broken text)"""
    t = o['text']
    out = []
    dims = resolve(o['shape'], known)
    d = depth(t)
    if dims is not None and d > 0:
        sub = dims[len(dims) - d:]
        for _ in range(2):
            p = r.choice(list(paths(t)))
            n = sub[len(p)]
            if n == -1:
                continue
            t2 = copy.deepcopy(t)
            l = at(t2, p)
            if len(l) > 1 and r.random() < 0.5:
                l.pop(r.randrange(len(l)))
            else:
                l.append(copy.deepcopy(l[-1]))
            out.append(('wrong length', P.text(t2, r)))
        # one level too deep
        if d == len(dims):
            out.append(('too deep', P.text([t], r)))
            out.append(('too deep inside', P.text(deeper(t), r)))
    if dims is not None and -1 in dims:
        # leave out so many dimensions that a -1 can not be found
        k = dims.index(-1)
        v = t
        sc = P.scalar(r, o['dt'])[0]
        last = len(dims) - 1 - dims[::-1].index(-1)
        out.append(('unexpandable', sc))
        rest = dims[k + 1:]
        if rest and -1 not in rest:
            out.append(('unexpandable', P.text(P.nested(r, rest, o['dt'])[0], r)))
    if isinstance(o['shape'], str) or (isinstance(o['shape'], list) and any(isinstance(x, list) for x in o['shape'])):
        # the shape of every single list is given: by another option, or in full
        for how in ('longer', 'longer', 'shorter', 'shorter', 'one item'):
            t2 = copy.deepcopy(P.like(r, o['value'], o['dt'])[0])
            l = at(t2, r.choice(list(paths(t2))))
            if how == 'longer':
                l.insert(r.randrange(len(l) + 1), copy.deepcopy(r.choice(l)))
            elif len(l) == 1:
                continue
            elif how == 'shorter':
                l.pop(r.randrange(len(l)))
            else:
                l[:] = [r.choice(l)]
            out.append(('wrong length of ' + ('referenced shape' if isinstance(o['shape'], str) else 'full shape'), P.text(t2, r)))
    if d > 0:
        s = P.text(t, r)
        assert s.endswith(']')
        out.append(('missing closing bracket', s[:-1].rstrip()))
    if d > 0:
        # brackets and commas
        i = r.choice([j for j, ch in enumerate(s) if ch in ',]'])
        out.append(('empty item', s[:i] + ',' + r.choice(['', ' ']) + s[i:]))
        out.append(('missing opening bracket', s[1:].lstrip()))
        out.append(('text around the list', r.choice([s + ' ' + s, s + ',' + s, s + ',', s + ']', '[' + s, s + r.choice('x1'), r.choice('x1') + s])))
    if o['dt'] is not str:
        a, b = P.scalar(r, o['dt'])[0], P.scalar(r, o['dt'])[0]
        out.append(('missing comma', P.text(replace_leaf(r, t, a + r.choice([' ', '  ', '\t', '\n  ']) + b.lstrip('+-')), r)))
    if d == 0 or r.random() < 0.3:
        out.append(('list without brackets', ', '.join(P.scalar(r, o['dt'])[0] for _ in range(r.randint(2, 4)))))
    if d > 1:
        t2 = copy.deepcopy(t)
        p = r.choice([q for q in paths(t2) if q])
        par = at(t2, p[:-1])
        if len(par) > 1:
            par[p[-1]] = leaf(par[p[-1]])
            out.append(('uneven depth', P.text(t2, r)))
    if o['dt'] is not str:
        out.append(('item type', P.text(replace_leaf(r, t, r.choice(['abc', '1.2.3', '--4', '1_x', '15m', '1 m', '50%', '2x'])), r)))
    if o['dt'] is int:
        out.append(('item type', P.text(replace_leaf(r, t, r.choice(['1.5', '2e3'])), r)))
    return out


def deeper(t):
    if isinstance(t, list):
        return [deeper(x) for x in t]
    return [t]


def leaf(t):
    return leaf(t[0]) if isinstance(t, list) else t


def replace_leaf(r, t, x):
    if not isinstance(t, list):
        return x
    t = list(t)
    i = r.randrange(len(t))
    t[i] = replace_leaf(r, t[i], x)
    return t


BADBOOL = ['maybe', 'truee', 'nope', 'yess', '[true]', '1.5', '-1', 'fals', 'y', 'n o', 'None', '', ' ']


def run_case(case, tmp):
    sut.load()
    from hyvr.input.option_parsing import Option, Section
    r = work.rnd(case)
    msgs = work.Msgs()
    st = {'rejections_checked': 0}
    sig = set()

    def must_fail(opts, d, kind, good=None):
        opts = opts + [Option('z_opt', float, optional=True, default=2.5, alternatives=['z_alt'])]
        sec = Section('sec', opts)
        if good is not None and r.random() < 0.5:
            # a section that has been used before
            try:
                g1 = sec.parse(dict(good[0], **{r.choice(['z_opt', 'z_alt']): '7'}))
            except Exception as e:
                msgs.add('the valid %r raised %s: %s', good[0], type(e).__name__, e)
                return
            if not P.same(g1.get('a'), good[1]) or g1.get('z_opt') != 7.0:
                msgs.add('the valid %r with z_opt = 7 was read as %r', good[0], g1)
            d = dict(d, **{r.choice(['z_opt', 'z_alt']): '8'})
        st['rejections_checked'] += 1
        st[kind] = st.get(kind, 0) + 1
        sig.add(kind)
        try:
            got = sec.parse(dict(d))
        except Exception:
            got = None
        else:
            msgs.add('%s: %r with options %r was accepted as %r', kind, d, opts, got)
        if good is not None:
            try:
                g2 = sec.parse(dict(good[0]))
            except Exception as e:
                msgs.add('after rejecting %r, the valid %r raised %s: %s', d, good[0], type(e).__name__, e)
                return
            if not P.same(g2.get('a'), good[1]):
                msgs.add('after rejecting %r, the valid %r was read as %r', d, good[0], g2.get('a'))
            if g2.get('z_opt') != 2.5:
                msgs.add('after rejecting %r, the option z_opt that is not given has the value %r instead of its default', d, g2.get('z_opt'))

    for _ in range(14):
        refs, rtext = {}, {}
        base = []
        for i in range(r.randint(0, 2)):
            nd = r.randint(1, 2)
            t, v = P.nested(r, [-1] * nd, int, ragged=[1])
            base.append(Option('ref%d' % i, list, shape=-1, datatype=int))
            refs['ref%d' % i] = v
            rtext['ref%d' % i] = P.text(t, r)
        o = P.list_option(r, refs)
        opt = Option('a', list, shape=o['shape'], datatype=o['dt'])
        good = dict(rtext, a=P.text(o['text'], r))
        for kind, txt in breakages(r, o, refs):
            must_fail(base + [opt], dict(rtext, a=txt), kind, (good, o['value']))
        # value check applies to every item, wherever it is
        flat = []
        def leaves(t):
            for x in t:
                leaves(x) if isinstance(x, list) else flat.append(x)
        leaves(o['value'])
        bad = r.choice(flat)
        must_fail(base + [Option('a', list, shape=o['shape'], datatype=o['dt'], validation_func=lambda x: x != bad)],
                  good, 'invalid item')
        # missing
        must_fail(base + [Option('a', list, shape=o['shape'], datatype=o['dt'], alternatives=['b', 'c'],
                                     default=r.choice([None, o['value']]))], rtext, 'missing list')
        dt = r.choice([int, float, str, bool])
        must_fail([Option('a', dt, alternatives=r.choice([[], ['b']]), default=r.choice([None, dt(1)]))], {'aa': '1', 'A_': '1'}, 'missing scalar')
        t, v = P.scalar(r, r.choice([int, float]))
        must_fail([Option('a', type(v), optional=r.random() < 0.5, validation_func=lambda x: x != v)], {'a': t}, 'invalid scalar')
        must_fail([Option('a', bool, optional=r.random() < 0.5, default=False)], {'a': r.choice(BADBOOL)}, 'wrong boolean')
        must_fail([Option('a', r.choice([int, float]), optional=r.random() < 0.5)], {'a': r.choice(['abc', '[1]', '1,2', '', '15m', '3 m', '2.5.'])}, 'scalar type')
        must_fail([Option('a', int, optional=r.random() < 0.5)], {'a': r.choice(['1.5', '3e2'])}, 'scalar type')
        # a list of fixed length is never empty
        must_fail([Option('a', list, shape=r.choice([1, 2, [3], [2, 2], [2, -1]]), datatype=float)], {'a': '[]'}, 'empty list')
    # the same definitions for several files: lengths given by other options are those of the file at hand
    for _ in range(4):
        dt = r.choice([int, float])
        shape, nest = r.choice([('ref', 0), (['ref'], 0), (['ref', 2], 1), ([2, 'ref'], 2), (['ref', 'other'], 3), ([-1, 'ref'], 2)])
        opts = [Option('ref', list, shape=-1, datatype=float), Option('other', list, shape=-1, datatype=float),
                Option('a', list, shape=shape, datatype=dt)]
        one = Section('one', opts)
        for k in range(4):
            n, n2, n3 = r.randint(1, 4), r.randint(1, 4), r.randint(1, 4)
            bad_n = r.choice([q for q in range(1, 6) if q != n])

            def value(q):
                row = list(range(1, q + 1))
                if nest == 1:
                    v = [[1, 2]] * q
                elif nest == 2:
                    v = [row] * 2
                elif nest == 3:
                    v = [list(range(n2))] * q
                else:
                    v = row
                return [[dt(y) for y in x] if isinstance(x, list) else dt(x) for x in v]
            refs = {'ref': str([0.5] * n), 'other': str([0.25] * n2)}
            sec = one if r.random() < 0.5 else Section('s%d' % k, opts)
            for q, ok in r.choice([[(n, True), (bad_n, False)], [(bad_n, False), (n, True)], [(bad_n, False)], [(n, True)]]):
                st['rejections_checked'] += 1
                st['definitions_used_again'] = st.get('definitions_used_again', 0) + 1
                try:
                    got = sec.parse(dict(refs, a=str(value(q))))['a']
                except Exception as e:
                    if ok:
                        msgs.add('definition used for several files: %r of shape %r with %r raised %s: %s', value(q), shape, refs, type(e).__name__, e)
                else:
                    if not ok:
                        msgs.add('definition used for several files: %r of shape %r with %r was accepted as %r', value(q), shape, refs, got)
                    elif not P.same(got, value(q)):
                        msgs.add('definition used for several files: %r of shape %r with %r was read as %r', value(q), shape, refs, got)
    # definitions without the necessary information
    for kw in (dict(shape=None, datatype=float), dict(shape=-1), dict(shape=[2])):
        st['rejections_checked'] += 1
        try:
            Option('a', list, **kw)
            msgs.add('a list option without shape or item type was accepted: %r', kw)
        except Exception:
            pass
    return {'violations': msgs, 'stats': st, 'sig': [sorted(sig), case['seed']], 'sample': {'seed': case['seed'], 'kinds': sorted(sig)}}
