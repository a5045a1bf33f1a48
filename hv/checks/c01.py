"""C01: what is written in a parameter section is what the program gets."""
import configparser
import io
from hv import work, sut, parse_ref as P
RULE = ('random option tables (scalars, flat/nested/ragged lists up to 4 levels, references to other options, alternative names, '
        'defaults) with a random value are rendered as text, on one or several lines, and parsed by the real parser; distinct = distinct '
        '(shape, type, way of writing) combinations')
ASSUMPTIONS = ['list items contain no brackets or commas, and blanks only inside']


def cases(tier, seed):
    return work.seeds('C01', seed, work.n_cases(tier, 600, 8000))


def run_case(case, tmp):
    sut.load()
    from hyvr.input.option_parsing import Option, Section
    r = work.rnd(case)
    msgs = work.Msgs()
    st = {'options': 0, 'lists': 0, 'expanded': 0, 'alternatives': 0, 'defaults': 0}
    sig = set()
    for _ in range(12):
        opts, written, want, known, dflt, uses, keys = [], {}, {}, {}, {}, {}, {}
        for i in range(r.randint(2, 8)):
            name = 'opt%d' % i
            alts = []
            st['options'] += 1
            key = name
            if r.random() < 0.25:
                alts = ['alt%d_%d' % (i, j) for j in range(r.randint(1, 3))]
                if r.random() < 0.6:
                    st['alternatives'] += 1
                    key = r.choice(alts)
            kw = dict(alternatives=alts if len(alts) != 1 or r.random() < 0.5 else alts[0])
            if r.random() < 0.15:
                # optional, not given
                st['defaults'] += 1
                d = r.choice([None, 1.5, 'x', [1, 2], True])
                isl = isinstance(d, list)
                opts.append(Option(name, list if isl else type(d) if d is not None else float, optional=True, default=d,
                                   **(dict(shape=[-1], datatype=int) if isl else {}), **kw))
                want[name] = dflt[name] = d
                continue
            opt = r.random() < 0.4
            k = r.random()
            if k < 0.15:
                dt = bool
                t, v = r.choice(P.BOOLS)
                d = r.choice([None, True, False])
                opts.append(Option(name, bool, optional=opt, default=d, **kw))
                sig.add('bool')
            elif k < 0.35:
                dt = r.choice([int, float, str])
                t, v = P.scalar(r, dt)
                if dt is str and r.random() < 0.2:
                    t = v = ''          # an empty text is a text, not the default
                d = r.choice([None, P.scalar(r, dt)[1]])
                opts.append(Option(name, dt, optional=opt, default=d, **kw))
                sig.add('scalar ' + dt.__name__)
            else:
                o = P.list_option(r, known)
                st['lists'] += 1
                st['expanded'] += ('drop' in o['how'] and not o['how'].startswith('drop0')) or 'expanded' in o['how']
                t, v = P.text(o['text'], r), o['value']
                d = r.choice([None, [], [P.scalar(r, o['dt'])[1] for _ in range(3)]])
                opts.append(Option(name, list, optional=opt, default=d, shape=o['shape'], datatype=o['dt'], **kw))
                known[name] = v
                for x in [o['shape']] if not isinstance(o['shape'], list) else o['shape']:
                    if isinstance(x, str):
                        uses.setdefault(x, set()).add(name)
                sig.add('%s %s %s' % (o['how'], o['dt'].__name__, str(o['shape'])[:24]))
            want[name] = v
            if opt:
                dflt[name] = d
            written[key] = t
            keys[name] = [name] + alts
            others = [x for x in alts if x != key]
            if key == name and others and r.random() < 0.5:
                written[r.choice(others)] = 'ignored'       # the standard name wins
            elif key != name and alts.index(key) < len(alts) - 1 and r.random() < 0.5:
                written[alts[-1]] = 'ignored'               # earlier alternatives win
        items = list(written.items())
        r.shuffle(items)
        if r.random() < 0.5:
            buf = '[sec]\n' + ''.join('%s %s %s\n' % (k, r.choice('=:'), v) for k, v in items)
            p = configparser.ConfigParser()
            p.read_file(io.StringIO(buf))
            d = dict(p['sec'])
        else:
            d = dict(items)
        desc = {k: v for k, v in items}
        sec = Section('sec', opts)
        try:
            got = sec.parse(dict(d))
        except Exception as e:
            msgs.add('parsing %r with options %r raised %s: %s', desc, opts, type(e).__name__, e)
            continue
        for name in want:
            if name not in got or not P.same(got[name], want[name]):
                msgs.add('option %s of %r (definition %r) was read as %r, but means %r', name, desc,
                         [o for o in opts if o.name == name], got.get(name, '<missing>'), want[name])
        # parsing is repeatable
        try:
            again = sec.parse(dict(d))
        except Exception as e:
            msgs.add('parsing %r a second time raised %s: %s', desc, type(e).__name__, e)
            continue
        for name in want:
            if not P.same(again.get(name, '<missing>'), want[name]):
                msgs.add('option %s of %r was read as %r the second time, but means %r', name, desc,
                         again.get(name, '<missing>'), want[name])
        # the same section without some of its optional options, and complete again
        # (what the first run got may be changed by its user in between)
        gone = set()
        for name in reversed(list(want)):
            if name in keys and name in dflt and not (uses.get(name, set()) - gone) and r.random() < 0.6:
                gone.add(name)
        part = {k: v for k, v in d.items() if not any(k in keys[n] for n in gone)}
        for step, (dd, g) in enumerate([(part, gone), (d, set())]):
            st['reparsed'] = st.get('reparsed', 0) + 1
            try:
                res = sec.parse(dict(dd))
            except Exception as e:
                msgs.add('parsing %r after %r raised %s: %s', dd, desc, type(e).__name__, e)
                break
            for name in want:
                w = dflt[name] if name in g else want[name]
                if not P.same(res.get(name, '<missing>'), w):
                    msgs.add('option %s of %r was read as %r after %r had been parsed, but means %r', name, dd,
                             res.get(name, '<missing>'), desc, w)
        for x in res.values() if not msgs else []:
            if isinstance(x, list):
                x.append('changed')
        if not msgs:
            try:
                res = Section('other', opts).parse(dict(part, not_an_option='17'))
            except Exception as e:
                msgs.add('parsing %r by another section raised %s: %s', part, type(e).__name__, e)
                continue
            for name in want:
                w = dflt[name] if name in gone else want[name]
                if not P.same(res.get(name, '<missing>'), w):
                    msgs.add('option %s of %r was read as %r by a second section with the same options, but means %r', name, part,
                             res.get(name, '<missing>'), w)
    return {'violations': msgs, 'stats': st, 'sig': sorted(sig), 'sample': {'seed': case['seed'], 'kinds': sorted(sig)[:6]}}
