"""Drivers of the properties of the database: C19 to C22."""
import os
import pickle
import random
import shutil
import tempfile

from common import attempt
import store
from store import BAD, BOOL, CANON, INHIB, UNIV, VALUES, edit
from ieml.constants import DESCRIPTORS_CLASS
from ieml.ieml_database import IEMLDatabase

E0 = dict(a='', i='', l='', c='', k='', v='', hv=False)


def rand_ieml(r, few):
    if r.random() < .04:
        return r.choice(BAD)
    i, raws = r.choice(few)
    return r.choice([i] + raws)


def rand_desc(r, few, vals):
    l = r.choice(['fr', 'en', 'fr', 'en', 'fr', 'de']) if r.random() < .3 else r.choice(['fr', 'en'])
    c = r.choice(['translations', 'tags', 'comments', 'rdf_repositories', 'foo']) if r.random() < .3 else r.choice(['translations', 'comments'])
    e = dict(E0, i=rand_ieml(r, few), l=l, c=c, v=r.choice(vals), hv=True)
    if r.random() < .65:
        return dict(e, a='add')
    e['a'] = 'rem'
    for f in 'lc':
        if r.random() < .35:
            e[f] = ''
    if r.random() < .4:
        e.update(hv=False, v='')
    return e


def rand_struct(r, few):
    k = r.choice(['is_root', 'inhibition', 'inhibition', 'is_ignored', 'is_root', 'bad'])
    v = r.choice(INHIB if k == 'inhibition' else BOOL)
    e = dict(E0, i=rand_ieml(r, few), k=k, v=v, hv=True)
    if r.random() < .6:
        return dict(e, a='sadd')
    e['a'] = 'srem'
    x = r.random()
    if x < .2:
        e.update(k='', v='', hv=False)
    elif x < .5:
        e.update(v='', hv=False)
    return e


def histories(tier, seed, cases, kind, n_model, n_rand):
    r = random.Random(seed)
    hs = [c['hist'] for c in cases]
    r.shuffle(hs)
    # the model prints every transition: a history that is a prefix of another one adds nothing
    hs.sort(key=len, reverse=True)
    res = hs[:n_model]
    for _ in range(n_rand):
        few = r.sample(UNIV, r.choice([1, 2, 2, 3, 5]))
        vals = r.sample(VALUES, r.choice([2, 3, 6]))
        n = r.choice([4, 8, 12])
        h = [rand_desc(r, few, vals) if kind == 'd' or kind == 'm' and r.random() < .6 else rand_struct(r, few) for _ in range(n)]
        if r.random() < .25:
            # the same edit several times, then its opposite
            k = r.randrange(len(h))
            e = next((e for e in h[k:] if e['a'] in ('add', 'sadd')), None)
            if e:
                h += [e] * r.choice([1, 2, 3]) + [dict(e, a='rem' if e['a'] == 'add' else 'srem')] + h[k:k + 2]
        res.append(h)
    return r, res


def play(r, hist, look, use_cache=False):
    """executes a history in its own folder"""
    d = tempfile.mkdtemp()
    try:
        db = IEMLDatabase(os.path.join(d, 'db'), use_cache=False)
        os.mkdir(db.folder)
        ask = sorted({CANON[e['i']] for e in hist if e['i'] in CANON})
        steps = []
        for n, e in enumerate(hist):
            ok, _ = attempt(edit, db, e)
            s = dict(e, ok=ok)
            ok, seen = attempt(look, r, db, ask, n == len(hist) - 1)
            if not ok:
                return steps + [dict(s, unread=seen)]
            s.update(seen)
            steps.append(s)
        return steps
    finally:
        shutil.rmtree(d, ignore_errors=True)


def broken(steps, f):
    """a copy of the history with one observation changed"""
    import copy
    s = copy.deepcopy(steps)
    return s if f(s) else None


def c19(rec, tier, seed, cases):
    big = tier == 'thorough'
    r, hs = histories(tier, seed, cases, 'd', 3000 if big else 60, 600 if big else 30)

    def look(r, db, ask, last):
        ask = ask[:4] or ['a.']
        res = dict(ask=ask, vals=store.read_values(db, ask))
        if last or r.random() < .2:
            res.update(part=store.read_partial(db, ask, r), full=store.read_full(db, ask), only=store.read_only(db, ask, r))
        return res
    # a decoration with a line feed
    i = '()(y.) [> "b\nc"]'
    st = play(r, [dict(E0, i=i, l='fr', c='comments', v='v', hv=True, a='add')], lambda r, db, ask, last: dict(ask=[i], vals=store.read_values(db, [i])))
    rec(op='hist', key='decoration with a line feed', got=st[-1].get('vals', st[-1].get('unread')), steps=st)
    can = 0
    for h in hs:
        st = play(r, h, look)
        rec(op='hist', steps=st)

        def lose(s):
            if s[-1].get('vals'):
                s[-1]['vals'].pop()
                return True

        def other(s):
            if s[-1].get('vals'):
                s[-1]['vals'][0][3][0] += 'x'
                return True
        for f in (lose, other):
            b = broken(st, f)
            if b and can < 6:
                can += 1
                rec.canary(op='hist', steps=b)


def c20(rec, tier, seed, cases):
    big = tier == 'thorough'
    r, hs = histories(tier, seed, cases, 's', 3000 if big else 60, 600 if big else 30)

    def look(r, db, ask, last):
        v, p = store.read_structure(db, ask, r)
        return dict(svals=v, spart=p)
    can = 0
    for h in hs:
        st = play(r, h, look)
        rec(op='hist', steps=st)

        def more(s):
            if s[-1].get('svals'):
                s[-1]['svals'][0][2].append('True')
                return True
        b = broken(st, more)
        if b and can < 4:
            can += 1
            rec.canary(op='hist', steps=b)


def c21(rec, tier, seed, cases):
    big = tier == 'thorough'
    r, hs = histories(tier, seed, cases, 'm', 2000 if big else 40, 500 if big else 30)
    for h in hs[-len(hs) // 3:]:
        # the units of these histories are in a dictionary
        h[:0] = prelude(r, r.sample([u[0] for u in UNIV if len(u[0]) < 90], 5))

    def look(r, db, ask, last):
        res = dict(files=store.read_files(db.folder))
        if last or r.random() < .15:
            res['lists'] = store.read_lists(db, r)
            res['paths'] = store.read_paths(db, ask[:4])
            if r.random() < .5:
                res['parsed'] = store.read_parsed(db, r)
        return res
    can = 0
    for h in hs:
        st = play(r, h, look)
        rec(op='hist', steps=st)

        def move(s):
            if s[-1].get('files'):
                s[-1]['files'][0][2] = s[-1]['files'][0][2].replace('/', '//', 1)
                return True

        def twice(s):
            if s[-1].get('lists') and s[-1]['lists'][0][2]:
                s[-1]['lists'][0][2] *= 2
                return True
        for f in (move, twice):
            b = broken(st, f)
            if b and can < 6:
                can += 1
                rec.canary(op='hist', steps=b)


def spoil(folder, how, r):
    """damages the cache files of a folder"""
    names = [n for n in os.listdir(folder) if '-cache.' in n] if os.path.isdir(folder) else []
    for n in names:
        p = os.path.join(folder, n)
        if how == 'cut':
            k = r.choice(['cut', 'empty', 'junk', 'none'])
            with open(p, 'rb') as fp:
                data = fp.read()
            data = {'cut': data[:len(data) // 2], 'empty': b'', 'junk': b'\x80\x04junk', 'none': pickle.dumps(None)}[k]
            with open(p, 'wb') as fp:
                fp.write(data)
        else:
            kind = n[:n.index('-cache.')]
            with open(os.path.join(folder, kind + '-cache.' + '%032x' % r.getrandbits(128)), 'wb') as fp:
                fp.write(pickle.dumps(['other']))


def see_dict(db):
    ok, d = attempt(db.get_dictionary)
    if not ok:
        return dict(ok=False, err=d)
    g = d.relations if len(d.scripts) else None
    return dict(ok=True, scripts=[str(s) for s in d.scripts], roots=[str(d.scripts[i]) for i in d.roots_idx.nonzero()[0]],
                ranks=[int(d.tables[s].rank) for s in d.scripts],
                opposed=[[i, int(d.index[o])] for i, s in enumerate(d.scripts) for o in g.object(s, 'opposed')])


def see_list(db):
    ok, l = attempt(db.get_list)
    if not ok:
        return dict(ok=False, err=l)
    return dict(ok=True, rows=[[e['ieml'], e['type'], e['paradigm'], e['cardinality'],
                                [[c, la, list(v)] for c in DESCRIPTORS_CLASS if c in e for la, v in e[c].items()], e['class']]
                               for e in l])


RICH = ['O:O:.', 'O:M:.', 'E:O:.', 'M:M:.']
ROOTS22 = ['O:M:.', 'M:O:.', 'O:O:.', 'E:O:.', 'O:M:.+M:O:.']
SUBS22 = ['U:O:.', 'O:U:.', 'U:M:.', 'O:S:.', 'S:O:.', 'M:U:.', 'O:U:.+O:A:.', 'U:M:.+A:S:.']
OTHER22 = ['a.', 'y.', 'wo. wa.', 'm1(wa. wo. y.)', '()(a.)', '(wo.)(a. b.)', '(m1(b. a.))(wo.)', '[! E:A:. (wa.)]', 'wo. m1(wa. y.)',
           '[! E:A:. ()(m1(b. a.))]', '[! E:A:.  ()(y.) > E:A:. E:A:. ()(o.)] [>role>E:A:. E:A:.>content>constant>o. "t t"]',
           '[! E:A:. (wo.)(a.) > E:A:. E:A:. ()(b.)]', 'E:A:.', 'wa.',
           '[! E:A:.  ()(m1(a. b.)) > E:A:. E:A:. ()(o.)] [>role>! E:A:.>content>group_0 1>a. "z"] [>role>E:A:. E:A:.>content>constant>o. "t t"]',
           '[! E:A:.  ()(m1(a. b.)) > E:A:. E:A:. (m1(wo. wa. y. e.))(m1(a. s. b. t.))]']


def prelude(r, units):
    """a dictionary with the morphemes of the units, and the units"""
    one = dict(E0, a='add', l='fr', c='translations', v='v', hv=True)
    roots = RICH if r.random() < .7 else r.sample(RICH, 3)
    res = [dict(one, i=i) for i in roots] + [dict(E0, a='sadd', i=i, k='is_root', v='bool:True', hv=True) for i in roots]
    return res + [dict(one, i=i, l=r.choice(['fr', 'en'])) for i in units]


def rand_22(r):
    hist, rooted = [], set()
    roots = r.sample(ROOTS22, r.choice([1, 2, 3]))
    n = r.choice([8, 12, 18])
    pool = roots * 2 + r.sample(SUBS22, 3) + r.sample(OTHER22, 4)
    if r.random() < .4:
        pool = r.sample(OTHER22, 6)
        roots = list(RICH)
        rooted = set(roots)
        hist = prelude(r, pool)
        n += len(hist)
    for i in roots[:r.choice([0, 1, 2, 2])] if not hist else []:
        hist += [dict(E0, a='add', i=i, l='fr', c='translations', v='v', hv=True), dict(E0, a='sadd', i=i, k='is_root', v='bool:True', hv=True)]
        rooted.add(i)
    look = lambda w, x: dict(E0, a='look', who=w, what=x)
    while len(hist) < n:
        z = r.random()
        if z < .25:
            # one change between two readings by the same instance
            w, x, i = r.choice('AAB'), r.choice(['list', 'list', 'dict']), r.choice(pool if r.random() < .5 else roots)
            one = dict(E0, i=i, l='fr', c='translations', v='v', hv=True)
            k = r.choice(['swap', 'swap', 'inh', 'more', 'gone'])
            if k == 'swap':
                hist += [dict(one, a='add'), look(w, x), dict(one, a='rem'), dict(one, a='add', v='w'), look(w, x)]
            elif k == 'inh' and roots:
                one = dict(E0, i=roots[0], k='inhibition', v='opposed', hv=True)
                hist += [dict(one, a='sadd'), look(w, 'dict'), dict(one, a='srem'), dict(one, a='sadd', v='crossed'), look(w, 'dict')]
            elif k == 'more':
                hist += [look(w, x), dict(one, a='add', c='tags', l='en'), look(w, x)]
            else:
                hist += [look(w, x), dict(E0, a='rem', i=i), look(w, x)]
        elif z < .5:
            hist.append(dict(E0, a='add', i=r.choice(pool), l=r.choice(['fr', 'en']), c=r.choice(['translations', 'tags', 'comments']),
                             v=r.choice(['v', 'w', ' x', 'é "q"']), hv=True))
        elif z < .58:
            i = r.choice(pool)
            hist.append(dict(E0, a='rem', i=i) if r.random() < .6 else
                        dict(E0, a='rem', i=i, l='fr', c='translations', v='v', hv=r.random() < .5))
            if not hist[-1]['hv']:
                hist[-1]['v'] = ''
        elif z < .66:
            i = r.choice(roots)
            if i in rooted and r.random() < .8:
                rooted.discard(i)
                hist.append(dict(E0, a='srem', i=i, k=r.choice(['is_root', ''])))
            else:
                rooted.add(i)
                hist.append(dict(E0, a='sadd', i=i, k='is_root', v='bool:True', hv=True))
        elif z < .74:
            i = r.choice(roots)
            hist.append(dict(E0, a=r.choice(['sadd', 'sadd', 'srem']), i=i, k='inhibition', v=r.choice(['opposed', 'twin', 'opposed']), hv=True))
        elif z < .78:
            i = r.choice(SUBS22)
            hist.append(dict(E0, a='sadd', i=i, k='is_ignored', v=r.choice(['true', 'False']), hv=True))
        elif z < .94:
            hist.append(dict(E0, a='look', who=r.choice('AABCD'), what=r.choice(['dict', 'list', 'list'])))
        else:
            hist.append(dict(E0, a='spoil', who=r.choice('AABD'), what=r.choice(['cut', 'more'])))
    for e in hist:
        e.setdefault('who', r.choice('AABCD'))
        e.setdefault('what', '')
    return hist


def c22(rec, tier, seed, cases):
    big = tier == 'thorough'
    r = random.Random(seed)
    hs = [c['hist'] for c in cases]
    r.shuffle(hs)
    hs.sort(key=len, reverse=True)
    hs = hs[:800 if big else 25] + [rand_22(r) for _ in range(300 if big else 18)]
    can = 0
    for h in hs:
        d = tempfile.mkdtemp()
        try:
            folder = os.path.join(d, 'db')
            os.mkdir(folder)
            cf = {'A': folder, 'B': os.path.join(d, 'cache'), 'C': None, 'D': os.path.join(d, 'cache')}
            dbs = {k: IEMLDatabase(folder, use_cache=k != 'C', cache_folder=None if k == 'A' else cf[k]) for k in cf}
            steps = []
            for e in h:
                who = e['who'] or r.choice('AABCD')
                s = dict(e, who=who)
                if e['a'] == 'spoil':
                    if cf[who]:
                        spoil(cf[who], e['what'], r)
                    s['ok'] = True
                elif e['a'] == 'look':
                    s['ok'] = True
                    if e['what'] == 'list' or not e['what'] and r.random() < .3:
                        s['list'] = see_list(dbs[who])
                    else:
                        s['dict'] = see_dict(dbs[who])
                else:
                    s['ok'], _ = attempt(edit, dbs[who], e)
                steps.append(s)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        rec(op='hist', steps=steps)

        def stale(s):
            for x in reversed(s):
                if x.get('dict', {}).get('scripts'):
                    x['dict']['scripts'].pop()
                    return True

        def stale2(s):
            for x in reversed(s):
                if x.get('list', {}).get('rows'):
                    x['list']['rows'].pop()
                    return True
        for f in (stale, stale2):
            b = broken(steps, f)
            if b and can < 6:
                can += 1
                rec.canary(op='hist', steps=b)
