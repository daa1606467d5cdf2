"""Driver of the transactions of the dictionary: C25."""
import copy
import os
import random
import shutil
import tempfile

import pygit2

from common import attempt
import store
from store import edit
from drv_store import E0, see_dict
from drv_dict import overlaps
from drv_git import tree_files
from ieml.constants import DEFAULT_COMMITER_SIGNATURE as SIG
from ieml.dictionary.script import factorize, script
from ieml.ieml_database import GitInterface, IEMLDatabase
from ieml.ieml_database.transactions.DBTransaction import DBTransactions
from ieml.usl.usl import usl

O0 = dict(o='', s='', n='', inh=[], tr=[], co=[], c='', flag=True, map=[])


def by_lang(q):
    return {l: [v for k, v in q if k == l] for l in ('fr', 'en')}


class World:
    def __init__(self, cache):
        self.d = tempfile.mkdtemp()
        o = os.path.join(self.d, 'O')
        r = pygit2.init_repository(o, bare=True, initial_head='master')
        r.create_commit('refs/heads/master', SIG, SIG, 'start', r.TreeBuilder().write(), [])
        self.g = GitInterface(origin=o, folder=os.path.join(self.d, 'A'))
        kw = {'no': dict(use_cache=False), 'in': dict(use_cache=True), 'out': dict(use_cache=True, cache_folder=os.path.join(self.d, 'c'))}[cache]
        self.t = DBTransactions(self.g, SIG, **kw)
        self.db = IEMLDatabase(self.g.folder, **kw)

    def count(self):
        repo = pygit2.Repository(self.g.folder)
        return len(list(repo.walk(repo.head.target)))

    def act(self, s):
        o, t = s['o'], self.t
        tr, co = by_lang(s['tr']), by_lang(s['co'])
        if o == 'create':
            return t.create_root_paradigm(script(s['s']), list(s['inh']), tr, co)
        if o == 'add':
            return t.add_morpheme_paradigm(script(s['s']), tr, co)
        if o == 'delroot':
            return t.delete_morpheme_root_paradigm(script(s['s']), empty_descriptors=s['flag'])
        if o == 'del':
            return t.delete_morpheme_paradigm(script(s['s']))
        if o == 'update':
            return t.update_morpheme_paradigm(script(s['s']), script(s['n']))
        if o == 'desc':
            return t.set_descriptors(usl(s['s']), s['c'], tr)
        if o == 'inh':
            return t.set_inhibitions(script(s['s']), list(s['inh']))
        if o == 'all':
            m = dict(s['map'])
            return t.update_all_ieml(lambda u: usl(m[str(u)]) if str(u) in m else u, 'test')
        if o == 'reset':
            return self.g.reset()
        if o == 'look':
            return None
        if o == 'dirty':
            for e in s['edits']:
                edit(self.db, e)
            return None
        with self.g.commit(SIG, 'raw'):
            for e in s['edits']:
                edit(self.db, e)

    def do(self, s, see):
        n = self.count()
        s = dict(s)
        ok, ret = attempt(self.act, s)
        repo = pygit2.Repository(self.g.folder)
        s.update(ok=ok, ret=bool(ret) if s['o'] == 'desc' and ok else True, files=store.read_files(self.g.folder),
                 tree=tree_files(repo, repo.head.target), clean=self.g.status() == {}, new=self.count() - n)
        if see:
            s['dict'] = see_dict(self.db)
        return s


ROOTS = ['O:O:.', 'O:M:.', 'M:O:.', 'O:M:.+M:O:.', 'O:O:O:.', 'E:O:.', 'M:M:.', 'U:M:.', 'wo.+O:M:.', 'O:M:O:.', 'a.', 'O:F:.',
         'wa.O:M:.-', 'O:M:.M:.-', 'O:M:.+M:O:.', 'wa.O:M:.-+E:O:.M:O:M:.-']
PARS = ['U:O:.', 'O:U:.', 'U:M:.', 'j.', 'U:S:+B:.', 'O:S:.', 'O:U:O:.', 'O:O:U:.', 'U:O:O:.', 'M:U:.', 'y.', 'S:M:.', 'M:S:+B:.',
        'wa.U:M:.-', 'O:M:.S:.-', 'i.+U:S:+T:.']
USLS = ['a.', 'y.', 'wo. wa.', 'm1(wa. wo. y.)', '()(a.)', '(wo.)(a. b.)', '[! E:A:. (wa.)]', '[! E:A:. (wo.)(a.) > E:A:. E:A:. ()(b.)]', 'wa.']
INH = ['opposed', 'twin', 'associated', 'crossed', 'father_substance', 'father_attribute']


def values(r, p=.8):
    vs = ['t', 'u "q"', 'é', 'x y', 'NA', '1']
    return [[l, v] for l in ('fr', 'en') for v in (r.choices if r.random() < .1 else r.sample)(vs, k=r.choice([0, 1, 1, 2, 3]) if r.random() < p else 0)]


# a root, a bigger one, paradigms of the root
FAMILIES = [('O:M:.', 'O:M:.+M:O:.', ['U:M:.', 'O:S:.', 'U:S:+B:.', 'A:M:.']),
            ('M:O:.', 'O:M:.+M:O:.', ['M:U:.', 'S:O:.', 'S:+B:U:.']),
            ('U:M:.', 'O:M:.', ['U:S:+B:.', 'U:S:+T:.']),
            ('O:O:.', 'O:O:.+O:M:.', ['O:U:.', 'U:O:.', 'A:O:.']),
            ('O:U:O:.', 'O:O:O:.', ['U:U:O:.', 'O:U:A:.']),
            ('wa.O:M:.-', 'wa.+wo.O:M:.-', ['wa.U:M:.-', 'wa.O:S:.-'])]


def family_history(r, dump):
    """the life of one root: created, filled, updated, removed"""
    small, big, pars = r.choice(FAMILIES)
    small, big, *pars = [str(factorize(script(s))) for s in [small, big] + pars]
    dump(dict(O0, o='create', s=small, inh=r.sample(INH, r.choice([0, 2, 3])), tr=values(r, 1) + [['en', 'r']], co=values(r)))
    for p in r.sample(pars, r.choice([1, len(pars)])):
        dump(dict(O0, o='add', s=p, tr=values(r, 1) + [['fr', 'p']], co=values(r)))
    todo = [dict(O0, o='inh', s=small, inh=r.sample(INH, 2)),
            dict(O0, o='desc', s=pars[0], c=r.choice(['translations', 'comments', 'tags']), tr=values(r)),
            dict(O0, o='desc', s=str(script(pars[0]).singular_sequences[0]), c='translations', tr=values(r, 1)),
            dict(O0, o='del', s=pars[-1])]
    for s in r.sample(todo, r.choice([0, 2, 4])):
        dump(s)
    after = [dict(O0, o='update', s=small, n=big), dict(O0, o='update', s=pars[0], n=r.choice(pars[1:] + [big])), dict(O0, o='create', s=big, inh=[], tr=[['en', 'z']], co=[]),
             dict(O0, o='delroot', s=r.choice([small, big]), flag=r.random() < .5)]
    if r.random() < .4:
        # bigger than the root, without one of its singular sequences
        q = [str(x) for x in script(big).singular_sequences]
        q.remove(str(r.choice(script(small).singular_sequences)))
        after[0] = dict(O0, o='update', s=small, n=str(factorize(script('+'.join(q)))))
    for s in r.sample(after, 4) if r.random() < .6 else after:
        dump(s)
    dump(dict(O0, o='look'))


def overlap_history(r, dump):
    """roots that share singular sequences anywhere, paradigms that go partly out of the roots, large ones too"""
    if r.random() < .5:
        a, b = [p for p, _ in overlaps(r, script, 1)][0][:2]
    else:
        a = r.choice(['F:F:.', 'I:I:.', 'M:M:M:.', 'O:F:F:.'])
        q = [str(x) for x in script(a).singular_sequences]
        i = r.choice([20, 22, len(q) - 1, r.randrange(len(q))])
        b = q[min(i, len(q) - 1)] + '+' + r.choice(['U:T:T:.', 'U:A:B:.', 'E:E:B:.'])
    a, b = [str(factorize(script(t))) for t in (a, b)]
    one, two = (a, b) if r.random() < .5 else (b, a)
    dump(dict(O0, o='create', s=one, inh=[], tr=[['en', 'z']], co=values(r)))
    q = [str(x) for x in script(one).singular_sequences]
    dump(dict(O0, o='create', s=two, inh=['twin'], tr=[['en', 'y']], co=[]))
    for _ in range(3):
        k = r.randrange(len(q))
        t = r.choice([q[k:k + r.choice([2, 3, 4, 30])], r.sample(q, min(len(q), r.choice([2, 3]))), q[1:]])
        z = [str(x) for x in script(two).singular_sequences]
        t = '+'.join(t + (r.sample(z, 1) if r.random() < .5 else []))
        dump(dict(O0, o='add', s=str(factorize(script(t))), tr=values(r, 1), co=[]))
    have = r.choice([one, two])
    tr = values(r, 1) or [['en', 'y']]
    for c in (tr, tr[::-1], tr + tr[:1], values(r, 1) or [['en', 'y']]):
        dump(dict(O0, o='desc', s=have, c='translations', tr=c))
    dump(dict(O0, o='look'))


def raw(i, v, c='comments', l='fr'):
    return dict(E0, a='add', i=i, l=l, c=c, v=v, hv=True)


def migration_history(r, dump):
    """a populated database, where units take the place of others, all at once; roots of which a main table exists already"""
    base = ['O:O:.', 'O:M:.', 'E:O:.', 'M:M:.']
    for s in base:
        dump(dict(O0, o='create', s=s, inh=[], tr=[['fr', 'root']], co=[]))
    us = r.sample(USLS, r.choice([3, 4, 5]))
    dump(dict(O0, o='raw', edits=[raw(u, r.choice(['v', 'w', 'x']), r.choice(['comments', 'translations', 'tags']), r.choice(['fr', 'en'])) for u in us for _ in range(r.choice([1, 2, 3]))]))
    for _ in range(2):
        names = [str(usl(u)) for u in us]
        to = r.choice([names[1:] + names[:1], names[-1:] + names[:-1], r.sample(names, len(names)), [r.choice(USLS) for _ in names]])
        dump(dict(O0, o='all', map=[[a, b] for a, b in zip(names, to) if r.random() < .8]))
    big = r.choice(['U:M:.+M:U:.+S:S:.', 'O:F:.+wa.', 'M:O:.+y.+wo.', 'wa.O:M:.-+wa.M:O:.-', 'O:M:.+M:O:.', 'wa.O:M:.-+E:O:.M:O:M:.-', 'A:F:.+F:B:.+T:T:.'])
    dump(dict(O0, o='raw', edits=[raw(str(factorize(script(t))), 'here') for t in main_tables(r, big)]))
    dump(dict(O0, o='create', s=str(factorize(script(big))), inh=[], tr=[['fr', 'big']], co=[]))
    dump(dict(O0, o='look'))


def main_tables(r, t):
    """some of the paradigms that are the main tables of a root"""
    s = factorize(script(t))
    ok, q = attempt(lambda: [str(x) for x in s.tables_script if x != s])
    if not ok or not q:
        return [str(s)] if r.random() < .3 else []
    return [r.choice([q[-1], q[0], r.choice(q)])]


def random_history(r, dump, w):
    roots = r.sample(ROOTS, 4)
    pars = r.sample(PARS, 5)
    n = r.choice([6, 9, 13])
    made = set()
    for k in range(n):
        z = r.random()
        tr = values(r) or [['en', 't']]
        if k < 2 or z < .2:
            s = r.choice(roots)
            inh = r.sample(INH, r.choice([0, 0, 1, 2]))
            if r.random() < .07:
                inh = inh + ['bad']
            made.add(s)
            dump(dict(O0, o='create', s=s, inh=inh, tr=tr, co=values(r)))
        elif z < .4:
            s = r.choice(pars + roots[:1])
            dump(dict(O0, o='add', s=s, tr=values(r), co=values(r)))
        elif z < .46:
            dump(dict(O0, o='delroot', s=r.choice(roots + pars[:1]), flag=r.random() < .7))
        elif z < .54:
            dump(dict(O0, o='del', s=r.choice([p for p in pars])))
        elif z < .66:
            have = {f[1] for f in store.read_files(w.g.folder)}
            old = r.choice(roots + pars)
            new = [p for p in ROOTS + PARS if p not in have] + [old]
            new = r.choice(new)
            if script(old).cardinal > 1 and script(new).cardinal > 1:
                dump(dict(O0, o='update', s=old, n=new))
        elif z < .82:
            # a root keeps a descriptor: what a dictionary without descriptor for its root means is not specified
            s = r.choice(USLS + pars + roots[:2])
            tr = values(r, .7)
            if s in ROOTS:
                tr = tr or [['fr', 'kept']]
            dump(dict(O0, o='desc', s=str(usl(s)), c=r.choice(['translations', 'tags', 'comments']) if r.random() < .95 else 'bad', tr=tr))
        elif z < .9:
            inh = r.sample(INH, r.choice([0, 1, 2, 3])) + (['bad'] if r.random() < .07 else [])
            dump(dict(O0, o='inh', s=r.choice(roots), inh=inh))
        elif z < .94:
            m = [[str(usl(a)), r.choice(USLS)] for a in r.sample(USLS, r.choice([0, 1, 2, 3]))]
            dump(dict(O0, o='all', map=m))
        elif z < .97:
            dump(dict(O0, o='raw', edits=[dict(E0, a='add', i=r.choice(pars + USLS), l='fr', c='translations', v='raw', hv=True)]))
        else:
            dump(dict(O0, o='dirty', edits=[dict(E0, a='add', i=r.choice(pars + USLS), l='fr', c='translations', v='raw', hv=True)]))
            dump(dict(O0, o='desc', s='a.', c='translations', tr=values(r)))
            dump(dict(O0, o='add', s=r.choice(pars), tr=values(r), co=[]))
            dump(dict(O0, o='reset'))
    dump(dict(O0, o='look'))


def c25(rec, tier, seed, cases):
    big = tier == 'thorough'
    r = random.Random(seed)
    hs = [c['hist'] for c in cases]
    r.shuffle(hs)
    hs.sort(key=len, reverse=True)
    jobs = [('m', h) for h in hs[:500 if big else 12]] + [('r', None)] * (250 if big else 10) + [('f', None)] * (200 if big else 12) + [('o', None)] * (200 if big else 10) + [('g', None)] * (200 if big else 8)
    can = 0
    for kind, h in jobs:
        w = World(r.choice(['no', 'in', 'out']))
        steps = []
        try:
            if kind == 'm':
                for k, s in enumerate(h):
                    steps.append(w.do(dict(O0, **s), k == len(h) - 1))
            elif kind == 'f':
                family_history(r, lambda s: steps.append(w.do(s, s['o'] in ('look', 'update', 'delroot'))))
            elif kind == 'g':
                migration_history(r, lambda s: steps.append(w.do(s, s['o'] in ('look', 'all'))))
            elif kind == 'o':
                overlap_history(r, lambda s: steps.append(w.do(s, s['o'] == 'look')))
            else:
                random_history(r, lambda s: steps.append(w.do(s, s['o'] == 'look' or r.random() < .2)), w)
        finally:
            shutil.rmtree(w.d, ignore_errors=True)
        ev = dict(op='tx', steps=steps)
        rec(**ev)
        if steps and steps[-1]['files'] and can < 5:
            can += 1
            c = copy.deepcopy(ev)
            c['steps'][-1]['files'].pop()
            rec.canary(**c)
