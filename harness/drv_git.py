"""Drivers of the properties of databases under version control: C23, C24, C26."""
import copy
import os
import random
import shutil
import sys
import tempfile

import pygit2

from common import attempt
import store
from store import UNIV, CANON, VALUES, edit
from drv_store import E0, rand_desc, rand_struct
from ieml.constants import DEFAULT_COMMITER_SIGNATURE as SIG
from ieml.ieml_database import GitInterface, IEMLDatabase


class Stop(Exception):
    pass


def tree_files(repo, oid):
    res = []

    def walk(t, p):
        for e in t:
            if e.type_str == 'tree':
                walk(repo.get(e.id), p + e.name + '/')
            else:
                res.append(store.as_file(p + e.name, repo.get(e.id).data))
    walk(repo.get(oid).peel(pygit2.Tree), '')
    return res


class World:
    """an origin and clones of it, in a scratch folder"""
    def __init__(self, names, private):
        self.d = tempfile.mkdtemp()
        o = os.path.join(self.d, 'O')
        r = pygit2.init_repository(o, bare=True, initial_head='master')
        r.create_commit('refs/heads/master', SIG, SIG, 'start', r.TreeBuilder().write(), [])
        self.names = names
        self.ids = {}
        self.n = 0
        self.private = private
        self.start = self.id_of(r.references['refs/heads/master'].target)
        self.g = {}
        for n in names:
            self.g[n] = GitInterface(origin=o, folder=os.path.join(self.d, n))
        for n in names:
            for m in names:
                if m != n:
                    self.g[n].add_remote(m, os.path.join(self.d, m, '.git'))
            if private:
                with open(os.path.join(self.d, n, '.private'), 'w') as fp:
                    fp.write('x')

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def id_of(self, oid):
        return self.ids.setdefault(str(oid), len(self.ids) + 1)

    def oid_of(self, i):
        return {v: k for k, v in self.ids.items()}[i]

    def heads(self):
        res = {n: str(pygit2.Repository(os.path.join(self.d, n)).head.target) for n in self.names}
        res['O'] = str(pygit2.Repository(os.path.join(self.d, 'O')).references['refs/heads/master'].target)
        return res

    def observe(self, at, was, op):
        """what is seen of a clone, and the commits that were made. The same merge done twice within a second gives the same commit:
        a commit of a merge is also new if it is neither in the past of the clone nor in that of a remote"""
        repo = pygit2.Repository(os.path.join(self.d, at))
        new = []
        old = set(self.ids)
        if op in ('pull', 'crash') and str(repo.head.target) != was:
            old = {str(c.id) for x in [was] + [repo.references[n].resolve().target for n in repo.references if n.startswith('refs/remotes/')]
                   for c in repo.walk(x)} & old
        todo = [repo.head.target]
        while todo:
            oid = todo.pop()
            if str(oid) in old or any(str(oid) == str(c.id) for c in new):
                continue
            c = repo.get(oid)
            new.append(c)
            todo += c.parent_ids
        new.reverse()
        for c in new:
            self.id_of(c.id)
        out = [dict(id=self.id_of(c.id), p=[self.id_of(p) for p in c.parent_ids], files=tree_files(repo, c.id)) for c in new]
        heads = {k: self.ids.get(v, 0) for k, v in self.heads().items()}
        dot = not self.private or (os.path.isfile(os.path.join(self.d, at, '.private')) and
                                   '.private' not in repo.get(repo.head.target).peel(pygit2.Tree))
        return dict(heads=heads, new=out, files=store.read_files(os.path.join(self.d, at)), clean=self.g[at].status() == {},
                    state=int(repo.state()), dot=dot)

    def transact(self, at, edits, stop, sig, kind, inner=()):
        db = IEMLDatabase(self.g[at].folder, use_cache=False)
        self.n += 1
        with self.g[at].commit(SIG if sig else None, 'transaction %d' % self.n):
            if inner:
                # a transaction inside of this one, that is interrupted later
                with self.g[at].commit(SIG, 'inner %d' % self.n):
                    for e in inner:
                        edit(db, e)
            for k, e in enumerate(edits):
                if k == stop:
                    raise kind()
                edit(db, e)
            if stop == len(edits):
                raise kind()

    def do(self, s):
        """executes a step, completes it with what is observed"""
        at, op = s['at'], s['op']
        g = self.g[at]
        ok = True
        s = dict(s)
        was = self.heads()[at]
        if op == 'txn':
            kind = {'e': Stop, 'k': KeyboardInterrupt, 's': SystemExit}[s.pop('kind', 'e')]
            inner = s.pop('inner', [])
            try:
                ok, _ = attempt(self.transact, at, s['edits'], s['stop'], s['sig'], kind, inner)
            except (KeyboardInterrupt, SystemExit):
                ok = False
        elif op == 'edit':
            db = IEMLDatabase(g.folder, use_cache=False)
            for e in s['edits']:
                attempt(edit, db, e)
        elif op == 'reset':
            c = self.oid_of(s['to']) if s['to'] else None
            how = s.get('how', 'reset')
            if how == 'reset':
                ok, _ = attempt(g.reset, c)
            elif how == 'checkout':
                ok, _ = attempt(g.checkout, None, c)
            elif how == 'side' and c:
                # another branch at this commit; then the same state under the name of the first branch
                rp = pygit2.Repository(g.folder)
                self.n += 1
                rp.create_branch('side%d' % self.n, rp.get(c), True)
                ok, _ = attempt(g.checkout, 'side%d' % self.n)
                rp.create_reference('refs/heads/master', c, force=True)
                rp.set_head('refs/heads/master')
            elif how in ('branch', 'side'):
                ok, _ = attempt(g.checkout, 'master', c)
            else:
                ok, x = attempt(GitInterface, origin=g.origin, folder=g.folder, commit_id=c)
                if ok:
                    self.g[at] = x
        elif op == 'pull':
            r = os.path.join(self.d, s['from'])
            if s['away']:
                os.rename(r, r + '.away')
            try:
                ok, c = attempt(g.pull, 'origin' if s['from'] == 'O' else s['from'])
            finally:
                if s['away']:
                    os.rename(r + '.away', r)
            s['conflicts'] = [] if not ok else [[i, [[l, k, list(c[i][k][l])] for k in c[i] for l in c[i][k]]] for i in c]
        elif op == 'push':
            ok, _ = attempt(g.push, 'origin', force=s['force'])
        elif op == 'diff':
            names = [self.oid_of(s['c0']), self.oid_of(s['c1'])]
            for k, how in enumerate(s.pop('names', '')):
                # a commit can be named by an object, by the beginning of its number or by a branch
                if how == 'o':
                    names[k] = pygit2.Oid(hex=names[k])
                elif how == 's':
                    names[k] = names[k][:20]
                elif how == 'h' and names[k] == self.heads()[at]:
                    names[k] = 'HEAD'
                elif how == 'b' and names[k] == self.heads()[at]:
                    names[k] = pygit2.Repository(g.folder).head.shorthand
            ok, d = attempt(g.diff, *names)
            if not ok:
                s['unread'] = d
            else:
                s['diff'] = [dict(kind=p.rsplit('.', 1)[-1], ieml=x['ieml'], new=x['is_new'], gone=x['is_removed'],
                                  added=[r[1:] for r in store.rows_of(''.join(x['added']).encode(), '')],
                                  deleted=[r[1:] for r in store.rows_of(''.join(x['deleted']).encode(), '')]) for p, x in d.items()]
        elif op == 'crash':
            self.crash(s)
        elif op == 'look':
            ok, v = attempt(g.get_version)
            s['branch'], s['version'] = (v[0], self.ids.get(v[1], 0)) if ok else ('', 0)
        s['ok'] = ok
        ok, v = attempt(self.observe, at, was, op)
        if not ok:
            return dict(s, unread=v)
        s.update(v)
        s.setdefault('conflicts', [])
        return s

    def crash(self, s):
        """the process dies after s['after'] lines of the database code, then the clone is opened again"""
        at = s['at']
        self.n += 1
        pid = os.fork()
        if pid == 0:
            left = [s['after']]

            def trace(frame, event, arg):
                if 'ieml_database' not in frame.f_code.co_filename:
                    return None
                if event == 'line':
                    left[0] -= 1
                    if left[0] <= 0:
                        os._exit(9)
                return trace
            try:
                sys.settrace(trace)
                if s['what'] == 'txn':
                    self.transact(at, s['edits'], -1, True, Stop)
                elif s['what'] == 'reset':
                    self.g[at].reset(self.oid_of(s['to']))
                else:
                    self.g[at].pull('origin' if s['from'] == 'O' else s['from'])
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        self.g[at] = GitInterface(origin=self.g[at].origin, folder=self.g[at].folder)


# files that are not those of a USL: they are versioned too, unless their path starts with a point
OTHERS = ['README.md', 'notes.txt', 'morpheme/notes.txt', 'new/deep/x.json', 'lexeme/.hidden', 'new/.keep/y', '.top', '.dir/z', 'LICENSE',
          'word/x.desc.bak']


def rand_edits(r, few, vals, n=None, others=0.0):
    res = []
    if r.random() < others:
        for p in r.sample(OTHERS, r.choice([1, 1, 2])):
            res.append(dict(E0, a=r.choice(['put', 'put', 'put', 'unput']), i=p, v=r.choice(['x', 'y']), hv=True))
    if n is None and r.random() < .12:
        # many files at once, some of them deleted
        for i, *_ in r.sample(UNIV, r.choice([3, 5, 7])) + few:
            res.append(dict(E0, a='add', i=i, l=r.choice(['fr', 'en']), c='comments', v=r.choice(vals), hv=True) if r.random() < .6 else
                       dict(E0, a='rem', i=i))
        r.shuffle(res)
        return res
    for _ in range(r.choice([1, 1, 2, 3, 4]) if n is None else n):
        e = rand_desc(r, few, vals) if r.random() < .8 else rand_struct(r, few)
        if e['i'] not in CANON and r.random() < .7:
            e['i'] = few[0][0]
        res.append(e)
    return res


def setting(r):
    few = r.sample(UNIV, r.choice([1, 2, 3, 4]))
    vals = r.sample(VALUES, r.choice([3, 5, 8])) + ['v%d' % k for k in range(4)]
    return few, vals


def known(w, at):
    """commits that are in a clone"""
    repo = pygit2.Repository(os.path.join(w.d, at))
    return sorted(w.ids[str(c.id)] for c in repo.walk(repo.head.target))


def alone(r, w, n, dump):
    """one clone: transactions, failures, edits, reset, crashes"""
    few, vals = setting(r)
    dirty = False
    for _ in range(n):
        z = r.random()
        if z < .5:
            ed = rand_edits(r, few, vals, others=.25)
            f = r.random()
            dump(dict(op='txn', at='A', edits=ed, stop=r.randrange(len(ed) + 1) if f < .3 else -1, sig=f < .9, kind=r.choice('eeks'),
                      inner=rand_edits(r, few, vals) if f < .1 else []))
        elif z < .62:
            dump(dict(op='edit', at='A', edits=rand_edits(r, few, vals, others=.25)))
        elif z < .8:
            c = r.choice(known(w, 'A')) if r.random() < .4 else 0
            dump(dict(op='reset', at='A', to=c, how=r.choice(['reset', 'reset', 'checkout', 'branch', 'side', 'side', 'open'])))
        elif z < .97:
            dump(dict(op='reset', at='A', to=0))
            if r.random() < .8:
                dump(dict(op='crash', what='txn', at='A', edits=rand_edits(r, few, vals, others=.25), to=0, after=r.randrange(1, 160), **{'from': ''}))
            else:
                dump(dict(op='crash', what='reset', at='A', edits=[], to=r.choice(known(w, 'A')), after=r.randrange(1, 25), **{'from': ''}))
        else:
            dump(dict(op='look', at='A'))
    dump(dict(op='look', at='A'))


def run(rec, names, private, f):
    w = World(names, private)
    steps = []

    def dump(s):
        steps.append(w.do(s))
        if 'unread' in steps[-1]:
            raise Stop
    try:
        f(w, dump)
    except Stop:
        pass
    finally:
        w.close()
    ev = dict(op='git', repos=names + ['O'], start=w.start, steps=steps)
    rec(**ev)
    return ev


def canaries(rec, evs, fs):
    n = 0
    for ev in evs:
        for f in fs:
            c = copy.deepcopy(ev)
            if n < 12 and f(c['steps']):
                n += 1
                rec.canary(**c)


def model_edit(e):
    return dict(E0, **{k: v for k, v in e.items() if k in E0})


def replay(h, dump, private=False):
    """a history of the model"""
    for s in h:
        s = dict(s)
        if 'edits' in s:
            s['edits'] = [model_edit(e) for e in s['edits']]
        dump(s)


def c23(rec, tier, seed, cases):
    big = tier == 'thorough'
    r = random.Random(seed)
    hs = [c['hist'] for c in cases if all(s['at'] == 'A' and s['op'] in ('txn', 'edit', 'reset') for s in c['hist'])]
    r.shuffle(hs)
    hs.sort(key=len, reverse=True)
    evs = []
    for h in hs[:600 if big else 15]:
        evs.append(run(rec, ['A'], r.random() < .3, lambda w, dump: replay(h, dump)))
    for _ in range(300 if big else 14):
        evs.append(run(rec, ['A'], r.random() < .3, lambda w, dump: alone(r, w, r.choice([6, 10, 15]), dump)))

    def partial(st):
        for s in st:
            if s['op'] == 'txn' and s['new'] and len(s['new'][0]['files']) > 0 and s['new'][0]['files'][0][3]:
                s['new'][0]['files'][0][3].pop()
                return True

    def kept(st):
        for s in st:
            if s['op'] == 'txn' and not s['ok'] and s['files']:
                s['files'].pop()
                return True
    canaries(rec, evs, [partial, kept])


def clash(r, w, dump):
    """both sides change the same files, in all the ways: created, changed, emptied, deleted, moved to another USL"""
    names = w.names
    add = lambda i, v: dict(E0, a='add', i=i, l=r.choice(['fr', 'en']), c=r.choice(['comments', 'tags']), v=v, hv=True)
    empty = lambda i: dict(E0, a='rem', i=i, l='', c='', v='1', hv=True)
    go = lambda at, ed: dump(dict(op='txn', at=at, edits=ed, stop=-1, sig=True))
    us = [u[0] for u in r.sample(UNIV, r.choice([2, 3, 4]))]
    base = []
    for i in us:
        base += r.choice([[], [add(i, '1')], [add(i, '1'), empty(i)], [add(i, '1'), add(i, '2')], [add(i, 'a long line ' * 9 + str(k)) for k in range(4)]])
    if base:
        go(names[0], base)
        for at in names[1:]:
            dump(dict(op='pull', at=at, away=False, **{'from': names[0]}))
    for at in names[:2]:
        ed = []
        for i in us:
            ed += r.choice([[], [add(i, '1')], [add(i, '1'), empty(i)], [empty(i)], [dict(E0, a='rem', i=i)], [add(i, at)], [add(i, 'é ' + at), add(i, '2')]])
            if r.random() < .3:
                # its long values become those of another USL
                j = r.choice(us)
                ed += [dict(e, i=j) for e in base if e['i'] == i and len(e['v']) > 30] + [dict(E0, a='rem', i=i)] * (i != j)
        if ed:
            go(at, ed)
    dump(dict(op='pull', at=names[1], away=False, **{'from': names[0]}))
    dump(dict(op='pull', at=names[0], away=False, **{'from': names[1]}))


def together(r, w, n, dump):
    few, vals = setting(r)
    names = w.names
    crash = r.random() < .3
    if r.random() < .35:
        # a file with many rows, known to all: both sides can change different parts of it
        i = few[0][0]
        adds = [dict(E0, a='add', i=i, l=r.choice(['fr', 'en']), c=r.choice(['comments', 'tags']), v='row %d' % k, hv=True) for k in range(r.choice([9, 16]))]
        dump(dict(op='txn', at=names[0], edits=adds, stop=-1, sig=True))
        for at in names[1:]:
            dump(dict(op='pull', at=at, away=False, **{'from': names[0]}))
        for at in names:
            dump(dict(op='txn', at=at, edits=[dict(e, a='rem') for e in r.sample(adds, 2)] + rand_edits(r, few, vals), stop=-1, sig=True))
        dump(dict(op='pull', at=names[1], away=False, **{'from': names[0]}))
    for at in names:
        if r.random() < .7:
            dump(dict(op='txn', at=at, edits=[e for e in rand_edits(r, few, vals, 5)], stop=-1, sig=True))
    for _ in range(n):
        at = r.choice(names)
        z = r.random()
        others = [x for x in names if x != at] + ['O']
        if z < .42:
            dump(dict(op='txn', at=at, edits=rand_edits(r, few, vals), stop=-1, sig=True))
        elif z < .47:
            # edits that were not committed do not prevent to go forward; a merge needs a clean clone
            dump(dict(op='edit', at=at, edits=rand_edits(r, few, vals)))
            dump(dict(op='look', at=at))
            dump(dict(op='reset', at=at, to=0))
        elif z < .83:
            fr = r.choice(others)
            if crash and r.random() < .5:
                dump(dict(op='crash', what='pull', at=at, edits=[], to=0, after=r.randrange(1, 70), away=False, **{'from': fr}))
            dump(dict(op='pull', at=at, away=not crash and r.random() < .06, **{'from': fr}))
        elif z < .95:
            dump(dict(op='push', at=at, force=r.random() < .15, **{'from': 'O'}))
        else:
            dump(dict(op='reset', at=at, to=r.choice(known(w, at)), how='reset'))
    # in the end everybody pulls and has the same content
    if r.random() < .6:
        for at in names + names[:1]:
            dump(dict(op='pull', at=at, away=False, **{'from': names[names.index(at) - 1]}))
    for at in names:
        dump(dict(op='look', at=at))


def c24(rec, tier, seed, cases):
    big = tier == 'thorough'
    r = random.Random(seed)
    hs = [c['hist'] for c in cases if any(s['op'] in ('pull', 'push') for s in c['hist'])]
    r.shuffle(hs)
    hs.sort(key=len, reverse=True)
    for h in hs[:600 if big else 15]:
        run(rec, ['A', 'B'], False, lambda w, dump: replay(h, dump))
    for _ in range(400 if big else 16):
        run(rec, r.choice([['A', 'B'], ['A', 'B', 'C']]), r.random() < .2, lambda w, dump: together(r, w, r.choice([6, 10, 16]), dump))

    for _ in range(400 if big else 14):
        run(rec, ['A', 'B'], False, lambda w, dump: [clash(r, w, dump) for _ in range(r.choice([1, 2, 3]))])

    def silent(st):
        for s in st:
            if s['op'] == 'pull' and s['conflicts']:
                s['conflicts'].pop()
                return True

    def lost(st):
        for s in st:
            if s['op'] == 'pull' and s['new'] and s['files']:
                s['files'].pop()
                s['new'][0]['files'].pop()
                return True

    def parent(st):
        for s in st:
            if s['op'] == 'pull' and s['new']:
                s['new'][0]['p'].pop()
                return True

    def scripted(w, dump):
        add = lambda i, v: dict(E0, a='add', i=i, l='fr', c='comments', v=v, hv=True)
        go = lambda at, *e: dump(dict(op='txn', at=at, edits=list(e), stop=-1, sig=True))
        go('A', add('a.', '1'), add('y.', '1'))
        dump(dict(op='pull', at='B', away=False, **{'from': 'A'}))
        go('A', add('a.', '2'))
        go('B', add('a.', '3'), add('O:M:.', '4'))
        dump(dict(op='pull', at='A', away=False, **{'from': 'B'}))
    canaries(rec, [run(rec, ['A', 'B'], False, scripted)], [silent, lost, parent])


def c26(rec, tier, seed, cases):
    big = tier == 'thorough'
    r = random.Random(seed)
    evs = []

    def one(w, dump):
        few, vals = setting(r)
        for _ in range(r.choice([3, 5])):
            dump(dict(op='txn', at='A', edits=rand_edits(r, few, vals), stop=-1, sig=True))
        ks = known(w, 'A')
        for _ in range(6):
            dump(dict(op='diff', at='A', c0=r.choice(ks), c1=r.choice(ks), names=r.choice(['xx', 'xx', r.choice('xoshb') + r.choice('xoshb')])))

    def long_file(w, dump):
        """changes far from each other in files with many rows"""
        few, vals = setting(r)
        adds = [dict(E0, a='add', i=i, l=r.choice(['fr', 'en']), c=r.choice(['comments', 'tags']), v='%s %d' % (r.choice(vals), k), hv=True)
                for i, *_ in few[:2] for k in range(r.choice([9, 16, 25]))]
        dump(dict(op='txn', at='A', edits=adds, stop=-1, sig=True))
        for _ in range(3):
            ch = [dict(e, a='rem') for e in r.sample(adds, r.choice([0, 1, 2, 4]))] + rand_edits(r, few, vals)
            dump(dict(op='txn', at='A', edits=ch, stop=-1, sig=True))
        ks = known(w, 'A')
        for _ in range(6):
            dump(dict(op='diff', at='A', c0=r.choice(ks), c1=r.choice(ks), names=r.choice(['xx', 'xx', r.choice('xoshb') + r.choice('xoshb')])))
    for _ in range(400 if big else 20):
        evs.append(run(rec, ['A'], False, one))
    for _ in range(200 if big else 8):
        evs.append(run(rec, ['A'], False, long_file))

    def less(st):
        for s in st:
            if s['op'] == 'diff' and s.get('diff'):
                s['diff'].pop()
                return True

    def other(st):
        for s in st:
            if s['op'] == 'diff' and s.get('diff') and s['diff'][0]['added']:
                s['diff'][0]['added'].pop()
                return True
    canaries(rec, evs, [less, other])
