"""Drivers of the properties on the dictionary (C08..C10)."""
import itertools
import random

from common import attempt, strs
from gen import Gen, MARKS

INH = ['father_substance', 'father_attribute', 'father_mode', 'opposed', 'associated', 'crossed', 'twin']

ROOTS = ['O:', 'M:', 'F:', 'I:', 'O:O:.', 'M:M:.', 'O:M:.', 'M:O:.', 'F:O:.', 'O:F:.', 'O:O:O:.', 'M:O:O:.', 'E:M:.', 'M:.',
         'E:O:M:.', 'F:F:.', 'F:M:.', 'O:M:.O:M:.-', 'M:.M:.-', 'wa.O:M:.-', 'O:M:.wa.-', 'O:M:.M:O:.-', 's.M:.O:M:.-',
         'M:S:.+O:U:.', 'M:O:.+O:M:.', 'S:O:.+U:M:.', "O:M:.-'", "M:.-O:.-'", 'U:O:M:.', 'b.+c.+d.+f.+g.', 'O:O:.O:O:.-',
         'O:O:S:.+B:B:U:+A:+S:+T:.', 'M:.M:.U:.-+wa.wa.O:M:.+wo.-', 'M:S:.+O:U:.+U:M:.', 'S:M:.+B:M:.+O:U:.+U:O:.', 'O:M:S:.+O:U:.+U:O:B:.', 'S:S:M:.+O:O:.+B:M:.',
         'O:O:M:.', 'F:.', 'F:M:O:.', 'M:M:.+O:O:.', 'U:M:.O:.O:.-']

# morphemes of different layers made of one another (fathers)
CHAINS = [['O:', 'M:', 'O:M:.'], ['I:', 'O:O:.'], ['O:M:.', 'O:M:.wa.-', 'M:'], ['F:', 'M:O:.', 'M:O:.U:S:.-'], ['M:', 'M:.', 'M:.M:.-'],
          ['O:', 'O:O:.', 'O:O:.O:O:.-'], ['F:', 'E:O:M:.', 'O:S:.O:A:.-'], ['O:', 'M:O:.O:M:.-'], ['M:M:.', 'M:.wa.M:.-'],
          ['O:', 'E:O:.', 'M:S:.E:O:.-'], ['I:', "wa.-O:.-M:.-'"], ['O:.', 'M:.', "O:.M:.-'"], ['F:', "U:M:.-'"], ['O:O:O:.', 'O:'],
          ['O:.', 'M:', "O:.-M:.-'", "O:.-M:.-'wa.-',"], ['M:', 'F:.', "s.-M:.-'", "s.-M:.-'s.-M:.-',"], ['O:', 'M:', 'O:.M:.-', "O:.M:.-wa.M:.-'"],
          ["O:.-M:.-'s.-',", "O:.-M:.-'", 'O:.-', 'F:'], ['O:', "M:.-wa.-'", "M:.-wa.-'O:.-',", "M:.-wa.-'O:.-',s.-',_"],
          ['O:', 'O:M:.+M:O:.'], ['M:', 'S:U:.+B:U:.+U:O:.'], ['O:.', 'M:.', 'O:.+M:.O:.-']]


def sub_paradigms(r, script, root, n):
    """n parts of a root: products of parts of the children, parts of the singular sequences, tables, headers"""
    out = []

    def part(x):
        if x.cardinal == 1:
            return str(x)
        q = strs(x.singular_sequences)
        z = r.random()
        if z < .3:
            return '+'.join(q)
        if z < .5:
            a = r.randrange(len(q))
            return '+'.join(q[a:r.randrange(a, len(q)) + 1])
        if z < .65:
            return q[r.randrange(len(q))]
        if z < .75:
            return '+'.join(q[r.randrange(2)::2])
        return '+'.join(r.sample(q, r.randrange(1, len(q) + 1)))
    for _ in range(n * 3):
        if len(out) >= n:
            break
        z = r.random()
        x = root
        if len(x.children) != 3 and z < .5:
            x = r.choice(x.children) if x.layer > 0 else x
        if len(x.children) == 3 and x.layer > 0 and z < .75:
            t = ''.join(part(c) for c in x.children) + MARKS[x.layer]
            if r.random() < .2:
                t += '+' + ''.join(part(c) for c in x.children) + MARKS[x.layer]
        elif z < .85:
            q = strs(root.singular_sequences)
            a = r.randrange(len(q))
            t = '+'.join(q[a:r.randrange(a, len(q)) + 1]) if r.random() < .6 else '+'.join(r.sample(q, r.randrange(1, len(q) + 1)))
        elif z < .93:
            t = str(r.choice(root.tables_script))
        elif z < .965 and len(root.tables_script) > 1:
            q = strs(root.tables_script)
            t = '+'.join(r.sample(q, r.randrange(1, len(q) + 1)))
        else:
            h = [c for k in root.headers for d in k for c in d]
            t = str(r.choice(h)) if h else str(root)
        ok, s = attempt(script, t)
        if ok:
            out.append(str(s))
    return out


def make(r, g, script, limit):
    """paradigms (canonical texts) and rows of structure"""
    for _ in range(1000):
        k = r.choice([1, 1, 1, 2, 2, 3])
        roots = r.sample(ROOTS if limit < 80 else ROOTS + ['I:I:.', 'O:F:F:.', 'O:F:I:.', 'O:F:F:.', 'I:I:.', 'F:F:M:.', 'M:M:.O:M:.-', 'O:F:.F:.-'], k)
        if r.random() < .35:
            roots = list(r.choice(CHAINS))
            k = len(roots)
        if r.random() < .2:
            roots[-1] = g.product(r.choice([1, 1, 2]), [r.choice([1, 2, 3, 4]), r.choice([1, 2, 3]), r.choice([1, 1, 2])])
        ok, xs = attempt(lambda: [script(t) for t in roots])
        if not ok or any(x.cardinal == 1 for x in xs) or sum(x.cardinal for x in xs) > limit:
            continue
        roots = [str(x) for x in xs]
        if len(set(roots)) < k:
            continue
        sets = [set(strs(x.singular_sequences)) for x in xs]
        clash = any(sets[i] & sets[j] for i in range(k) for j in range(i))
        if clash and r.random() < .8:
            continue
        ok, _ = attempt(lambda: [x.cells for x in xs])
        if not ok:
            continue
        break
    par = list(roots)
    rows = [[t, 'is_root', 'True'] for t in roots]
    for x in xs:
        par += sub_paradigms(r, script, x, r.choice([0, 1, 2, 4, 7, 12]))
        if len(x.tables_script) > 1 and r.random() < .6:
            q = strs(x.tables_script)
            par += q if r.random() < .5 else []
            ok, s = attempt(script, '+'.join(r.sample(q, r.randrange(1, len(q) + 1))))
            par += [str(s)] if ok else []
            # parts of the tables
            for t in q:
                par += sub_paradigms(r, script, script(t), r.choice([0, 1, 3]))
    if r.random() < .3:
        # out of every root, or not a root
        ok, s = attempt(script, r.choice(ROOTS))
        if ok and str(s) not in roots:
            par.append(str(s))
            if r.random() < .5:
                rows.append([str(s), 'is_root', r.choice(['False', 'false'])])
    plural = [p for p in par if script(p).cardinal > 1]
    for _ in range(r.choice([0, 0, 1, 2])):
        rows.append([r.choice(plural), 'is_ignored', r.choice(['True', 'True', 'False'])])
    for _ in range(r.choice([0, 1, 2, 3])):
        rows.append([r.choice(roots if r.random() < .8 else plural), 'inhibition', r.choice(INH)])
    if r.random() < .3:
        # structure of a singular sequence, given or not
        s = r.choice(strs(r.choice(xs).singular_sequences))
        rows.append([s, *r.choice([('is_root', 'True'), ('is_ignored', 'True'), ('inhibition', r.choice(INH)), ('is_root', 'False')])])
        if r.random() < .3:
            par.append(s)
    rows = [list(t) for t in dict.fromkeys(map(tuple, rows))]
    # any value that starts with a t is true
    for q in rows:
        if q[2] == 'True' and r.random() < .08:
            q[2] = r.choice(['true', 'T', 't', 'TRUE'])
    if r.random() < .15:
        q = r.choice(rows)
        rows.append(list(q) if q[1] == 'inhibition' or r.random() < .5 else [*q[:2], q[2].lower()])
    par = list(dict.fromkeys(par))
    return par, rows


def tabular(script, t):
    ok, x = attempt(script, t)
    return ok and attempt(lambda: x.cells)[0]


def jobs(tier, seed, cases, limit, n):
    from ieml.dictionary.script import script
    r = random.Random(seed)
    g = Gen(seed)
    out = [([*c['par']], [list(x) for x in c['rows']]) for c in cases]
    # every root of several tables with all of them, each process some of these
    for t in ROOTS[seed % 4::4]:
        x = script(t)
        if len(x.tables_script) > 1 and x.cardinal <= 30:
            out.append(([str(x)] + strs(x.tables_script) + sub_paradigms(r, script, x, 2), [[str(x), 'is_root', 'True']]))
    for _ in range(n):
        out.append(make(r, g, script, limit if r.random() < .96 else 80))
    for par, rows in out:
        par = [p for p in par if tabular(script, p)]
        # a root is a paradigm
        rows = [q for q in rows if script(q[0]).cardinal > 1 and q[0] in par or
                script(q[0]).cardinal == 1 and not (q[0] in par and q[1] == 'is_root' and q[2][0] in 'tT')]
        r.shuffle(par)
        r.shuffle(rows)
        if par:
            yield par, rows


def overlaps(r, script, n):
    """dictionaries of two or three roots, some of them sharing singular sequences anywhere in their order"""
    while n:
        x = script(r.choice(ROOTS))
        q = strs(x.singular_sequences)
        if x.cardinal < 3 or x.cardinal > 30 or x.layer > 3:
            continue
        i = r.choice([0, 1, len(q) // 2, len(q) - 1])
        if x.layer == 0:
            new = [c + ':' for c in 'EUASBT' if c + ':' not in q]
        else:
            new = [t for t in Gen(r.random()).singles(x.layer, 4) if t not in q]
        t = [*r.sample(new, min(len(new), r.choice([1, 2, 3])))]
        if r.random() < .8:
            t += q[i:i + r.choice([1, 1, 2])]
        ok, y = attempt(script, '+'.join(t))
        if not ok or y.cardinal < 2 or str(y) == str(x):
            continue
        roots = [str(x), str(y)]
        if r.random() < .3:
            roots.append(r.choice(['I:.', "U:.-O:.-'", 'wa.S:O:.-']))
        rows = [[t, 'is_root', 'True'] for t in dict.fromkeys(roots)]
        yield [t[0] for t in rows], rows
        n -= 1


def build(par, rows):
    import pandas
    from ieml.dictionary.dictionary import Dictionary
    from ieml.ieml_database.ieml_database import Structure
    return Dictionary(list(par), Structure(pandas.DataFrame([list(r) for r in rows], columns=['ieml', 'key', 'value'])))


NOCONTENT = dict(scripts=[], len=-1, index=[], roots=[], flags=[], lookup=[], ask=[], absent=[])


def content(d, r, par):
    from ieml.dictionary.script import script
    texts = strs(d.scripts)
    ask = r.sample(par, min(3, len(par))) + ['s.', 'U:']
    return dict(scripts=texts, len=len(d), index=[int(d.index[s]) for s in d.scripts], roots=strs(d.tables.roots),
                flags=[int(x) for x in d.roots_idx], lookup=[str(d[t]) for t in texts], ask=ask,
                absent=[bool(script(t) in d) for t in ask])


def c08(rec, tier, seed, cases):
    from ieml.dictionary.script import script
    base = dict(op='content', par=['O:'], rows=[['O:', 'is_root', 'True']], ok=True)
    rec.canary(**base, scripts=['A:', 'U:', 'O:'], len=3, index=[0, 1, 2], roots=['O:'], flags=[0, 0, 1], lookup=['A:', 'U:', 'O:'], ask=[], absent=[])
    rec.canary(**base, scripts=['U:', 'A:', 'O:'], len=3, index=[0, 1, 2], roots=[], flags=[0, 0, 1], lookup=['U:', 'A:', 'O:'], ask=[], absent=[])
    rec.canary(op='content', par=['O:', 'F:'], rows=[['O:', 'is_root', 'True'], ['F:', 'is_root', 'True']], ok=True)
    r = random.Random(seed)
    for par, rows in itertools.chain(overlaps(r, script, 30 if tier == 'quick' else 200),
                                     jobs(tier, seed, cases, 60, 90 if tier == 'quick' else 700)):
        ok, d = attempt(build, par, rows)
        if not ok:
            rec(op='content', par=par, rows=rows, ok=False, err=d)
            continue
        ok, v = attempt(content, d, r, par)
        rec(op='content', par=par, rows=rows, ok=True, **(v if ok else dict(NOCONTENT, lookup=['raised ' + str(v)])))


def coordinates(t):
    """shape, coordinates and content of a table; scripts of its rows and columns, of its tables"""
    x = t.script
    c = dict(s=str(x), shape=[], index=[], at=[], rows=[], cols=[], tabs=[])
    if t.ndim in (1, 2):
        c['shape'] = [int(n) for n in t.shape]
        ss = list(x.singular_sequences)
        c['index'] = [[int(n) for n in t.index_of(s)] for s in ss]
        c['at'] = [str(t[t.index_of(str(s))]) for s in ss]
    if t.ndim == 2:
        c['rows'], c['cols'] = strs(t.rows), strs(t.columns)
    if t.ndim > 2:
        c['tabs'] = strs(t.tables)
        c['shape'] = [int(n) for n in t.shape] if t.ndim == 3 else []
    return c


NOTABLES = dict(scripts=[], ranks=[], parents=[], kinds=[], rootof=[], children=[], coords=[])


def forest(d, r, par):
    ts = [d.tables[s] for s in d.scripts]
    return dict(scripts=strs(d.scripts), ranks=[int(t.rank) for t in ts], parents=[str(t.parent.script) if t.parent is not None else '' for t in ts],
                kinds=[{0: 'cell', 1: '1D', 2: '2D', 3: '3D', 4: 'set'}[t.ndim] for t in ts],
                rootof=[str(d.tables.root(s)) for s in d.scripts],
                children=[sorted(str(c.script) for c in d.tables.children(t)) for t in ts],
                coords=[coordinates(t) for t in r.sample([t for t in ts if t.ndim], min(3, sum(t.ndim > 0 for t in ts)))])


def c09(rec, tier, seed, cases):
    r = random.Random(seed + 9)
    base = dict(op='tables', par=['O:'], rows=[['O:', 'is_root', 'True']], ok=True, scripts=['U:', 'A:', 'O:'])
    good = dict(ranks=[6, 6, 0], parents=['O:', 'O:', ''], kinds=['cell', 'cell', '1D'], rootof=['O:'] * 3, children=[[], [], ['U:', 'A:']],
                coords=[dict(s='O:', shape=[2], index=[[0], [1]], at=['U:', 'A:'], rows=[], cols=[], tabs=[])])
    rec(**base, **good)
    rec.canary(**base, **dict(good, ranks=[6, 6, 1]))
    rec.canary(**base, **dict(good, parents=['O:', '', '']))
    rec.canary(**base, **dict(good, coords=[dict(good['coords'][0], index=[[1], [0]])]))
    for par, rows in jobs(tier, seed, cases, 60, 120 if tier == 'quick' else 800):
        ok, d = attempt(build, par, rows)
        if not ok:
            rec(op='tables', par=par, rows=rows, ok=False, err=d)
            continue
        ok, v = attempt(forest, d, r, par)
        rec(op='tables', par=par, rows=rows, ok=True, **(v if ok else dict(NOTABLES, parents=['raised ' + str(v)])))


def relations(d, r, par):
    from ieml.constants import RELATIONS
    from ieml.dictionary.script import script
    import numpy as np
    texts = strs(d.scripts)
    g = d.relations
    rel, srt = {}, True
    for name in RELATIONS:
        rel[name] = []
        for i, s in enumerate(d.scripts):
            idx = [int(d.index[o]) for o in g.object(s, name)]
            srt &= idx == sorted(set(idx))
            rel[name] += [[i, j] for j in idx]
    between = []
    for _ in range(4):
        a, b = r.randrange(len(texts)), r.randrange(len(texts))
        between.append([a, b, list(g.relation(d.scripts[a], d.scripts[b]))])
    m = np.argwhere(np.asarray(g.boolean_matrix))
    a = r.randrange(len(texts))
    of = {n: [int(d.index[o]) for o in q] for n, q in g.relation_object(d.scripts[a]).items()}
    f = g.pandas()
    frame = {n: [] for n in RELATIONS}
    for s, o, n in zip(f['substance'], f['attribute'], f['mode']):
        frame.setdefault(n, []).append([int(d.index[script(s)]), int(d.index[script(o)])])
    return dict(scripts=texts, rel=rel, between=between, sorted=bool(srt), matrix=[[int(i), int(j)] for i, j in m], one=a, of=of, frame=frame,
                columns=sorted(f.columns))


def norelations():
    from ieml.constants import RELATIONS
    return dict(scripts=[], rel={n: [[-1, -1]] for n in RELATIONS}, between=[], sorted=False, matrix=[], one=0, of={n: [] for n in RELATIONS},
                frame={n: [] for n in RELATIONS}, columns=[])


def c10(rec, tier, seed, cases):
    r = random.Random(seed)
    canary = None
    for par, rows in jobs(tier, seed, cases, 30, 90 if tier == 'quick' else 600):
        ok, d = attempt(build, par, rows)
        if not ok:
            rec(op='rel', par=par, rows=rows, ok=False, err=d)
            continue
        if not len(d.scripts):
            continue
        ok, v = attempt(relations, d, r, par)
        if not ok:
            v = norelations()
        rec(op='rel', par=par, rows=rows, ok=True, **v)
        if canary is None:
            canary = dict(par=par, rows=rows, ok=True, **v)
    if canary:
        bad = dict(canary, rel=dict(canary['rel'], opposed=canary['rel']['opposed'] + [[0, 0]]))
        rec.canary(op='rel', **bad)
        rec.canary(op='rel', **dict(canary, matrix=canary['matrix'][1:]))
        rec.canary(op='rel', **dict(canary, frame=dict(canary['frame'], identity=canary['frame']['identity'][1:])))
