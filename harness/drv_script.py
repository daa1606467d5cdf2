"""Drivers of the properties on morphemes (C01..C06)."""
import itertools
import json
import os
import random
import subprocess
import sys

from common import attempt, strs
from gen import Gen


def _cases(cases):
    return [c['s'] for c in cases if 's' in c]


def _texts(seed, n, tier, **k):
    g = Gen(seed, blanks=k.pop('blanks', 0.0))
    seen = []
    for i in range(n):
        layers = k.get('layers') or ((0, 1, 1, 1, 2, 2, 3) if tier == 'quick' else (0, 1, 1, 2, 2, 3, 3, 4, 5, 6))
        seen.append(g.text(layers=layers, budget=k.get('budget') or g.r.choice([1, 6, 20, 60]), plural=k.get('plural', .6)))
    return seen


# texts on the boundaries: limit of the number of singular sequences, layers up to 6, nulls
EDGE = ['E:', 'E:.', "E:.-'", "E:.-',_;", 'E:E:E:.', 'E:U:.', 'E:E:A:.', 'U:E:A:.', 'E:+U:', 'U:+E:', 'E:.+wa.', 'wa.+E:.',
        'O:+M:', 'O:+M:+E:', 'F:+E:', 'I:', 'I:+F:', 'U:+A:+S:', 'A:+U:', 'S:+T:+B:', 'U:+U:', 'I:I:I:.', 'I:F:M:.',
        'F:F:F:.', 'I:I:O:.', 'M:M:.M:M:.-', 'M:M:.O:M:.M:.-', 'F:F:.F:.O:.-', 'F:F:.M:M:.O:.-', 'I:I:.I:.-', 'F:O:M:M:.',
        'S:M:.+M:S:.', 'M:M:.+S:M:.', 'M:M:.+O:M:.', 'O:O:.+wa.', 's.+s.+t.', "wa.-'", "wa.wo.-we.-'", "U:.-',_;",
        "a.-',_;+b.-',_;", 'I:I:.+O:I:.', 'M:.-O:.-\'', "E:.E:.M:.-", "E:.-E:.M:.-'", 'O:O:O:.', 'M:O:M:.', 'F:M:O:.',
        'M:F:.+O:F:.', 'wo.U:.-', 'U:U:E:.', 'U:A:E:.+U:U:.', 'U:U:U:.', 'I:I:I:.+E:.',
        # an addend that gathers terms on both sides of the children of other addends, and sums that overlap
        'U:.+A:.+O:S:.', 'O:S:.+U:B:.+A:T:.', 'E:M:.+M:.', 'b.+k.+S:B:.', 'O:U:.+O:A:.', 'O:M:.+M:O:.+O:O:.']
BIG = ['I:I:I:.+I:I:.', 'I:I:I:.+I:F:I:.', 'I:I:M:.+I:M:I:.+M:I:I:.', 'I:I:.I:.-+I:I:.F:.-', 'F:F:F:.+I:M:F:.+F:I:M:.+M:F:I:.', 'I:I:I:.I:.-', 'I:I:.I:I:.-', 'F:F:F:.+O:O:.O:.', 'F:F:F:.F:.-', 'F:F:.F:F:.-', 'M:M:M:.M:M:.-', 'I:I:.F:O:.-',
       'F:F:.M:M:.-O:.-', 'I:F:.M:M:.-', "M:M:.M:M:.-M:M:.-'", 'F:M:.O:M:.O:M:.-']


def c01(rec, tier, seed, cases):
    rec.canary(op='parse', **{'in': 'A:+U:'}, ok=True, out='A:+U:', again='A:+U:', layer=0, eq=True)
    rec.canary(op='parse', **{'in': 'A:+U:.'}, ok=True, out='A:+U:.', again='A:+U:.', layer=1, eq=True)
    rec.canary(op='parse', **{'in': 'U:A:.'}, ok=False, out='', again='', layer=0, eq=False)
    rec.canary(op='build', how='add', args=['U:', 'A:'], ok=True, out='O:', after=['U:'])
    rec.canary(op='build', how='mul', args=['U:', 'A:'], ok=True, out='U:A:.', after=['U:', 'A:'])
    from ieml.dictionary.script import script, Script, AdditiveScript, MultiplicativeScript
    from ieml.dictionary.script.operator import add, m
    n = 700 if tier == 'quick' else 8000
    texts = _cases(cases) + EDGE + BIG + _texts(seed, n, tier, blanks=.1)
    g = Gen(seed + 1)
    valid = list(texts)
    texts += [g.mutate(g.r.choice(valid)) for _ in range(n // 2)]
    pool = []
    for t in texts:
        if set(t) - set("EUASBTOMFI:.-',_;+ \tabcdefghijklmnopstuwxy"):
            continue
        # a lone 'w' is not a symbol of the alphabet: the lexer ignores it
        if any(t[i] == 'w' and t[i + 1:i + 2] not in ('o', 'a', 'u', 'e') for i in range(len(t))):
            continue
        ok, x = attempt(script, t)
        if not ok and x not in ('CannotParse', 'TooManySingularSequences'):
            rec(op='parse', **{'in': t}, ok=True, out='raised ' + x, again='', layer=-1, eq=False)
            continue
        if not ok:
            rec(op='parse', **{'in': t}, ok=False, out='', again='', layer=-1, eq=False)
            continue
        s = str(x)
        ok2, y = attempt(script, s)
        rec(op='parse', **{'in': t}, ok=True, out=s, again=str(y), layer=int(x.layer),
            eq=bool(ok2 and x == y and y == x and hash(x) == hash(y) and x == s and not (x != y)))
        if x.cardinal <= 30 and len(s) < 60:
            pool.append(x)
    # combinations built with the operators from already built morphemes
    r = random.Random(seed + 2)
    by = {}
    for x in pool:
        by.setdefault(x.layer, []).append(x)
    for _ in range(n // 2):
        l = r.choice([k for k in by if k < 6])
        k = r.choice([1, 2, 3])
        args = [r.choice(by[l]) for _ in range(k)]
        if r.random() < .1:
            args[-1] = r.choice(pool)
        names = strs(args)
        how = r.choice(['add', 'mul'])
        if how == 'add' and len({a.layer for a in args}) > 1:
            # add promotes its arguments to the same layer
            how = 'sum'
        if how == 'mul':
            z = r.random()
            lst = list(args)
            f = (lambda: MultiplicativeScript(children=lst)) if z < .5 else (lambda: m(*args))
        elif how == 'sum':
            lst = list(args)
            f = lambda: add(lst)
        else:
            z = r.random()
            lst = list(args)
            if z < .4:
                f = lambda: AdditiveScript(children=lst)
            elif z < .7:
                f = lambda: add(lst)
            elif len(args) == 2:
                f = lambda: args[0] + args[1]
            else:
                f = lambda: AdditiveScript(lst)
        ok, x = attempt(f)
        after = strs(args)
        if strs(lst) != names:
            after = strs(lst) + ['caller list modified']
        rec(op='build', how=how, args=names, ok=ok, out=str(x) if ok else '', after=after)


def c02(rec, tier, seed, cases):
    rec.canary(op='ss', **{'in': 'O:'}, ok=True, card=2, len=2, ss=['A:', 'U:'], set=['U:', 'A:'], sing=False, self=True)
    rec.canary(op='ss', **{'in': 'O:'}, ok=True, card=3, len=2, ss=['U:', 'A:'], set=['U:', 'A:'], sing=False, self=True)
    rec.canary(op='in', a='O:', b='S:', res=True)
    rec.canary(op='ss', **{'in': 'I:I:.I:I:.-'}, ok=True, card=3, len=2, ss=[], set=[], sing=False, self=True)
    from ieml.dictionary.script import script
    n = 260 if tier == 'quick' else 4000
    texts = _cases(cases) + EDGE + BIG + _texts(seed, n, tier, plural=.9)
    objs = {}
    for t in dict.fromkeys(texts):
        ok, x = attempt(script, t)
        if ok:
            ok, v = attempt(lambda: dict(card=int(x.cardinal), len=len(x), ss=strs(x.singular_sequences),
                                         set=sorted(strs(x.singular_sequences_set)), sing=bool(x.is_singular),
                                         self=all(strs(z.singular_sequences) == [str(z)] and len(z) == 1
                                                  for z in x.singular_sequences)))
            objs[str(x)] = x
        rec(op='ss', **{'in': t}, ok=ok, **(v if ok else dict(card=0, len=0, ss=[], set=[], sing=False, self=False)))
    # containment
    r = random.Random(seed)
    by = {}
    for x in objs.values():
        if x.cardinal <= 60:
            by.setdefault(x.layer, []).append(x)
    pairs = []
    for x in list(objs.values())[:n]:
        sss = x.singular_sequences
        pairs.append((x, r.choice(sss)))
        pairs.append((r.choice(sss), x))
        pairs.append((x, x))
        pairs.append((x, r.choice(by[r.choice(list(by))])))
        pairs.append((r.choice(by[x.layer]) if x.layer in by else x, x))
        if len(sss) > 2:
            sub = r.sample(sss, r.randrange(2, len(sss)))
            from ieml.dictionary.script import AdditiveScript
            ok, y = attempt(AdditiveScript, children=list(sub))
            if ok:
                pairs.append((x, y))
                pairs.append((y, x))
    # the same sequences grouped differently
    g = Gen(seed + 3)
    for _ in range(60 if tier == 'quick' else 1500):
        ok, grp = attempt(lambda: [script(t) for t in g.regroup()])
        if ok:
            pairs += [(x, y) for x in grp for y in grp if x is not y]
        else:
            rec(op='ss', **{'in': 'U:'}, ok=False, card=0, len=0, ss=[], set=[], sing=False, self=False)
    for a, b in pairs:
        ok, v = attempt(lambda: bool(b in a))
        rec(op='in', a=str(a), b=str(b), res=v if ok else False)


def c03(rec, tier, seed, cases):
    rec.canary(op='lt', items=['U:', 'A:'], m=[[False, False], [True, False]], sorted1=['A:', 'U:'], sorted2=['A:', 'U:'])
    from ieml.dictionary.script import script
    n = 500 if tier == 'quick' else 4000
    objs = {}
    for t in _cases(cases) + EDGE + _texts(seed, n, tier):
        ok, x = attempt(script, t)
        if ok:
            objs[str(x)] = x
    allx = list(objs.values())
    r = random.Random(seed)
    groups = []
    key = {}
    for x in allx:
        key.setdefault((x.layer, x.cardinal), []).append(x)
    close = [g for g in key.values() if len(g) > 3]
    # sums that share the same canonical bytes but not the same children
    twins = ['U:U:.+U:A:.+A:O:.', 'O:U:.+U:A:.+A:A:.', 'O:O:.', 'wo.+wu.+wa.+we.', 'U:O:.+A:O:.', 'O:U:.+O:A:.',
             'M:.-', 'S:.-+B:.-+T:.-', 'S:.-+B:.-', 'O:.+S:.', 'U:.+A:.+S:.', "U:.+O:S:.", 'O:S:.+U:.',
             'E:U:.+U:.', 'E:.+wo.', 'S:M:.+B:M:.', 'M:S:.+M:B:.', 'S:S:M:.', 'E:M:.', 'M:.']
    tw = [x for ok, x in (attempt(script, t) for t in twins) if ok]
    groups.append(tw)
    gen = Gen(seed + 4)
    for _ in range(160 if tier == 'quick' else 2000):
        g = r.choice([gen.twins, gen.twins, gen.shapes, gen.shapes, gen.regroup])()
        groups.append([x for ok, x in (attempt(script, t) for t in g) if ok])
        if r.random() < .3:
            groups[-1] += [x for ok, x in (attempt(script, t) for t in gen.twins()) if ok]
    for _ in range(60 if tier == 'quick' else 600):
        base = r.choice(close) if r.random() < .7 and close else allx
        g = r.sample(base, min(len(base), 7)) + r.sample(allx, 3)
        if r.random() < .3:
            g.append(script(str(r.choice(g))))
        if r.random() < .3 and tw:
            g += r.sample(tw, 2)
        groups.append(g)
    for g in groups:
        a, b = list(g), list(g)
        r.shuffle(a)
        r.shuffle(b)
        ok, v = attempt(lambda: dict(m=[[bool(x < y) for y in g] for x in g], sorted1=strs(sorted(a)), sorted2=strs(sorted(b))))
        rec(op='lt', items=strs(g), **(v if ok else dict(m=[[False] * len(g)] * len(g), sorted1=['raised'], sorted2=[])))


FACT = r'''
import sys, json, logging
logging.disable(logging.CRITICAL)
sys.path.insert(0, sys.argv[1])
from common import attempt
from ieml.dictionary.script import script, factorize
import random
r = random.Random(int(sys.argv[2]))
out = []
for args in json.load(sys.stdin):
    xs = [script(a) for a in args]
    seqs = [z for x in xs for z in x.singular_sequences]
    r.shuffle(seqs)
    how = r.choice(['list', 'set', 'gen', 'args'])
    if how == 'set':
        seqs = set(seqs)
    elif how == 'gen':
        seqs = tuple(seqs)
    elif how == 'args':
        r.shuffle(xs)
        seqs = xs[0] if len(xs) == 1 else xs
    ok, v = attempt(factorize, seqs)
    out.append(str(v) if ok else 'raised ' + v)
json.dump(out, sys.stdout)
'''


def c04(rec, tier, seed, cases):
    rec.canary(op='fact', args=['wo.', 'wa.'], ok=True, out='wo.+wa.', out2='wo.+wa.', out3='wo.+wa.', again='wo.+wa.')
    rec.canary(op='fact', args=['wo.', 'wa.'], ok=True, out='O:O:.', out2='O:O:.', out3='O:O:.', again='O:O:.')
    from ieml.dictionary.script import script, factorize
    n = 220 if tier == 'quick' else 2500
    texts = [t for t in _cases(cases)[::1 if tier != 'quick' else 4] + EDGE + _texts(seed, n, tier, plural=.95, budget=24)]
    g = Gen(seed + 5)
    r = g.r
    jobs = []
    for t in texts:
        ok, x = attempt(script, t)
        if not ok or x.cardinal > 60:
            continue
        o = r.random()
        if o < .35 or x.cardinal < 4:
            jobs.append([t])
        elif o < .75:
            # a random part of a paradigm: holes in the product
            sss = strs(x.singular_sequences)
            jobs.append(sorted(r.sample(sss, r.randrange(2, len(sss) + 1))))
        else:
            y = r.choice(texts)
            ok, z = attempt(script, y)
            jobs.append([t, y] if ok and z.cardinal <= 40 and z.layer <= 4 and abs(z.layer - x.layer) <= 2 else [t])
    for _ in range(40 if tier == 'quick' else 500):
        jobs.append([g.r.choice(g.regroup())])
    # all the subsets of a cube 2x2x2 (missing corners)
    cube = [a + b + c + '.' for a in ('U:', 'A:') for b in ('S:', 'B:') for c in ('B:', 'T:')]
    for k in range(1, 256, 1 if tier != 'quick' else 3):
        jobs.append([cube[i] for i in range(8) if k >> i & 1])
    outs = []
    for i, hs in enumerate(('1', '7')):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, '-c', FACT, os.path.dirname(os.path.abspath(__file__)), str(seed + i)],
                           input=json.dumps(jobs), capture_output=True, text=True, env=env)
        if p.returncode:
            raise SystemExit('factorisation process failed: ' + p.stderr[-2000:])
        outs.append(json.loads(p.stdout))
    for i, args in enumerate(jobs):
        def run():
            xs = [script(a) for a in args]
            if len(args) == 1 and i % 3 == 1:
                return str(script(args[0] if i % 2 else xs[0], factorize=True))
            return str(factorize(xs if len(xs) > 1 else xs[0]))
        ok, v = attempt(run)
        ok2, w = attempt(lambda: str(factorize(script(v)))) if ok else (False, '')
        rec(op='fact', args=args, ok=ok, out=str(v) if ok else '', out2=outs[0][i], out3=outs[1][i], again=str(w))


def _cells(x):
    return [[[[str(c) for c in k] for k in j] for j in a.tolist()] for a in x.cells]


def c05(rec, tier, seed, cases):
    rec.canary(op='tab', **{'in': 'O:'}, ok=True, cells=[[[['A:']], [['U:']]]], ts=['O:'], hd=[[['O:']]])
    from ieml.dictionary.script import script
    n = 200 if tier == 'quick' else 2500
    g = Gen(seed)
    texts = _cases(cases) + EDGE + _texts(seed, n, tier, plural=.95, budget=50)
    for _ in range(n // 2):
        d = [g.r.choice([1, 2, 3, 4, 5, 6, 9, 12, 13]) for _ in range(3)]
        texts.append(g.product(g.r.choice([1, 1, 2, 2, 3]), d))
    texts += ['I:I:.O:.-', 'I:O:.M:.-', 'M:M:.O:O:.-', 'I:I:.-', 'I:O:.I:.-', 'O:M:.F:.-', 'M:M:.E:.M:.-', 'E:.M:M:.M:.-', "M:M:.-O:.-'",
              "O:M:.-M:O:.-'", 'M:M:.+O:O:.', 'O:O:O:.+M:M:.', 'F:M:.S:.-+S:.F:M:.-', 'M:M:.wa.-', 'wa.M:M:.-', 'F:F:.O:.-', 'I:F:.O:.-',
              "S:.M:M:.-O:.-'", 'O:.M:M:.F:.-', 'M:M:.+S:M:.', 'I:', 'M:', 'M:.', 'I:.']
    for t in dict.fromkeys(texts):
        ok, x = attempt(script, t)
        if not ok or x.cardinal > 200:
            continue
        ok, v = attempt(lambda: dict(cells=_cells(x), ts=strs(x.tables_script),
                                     hd=[[strs(d) for d in h] for h in x.headers]))
        rec(op='tab', **{'in': t}, ok=ok, **(v if ok else dict(cells=[], ts=[], hd=[])))


def c06(rec, tier, seed, cases):
    rec.canary(op='class', **{'in': 'O:'}, ok=True, cls=2, empty=False, sscls=[1, 1])
    from ieml.dictionary.script import script
    n = 800 if tier == 'quick' else 8000
    for t in dict.fromkeys(_cases(cases) + EDGE + _texts(seed, n, tier, budget=20)):
        ok, x = attempt(script, t)
        if ok:
            ok, v = attempt(lambda: dict(cls=int(x.grammatical_class), empty=bool(x.empty),
                                         sscls=[int(z.grammatical_class) for z in x.singular_sequences]))
        rec(op='class', **{'in': t}, ok=ok, **(v if ok else dict(cls=-1, empty=False, sscls=[])))
