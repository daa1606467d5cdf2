"""Driver of the decorated units (C17)."""
import re

from common import attempt, strs
from drv_path import PGen, refused, rooms, near, ACCEPTED
from gen_usl import SINGULAR

VALUES = ['', 'v', 'a value', 'quote " inside', '"', '""', '\\', 'a\\b', 'end\\', '\\"', 'x\\\\"y', '[brackets]', '] [>constant>a. "z"]', '> a. > b.', 'é à ✓',
          'two\nlines', 'm1(a. b.)', "it's", '{}', '\t', ' spaces ', '#', 'a' * 60, '\\n', '1']
FIXED = ['a. b. [>constant>a. "x"]', 'a. [>constant>a. "x"]', 'a. [>a. "x"]', 'a. b. [> "x"]', '(a.)(b.) [> "x"]', 'a. m2(b. c.) [>group_0>b. "x"]',
         'a. m2(b. c.) [>group_0 2 "x"] [>group_0>c. "y"] [>constant "z"]', 'a. b. [>constant>c. "x"]', 'a. b. [>constant>a. "x"] [>constant>a. "y"]',
         '(a. b.)(a. c.) [>flexion>a. "f"] [>content>constant>a. "c"]', '[! E:A:. (a.) > E:A:. E:U:. (a.)] [>role>E:A:.>flexion>a. "1"] [>role>E:A:. E:U:. "2"]',
         '[! E:S:. (a.) > E:.n.- (b.)] [>role>E:T:.>flexion>a. "1"] [>role>! E:.n.- "2"] [>role>process>content "3"]', 'a. b. [>constant>a. x]', 'a. b. [>constant>a. "x"',
         'a. b. [constant>a. "x"]', 'a. b. [>constant>a. "x"] c.', '[>constant>a. "x"]', 'a. b. [>constant>a.]', 'a. b. ["x"]', 'a. b. [>role>E:A:. "x"]',
         '(a.) [>constant>a. "x"]', 'a. b. [>group_0>a. "x"]', 'a. b. [>constant "x"] [>constant "y"] [> "z"]', 'a. b.[>constant>a."x"][>constant>b."y"]',
         'a. b. [>a. "x"] [>b. "y"]', 'm1(a. b.) m1(c. d.) [>b. "x"] [>c. "y"] [>a. "z"]', 'a. b. [>constant>a. "x" "y"]', 'm1(a. b. [>constant>a. "x"]',
         "U:. b. [>constant>U:E:E:. \"x\"]"]


def esc(v):
    return v.replace('\\', '\\\\').replace('"', '\\"')


def _clean(parse, unit):
    """no literal on a unit that has the same morphemes"""
    from ieml.usl.decoration.instance import InstancedUSL
    u = parse(unit)
    if type(u).__name__ not in ('PolyMorpheme', 'Lexeme', 'Word'):
        return u.get_literal() is None
    return str(u) == unit and all(v.get_literal() is None for _, v in u.iter_structure_path()) and not InstancedUSL.from_usl(u).decorations \
        and all(m.get_literal() is None for m in u.morphemes)


def c17(rec, tier, seed, cases):
    base = dict(ok=True, unit='a. b.', again='a. b. [>constant>a. "x"]', eq=True, clean=True, morphs=['a.', 'b.'], cls=True)
    T = dict(base, morphs=['b.', 'a.'])
    rec.canary(op='deco', **{'in': 'a. b. [>constant>a. "x"]'}, **dict(T, decos=[['>constant>a.', 'y']], out='a. b. [>constant>a. "y"]', again='a. b. [>constant>a. "y"]'))
    rec.canary(op='deco', **{'in': 'a. b. [>constant>c. "x"]'}, **dict(T, decos=[['>constant>c.', 'x']], out='a. b. [>constant>c. "x"]'))
    rec.canary(op='deco', **{'in': '(a.)(a.) [>flexion>a. "x"]'}, **dict(T, unit='(a.)(a.)', morphs=['a.'], decos=[['>flexion>a.', 'x'], ['>content>constant>a.', 'x']],
               out='(a.)(a.) [>flexion>a. "x"]', again='(a.)(a.) [>flexion>a. "x"]'))
    rec.canary(op='decoss', **{'in': 'a. m1(b. c.) [>constant>a. "x"]'}, ss=['a. b.', 'a. c.'], card=2, after='a. m1(b. c.) [>constant>a. "x"]')
    rec.canary(op='literal', **{'in': 'a. b.'}, paths=['>constant>a.'], values=['x'], decos=[], clean=True)
    from ieml.usl.parser import IEMLParser
    from ieml.usl.decoration.parser.parser import PathParser
    from ieml.usl.decoration.instance import InstancedUSL, Decoration
    parse = IEMLParser().parse
    pp = PathParser()
    n = 300 if tier == 'quick' else 3500
    g = PGen(seed, blanks=.03, odd=0, alias=.08)
    r = g.r
    cs = [c['s'] for c in cases if 's' in c]
    texts = FIXED + (r.sample(cs, 3 * n) if len(cs) > 3 * n else cs)
    units = []
    for _ in range(n):
        t = g.polymorpheme(big=r.random() < .3) if r.random() < .35 else g.lexeme(groups=.4) if r.random() < .4 else g.word(depth=r.choice([0, 1, 1, 2]), groups=.2)
        ok, u = attempt(parse, t)
        if ok and type(u).__name__ in ('PolyMorpheme', 'Lexeme', 'Word') and rooms(u):
            units.append((t, u, [str(p) for p, _ in u.iter_structure_path()] + ['>']))
    known = sorted({p for _, _, ps in units for p in ps})
    for t, u, ps in units:
        for _ in range(2):
            ds = []
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                z = r.random()
                p = r.choice(ps)
                if z < .08:
                    p = near(r, p, known)
                elif z < .1:
                    p = r.choice(known)
                if r.random() < .25:
                    p = p.replace('! ', '')
                if r.random() < .25:
                    p = re.sub(r'(group_\d) \d', r'\1', p)
                if r.random() < .1 and type(u).__name__ == 'PolyMorpheme':
                    p = '>' + p.split('>')[-1]
                ds.append('[%s%s"%s"%s]' % (p, r.choice([' ', ' ', '', '  ']), esc(r.choice(VALUES)), r.choice(['', '', ' '])))
            texts.append(t + r.choice([' ', ' ', '', '\n']) + r.choice([' ', '', '\n']).join(ds))
    texts += [mutate(r, r.choice(texts)) for _ in range(n // 3)]
    objs = []
    for t in dict.fromkeys(texts):
        if '[>' not in t:
            continue
        ok, x = attempt(parse, t)
        if not ok or not isinstance(x, InstancedUSL):
            rec(op='deco', **{'in': t}, ok=False, out=refused(ok, str(x)), unit='', decos=[], again='', eq=False, clean=True, morphs=[], cls=False)
            continue

        def look():
            s = str(x)
            y = parse(s)
            rebuilt = InstancedUSL(parse(str(x.usl)) if type(parse(str(x.usl))) is type(x.usl) else x.usl, list(reversed(x.decorations)))
            return dict(out=s, unit=str(x.usl), decos=[[str(d.path), d.value] for d in x.decorations], again=str(y),
                        eq=bool(x == y and hash(x) == hash(y) and not x != y and str(rebuilt) == s), clean=_clean(parse, str(x.usl)), morphs=[str(m) for m in x.morphemes if not m.empty],
                        cls=x.grammatical_class == x.usl.grammatical_class and bool(x.empty) == bool(x.usl.empty)
                            and strs(v for _, v in x.iter_structure_path()) == strs(v for _, v in x.usl.iter_structure_path())
                            and attempt(x.check)[0] == attempt(x.usl.check)[0])
        ok, d = attempt(look)
        rec(op='deco', **{'in': t}, ok=ok, **(d if ok else dict(out='raised ' + d, unit='', decos=[], again='', eq=False, clean=True, morphs=[], cls=False)))
        if ok:
            objs.append((t, x, d))
    from drv_usl import _bound
    for t, x, d in r.sample(objs, min(len(objs), n)):
        if _bound(x.usl) > 60:
            continue
        ok, v = attempt(lambda: dict(ss=strs(x.singular_sequences), card=int(x.cardinal), after=str(x)))
        rec(op='decoss', **{'in': t}, **(v if ok else dict(ss=['raised ' + v], card=0, after='')))
    # literals of the components
    for t, u, ps in units:
        nodes = [(p, v) for p, v in u.iter_structure_path_by_script_ss() if not v.empty]
        once = [(p, v) for p, v in nodes if [str(w) for _, w in nodes].count(str(v)) == 1]
        if not once:
            continue
        # one component, or many of them
        some = r.sample(once, min(len(once), r.choice([1, 1, 2, 3, 6, 12])))
        vals = [r.choice(VALUES) for _ in some]

        def lit():
            for (p, v), val in zip(some, vals):
                pp.parse(str(p)).deference(u)
                p.deference(u).set_literal(val)
            x = InstancedUSL.from_usl(u)
            return dict(decos=[[str(d.path), d.value] for d in x.decorations], clean=_clean(parse, str(u)) if len(str(u).split()) > 1 else True)
        ok, d = attempt(lit)
        rec(op='literal', **{'in': t}, paths=[str(p) for p, _ in some], values=vals, **(d if ok else dict(decos=[['raised', d]], clean=False)))


def mutate(r, t):
    i = r.randrange(len(t))
    z = r.random()
    if z < .5:
        toks = re.findall(r'"(?:\\.|[^"\\])*"|[\[\]]|>[^"\[\]>]*|[^"\[\]>]+', t)
        j = r.randrange(len(toks))
        if z < .2:
            del toks[j]
        elif z < .35:
            toks.insert(j, r.choice(toks))
        else:
            toks[j] = r.choice(['[', ']', '>', '"x"', '>constant', '>content', '>role>E:A:.', ' a. '])
        return ''.join(toks)
    return t[:i] + t[i + 1:] if t[i] in '[]>" ' else t
