"""Drivers of the properties on polymorphemes, lexemes and words (C07, C11..C14, C18)."""
import random
import re
import threading

from common import attempt, strs
from gen_usl import UGen, SINGULAR, PARADIGM

REFUSALS = ('CannotParse', 'TooManySingularSequences')
READABLE = set("EUASBTOMFIacbedgfihkjmlonpsutwyx:.-',_;+()[]>! \t\n{}0123456789")


def _cases(cases):
    return [c['s'] for c in cases if 's' in c]


def _lone_w(t):
    return any(t[i] == 'w' and t[i + 1:i + 2] not in ('o', 'a', 'u', 'e') for i in range(len(t)))


def _ok(t):
    return t.strip(' \t\n{}') and not set(t) - READABLE and not _lone_w(t)


EDGE = ['a. b.', 'wa. wo.', 'a. a.', 'E: a. b.', 'm1(a. b.)', 'a. m1(b. c.)', 'm1(b. c.) m1(a.)', 'm2(a. b.) m1(a. b.)', 'm1(a.) m1(b. c.)',
        'm2(a. b.) m2(a. b.)', 'm1(b. a.) m1(a. b.)', 'U: m2(wo. wa.)', 'o. m1(U: S:) m2(t. m.)', 'm1(E:)', 'm1(E: a.)', 'a. m1(E:)', 'E: E:', 'm0(a.)',
        'm4(a. b. c. d.)', 'm10(a.)', 'm1()', 'm1 a.', 'a. m1(b.) c.', '(a.)', '()', '()(a.)', '(a.)(b.)', '()()(a.)', '()(a.)(b.)', '(a.)(b.)(c.)',
        '(a.)()', '()()', '(a.)()(b.)', '(a.)(b.)(c.)(d.)', '(m1(a. b.))(m1(a. b.))', '(a. m1(b. c.))', '(E:)', '()(E:)', '(E:)(E:)', '(m1(E:))', '()(m1(E:))',
        '[! E:A:. ()]', '[! E:A:. (wa.)]', '[! E:U:. ()(a.)]', '[E:A:. (a.)]', '[! E:A:. (a.) > E:A:. E:U:. (b.)]', '[! E:A:. E:U:. (b.)]',
        '[! (a.)]', '[! E:U:. () > (a.)]', '[! E:U:. () > E:U:. (a.)]', '[! E:U:. (a.) > E:A:. (b.)]', '[! E:U:. E:U:. (a.)]', '[! E:A:. E:A:. (a.)]',
        '[! E:S:. (a.)]', '[! E:S:. (a.) > E:T:. (b.)]', '[! E:S:. (a.) > E:.n.- (b.)]', '[! E:S:. (a.) > E:.n.- E:.n.- (b.)]', '[E:.n.- (b.) > ! E:S:. (a.)]',
        '[! E:S:. (a.) > E:.n.- E:U:. (b.)]', '[! E:S:. (a.) > (b.)]', '[! E:S:. E:A:. (a.)]', '[! wa. (a.)]', '[! E:.n.- (a.)]',
        "[! E:A:. E:S:.-k.u.-' (a.)]", "[! E:A:. E:S:.-k.u.-' j.-U:.-'d.o.-l.o.-', (a.)]", "[! E:A:. E:S:.-k.u.-' j.-A:.-'d.o.-l.o.-', (a.)]",
        "[! E:A:. E:S:.-k.u.-' j.-U:.-'d.o.-l.o.-', (a.) > E:A:. E:S:.-k.u.-' g.-U:.-'d.o.-l.o.-', (b.)]",
        "[! E:A:. E:S:.-k.u.-' j.-U:.-'d.o.-l.o.-', (a.) > E:A:. E:S:.-k.u.-' j.-A:.-'d.o.-l.o.-', (b.)]",
        "[! E:A:. E:S:.-k.u.-' j.-U:.-'d.o.-l.o.-', (a.) > E:A:. E:T:.-k.u.-' j.-A:.-'d.o.-l.o.-', (b.)]",
        "[! E:A:. (c.) > E:A:. E:S:.-k.u.-' j.-U:.-'d.o.-l.o.-', (a.) > E:A:. E:S:.-k.u.-' j.-A:.-'d.o.-l.o.-', (b.)]",
        "[! E:A:. E:U:. j.-U:.-'d.o.-l.o.-', (c.) > E:A:. E:S:.-k.u.-' j.-A:.-'d.o.-l.o.-', (a.)]",
        "[! E:A:. E:U:. j.-A:.-'d.o.-l.o.-', (c.) > E:A:. E:S:.-k.u.-' j.-U:.-'d.o.-l.o.-', (a.)]",
        "[! E:U:. E:S:.-k.u.-' j.-U:.-'d.o.-l.o.-', (a.) > E:U:. E:S:.-k.u.-' j.-A:.-'d.o.-l.o.-', (b.)]",
        "[! E:U:. E:S:.-k.u.-' j.-U:.-'d.o.-l.o.-', E:U:. (a.)]", 'a.) ', ')', ']', '[', '[]', '>', '!', '[!]', '[! E:A:.]', 'm1', 'm1(', 'a', 'a. >',
        'a. !', '(a.) > (b.)', '[! E:A:. a. b.]', 'I:I:I:.I:.- a.', '[! E:A:. (I:I:I:.I:.-)]', '[! I:I:I:.I:.- (a.)]', 'm1(I:I:I:.I:.- a.)', 'U:.:', 'a.b.',
        'U:+a. b.', '(U:+a.)', '[! E:A:. (U:+a.)]', '[! E:A:.+E:U:. (a.)]', '[! E:. (a.)]', '[! E: (a.)]', 'm99999999(a.)',
        # the focus is the last one
        '[! E:A:. (a.) > ! E:A:. E:U:. (b.)]', '[! E:A:. E:U:. (b.) > ! E:A:. (a.)]', '[! E:S:. (a.) > ! E:.n.- (b.) > E:.d.- (c.)]']


def _read(rec, parse, t):
    ok, u = attempt(parse, t)
    d = dict(kind='', out='', again='', eq=False, morphs=[], empty=False, cls='')
    if ok:
        ok2, d2 = attempt(_describe, parse, u)
        if ok2:
            d = d2
        else:
            d['kind'] = 'raised ' + d2
    rec(op='read', **{'in': t}, ok=ok, refused=not ok and u in REFUSALS, **d)
    return u if ok else None


def _describe(parse, u):
    s = str(u)
    v = parse(s)
    ms = u.morphemes if hasattr(u, 'morphemes') else [u]
    kind = type(u).__name__
    if kind not in ('PolyMorpheme', 'Lexeme', 'Word'):
        kind = 'Script'
    return dict(kind=kind, out=s, again=str(v), morphs=[str(m) for m in ms if not m.empty], cls=str(u.grammatical_class),
                # a polymorpheme of one morpheme is read back as this morpheme
                eq=bool(s == '' or type(u) is not type(v) or (u == v and v == u and hash(u) == hash(v) and not u != v)),
                empty=bool(u.empty) if kind == 'Script' else not bool(u))


def c11(rec, tier, seed, cases):
    d = dict(kind='PolyMorpheme', eq=True, empty=False, cls='2')
    rec.canary(op='read', **{'in': 'wa. wo.'}, ok=True, refused=False, out='wa. wo.', again='wa. wo.', morphs=['wo.', 'wa.'], **dict(d, cls='1'))
    rec.canary(op='read', **{'in': 's. b.'}, ok=True, refused=False, out='s. b.', again='s. b.', morphs=['s.'], **d)
    rec.canary(op='read', **{'in': 's. b.'}, ok=False, refused=True, out='', again='', morphs=[], **d)
    rec.canary(op='read', **{'in': '(s. b.'}, ok=False, refused=False, out='', again='', morphs=[], **d)
    rec.canary(op='eq', a='s. b.', b='b. s.', eq=False, ne=True, hash=False)
    from ieml.usl.parser import IEMLParser
    parse = IEMLParser().parse
    n = 700 if tier == 'quick' else 9000
    g = UGen(seed, blanks=.1)
    texts = _cases(cases) + [t for t in EDGE if t[0] != '[']
    for _ in range(n):
        texts.append(g.polymorpheme(big=True) if g.r.random() < .5 else g.lexeme(big=g.r.random() < .3))
    texts += [g.mutate(g.r.choice(texts)) for _ in range(n // 4)]
    objs = []
    for t in texts:
        if _ok(t):
            u = _read(rec, parse, t)
            if u is not None and len(t) < 80:
                objs.append((t, u))
    # pairs that may be equal
    _pairs(rec, objs, g.r, n // 3)
    # built from their parts, the parts given in any order
    from ieml.usl import PolyMorpheme, Lexeme
    from ieml.usl.usl import usl
    from ieml.dictionary.script import script
    for _ in range(n // 3):
        c, gs = g.pm(big=True)
        r = g.r
        args = [script(g.write(m)) for m in c]
        garg = [([script(g.write(m)) for m in x], k) for x, k in gs]
        t = g.pm_text((c, gs))
        r.shuffle(args)
        r.shuffle(garg)
        before = (strs(args), [(strs(x), k) for x, k in garg])
        ok, u = attempt(lambda: PolyMorpheme(constant=args, groups=garg))
        after = (strs(args), [(strs(x), k) for x, k in garg])
        if not c and not gs:
            continue
        ok2, s = attempt(str, u)
        # a polymorpheme of one morpheme is read back as this morpheme
        one = len([m for m in args if not m.empty]) == 1 and not gs
        if args and r.random() < .2:
            # a morpheme and a unit given as such
            ok3, z = attempt(lambda: (str(usl(args[0])), usl(u) is u))
            rec(op='made', **{'in': str(args[0])}, ok=ok3 and z[1], out=(z[0] or 'E:') if ok3 else '', same=True, one=True)
        rec(op='made', **{'in': t}, ok=ok, out=s if ok else '', same=before == after, one=one)
        if r.random() < .5 and ok:
            ok, l = attempt(lambda: str(Lexeme(u, PolyMorpheme(constant=[]))))
            rec(op='made', **{'in': '(%s)' % t}, ok=ok, out=l if ok else '', same=True, one=False)
            ok, l = attempt(lambda: str(Lexeme(PolyMorpheme(constant=[]), u)))
            rec(op='made', **{'in': '()(%s)' % t}, ok=ok, out=l if ok else '', same=True, one=False)


def _pairs(rec, objs, r, n):
    by = {}
    for t, u in objs:
        by.setdefault(str(u), []).append((t, u))
    dup = [v for v in by.values() if len(v) > 1]
    for _ in range(n):
        if dup and r.random() < .5:
            (a, u), (b, v) = r.sample(r.choice(dup), 2)
        else:
            (a, u), (b, v) = r.choice(objs), r.choice(objs)
        ok, d = attempt(lambda: dict(eq=bool(u == v), ne=bool(u != v), hash=hash(u) == hash(v)))
        rec(op='eq', a=a, b=b, **(d if ok else dict(eq=False, ne=False, hash=False)))


def c12(rec, tier, seed, cases):
    rec.canary(op='ss', **{'in': 'm1(a. b.)'}, ok=True, ss=['a.', 'b.'], set=['a.', 'b.'], card=2, len=2, sing=False, self=True)
    rec.canary(op='ss', **{'in': 'm1(a. b.)'}, ok=True, ss=['', 'a.', 'b.', 'b.'], set=['', 'a.', 'b.'], card=3, len=3, sing=False, self=True)
    rec.canary(op='ss', **{'in': '()(m1(a. b.))'}, ok=True, ss=['()', '()(a.)', '()(b.)'], set=['()', '()(a.)', '()(b.)'], card=3, len=3, sing=True, self=True)
    rec.canary(op='in', a='m1(a. b.)', b='a.', res=False)
    from ieml.usl.parser import IEMLParser
    parse = IEMLParser().parse
    n = 420 if tier == 'quick' else 5000
    g = UGen(seed, alias=.05, odd=0)
    rep = UGen(seed + 3, alias=0, odd=0)       # few morphemes: some are repeated
    texts = _cases(cases) + ['m1(a. b.) m1(a. c.)', 'a. m1(a. b.)', 'm2(a. b. c.) m1(b. d.)', 'a. a. m1(b. c.)', 'm2(a. a. b.)', 'a. m2(a. b. c.) m1(c. d.)',
                             '(m1(a. b.))(a. m1(a. b.))', 'm1(a. b.)', 'm2(a. b.)', 'm1(a.) m1(b. c.)', 'm3(a. b. c.) m1(d. e.)', 'a. m1(b. c.) m2(d. e.)', 'a. b. c. d. m1(e. f.)',
                             'a. b. c. d. e. m1(f. g.)', 'a. b. c. d. e. f.', 'm2(a. b. c.) m2(d. e. f.)', 'm3(a. b. c. d.)', 'm1(a.) m1(b.) m1(c.)',
                             'm1(a.) m2(b. c.) m3(d. e. f.)', 'm1(a. b.) m1(c. d.) m1(e. f.)', 'm3(a. b. c.) m3(d. e. f.)', 'a. b. m3(c. d. e. f.)',
                             'm3(a. b. c. d.) m1(e.)', 'm2(a. b.) m1(c. d. e.)', '(m1(a. b.))(m1(a. b.))', '(a.)(m1(b. c.))', '(m1(a. b.))(c.)',
                             'm1(a. b.) m3(c. d. e.) m2(f. g.)', 'm2(a. b. c. d.) m3(e. f. g.)']
    for _ in range(n):
        z = g.r.random()
        if z < .12:
            f = rep.r
            gs = [[[f.choice(['a.', 'b.', 'wa.', 'U:', 's.a.-']) for _ in range(f.choice([1, 2, 3, 4]))], 1] for _ in range(f.choice([1, 2, 2, 3]))]
            gs = [[x, f.randrange(1, min(3, len(x)) + 1)] for x, _ in gs]
            t = rep.pm_text(([f.choice(['a.', 'b.', 'o.', 'wa.']) for _ in range(f.choice([0, 1, 2, 4]))], gs))
            texts.append(f.choice(['%s', '%s', '()(%s)', '(%s)(a.)']) % t)
        elif z < .55:
            texts.append(g.polymorpheme(groups=.95, big=g.r.random() < .5))
        elif z < .75:
            texts.append(g.lexeme(groups=.7))
        else:
            texts.append(g.word(depth=1, groups=.3))
    objs = []
    for t in dict.fromkeys(texts):
        ok, u = attempt(parse, t)
        if not ok or type(u).__name__ not in ('PolyMorpheme', 'Lexeme', 'Word'):
            continue
        if _bound(u) > 400:
            continue
        ok, v = attempt(lambda: dict(ss=strs(u.singular_sequences), set=sorted(strs(u.singular_sequences_set)), card=int(u.cardinal),
                                     len=len(u), sing=bool(u.is_singular),
                                     self=all(strs(z.singular_sequences) == [str(z)] and len(z) == 1 for z in u.singular_sequences)))
        rec(op='ss', **{'in': t}, ok=ok, **(v if ok else dict(ss=[], set=[], card=0, len=0, sing=False, self=False)))
        if ok:
            objs.append((t, u))
    r = g.r
    from ieml.usl import PolyMorpheme
    for _ in range(n):
        t, u = r.choice(objs)
        sss = u.singular_sequences
        z = r.random()
        if z < .4:
            v = r.choice(sss)
            if str(v) == '':
                continue
            a, b = (u, v) if r.random() < .7 else (v, u)
        elif z < .6:
            # the same unit with one or two other morphemes in the groups
            s = str(u)
            inside = [m for g in re.findall(r'm\d\(([^)]*)\)', s) for m in g.split()]
            if not inside:
                continue
            s2 = s
            for _ in range(r.choice([1, 1, 2])):
                s2 = re.sub(r'(?<![^ (])' + re.escape(r.choice(inside)) + r'(?![^ )])', r.choice(['k.', 'wu.', 'S:', 's.a.-', 'p.']), s2)
            ok, v = attempt(parse, s2)
            if not ok or _bound(v) > 400 or not attempt(v.check)[0]:
                continue
            a, b = (u, v) if r.random() < .5 else (v, u)
        elif z < .7:
            a, b = u, r.choice(objs)[1]
        else:
            # a part of the variations of a polymorpheme
            if not isinstance(u, PolyMorpheme) or not u.groups or not all(x for x, _ in u.groups):
                continue
            gs = [(r.sample(x, r.randrange(1, len(x) + 1)), k) for x, k in u.groups]
            gs = [(x, max(1, min(len(x), k - r.choice([0, 0, 1])))) for x, k in gs]
            ok, v = attempt(lambda: PolyMorpheme(constant=list(u.constant), groups=gs[:r.choice([1, len(gs)])]))
            if not ok:
                continue
            a, b = (u, v) if r.random() < .6 else (v, u)
        ok, v = attempt(lambda: bool(b in a))
        if str(a) and str(b):
            rec(op='in', a=str(a), b=str(b), res=v if ok else False)


def _bound(u):
    """a bound on the number of variations, from the structure of the unit"""
    from ieml.usl import PolyMorpheme, Lexeme
    if isinstance(u, PolyMorpheme):
        b = 1
        for x, k in u.groups:
            b *= min(2 ** len(x), 16)
        return b
    if isinstance(u, Lexeme):
        return _bound(u.pm_flexion) * _bound(u.pm_content)
    b = 1
    for _, x in u.syntagmatic_fun.as_list(u.context_type):
        b *= _bound(x)
    return b


def c13(rec, tier, seed, cases):
    rec.canary(op='check', **{'in': 'a. a.'}, valid=True, method=True, deco=True, err='')
    rec.canary(op='check', **{'in': 'a. b.'}, valid=False, method=False, deco=False, err='ValueError')
    rec.canary(op='check', **{'in': 'a. a.'}, valid=False, method=False, deco=True, err='ValueError')
    rec.canary(op='check', **{'in': '[! E:A:. (a. a.)]'}, valid=False, method=True, deco=False, err='ValueError')
    from ieml.usl.parser import IEMLParser
    from ieml.usl import PolyMorpheme, Lexeme, Word, check_polymorpheme, check_lexeme, check_word
    from ieml.usl.decoration.instance import InstancedUSL, Decoration
    from ieml.usl.decoration.path import path
    parse = IEMLParser().parse
    n = 600 if tier == 'quick' else 8000
    g = UGen(seed, odd=.5)
    h = UGen(seed + 1, odd=0)
    texts = _cases(cases) + EDGE
    for _ in range(n):
        z = g.r.random()
        f = g if g.r.random() < .5 else h
        if z < .12:
            # one defect, in one of the groups or constants
            ms = g.r.sample(SINGULAR, 14)
            gs = [[ms[3 * i:3 * i + g.r.choice([1, 2, 3])], 1] for i in range(g.r.choice([2, 3, 3, 4]))]
            gs = [[x, g.r.randrange(1, len(x) + 1)] for x, _ in gs]
            c = ms[12:12 + g.r.randrange(3)]
            bad = g.r.choice(gs)
            y = g.r.random()
            if y < .4:
                bad[1] = g.r.choice([0, len(bad[0]) + 1, 4])
            elif y < .6:
                bad[0].append(g.r.choice(PARADIGM))
            elif y < .8:
                bad[0].append(g.r.choice(c + [m for x, _ in gs for m in x]))
            elif y < .9:
                c.append(g.r.choice(PARADIGM))
            texts.append(g.r.choice(['%s', '%s', '(%s)', '()(%s)', '(a.)(%s)', '[! E:A:. (%s)]']) % g.pm_text((c, gs)))
        elif z < .4:
            texts.append(f.polymorpheme(groups=.6, big=True))
        elif z < .6:
            texts.append(f.lexeme())
        else:
            # a single bad lexeme somewhere in a word
            l = h.entries(depth=g.r.choice([1, 2, 3]))
            if g.r.random() < .6:
                i = g.r.randrange(len(l))
                l[i] = (l[i][0], g.lexeme())
            texts.append(h.word_text(l))
    for t in dict.fromkeys(texts):
        if not _ok(t):
            continue
        ok, u = attempt(parse, t)
        if not ok:
            continue
        f = {PolyMorpheme: check_polymorpheme, Lexeme: check_lexeme, Word: check_word}.get(type(u))
        if f is None:
            continue
        ok1, e = attempt(f, u)
        ok2, _ = attempt(u.check)
        # a decorated unit is valid if the unit is
        deco = ok1
        if g.r.random() < .4:
            ok3, x = attempt(lambda: InstancedUSL(u, [Decoration(path('>'), 'x')] * g.r.randrange(2)))
            deco = attempt(x.check)[0] if ok3 else ok1
        rec(op='check', **{'in': t}, valid=ok1, method=ok2, deco=deco, err='' if ok1 else e)


CTX = {'ProcessSyntagmaticFunction': 'process', 'DependantQualitySyntagmaticFunction': 'dependant',
       'IndependantQualitySyntagmaticFunction': 'independant'}


def c14(rec, tier, seed, cases):
    rec.canary(op='word', **{'in': '[! E:A:. (a.)]'}, list=[['E:U:.', '(a.)']], focus='E:A:.', ctx='dependant', get=[], rebuilt='[! E:A:.  (a.)]',
               none=False, parts=['a.'])
    rec.canary(op='word', **{'in': '[! E:A:. (a.)]'}, list=[['E:A:.', '(a.)']], focus='E:A:.', ctx='dependant', get=[['E:A:.', '(b.)']], rebuilt='[! E:A:.  (a.)]',
               none=False, parts=['a.'])
    d = dict(kind='Word', eq=True, empty=False, cls='E:.b.E:B:.-')
    rec.canary(op='read', **{'in': '[! E:A:. E:U:. (s.)]'}, ok=True, refused=False, out='', again='', morphs=['s.'], **d)
    rec.canary(op='read', **{'in': '[! E:A:. (s.)]'}, ok=True, refused=False, out='[! E:A:. (s.)]', again='[! E:A:. (s.)]', morphs=['s.'], **d)
    from ieml.usl.parser import IEMLParser
    from ieml.usl import Word
    from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole
    from ieml.usl.word import simplify_word
    parse = IEMLParser().parse
    n = 500 if tier == 'quick' else 7000
    g = UGen(seed, blanks=.05, odd=.05)
    r = g.r
    texts = [t for t in _cases(cases) if t[:1] == '['] + [t for t in EDGE if t[0] == '[']
    e = UGen(seed + 7, odd=0)
    few = lambda: r.choice(['()', '()', '(a.)', '()(b.)', '(E:U:U:.)'])
    for _ in range(n):
        z = r.random()
        if z < .2:
            texts.append(e.word_text(e.entries(depth=r.choice([1, 2, 3]), lex=few)))
        else:
            texts.append(g.word(depth=r.choice([1, 2, 2, 3]), damaged=.35))
    texts += [g.mutate(r.choice(texts)) for _ in range(n // 8)]
    for t in texts:
        if not _ok(t):
            continue
        u = _read(rec, parse, t)
        if type(u) is not Word:
            continue

        def obs():
            l = u.syntagmatic_fun.as_list(u.context_type)
            m = [(list(a), x) for a, x in l]
            r.shuffle(m)
            ctx, sf = SyntagmaticFunction.from_list(m)
            get = []
            for a, x in m[:3]:
                get.append([' '.join(strs(a)), str(u.syntagmatic_fun.get(SyntagmaticRole(a), ignore_prefix=True))])
            parts = list(u.iter_structure())
            return dict(list=[[' '.join(strs(a)), str(x)] for a, x in l], focus=str(u.role), ctx=CTX[u.context_type.__name__], get=get,
                        rebuilt=str(Word(sf, u.role, ctx)), none=any(p is None for p in parts), parts=sorted({str(p) for p in parts}))
        ok, d = attempt(obs)
        rec(op='word', **{'in': t}, **(d if ok else dict(list=[], focus='raised ' + str(d), ctx='', get=[], rebuilt='', none=True, parts=[])))
        if '.-k.u.-' not in t:
            ok, s = attempt(lambda: str(simplify_word(u)))
            rec(op='simplify', **{'in': t}, out=s if ok else 'raised ' + s)


def c18(rec, tier, seed, cases):
    rec.canary(op='lt', items=['a. b.', '(a.)'], ok=True, m=[[False, False], [True, False]], gt=[[False, True], [False, False]], sorted1=['(a.)', 'a. b.'], sorted2=['(a.)', 'a. b.'])
    rec.canary(op='lt', items=['a. b.', '(a.)'], ok=False, m=[], gt=[], sorted1=[], sorted2=[])
    from ieml.usl.parser import IEMLParser
    parse = IEMLParser().parse
    n = 110 if tier == 'quick' else 1500
    g = UGen(seed, odd=.15)
    r = g.r
    small = UGen(seed + 1, odd=.1)
    pool = ['a.', 'b.', 'wa.', 'U:', 's.a.-']

    def close():
        """units that differ by little"""
        z = r.random()
        if z < .4:
            return [small.pm_text(small.pm(groups=.7, pool=pool)) for _ in range(6)]
        if z < .6:
            return [r.choice(['(%s)', '()(%s)', '(a.)(%s)', '(%s)(b.)']) % small.pm_text(small.pm(groups=.3, pool=pool)) for _ in range(6)]
        l = g.entries(depth=r.choice([1, 2, 3]), lex=lambda: r.choice(['()', '(a.)', '()(b.)']))
        res = []
        for _ in range(6):
            m = [(list(a), x) for a, x in l]
            if r.random() < .5:
                i = r.randrange(len(m))
                m[i] = (m[i][0], r.choice(['()', '(a.)', '(b.)', '()(b.)', '()(a. b.)']))
            if r.random() < .3:
                m = g.damage(m)
            res.append(g.word_text(m))
        # a junction and a lexeme at the same place
        a = l[0][0][:1] if l[0][0][0] in ('E:A:.', 'E:U:.') else None
        if a:
            res.append('[! %s (a.)]' % a[0])
            res.append(g.word_text(g.junction(a, 0, lambda: '(a.)', g.indep)))
        return res
    todo = [_cases(cases)[i:i + 7] for i in range(0, len(_cases(cases)), 7)]
    for _ in range(n):
        todo.append(close() if r.random() < .6 else [g.text(depth=2) for _ in range(4)] + close()[:3])
    for ts in todo:
        items, objs = [], []
        for t in ts:
            if not _ok(t):
                continue
            ok, u = attempt(parse, t)
            if ok:
                items.append(t)
                objs.append(u)
        a, b = list(objs), list(objs)
        r.shuffle(a)
        r.shuffle(b)
        ok, v = attempt(lambda: dict(m=[[bool(x < y) for y in objs] for x in objs], gt=[[bool(x > y) for y in objs] for x in objs],
                                     sorted1=strs(sorted(a)), sorted2=strs(sorted(b))))
        rec(op='lt', items=items, ok=ok, **(v if ok else dict(m=[], gt=[], sorted1=[], sorted2=[])))


def c07(rec, tier, seed, cases):
    rec.canary(op='same', **{'in': 'a. b.'}, outs=['a. b.', 'b. a.'])
    rec.canary(op='same', **{'in': 'a. b.'}, outs=['refused', 'refused'])
    rec.canary(op='same', **{'in': 'a. b. [>constant>c. "x"]'}, outs=['a. b. [>constant>c. "x"]'])
    rec.canary(op='same', **{'in': '[! (a.)]'}, outs=['raised IndexError', 'raised IndexError'])
    from ieml.usl.parser import IEMLParser
    from ieml.usl.usl import usl
    from ieml.dictionary.script import script
    n = 260 if tier == 'quick' else 3000
    g = UGen(seed, blanks=.05, odd=.1)
    r = g.r
    texts = _cases(cases) + EDGE + [g.text(damaged=.5) for _ in range(n)]
    texts += [g.mutate(r.choice(texts)) for _ in range(n)]
    # morphemes that are written in another way when they are factorized
    sums = ['U:U:.+U:A:.', 'wa.+wo.', 'A:S:.+A:B:.+A:T:.', 'A:S:.a.-+A:B:.a.-+A:T:.a.-', 'wa.wo.-+wo.wo.-', "a.a.-a.a.-'+a.b.-a.a.-'"]
    texts += sums + [f % x for x in sums for f in r.sample(['%s a.', '()(%s)', '(m1(%s b.))', 'm1(a. %s)', '[! E:A:. ()(%s)]', '()(%s) [> "v"]'], 2)]
    texts = [t for t in dict.fromkeys(texts) if _ok(t)]
    from drv_path import PGen, near
    from drv_deco import FIXED, esc, VALUES
    pg = PGen(seed + 5, blanks=.05, odd=.05)
    deco = list(FIXED)
    for _ in range(n // 2):
        t = r.choice(texts) if r.random() < .5 else pg.text(damaged=.05)
        try:
            ps = [str(x) for x, _ in IEMLParser().parse(t).iter_structure_path()]
        except Exception:
            ps = []
        ds = ' '.join('[%s "%s"]' % (r.choice(ps) if ps and r.random() < .75 else near(r, r.choice(ps), ps) if ps and r.random() < .5 else pg.path(), esc(r.choice(VALUES)))
                      for _ in range(r.choice([1, 1, 2])))
        deco.append(t + ' ' + ds)
    texts += [t for t in dict.fromkeys(deco) if t not in texts]
    got = {t: [] for t in texts}
    p, q = IEMLParser(), IEMLParser()

    def one(f, t):
        ok, u = attempt_thread(f, t)
        got[t].append(str(u) if ok else 'refused' if u in REFUSALS else 'raised ' + u)

    def attempt_thread(f, t):
        try:
            return True, f(t)
        except Exception as e:
            return False, type(e).__name__
    fs = [p.parse, q.parse, usl, lambda t: IEMLParser().parse(t) if r.random() < .05 else p.parse(t)]
    for f in fs[:2]:
        order = list(texts)
        r.shuffle(order)
        for t in order:
            if any(x in t for x in sums) and r.random() < .5:
                attempt(p.parse, t, factorize_script=True)
            one(f, t)
            if r.random() < .1:
                attempt(script, r.choice(["a.+", 'U:', 'O:M:.', '+', 'a.b.']))
            if r.random() < .05:
                # the option of a call has no effect on the next ones
                attempt(p.parse, r.choice(texts), factorize_script=True)
    ths = []
    for k in range(4):
        order = r.sample(texts, min(len(texts), 150 if tier == 'quick' else 1500))
        f = fs[k % 2]
        ths.append(threading.Thread(target=lambda o=order, f=f: [one(f, t) for t in o]))
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for t in r.sample(texts, min(len(texts), 25)):
        one(usl, t)
    for t in texts:
        rec(op='same', **{'in': t}, outs=got[t])
    # a parser that knows a dictionary refuses the morphemes that are not in it
    from drv_dict import build
    rec.canary(op='known', roots=['O:M:.'], **{'in': 'y. a.'}, out='refused')
    rec.canary(op='known', roots=['O:M:.'], **{'in': 'k. a.'}, out='k. a.')
    for roots in (['O:M:.', 'E:O:.'], ['M:M:.', 'O:O:.'], ['O:M:.', 'M:M:.', "E:.-O:.-'", 'E:F:.', 'O:O:O:.']):
        d = build(roots, [(x, 'is_root', 'True') for x in roots])
        p = IEMLParser(dictionary=d)
        h = UGen(seed + len(roots), odd=.05)
        few = [str(s) for x in roots for s in script(x).singular_sequences] + roots
        for _ in range(n // 6):
            z = r.random()
            ms = r.sample(few, min(len(few), r.choice([1, 2, 2, 3])))
            if z < .5:
                ms.append(r.choice(['k.', 'a.', 'wa.', 'E:', 'E:.', 'S:', 'y.', 'E:O:.', 'o.+y.', 'E:U:.']))
            t = r.choice(['%s', '%s', '(%s)', '()(%s)', '[! E:A:. (%s)]', '[! E:U:. ()(%s)]', 'm1(%s)', '(m1(%s))(' + r.choice(few) + ')']) % ' '.join(ms)
            if r.random() < .2:
                t = h.mutate(t)
            if not _ok(t):
                continue
            ok, u = attempt(p.parse, t)
            rec(op='known', roots=roots, **{'in': t}, out=str(u) if ok else 'refused' if u in REFUSALS else 'raised ' + u)
