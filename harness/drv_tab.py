"""Driver of the tables of units in two dimensions (C16)."""
from common import attempt
from drv_path import PGen, rooms
from drv_usl import _bound
from gen_usl import ALIAS, SINGULAR

FIXED = [('a. m1(b. c.)', '', '>constant'), ('a. m1(b. c.)', '', '>group_0'), ('a. m1(b. c.)', '>constant', '>group_0 1'), ('m1(a. b.) m1(c. d.)', '>group_1', '>group_0'),
         ('m2(a. b. c.) m1(d. e.)', '', '>group_0 2'), ('m1(a. b.)', '', '>group_0'), ('(m1(E:.wo.- E:.wa.-))(m1(a. b.))', '>flexion', '>content'),
         ('(m1(E:.wo.- E:.wa.-))(m1(a. b.))', '', '>content'), ('()(m1(a. b.) m1(c. d.))', '', '>content>group_1'), ('[! E:A:. ()(m1(a. b.))]', '', '>role>! E:A:.'),
         ('[! E:A:. ()(m1(a. b.)) > E:A:. E:U:. (m1(E:.wo.- E:.wa.-))]', '', '>role>E:A:. E:U:.'),
         ('[! E:S:. ()(m1(a. b.)) > E:.n.- ()(m1(c. d.))]', '>role>! process', '>role>initiator'), ('[! E:S:. ()(m1(a. b.)) > E:.n.- ()(m1(c. d.))]', '', '>role>process>content'),
         ('[! E:S:. ()(m1(a. b.) m1(d. e.)) > E:.n.- ()(m1(c. d.))]', '', '>role>process>content>group_1'),
         ('[! E:S:. ()(a.) > E:.n.- ()(m1(c. d.))]', '', '>role>process')]


def tables(rec, t, u, row, col, R, C):
    from ieml.usl.table import UslTable2D

    def make():
        tb = UslTable2D(u, columns=C) if R is None else UslTable2D(u, rows=R, columns=C)
        # the order in which the parts are asked for is not fixed
        names = ['cells', 'rows', 'columns']
        rec.g.r.shuffle(names)
        for x in names:
            getattr(tb, x)
        return dict(rows=[str(x) for x in tb.rows], cols=[str(x) for x in tb.columns], cells=[[str(c) for c in l] for l in tb.cells], after=str(u))
    ok, d = attempt(make)
    rec(op='table', **{'in': t}, row=row, col=col, ok=ok, **(d if ok else dict(rows=[], cols=[], cells=[], after='')))


def partitions(rec, t, u):
    from ieml.usl.table import enumerate_partitions

    def parts():
        d, l = enumerate_partitions(u)
        return dict(dim=d, parts=[[str(p) for p in x] for x in l], after=str(u))
    ok, d = attempt(parts)
    rec(op='parts', **{'in': t}, ok=ok, **(d if ok else dict(dim=0, parts=[], after='')))


def c16(rec, tier, seed, cases):
    base = dict(row='', col='>group_0 1', ok=True, rows=['m1(b. c.) a.'], cols=['a. b.', 'a. c.'], cells=[['a. b.', 'a. c.']], after='a. m1(b. c.)')
    T = {'in': 'a. m1(b. c.)'}
    rec.canary(op='table', **T, **dict(base, ok=False))
    rec.canary(op='table', **T, **dict(base, rows=['a. m1(b. c.)'], cols=['a. c.', 'a. b.'], cells=[['a. c.', 'a. b.']]))
    rec.canary(op='table', **T, **dict(base, rows=['a. m1(b. c.)', 'a. b.']))
    rec.canary(op='table', **T, **dict(base, rows=['a. m1(b. c.)'], cells=[['a. b.', 'a. b.']]))
    rec.canary(op='table', **T, **dict(base, rows=['a. m1(b. c.)'], after='a. b.'))
    rec.canary(op='parts', **{'in': 'm1(a. b.) m1(c. d.)'}, ok=True, dim=2, parts=[[], ['>group_0 1'], ['>group_1 1']], after='m1(a. b.) m1(c. d.)')
    rec.canary(op='parts', **{'in': 'a. m1(b. c.)'}, ok=True, dim=2, parts=[[], ['>group_0 1']], after='a. m1(b. c.)')
    rec.canary(op='parts', **{'in': 'a. m1(b. c.)'}, ok=True, dim=1, parts=[[], ['>group_0 1'], ['>group_0 1']], after='a. m1(b. c.)')
    from ieml.usl.parser import IEMLParser
    from ieml.usl.decoration.parser.parser import PathParser
    parse = IEMLParser().parse
    pp = PathParser()
    n = 350 if tier == 'quick' else 4000
    g = PGen(seed, blanks=0, odd=0, alias=.08)
    r = g.r
    rec.g = g

    def usable(u):
        if type(u).__name__ not in ('PolyMorpheme', 'Lexeme', 'Word') or not attempt(rooms, u) == (True, True) or _bound(u) > 200:
            return False
        return attempt(u.check)[0]

    for t, row, col in FIXED:
        tables(rec, t, parse(t), row, col, pp.parse(row) if row else None, pp.parse(col))

    def alias(q):
        """the same path, or a text of it without the focus or the multiplicity"""
        t = str(q)
        if r.random() < .3:
            t = t.replace('! ', '')
        if r.random() < .3 and '>group_' in t:
            t = t[:t.rindex(' ')] if t.rindex(' ') > t.rindex('>') else t
        return t

    def pairs(u):
        ps = [(p, v) for p, v in u.iter_structure_path() if str(p) != '>' and not p.tail.__class__.__name__ == 'FlexionPath'
              and not (p.tail.__class__.__name__ == 'PolymorphemePath' and p.tail.morpheme is not None)]
        cs = [(p, v) for p, v in ps if v.cardinal > 1] or ps
        return ps, cs

    def one(t, u):
        ps, cs = pairs(u)
        if not ps:
            return False
        small = [x for x in cs if x[1].cardinal < u.cardinal]
        cs = small or cs
        C = r.choice(cs if r.random() < .8 else ps)[0]
        R = None if r.random() < .45 else r.choice(cs if r.random() < .9 else ps)[0]
        if R is not None and (R.has_prefix(C) or C.has_prefix(R)):
            if len(ps) == 1 or r.random() < .3:
                R = None
            else:
                o = [[p for p, _ in l if not p.has_prefix(C) and not C.has_prefix(p)] for l in (cs, ps)]
                o = o[0] or o[1]
                R = r.choice(o) if o else None
        row, col = '' if R is None else alias(R), alias(C)
        tables(rec, t, u, row, col, None if R is None else pp.parse(row), pp.parse(col))
        if r.random() < .4 and sum(v.cardinal > 1 for _, v in u.iter_structure_path()) <= 8:
            partitions(rec, t, u)
        return True

    # the partitions of units with several variable components
    for i in range(n // 7):
        k = r.choice([2, 3, 4, 4, 5])
        ms = r.sample(SINGULAR, 12)
        var = lambda j: 'm1(%s %s)' % (ms[2 * j], ms[2 * j + 1])
        z = r.random()
        if z < .2:
            t = ' '.join(map(var, range(min(k, 3))))
        elif z < .4:
            t = '(%s)(%s)' % (r.choice(['m1(E:.wo.- E:.wa.-)', 'a.', 'm1(E:.wo.- E:.wa.-) m1(E:U:U:. E:A:A:.)']), ' '.join(map(var, range(min(k, 3)))))
        else:
            roles = r.sample(['E:.n.-', 'E:.d.-', 'E:.k.-', 'E:.t.-', 'E:.l.-'], k - 1)
            t = '[! E:S:. ()(%s)%s]' % (var(0), ''.join(' > %s ()(%s)' % (a, var(j + 1)) for j, a in enumerate(roles)))
        ok, u = attempt(parse, t)
        if ok and attempt(u.check)[0]:
            partitions(rec, t, u)

    units = [c['s'] for c in cases if 's' in c]
    if len(units) > 2 * n:
        units = r.sample(units, 2 * n)
    for t in dict.fromkeys(units):
        ok, u = attempt(parse, t)
        if ok and usable(u):
            one(t, u)
    made = tries = 0
    while made < n and tries < 40 * n:
        tries += 1
        z = r.random()
        t = g.polymorpheme(groups=1) if z < .25 else g.lexeme(groups=.8) if z < .6 else g.word(depth=r.choice([0, 1, 1]), groups=.5)
        ok, u = attempt(parse, t)
        if ok and usable(u) and (u.cardinal > 1 or r.random() < .05):
            made += one(t, u)
