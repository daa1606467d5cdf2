"""Random generation of texts of polymorphemes, lexemes and words, and of their mutations.

Nothing of the code under test is used here: the texts are judged by the TLA+ specification."""
import random
import re

VALENCES = ['E:S:.', 'E:T:.', 'E:B:.']
ACTANTS = ['E:.n.-', 'E:.d.-', 'E:.k.-', 'E:.t.-', 'E:.l.-', 'E:.m.-', 'E:.f.-', 'E:.s.-']
DEP, INDEP = 'E:A:.', 'E:U:.'
LINKS = ["E:S:.-k.u.-'", "E:T:.-k.u.-'", "E:B:.-k.u.-'"] + ["E:.-%s.-k.u.-'" % q for q in (
    's.a b.a t.a k.a m.a n.a d.a f.a l.a y o e u a i wo wa we wu s.u b.u t.u k.u m.u n.u d.u f.u l.u'.split())]
INDEXES = ["%s.-%s:.-'d.o.-l.o.-'," % (c, d) for c in 'jghcpx' for d in 'UA']

SINGULAR = ['U:', 'A:', 'S:', 'B:', 'T:', 'wo.', 'wa.', 'y.', 'o.', 'e.', 'wu.', 'we.', 'u.', 'a.', 'i.', 'j.', 'g.', 's.', 'b.', 't.',
            'h.', 'c.', 'k.', 'm.', 'n.', 'p.', 'x.', 'd.', 'f.', 'l.', 'E:U:.', 'E:E:A:.', 'U:.', 'E:S:.', "a.-", "s.a.-", "E:.wo.-",
            "k.a.-k.a.-'", "n.i.-s.i.-'", "b.-S:.A:.-'S:.-'S:.-',", "E:.-',b.-S:.U:.-'y.-'U:.-',_", 'U:A:S:.', "E:.-wa.-t.o.-'",
            "E:U:S:.", "E:T:.p.-"]
PARADIGM = ['O:', 'M:', 'O:M:.', 'E:M:.', 'M:.-', 'F:', 'wo.+wa.', 's.+b.', "E:.-O:.-'",
            # sums that are not the factorized ones
            'y.+u.', 's.a.-+b.a.-', 'E:U:S:.+E:U:B:.+E:A:S:.+E:A:B:.',
            'E:A:T:.+E:U:S:.+E:U:B:.+E:A:S:.+E:S:U:.+E:S:A:.+E:A:B:.+E:U:T:.+E:B:U:.']
NULLS = ['E:', 'E:.', "E:.-'"]
# the same morpheme, written in another way
ALIAS = {'wa.': ['U:A:.', 'U:A:E:.'], 'a.': ['A:B:.'], 'U:.': ['U:E:E:.'], 'wo.': ['U:U:.'], 's.a.-': ['S:S:.A:B:.-'], 'b.': ['S:B:E:.'],
         'O:': ['A:+U:'], 'wo.+wa.': ['wa.+wo.'], 'E:S:.': ['E:S:E:.'], 'E:U:.': ['E:U:E:.'], 'E:A:.': ['E:A:E:.']}

FLEX = ["E:M:.-d.u.-'", "E:O:O:.", "E:M:O:.", "E:.b.O:M:.-", "E:.b.O:O:.-", "E:.O:O:.-", "E:F:M:.", "E:I:.-t.u.-'"]
# some singular sequences of the flexions (each from one paradigm of flexion)
FLEXIONS = [["E:S:.-d.u.-'", "E:B:.-d.u.-'", "E:T:.-d.u.-'"], ['E:U:U:.', 'E:U:A:.', 'E:A:U:.', 'E:A:A:.'],
            ['E:S:U:.', 'E:B:U:.', 'E:T:A:.'], ['E:.b.y.-', 'E:.b.o.-', 'E:.b.u.-'], ['E:.b.wo.-', 'E:.b.wa.-', 'E:.b.wu.-'],
            ['E:.wo.-', 'E:.wa.-', 'E:.we.-'], ['E:U:S:.', 'E:A:B:.', 'E:S:T:.']]


class UGen:
    def __init__(self, seed, blanks=0.0, alias=.15, odd=.1):
        self.r = random.Random(seed)
        self.blanks = blanks
        self.alias = alias
        self.odd = odd       # probability of what makes an invalid (but readable) unit

    def sp(self):
        return self.r.choice(['  ', '\n', '\t ', ' { ', '} ']) if self.r.random() < self.blanks else ' '

    def opt(self):
        return self.r.choice(['', ' ', '\n']) if self.blanks and self.r.random() < self.blanks else ''

    def write(self, m):
        return self.r.choice(ALIAS[m]) if m in ALIAS and self.r.random() < self.alias else m

    def pm(self, groups=.4, big=False, pool=SINGULAR):
        """(constants, groups)"""
        r = self.r
        n = r.choice([0, 1, 1, 1, 2, 2, 3, 4, 5] if big else [0, 1, 1, 1, 2, 3])
        k = 0
        if r.random() < groups:
            k = r.choice([1, 1, 2, 2, 3])
        elif n == 0:
            n = 1
        sizes = [r.choice([1, 2, 2, 3, 4] if k < 3 else [1, 2, 2, 3]) for _ in range(k)]
        ms = r.sample(pool, min(len(pool), n + sum(sizes)))
        c, ms = ms[:n], ms[n:]
        gs = []
        for s in sizes:
            g, ms = ms[:s], ms[s:]
            if g:
                gs.append([g, min(len(g), r.choice([1, 1, 2, 3]))])
        if r.random() < self.odd:
            self.spoil(c, gs)
        if not c and not gs:
            c = ['a.']
        return c, gs

    def spoil(self, c, gs):
        r = self.r
        z = r.random()
        g = r.choice(gs) if gs else None
        if z < .2 and g:
            g[1] = r.choice([0, 4, len(g[0]) + 1, 12])
        elif z < .4:
            (g[0] if g and r.random() < .5 else c).append(r.choice(PARADIGM))
        elif z < .6:
            (g[0] if g and r.random() < .5 else c).append(r.choice(NULLS))
        else:
            all_ = c + [m for x in gs for m in x[0]]
            if all_:
                (g[0] if g and r.random() < .6 else c).append(r.choice(all_))

    def pm_text(self, pm):
        c, gs = pm
        c = [self.write(m) for m in c]
        self.r.shuffle(c)
        gs = list(gs)
        self.r.shuffle(gs)
        parts = list(c)
        for g, n in gs:
            g = [self.write(m) for m in g]
            self.r.shuffle(g)
            parts.append('m%d%s(%s%s%s)' % (n, self.opt(), self.opt(), self.sp().join(g), self.opt()))
        return self.sp().join(parts)

    def polymorpheme(self, **k):
        return self.pm_text(self.pm(**k))

    def lexeme(self, groups=.3, big=False):
        r = self.r
        z = r.random()
        P = lambda g=groups: '(' + self.opt() + self.pm_text(self.pm(groups=g, big=big)) + self.opt() + ')'
        o = self.opt
        if z < .08:
            return '(' + o() + ')'
        if z < .3:
            return P()
        if z < .6:
            return '()' + o() + P()
        if z < .85:
            return P(groups / 2) + o() + P()
        if z < .9:
            return '()()' + P()
        if z < .95:
            return '()' + P(groups / 2) + o() + P(groups / 2)
        return P(groups / 3) + P(groups / 3) + P(groups / 3)

    # words: lists of (role, lexeme)
    def dep(self, prefix, depth, lex):
        r = self.r
        if depth > 0 and r.random() < .22:
            return self.junction(prefix, depth - 1, lex, self.dep)
        res = [(prefix, lex())]
        if depth > 0 and r.random() < .4:
            res += self.indep(prefix + [INDEP], depth - 1, lex)
        if depth > 0 and r.random() < .4:
            res += self.dep(prefix + [DEP], depth - 1, lex)
        return res

    def indep(self, prefix, depth, lex):
        if depth > 0 and self.r.random() < .3:
            return self.junction(prefix, depth - 1, lex, self.indep)
        return [(prefix, lex())]

    def junction(self, prefix, depth, lex, f):
        link = self.r.choice(LINKS)
        n = self.r.choice([1, 2, 2, 2, 3])
        if depth == 0 and self.r.random() < .03:
            n = self.r.choice([11, 12])
        res = []
        for i in range(n):
            res += f(prefix + [link, INDEXES[i]], depth, lex)
        return res

    def entries(self, depth=2, groups=.15, lex=None):
        r = self.r
        lex = lex or (lambda: self.lexeme(groups=groups))
        z = r.random()
        if z < .35:
            return self.dep([DEP], depth, lex)
        if z < .5:
            return self.indep([INDEP], depth, lex)
        res = [([r.choice(VALENCES)], lex())]
        for a in r.sample(ACTANTS, r.choice([0, 1, 1, 2, 3])):
            res += self.dep([a], depth - 1, lex)
        return res

    def damage(self, l):
        """a list of entries that is (most of the time) not the one of a word"""
        r = self.r
        l = [(list(a), x) for a, x in l]
        i = r.randrange(len(l))
        a, x = l[i]
        z = r.random()
        if z < .2:
            del l[i]
        elif z < .3:
            l.append((list(a), x))
        elif z < .45 and a:
            a[r.randrange(len(a))] = r.choice(VALENCES + ACTANTS + [DEP, INDEP] * 3 + LINKS[:4] + INDEXES[:4])
        elif z < .6:
            a.insert(r.randrange(len(a) + 1), r.choice(VALENCES + ACTANTS + [DEP, INDEP] * 3 + LINKS[:4] + INDEXES[:4]))
        elif z < .75 and a:
            del a[r.randrange(len(a))]
        elif z < .79 and any(e in LINKS for b, _ in l for e in b):
            # a second junction, with another link, at the same place
            b = r.choice([b for b, _ in l if any(e in LINKS for e in b)])
            j = r.choice([k for k, e in enumerate(b) if e in LINKS])
            new = r.choice(LINKS[:6])
            more = [(b[:j] + [new] + c[j + 1:], y) for c, y in l if c[:j + 1] == b[:j + 1]]
            l = l + more if r.random() < .7 else l + more[:1]
        elif z < .85:
            # another numbering of the members of a junction
            j = {e for b, _ in l for e in b if e in INDEXES}
            if j:
                old = r.choice(sorted(j))
                new = r.choice(INDEXES[:5])
                l = [([new if e == old else e for e in b], y) for b, y in l]
            else:
                l.append(([r.choice(VALENCES)], x))
        elif z < .93:
            l.append(([r.choice(ACTANTS + [DEP, INDEP])], x))
        else:
            l.append((['wa.'], x))
        return l or [([DEP], '()')]

    def word(self, depth=2, groups=.15, damaged=0.0, lex=None):
        r = self.r
        l = self.entries(depth, groups, lex)
        if r.random() < damaged:
            l = self.damage(l)
        return self.word_text(l)

    def word_text(self, l, focus=None):
        r = self.r
        l = list(l)
        r.shuffle(l)
        foc = {r.randrange(len(l))}
        if r.random() < self.odd:
            foc = set() if r.random() < .3 else {r.randrange(len(l)), r.randrange(len(l))}
        parts = []
        for i, (a, x) in enumerate(l):
            p = ('!' + self.opt() + ' ' if i in foc else '') + self.sp().join(self.write(e) for e in a)
            parts.append(p + (self.sp() if r.random() < .8 else '') + x)
        return '[' + self.opt() + (self.opt() + ' > ').join(parts) + self.opt() + ']'

    def text(self, **k):
        z = self.r.random()
        if z < .05:
            return self.write(self.r.choice(SINGULAR + PARADIGM + NULLS))
        if z < .35:
            return self.polymorpheme()
        if z < .6:
            return self.lexeme()
        return self.word(**k)

    def mutate(self, t):
        """change of some tokens"""
        r = self.r
        toks = re.findall(r"m\d+|[A-Za-z][A-Za-z:.\-',_;+]*|\S", t)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if not toks:
                break
            i = r.randrange(len(toks))
            z = r.random()
            if z < .3:
                del toks[i]
            elif z < .45:
                toks.insert(i, toks[r.randrange(len(toks))])
            elif z < .6:
                j = r.randrange(len(toks))
                toks[i], toks[j] = toks[j], toks[i]
            elif z < .85:
                toks.insert(i, r.choice(['(', ')', '[', ']', '>', '!', 'm1', 'm2', 'm3', 'a.', 'wo.', 'E:A:.', 'E:U:.', '()', 'm1(', '()(']))
            else:
                toks[i] = r.choice(['(', ')', '[', ']', '>', '!', 'm1', 'E:A:.', 'E:U:.', 'E:S:.', 'E:.n.-', 'a.', 'a', 'U:.:', 'U:+a.'])
        return ' '.join(toks)
