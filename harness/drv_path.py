"""Driver of the paths inside of the units (C15)."""
from common import attempt, strs
from gen_usl import UGen, FLEXIONS, SINGULAR, VALENCES, ACTANTS, LINKS, INDEXES, ALIAS

REFUSALS = ('CannotParse', 'DeferenceError', 'ValueError', 'TooManySingularSequences')
NAMES = ['process', 'process_1', 'process_2', 'initiator', 'interactant', 'recipient', 'time', 'location', 'intention', 'manner', 'cause', 'dependant',
         'independant', 'and', 'or (inclusive)', 'or (exclusive)', 'is the cause of the precedent (because)', 'is more than the precedent',
         'is the same as the precedent', '*1', '*2', '*9', '*10', '*11', '*12', 'is the worst of the precedent', 'explains the precedent']
FIXED = ['>', '', 'constant', '>>', '>role', '>role>', '>role>!', '>role>! E:A:.', '>role>E:A:.>content', '>role>E:A:.>a.', '>role>E:A:.>content>constant>a.',
         '>content>a.', '>flexion>constant>a.', '>flexion>constant', '>flexion>group_0', '>flexion>a.', '>flexion', '>content', '>content>', '>content>flexion',
         '>constant', '>constant 1', '>constant 2>a.', '>constant>', '>constant>a. b.', '>group_0', '>group_1 2', '>group_3', '>group_2 3>a.', '>group_5>a.',
         '>group_0 12>a.', '>group_0 0', '>group_0>A:B:.', '>a.', '>A:B:.', '>a.>b.', '>role>a.', '>role>a.>content', '>role>process>content', '>role>! process',
         '>role>initiator dependant', '>role>dependant is the cause of the precedent (because) *1 independant>flexion>E:.wo.-', '>role>dependant and *10>content',
         '>role>*10', '>role>*1 0', '>role>E:S:.-k.u.-\'', '>content>constant>U:+a.', '>constant>I:I:I:.I:.-', '> role > ! E:A:.\t> content > group_0 2 > a.', '>role>! ! E:A:.',
         '>role>E:A:. ! E:U:.', '>group_0 2 2>a.', 'a.', '> >a.', '>constant>constant>a.', '>role>role>E:A:.', '>content>content', '>role>E:A:E:. E:U:E:.>content>constant>U:A:.']


class PGen(UGen):
    """units whose flexions are (most of the time) morphemes of the paradigms of flexion"""
    def flexion(self):
        r = self.r
        c, gs = [], []
        many = r.random() < .3
        for f in r.sample(FLEXIONS, 3 if many else r.choice([1, 1, 2, 3])):
            k = r.choice([2, 3] if many else [1, 1, 2, 3])
            ms = r.sample(f, min(k, len(f)))
            if len(ms) == 1:
                c += ms
            elif len(gs) < 3:
                gs.append([ms, 1])
        if r.random() < .3:
            c.append(r.choice(SINGULAR))
        return self.pm_text((list(dict.fromkeys(c)), gs))

    def lexeme(self, groups=.3, big=False):
        r = self.r
        if r.random() < .15:
            return UGen.lexeme(self, groups, big)
        z = r.random()
        P = self.pm_text(self.pm(groups=groups, big=big))
        if z < .15:
            return '(%s)' % self.flexion()
        if z < .35:
            return '()(%s)' % P
        if z < .4:
            return '()'
        return '(%s)(%s)' % (self.flexion(), P)

    def path(self):
        r = self.r
        t = ''
        z = r.random()
        if z < .5:
            a = [r.choice(VALENCES + ACTANTS + ['E:A:.', 'E:U:.'])] + r.choice([[], [], ['E:U:.'], ['E:A:.'], ['E:A:.', 'E:U:.'],
                 [r.choice(LINKS), r.choice(INDEXES)], ['E:A:.', r.choice(LINKS), r.choice(INDEXES), 'E:U:.']])
            if r.random() < .4:
                a = [r.choice(NAMES) for _ in a]
            t = '>%srole%s>%s%s%s' % (self.opt(), self.opt(), self.opt(), r.choice(['', '! ', '!']), self.sp().join(self.write(e) for e in a))
            if r.random() < .2:
                return t
        if z < .8:
            t += '>%s%s' % (self.opt(), r.choice(['content', 'content', 'flexion']))
            if r.random() < .2:
                return t
        m = self.write(r.choice(SINGULAR))
        if t.endswith('flexion') or (not t and r.random() < .15):
            return t + '>' + self.opt() + m + self.opt()
        t += '>%s%s' % (self.opt(), r.choice(['constant', 'group_0', 'group_1', 'group_2', 'group_0 1', 'group_0 2', 'group_1 1', 'group_2 3',
                                             'group_%d %d' % (r.randrange(3), r.randrange(10))]))
        if r.random() < .8:
            t += self.opt() + '>' + m
        return t

    def spoil_path(self, t):
        r = self.r
        toks = [x for x in t.replace('>', ' > ').split(' ') if x]
        i = r.randrange(len(toks))
        z = r.random()
        if z < .35:
            del toks[i]
        elif z < .6:
            toks.insert(i, r.choice(['>', '!', 'a.', 'E:A:.', 'content', 'flexion', 'constant', 'group_0', '2', 'role', 'process']))
        else:
            toks[i] = r.choice(['>', '!', 'a.', 'E:A:.', 'content', 'flexion', 'constant', 'group_3', 'group_1', '2', 'role', 'cause', 'U:.:', 'U:+a.'])
        return ' '.join(toks)


def refused(ok, v):
    return v if ok else 'refused' if v in REFUSALS else 'raised ' + v


def c15(rec, tier, seed, cases):
    rec.canary(op='path', **{'in': '>content>constant>a.'}, ok=True, out='>content>constant 1>a.', again=True, joined='>content>constant 1>a.', const='>content>constant>a.', isc=True, wm='>content>constant')
    rec.canary(op='path', **{'in': '>group_0 2>a.'}, ok=True, out='>group_0 2>a.', again=True, joined='>group_0 2>a.', const='>constant>a.', isc=True, wm='>group_0 2')
    rec.canary(op='path', **{'in': '>group_5'}, ok=False, out='raised KeyError', again=False, joined='', const='', isc=False, wm='')
    rec.canary(op='paths', **{'in': 'a. m1(b. c.)'}, ok=True, all=[['>constant', 'a.'], ['>constant>a.', 'a.'], ['>group_0 1', 'm1(b. c.)'], ['>group_0 1>b.', 'b.']],
               ss=[['>constant>a.', 'a.'], ['>group_0 1>b.', 'b.']], follow=True, after='a. m1(b. c.)')
    rec.canary(op='deref', **{'in': 'a. m1(b. c.)'}, path='>constant>b.', out='b.', contained=True)
    rec.canary(op='deref', **{'in': '[! E:A:. (a.)]'}, path='>role>E:S:.', out='(a.)', contained=True)
    rec.canary(op='compose', **{'in': 'a. m1(b. c.)'}, pairs=[['>constant>a.', 'a.'], ['>group_0 1>b.', 'b.'], ['>group_0 1>c.', 'c.']], full=True, out='b. m1(a. c.)')
    rec.canary(op='prefix', a='>group_0 1>b.', b='>group_0 1', res=False, rest='', back='')
    rec.canary(op='prefix', a='>role>E:A:.>content', b='>role>E:A:.', res=True, rest='>content>constant', back='')
    from ieml.usl.parser import IEMLParser
    from ieml.usl.decoration.parser.parser import PathParser
    from ieml.usl.decoration.path import usl_from_path_values, path as path_of
    from ieml.usl.usl import usl
    from ieml.dictionary.script import script
    parse = IEMLParser().parse
    pp = PathParser()
    n = 350 if tier == 'quick' else 4000
    g = PGen(seed, blanks=.05, odd=.04, alias=.08)
    r = g.r

    # texts of paths
    texts = list(FIXED) + [c['p'] for c in cases if 'p' in c]
    gen = [g.path() for _ in range(n)]
    texts += gen + [g.spoil_path(r.choice(gen)) for _ in range(n // 2)]
    paths = {}
    for t in dict.fromkeys(texts):
        if not t or not set(t) <= ACCEPTED:
            continue
        ok, q = attempt(pp.parse if r.random() < .7 else path_of, t)
        if ok:
            ok, d = attempt(lambda: dict(out=str(q), again=pp.parse(str(q)) == q and hash(pp.parse(str(q))) == hash(q),
                                         joined=str(q.split_tail()[0].concat(q.split_tail()[1])),
                                         const=str(q.as_constant()), isc=bool(q.is_constant_path), wm=refused(*attempt(lambda: str(q.without_morpheme())))))
            rec(op='path', **{'in': t}, ok=ok, **(d if ok else dict(out='raised ' + d, again=False, joined='', const='', isc=False, wm='')))
            if ok:
                paths[t] = q
        else:
            rec(op='path', **{'in': t}, ok=False, out=refused(ok, q), again=False, joined='', const='', isc=False, wm='')

    # the paths of the units
    units = [c['s'] for c in cases if 's' in c]
    if len(units) > 2 * n:
        units = r.sample(units, 2 * n)
    units += [g.polymorpheme(big=r.random() < .3) if r.random() < .3 else g.lexeme(groups=.5) if r.random() < .4 else
              g.word(depth=r.choice([0, 1, 1, 2]), groups=.3) for _ in range(n)]
    objs = []
    for t in dict.fromkeys(units):
        ok, u = attempt(parse, t)
        if not ok or type(u).__name__ not in ('PolyMorpheme', 'Lexeme', 'Word') or not attempt(lambda: rooms(u))[0] or not rooms(u):
            continue

        def walk():
            a = list(u.iter_structure_path())
            b = list(u.iter_structure_path_by_script_ss())
            return dict(all=[[str(p), str(v)] for p, v in a], ss=[[str(p), str(v)] for p, v in b], after=str(u),
                        follow=all(str(pp.parse(str(p)).deference(u)) == str(v) and p.contained(u) and str(p.deference(u)) == str(v) for p, v in a))
        ok, d = attempt(walk)
        rec(op='paths', **{'in': t}, ok=ok, **(d if ok else dict(all=[], ss=[], follow=False, after='')))
        if ok:
            objs.append((t, u, d))

    known = [p for p, _ in sum((d['all'] for _, _, d in objs[:]), [])]
    known = sorted(set(known))
    extra = sorted(paths)
    # paths of one unit followed in another
    for _ in range(3 * n):
        s, u, d = r.choice(objs)
        z = r.random()
        if z < .3:
            t = r.choice(known)
        elif z < .45 and extra:
            t = r.choice(extra)
        elif z < .52 and any('.-k.u.-' in p for p, _ in d['all']):
            # the role of a junction, that has no lexeme
            a = r.choice([p for p, _ in d['all'] if '.-k.u.-' in p]).split('>')[2].replace('! ', '').split(' ')
            j = r.choice([i for i, x in enumerate(a) if '.-k.u.-' in x])
            t = '>role>' + ' '.join(a[:j + r.choice([0, 0, 0, 1])] or a) + r.choice(['', '', '', '>content', '>content>constant'])
        elif z < .64 and len(d['ss']) > 1:
            # the morpheme of another place of the unit
            a, b = [p for p, _ in r.sample(d['ss'], 2)]
            t = a[:a.rindex('>')] + b[b.rindex('>'):]
        else:
            t = near(r, r.choice(d['all'])[0], known) if d['all'] else '>'
        ok, q = attempt(pp.parse, t)
        if not ok:
            continue
        ok, v = attempt(lambda: str(q.deference(u)))
        rec(op='deref', **{'in': s}, path=t, out=refused(ok, v), contained=attempt(q.contained, u) == (True, True))

    # prefixes
    pool = known + extra
    for _ in range(2 * n):
        a = r.choice(pool)
        z = r.random()
        if z < .5:
            c = a.split('>')
            b = '>'.join(c[:r.randrange(2, len(c) + 1)])
            if r.random() < .4:
                b = other(r, b)
        elif z < .8:
            s, u, d = r.choice(objs)
            if len(d['all']) < 2:
                continue
            a, b = r.choice(d['all'])[0], r.choice(d['all'])[0]
        else:
            b = r.choice(pool)
        ok, x = attempt(pp.parse, a)
        ok2, y = attempt(pp.parse, b)
        if ok and ok2:
            ok, v = attempt(x.has_prefix, y)
            z = attempt(x.remove_prefix, y)[1]
            rec(op='prefix', a=a, b=b, res=bool(v) if ok else 'raised ' + v, rest='' if z is None else str(z),
                back='' if z is None else str(attempt(lambda: y.concat(z))[1]))

    # the units made of their morphemes
    whole = r.sample(objs, min(len(objs), n))
    for i in range(4 * n):
        s, u, d = r.choice(objs) if i >= len(whole) else whole[i]
        pairs = [[p, v] for p, v in d['ss']]
        full = True
        z = r.random()
        if not pairs:
            continue
        if i >= len(whole) and z < .9:
            full = False
            if z < .2:
                pairs = r.sample(pairs, r.randrange(1, len(pairs) + 1))
            elif z < .3:
                p, v = r.choice(pairs)
                m = r.choice(SINGULAR)
                pairs.append([p[:p.rindex('>') + 1] + m, m])
            elif z < .75:
                # another focus, group or multiplicity somewhere, at one path or at all those of the same role
                i = r.randrange(len(pairs))
                p = pairs[i][0]
                if p.startswith('>role>') and r.random() < .6:
                    a = p.split('>')[2]
                    b = a[2:] if a.startswith('! ') else '! ' + a
                    k = r.random() < .7
                    pairs = [[q.replace('>role>' + a + '>', '>role>' + b + '>') if k or j == i else q, v] for j, (q, v) in enumerate(pairs)]
                else:
                    pairs[i][0] = other(r, p)
            else:
                pairs += r.choice(objs)[2]['ss'][:3]
        r.shuffle(pairs)
        how = r.choice([usl_from_path_values, lambda l: usl([(pp.parse(p), script(v)) for p, v in l]), lambda l: usl((pp.parse(p), script(v)) for p, v in l)])
        ok, v = attempt(lambda: str(how([(p, v) for p, v in pairs])))
        rec(op='compose', **{'in': s}, pairs=pairs, full=full, out=refused(ok, v))


ACCEPTED = set("EUASBTOMFIacbedgfihkjmlonpsutwyx:.-',_;+>! \t\n0123456789*()rqv")


def other(r, t):
    """the same path with another focus, multiplicity or group"""
    c = t.split('>')
    i = r.choice([j for j, x in enumerate(c) if x.startswith('group_')] or [0])
    if i and r.random() < .7:
        g = c[i].split(' ')
        c[i] = 'group_%s %s' % ((g[0][6:], r.choice('123456789')) if r.random() < .7 else (r.choice('012'), g[-1] if len(g) > 1 else '1'))
    elif len(c) > 2 and c[1] == 'role':
        c[2] = c[2][2:] if c[2].startswith('! ') else '! ' + c[2]
    return '>'.join(c)


def near(r, t, known):
    c = t.split('>')
    i = r.randrange(1, len(c))
    z = r.random()
    o = r.choice(known).split('>')
    if z < .4:
        c[i] = o[min(i, len(o) - 1)]
    elif z < .6:
        c[-1] = r.choice(SINGULAR)
    elif z < .7:
        c[i] = '! ' + c[i] if not c[i].startswith('! ') else c[i][2:]
    elif z < .8:
        c = c[:i + 1]
    elif len(c) > 2 and c[1] == 'role':
        a = c[2].replace('! ', '').split(' ')
        j = r.randrange(len(a) + 1)
        if z < .9:
            a[min(j, len(a) - 1)] = r.choice(VALENCES + ACTANTS + ['E:A:.', 'E:U:.'] + LINKS[:2] + INDEXES[:3])
        else:
            a = a[:j] + [r.choice(['E:A:.', 'E:U:.'] + LINKS[:2])] + a[j:] if z < .95 else a[:-1] or a
        c[2] = ' '.join(a)
    return '>'.join(c) or '>'


def rooms(u):
    """the paths have room for three groups"""
    k = type(u).__name__
    if k == 'PolyMorpheme':
        return len(u.groups) <= 3 and all(n <= 9 for _, n in u.groups)
    if k == 'Lexeme':
        return rooms(u.pm_flexion) and rooms(u.pm_content)
    return all(rooms(x) for _, x in u.syntagmatic_fun.as_list(u.context_type))
