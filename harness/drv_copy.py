"""Driver of the copies (C27)."""
from common import attempt
from copies import Space, Away
from drv_deco import VALUES, esc
from drv_path import PGen, rooms
from drv_usl import _bound
from drv_dict import NOCONTENT, NOTABLES, norelations, build, content, forest, relations, jobs
from gen import Gen

UNITS = ['E:', 'E:.', 'a.', 'O:', 'O:M:.', 'wa.', 'a. b.', 'm1(wo. wa. y.)', 'a. m2(b. c. d.)', '()(a.)', '(wo.)(m1(a. b.))', '()', '[! E:A:.  (wo.)(a.) > E:A:. E:A:. ()(b.)]',
         '[! E:A:.  ()(m1(a. b.))]', "E:O:O:.", "s.+b.", "O:M:.M:M:.-", '(m1(E:U:U:. E:U:A:.))(a.)', 'U:+S:', 'I:', "c.-'", "M:.-',M:.-',S:.-'S:.-'S:.-',_"]
HOWS = ['copy', 'deep', 'pickle', 'away']
QS = dict(unit=['text', 'ss', 'class', 'empty', 'valid', 'morphs', 'paths', 'order', 'same'], deco=['text', 'ss', 'class', 'empty', 'valid', 'morphs', 'paths', 'same'],
          path=['text', 'class', 'same'])


def history(r, kind):
    n = 1
    hist = []
    for _ in range(r.choice([2, 3, 5, 8])):
        if r.random() < .4 and n < 4:
            hist.append(dict(a='copy', o=r.randint(1, n), w=r.choice(HOWS)))
            n += 1
        else:
            hist.append(dict(a='ask', o=r.randint(1, n), w=r.choice(QS[kind])))
    return hist


def replay(here, away, r, kind, text, nb, hist):
    """the answers of the object and of all its copies"""
    spaces = [here, away]
    ans = []
    objs = []

    def ask(o, q):
        sp, i = o
        ok, v = attempt(spaces[sp].ask, i, q, kind, text, nb)
        ans.append(dict(v, q=q) if ok else dict(q=q, s='raised ' + v, l=[]))

    first = r.choice([0, 0, 1])
    ok, i = attempt(spaces[first].make, kind, text)
    if not ok:
        return None
    objs.append((first, i))
    for h in hist:
        o = objs[(h['o'] - 1) % len(objs)]
        if h['a'] == 'ask':
            if h['w'] in QS[kind]:
                ask(o, h['w'])
        else:
            sp, i = o
            proto = r.choice([0, 1, 2, 3, 4, 4, 5])
            ok, v = attempt(lambda: (1 - sp, spaces[1 - sp].load(spaces[sp].dump(i, proto))) if h['w'] == 'away' else (sp, spaces[sp].copy(i, h['w'], proto)))
            ans.append(dict(q='copy', s='ok' if ok else 'raised %s by %s' % (v, h['w']), l=[]))
            if ok:
                objs.append(v)
    for o in objs:
        for q in r.sample(QS[kind], len(QS[kind])):
            if q in ('text', 'same') or r.random() < .5:
                ask(o, q)
    seen = []
    for a in ans:
        if a not in seen:
            seen.append(a)
    return seen


def c27(rec, tier, seed, cases):
    ok = dict(q='same', s='ok', l=[])
    rec.canary(op='copy', k='unit', nb='a.', ans=[ok, dict(q='same', s='hash', l=[])], **{'in': 'a. b.'})
    rec.canary(op='copy', k='unit', nb='a.', ans=[ok, dict(q='ss', s='1', l=['a. b.'])], **{'in': 'a. m1(b. c.)'})
    rec.canary(op='copy', k='unit', nb='a.', ans=[ok, dict(q='order', s='less', l=[])], **{'in': 'a. m1(b. c.)'})
    rec.canary(op='copy', k='deco', nb='', ans=[ok, dict(q='text', s='a. b.', l=[])], **{'in': 'a. b. [>constant>a. "x"]'})
    rec.canary(op='copy', k='path', nb='', ans=[ok, dict(q='text', s='>constant', l=[])], **{'in': '>constant>a.'})
    rec.canary(op='box', ins=['a.', 'b.'], copy='ok', list=['a.', 'b.'], set=['a.', 'b.'], found=False, shared=True)
    n = 120 if tier == 'quick' else 1500
    here, away = Space(), Away(1000 + seed)
    g = PGen(seed, blanks=.03, odd=.05, alias=.08)
    s = Gen(seed)
    r = g.r
    texts = [(t, 'unit') for t in UNITS] + [(c['t'], 'unit') for c in cases[:1]]
    for _ in range(n):
        texts.append((s.text(layers=r.choice([(0,), (1, 1, 2), (2, 3), (3, 4, 5)]), budget=r.choice([1, 6, 30])), 'unit'))
        texts.append((r.choice([g.polymorpheme, g.lexeme, lambda: g.word(depth=r.choice([0, 1, 1, 2]), groups=.2)])(), 'unit'))
        texts.append((g.path(), 'path'))
    decos = []
    for t, k in texts:
        if k == 'unit':
            okk, u = attempt(here.parse, t)
            if okk and type(u).__name__ in ('PolyMorpheme', 'Lexeme', 'Word') and rooms(u):
                ps = [str(p) for p, _ in u.iter_structure_path()] + ['>']
                if ps:
                    decos.append((t + ' ' + ' '.join('[%s "%s"]' % (r.choice(ps), esc(r.choice(VALUES))) for _ in range(r.choice([1, 1, 2, 4]))), 'deco'))
    texts += decos
    good = []
    for t, k in texts:
        okk, u = attempt(here.read, k, t)
        if not okk or k == 'unit' and type(u).__name__ == 'InstancedUSL' or k == 'deco' and type(u).__name__ != 'InstancedUSL':
            continue
        if k != 'path':
            v = u.usl if k == 'deco' else u
            if (_bound(v) if type(v).__name__ in ('PolyMorpheme', 'Lexeme', 'Word') else v.cardinal) > 40:
                continue
        good.append((t, k))
    units = [t for t, k in good if k == 'unit']
    hs = [c['hist'] for c in cases]
    r.shuffle(hs)
    for j, (t, k) in enumerate(good):
        nb = r.choice(units) if k == 'unit' else ''
        for h in [history(r, k)] + ([hs[j % len(hs)]] if hs else []):
            ans = replay(here, away, r, k, t, nb, h)
            rec(op='copy', k=k, nb=nb, ans=ans if ans is not None else [dict(q='copy', s='not read again', l=[])], hist=h, **{'in': t})
    for c in cases[:0 if not cases else n]:
        ans = replay(here, away, r, 'unit', c['t'], c['t'], c['hist'])
        rec(op='copy', k='unit', nb=c['t'], ans=ans if ans is not None else [dict(q='copy', s='not read', l=[])], hist=c['hist'], **{'in': c['t']})
    spaces = [here, away]
    for _ in range(n // 2):
        ts = r.sample(units, r.choice([1, 2, 4, 8]))
        first = r.randrange(2)
        how = r.choice(HOWS)
        proto = r.choice([0, 2, 4, 5])

        def box():
            sp = spaces[first]
            i = sp.makebox(ts)
            for q in range(r.choice([0, 1])):
                sp.askbox(i, ts)
            if how == 'away':
                sp2 = spaces[1 - first]
                return sp2.askbox(sp2.load(sp.dump(i, proto)), ts)
            return sp.askbox(sp.copy(i, how, proto), ts)
        okk, d = attempt(box)
        rec(op='box', ins=ts, copy='ok' if okk else 'raised ' + d, how=how, **(d if okk else dict(list=[], set=[], found=False, shared=False)))
    # the copies of a dictionary, whether its tables and relations were computed before or not
    for par, rows in jobs(tier, seed, [], 40, n // 5):
        first, how, proto, used = r.randrange(2), r.choice(HOWS), r.choice([2, 4, 5]), r.random() < .5
        if not attempt(build, par, rows)[0]:
            continue

        def dic():
            i = spaces[first].makedict(par, rows, used)
            if how == 'away' or first == 1:
                return here.objs[here.load(spaces[first].dump(i, proto))] if first == 1 else here.objs[here.load(away.dump(away.load(here.dump(i, proto)), proto))]
            return here.objs[here.copy(i, how, proto)]
        okk, d = attempt(dic)
        for op, f, none in (('content', content, NOCONTENT), ('tables', forest, NOTABLES), ('rel', relations, norelations())):
            if okk and not len(d.scripts):
                continue
            k2, v = attempt(f, d, r, par) if okk else (False, d)
            rec(op=op, par=par, rows=rows, ok=okk, how=how, **(v if k2 else dict(none, raised=v)))
    away.close()
