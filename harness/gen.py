"""Random generation of IEML texts (any writing, not only the canonical one) and of their mutations.

Nothing of the code under test is used here: the texts are judged by the TLA+ specification."""
import random

PRIM = 'EUASBT'
REMADD = 'OMFI'
MARKS = ":.-',_;"
REMMUL = ['wo', 'wa', 'y', 'o', 'e', 'wu', 'we', 'u', 'a', 'i', 'j', 'g', 's', 'b', 't', 'h', 'c', 'k', 'm', 'n', 'p',
          'x', 'd', 'f', 'l']
REMADD_SIZE = {'O': 2, 'M': 3, 'F': 5, 'I': 6}


class Gen:
    def __init__(self, seed, blanks=0.0):
        self.r = random.Random(seed)
        self.blanks = blanks

    def null(self, l):
        return 'E' + MARKS[:l + 1]

    def sp(self):
        return ' ' if self.blanks and self.r.random() < self.blanks else ''

    # every method returns a text and a bound on the number of singular sequences
    def atom(self, budget, plural):
        r = self.r
        if plural and budget >= 2 and r.random() < .6:
            c = r.choice([c for c in REMADD if REMADD_SIZE[c] <= budget])
            return c + self.sp() + ':', REMADD_SIZE[c]
        return r.choice(PRIM + 'UASBT') + self.sp() + ':', 1

    def single(self, l, budget, plural=.5):
        """a morpheme of layer l that is not a sum"""
        r = self.r
        if l == 0:
            return self.atom(budget, r.random() < plural)
        if r.random() < .07:
            return self.null(l), 1
        if l == 1 and r.random() < .3:
            return r.choice(REMMUL) + self.sp() + '.', 1
        n = r.choice([1, 2, 2, 3])
        parts, size = [], 1
        order = list(range(n))
        r.shuffle(order)
        parts = [None] * n
        for i in order:
            if r.random() < .12:
                parts[i] = self.null(l - 1)
                continue
            t, s = self.sum(l - 1, max(1, budget // size), plural * (.85 if l > 1 else 1))
            parts[i] = t
            size *= s
        return self.sp().join(parts) + self.sp() + MARKS[l], size

    def sum(self, l, budget, plural=.5):
        r = self.r
        if budget < 2 or r.random() > plural * .6:
            return self.single(l, budget, plural if budget > 1 else 0)
        n = r.choice([2, 2, 2, 3, 4] if r.random() < .85 else [5, 6, 8])
        parts, size = [], 0
        for _ in range(n):
            if size >= budget:
                break
            t, s = self.single(l, max(1, (budget - size) // (2 if n < 5 else n)), plural * .7)
            parts.append(t)
            size += s
        if r.random() < .15:
            parts.append(r.choice(parts))
        r.shuffle(parts)
        return (self.sp() + '+' + self.sp()).join(parts), size

    def text(self, layers=(0, 1, 1, 1, 2, 2, 3), budget=40, plural=.6):
        return self.sum(self.r.choice(layers), budget, plural)[0]

    def product(self, l, dims):
        """a product of layer l whose children have the given numbers of singular sequences (when possible)"""
        parts = []
        for d in dims:
            parts.append(self.sized(l - 1, d))
        return ''.join(parts) + MARKS[l]

    def sized(self, l, n):
        r = self.r
        if n == 1:
            return self.single(l, 1, 0)[0]
        if l == 0:
            for c, s in REMADD_SIZE.items():
                if s == n and r.random() < .8:
                    return c + ':'
            return '+'.join(c + ':' for c in r.sample(PRIM, min(n, 6)))
        for a in r.sample(range(2, n), n - 2) if n > 2 else []:
            if n % a == 0 and r.random() < .6:
                return self.sized(l - 1, a) + self.sized(l - 1, n // a) + MARKS[l]
        if r.random() < .5 and (l > 1 or n <= 6):
            return self.sized(l - 1, n) + (self.sized(l - 1, 1) if r.random() < .4 else '') + MARKS[l]
        return '+'.join(self.single(l, 1, 0)[0] for _ in range(n))

    def mutate(self, t, k=None):
        r = self.r
        t = list(t)
        for _ in range(k or r.choice([1, 1, 2, 3])):
            o = r.random()
            i = r.randrange(len(t)) if t else 0
            if o < .4 and t:
                del t[i]
            elif o < .7:
                t.insert(i, r.choice(PRIM + REMADD + MARKS + MARKS + '+' + 'aeosw'))
            elif o < .85 and len(t) > 1:
                j = r.randrange(len(t))
                t[i], t[j] = t[j], t[i]
            elif t:
                t[i] = r.choice(PRIM + REMADD + MARKS + '+')
        return ''.join(t)

    def singles(self, l, k):
        """k different singular products of layer l, in increasing order of their texts' bytes"""
        seen = set()
        while len(seen) < k:
            if l == 0:
                seen.add(self.r.choice('UASBT'))
            else:
                seen.add(''.join(self.r.choice('UASBT') for _ in range(3 ** l)))
        out = []
        for t in sorted(seen, key=lambda t: ['UASBT'.index(c) for c in t]):
            parts = [c + ':' for c in t]
            for m in MARKS[1:l + 1]:
                parts = [''.join(parts[i:i + 3]) + m for i in range(0, len(parts), 3)]
            out.append(parts[0])
        return out

    def twins(self):
        """morphemes of the same layer and cardinal, with the same canonical bytes but different children, at several
        depths: the groups of addends are split differently between the children of a product"""
        r = self.r
        l = r.choice([1, 1, 1, 2])
        k = r.choice([3, 4])
        a = self.singles(l, k)
        if k == 3:
            g = ['%s+%s%s' % tuple(a), '%s%s+%s' % tuple(a)]
        else:
            g = ['%s+%s%s%s' % tuple(a), '%s%s+%s%s' % tuple(a), '%s%s%s+%s' % tuple(a)]
        g = [t + MARKS[l + 1] for t in g]
        for _ in range(r.choice([0, 1, 1, 2])):
            l += 1
            if l > 4:
                break
            z = r.random()
            if z < .3:
                g = [t + MARKS[l + 1] for t in g]
            elif z < .6:
                o = r.choice(self.singles(l, 2)) if l < 3 else ''
                g = [(o + t if z < .45 else t + o) + MARKS[l + 1] for t in g]
            else:
                g = [t + u + MARKS[l + 1] for t in g for u in g][:5]
        return g

    def shapes(self):
        """morphemes of the same layer and cardinal made of the same increasing singular sequences, cut at random into
        sums of products"""
        r = self.r
        l = r.choice([1, 1, 2])
        k = r.choice([5, 6, 7, 9])
        a = self.singles(l, k) if l > 1 or k < 9 else self.singles(1, k)

        def cut(q, n):
            c = [0, *sorted(r.sample(range(1, len(q)), n - 1)), len(q)]
            return [q[i:j] for i, j in zip(c, c[1:])]

        def product(q):
            return [len(p) for p in q], ''.join('+'.join(p) for p in q) + MARKS[l + 1]
        by = {}
        for _ in range(300):
            terms = cut(a, r.choice([1, 2, 2, 3]))
            n, t = 0, []
            for q in terms:
                d, x = product(cut(q, r.randrange(1, min(3, len(q)) + 1)))
                z = 1
                for e in d:
                    z *= e
                n += z
                t.append(x)
            if n > 1:
                by.setdefault(n, set()).add('+'.join(t))
        # the candidates that mix a product and sums
        g = [sorted(x) for x in by.values() if len(x) > 1]
        g.sort(key=lambda x: (-len({t.count(MARKS[l + 1]) for t in x}), x))
        if not g:
            return a
        x = r.choice(g[:4])
        one = [t for t in x if t.count(MARKS[l + 1]) == 1]
        x = r.sample(x, min(5, len(x))) + one[:2]
        if r.random() < .3:
            x = [t + MARKS[l + 2] for t in x]
        return list(dict.fromkeys(x))

    def regroup(self, l=None):
        """a product and sums with the same singular sequences, grouped differently, or some of them only"""
        r = self.r
        if l is None:
            l = r.choice([1, 1, 2, 3])
        sets = []
        for i in range(3):
            n = r.choice([1, 2, 2, 3]) if i < 2 else r.choice([1, 1, 2])
            sets.append(self.singles(l - 1, n))
        if all(len(s) == 1 for s in sets):
            sets[0] = self.singles(l - 1, 2)

        def prod(ss):
            return ''.join('+'.join(s) for s in ss) + MARKS[l]

        def split(ss):
            i = r.choice([i for i in range(3) if len(ss[i]) > 1])
            c = r.randrange(1, len(ss[i]))
            return [[ss[j] if j != i else ss[i][:c] for j in range(3)], [ss[j] if j != i else ss[i][c:] for j in range(3)]]
        whole = [sets]
        out = [prod(sets)]
        for _ in range(3):
            parts = [sets]
            for _ in range(r.choice([1, 1, 2, 3])):
                big = [p for p in parts if any(len(s) > 1 for s in p)]
                if not big:
                    break
                b = r.choice(big)
                parts.remove(b)
                parts += split(b)
            if r.random() < .3 and len(parts) > 1:
                parts.pop(r.randrange(len(parts)))
            if r.random() < .3:
                parts.append(r.choice([sets, parts[0]]))
            out.append('+'.join(prod(p) for p in parts))
        return out
