"""The objects of one process: read, asked, copied. Run as a program: the same behind a pipe, in another process."""
import base64
import copy
import json
import pickle
import sys

from common import attempt, strs


class Space:
    def __init__(self):
        from ieml.usl.parser import IEMLParser
        from ieml.usl.decoration.parser.parser import PathParser
        self.parse = IEMLParser().parse
        self.path = PathParser().parse
        self.objs = []

    def read(self, kind, text):
        return self.path(text) if kind == 'path' else self.parse(text)

    def put(self, x):
        self.objs.append(x)
        return len(self.objs) - 1

    def make(self, kind, text):
        return self.put(self.read(kind, text))

    def makebox(self, texts):
        us = [self.parse(t) for t in texts]
        return self.put(dict(m={u: str(u) for u in us}, l=us + us[:1], s=set(us)))

    def makedict(self, par, rows, used):
        from drv_dict import build, content, relations
        d = build(par, rows)
        if used and len(d.scripts):
            import random
            relations(d, random.Random(0), par)
            content(d, random.Random(0), par)
        return self.put(d)

    def dump(self, i, proto=4):
        return base64.b64encode(pickle.dumps(self.objs[i], proto)).decode()

    def load(self, b):
        return self.put(pickle.loads(base64.b64decode(b)))

    def copy(self, i, how, proto=4):
        x = self.objs[i]
        if how == 'copy':
            return self.put(copy.copy(x))
        if how == 'deep':
            return self.put(copy.deepcopy(x))
        return self.load(self.dump(i, proto))

    def ask(self, i, q, kind, text, nb):
        x = self.objs[i]
        if q == 'text':
            return dict(s=str(x), l=[])
        if q == 'ss':
            return dict(s=str(x.cardinal), l=strs(x.singular_sequences))
        if q == 'class':
            return dict(s=str(x.as_constant() if kind == 'path' else self.cls(x)), l=[])
        if q == 'empty':
            return dict(s='yes' if x.empty else 'no', l=[])
        if q == 'valid':
            return dict(s='yes' if attempt(x.check)[0] else 'no', l=[])
        if q == 'morphs':
            return dict(s='', l=[str(m) for m in (x.morphemes if hasattr(x, 'morphemes') else [x]) if not m.empty])
        if q == 'paths':
            if kind == 'deco':
                return dict(s='', l=['%s = %s' % (d.path, d.value) for d in x.decorations])
            return dict(s='', l=['%s = %s' % (p, v) for p, v in x.iter_structure_path()])
        if q == 'order':
            y = self.read(kind, nb)
            return dict(s='less' if x < y and not y < x else 'greater' if y < x and not x < y else 'equal' if x == y else 'unknown', l=[])
        if q == 'same':
            y = self.read(kind, text)
            if str(y) != str(x):
                return dict(s='other text', l=[])
            bad = [n for n, f in dict(
                eq=lambda: x == y and y == x, ne=lambda: not (x != y) and not (y != x), hash=lambda: hash(x) == hash(y), type=lambda: type(x) is type(y),
                sets=lambda: x in {y} and y in {x} and {x: 1}.get(y) == 1 and {y: 1}.get(x) == 1 and len({x, y}) == 1, lists=lambda: x in [y] and [y].index(x) == 0,
                lt=lambda: kind == 'deco' or not x < y and not y < x).items() if not f()]
            return dict(s=','.join(bad) or 'ok', l=[])

    def cls(self, x):
        from ieml.dictionary.script import Script
        return x.grammatical_class

    def askbox(self, i, texts):
        x = self.objs[i]
        us = [self.parse(t) for t in texts]
        l = x['l']
        return dict(list=strs(l[:-1]), set=strs(x['s']), found=all(u in x['s'] and x['m'].get(u) == str(u) and u in l for u in us) and x['s'] == set(us) and l == us + us[:1]
                    and set(x['m']) == x['s'], shared=l[0] is l[-1])


class Away:
    """the space of another process"""
    def __init__(self, hashseed):
        import os
        import subprocess
        self.p = subprocess.Popen([sys.executable, __file__], env=dict(os.environ, PYTHONHASHSEED=str(hashseed)), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL)

    def __getattr__(self, name):
        def call(*a):
            self.p.stdin.write((json.dumps([name] + list(a)) + '\n').encode())
            self.p.stdin.flush()
            l = self.p.stdout.readline()
            if not l:
                raise RuntimeError('the other process is ended')
            ok, v = json.loads(l)
            if not ok:
                raise type(str(v), (Exception,), {})()
            return v
        return call

    def close(self):
        self.p.stdin.close()
        self.p.stdout.close()
        self.p.wait()


if __name__ == '__main__':
    space = Space()
    for l in sys.stdin:
        name, *a = json.loads(l)
        sys.stdout.write(json.dumps(attempt(getattr(space, name), *a)) + '\n')
        sys.stdout.flush()
