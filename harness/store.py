"""What is read from a database, as plain data. The USLs of the histories are those of spec/IEMLStore.tla."""
import csv
import hashlib
import io
import os

from ieml.constants import DESCRIPTORS_CLASS, LANGUAGES, STRUCTURE_KEYS

LONG_A = "wa.-wa.-wa.-'wa.-wa.-wa.-'wa.-wa.-wa.-',wa.-wa.-wa.-'wa.-wa.-wa.-'wa.-wa.-wa.-',wa.-wa.-wa.-'wa.-wa.-"
LONG_B = "-'wa.-wa.-wa.-',_"

WIDE = '漢' * 31
# canonical text, other writings
UNIV = [
    ('a.', ['A:B:.', 'A:B:E:.']), ('y.', ['U:S:.']), ('O:M:.', ['O:M:E:.']), ('O:M:.+M:O:.', ['M:O:.+O:M:.']),
    ('M:O:.', []), ('O:O:.', []),
    (LONG_A + 'wa.' + LONG_B, []), (LONG_A + 'wo.' + LONG_B, []), (LONG_A + 'O:O:.' + LONG_B, []),
    ('wo. wa.', ['wa. wo.', 'wa.  wo.']), ('wo. wa. y.', ['y. wa. wo.']),
    ('m1(wo. wa. y.)', ['m1(wa. wo. y.)']), ('wo. m1(wa. y.)', ['wo. m1(y. wa.)']),
    ('()(a.)', ['() (a.)']), ('(wo.)(a. b.)', ['(wo.)(b. a.)']), ('(m1(a. b.))(wo.)', ['(m1(b. a.))(wo.)']),
    ('()(' + LONG_A + 'wo.' + LONG_B + ')', []),
    ('()(' + LONG_A + 'wo.' + LONG_B + ' ' + LONG_A + 'wa.' + LONG_B + ')', []),
    ('()(' + LONG_A + 'wo.' + LONG_B + ' ' + LONG_A + 'y.' + LONG_B + ')', []),
    ('[! E:A:.  ()(m1(a. b.)) > E:A:. E:A:. (m1(wo. wa. y. e.))(m1(a. s. b. t.))]', []),
    ('[! E:A:.  ()(y.) > E:A:. E:A:. ()(o.)] [>role>! E:A:.>content>constant>y. "z"] [>role>E:A:. E:A:.>content>constant>o. "t t"]', []),
    ('[! E:A:.  ()(m1(a. b.)) > E:A:. E:A:. ()(o.)] [>role>! E:A:.>content>group_0 1>a. "z"] [>role>E:A:. E:A:.>content>constant>o. "t t"]', []),
    ('[! E:A:.  (wa.)]', ['[! E:A:. (wa.)]']), ('[! E:A:.  ()(m1(a. b.))]', ['[! E:A:. ()(m1(b. a.))]']),
    ('[! E:A:.  (wo.)(a.) > E:A:. E:A:. ()(b.)]', ['[! E:A:. (wo.)(a.) > E:A:. E:A:. ()(b.)]']),
    ('[! E:A:.  ()(y.) > E:A:. E:A:. ()(o.)] [>role>E:A:. E:A:.>content>constant>o. "t t"]', []),
    ('[! E:A:.  ()(y.) > E:A:. E:A:. ()(o.)] [>role>E:A:. E:A:.>content>constant>o. "t u"]', []),
    # values that can not be in the name of a file
    ('[! E:A:.  ()(y.)] [>role>! E:A:.>content>constant>y. "x/y"]', []),
    ('[! E:A:.  ()(y.)] [>role>! E:A:.>content>constant>y. "x|y"]', []),
    ('()(y.) [> "../\\"x\\\\c/\r"]', []), ('()(y.) [> "b\\\\c"]', []), ('y. o. [> "/"]', []),
    ('()(y.) [> "' + WIDE * 2 + '"]', []), ('()(y.) [> "' + WIDE * 2 + '漢"]', []),
]
CANON = {r: i for i, rs in UNIV for r in [i] + rs}
BAD = ['(', 'a', 'O:M:', 'a. )', '[! a.', 'zz']

VALUES = ['v', ' v ', 'v w', 'w', 'say "hi"', '"', 'a\nb', 'a\\nb', '', '  ', '\n', 'NA', '1', '1.0', 'True', 'null', 'é漢', 'x\ry', 'x\r\ny', '\r\n\r\nz\n',
          '\tq\t', "it's", '\\', '\\"', 'x" fr comments "y', '#', 'a,b', 'nan', 'v v', '""', '- -', '<b>', 'r\u2028s', "v'", '|']
BOOL = ['bool:True', 'bool:False', 'True', 'false', 'true', 'yes', '2']
INHIB = ['opposed', 'opposed', 'twin', 'father_substance', 'contains', 'Opposed', ' twin']


def val(v):
    return {'bool:True': True, 'bool:False': False}.get(v, v)


def edit(db, e):
    """executes one edit of a history"""
    o = lambda x: x if x != '' else None
    a = e['a']
    if a == 'add':
        db.add_descriptor(e['i'], e['l'], e['c'], e['v'])
    elif a == 'rem':
        db.remove_descriptor(e['i'], o(e['l']), o(e['c']), e['v'] if e['hv'] else None)
    elif a == 'sadd':
        db.add_structure(e['i'], e['k'], val(e['v']))
    elif a == 'srem':
        db.remove_structure(e['i'], o(e['k']), val(e['v']) if e['hv'] else None)
    elif a == 'put':
        p = os.path.join(db.folder, e['i'])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fp:
            fp.write(e['v'])
    elif a == 'unput':
        p = os.path.join(db.folder, e['i'])
        if os.path.exists(p) and not e['i'].startswith('.'):
            os.remove(p)
    elif a != 'look':
        raise KeyError(a)


def rows_of(data, kind):
    n = 4 if kind == 'desc' else 3
    return [r for r in csv.reader(io.StringIO(data.decode('utf8'), newline=''), delimiter=' ', quotechar='"') if r and len(r) == n or r]


def as_file(path, data):
    """[kind, ieml, path with the hash of a long name replaced by #, rows] of a file of the database"""
    kind = 'desc' if path.endswith('.desc') else 'ieml' if path.endswith('.ieml') else 'other'
    if kind == 'other':
        return [kind, path, path, [[data.decode('utf8', 'replace')]]]
    rows = rows_of(data, kind)
    name = os.path.basename(path)[:-5]
    iemls = sorted({r[0] for r in rows})
    ieml = iemls[0] if len(iemls) == 1 else name if not iemls else 'several: ' + ' '.join(iemls)
    if not rows:  # an empty file has only its name
        for i, _ in UNIV:
            if name == i or '|' in name and name.endswith('|' + hashlib.sha224(i.encode()).hexdigest()[:10]):
                ieml = i
    return [kind, ieml, as_path(ieml, path), [r[1:] for r in rows]]


def as_path(ieml, path):
    h = hashlib.sha224(ieml.encode('utf8')).hexdigest()[:10]
    if os.path.basename(path)[:-5].endswith('|' + h):
        path = path[:-5][:-10] + '#' + path[-5:]
    return path


def read_files(folder):
    res = []
    for base, dirs, files in os.walk(folder):
        dirs[:] = sorted(d for d in dirs if d != '.git')
        for f in sorted(files):
            p = os.path.join(base, f)
            rel = os.path.relpath(p, folder)
            if rel.startswith('.'):
                continue
            with open(p, 'rb') as fp:
                res.append(as_file(rel, fp.read()))
    return res


def read_values(db, ask):
    d = db.get_descriptors()
    return [[i, l, c, list(v)] for i in ask for l in LANGUAGES for c in DESCRIPTORS_CLASS
            for v in [d.get_values(i, l, c)] if v]


def read_partial(db, ask, r):
    d = db.get_descriptors()
    res = []
    for i in ask:
        l, c = r.choice(['', 'fr', 'en']), r.choice([''] + list(DESCRIPTORS_CLASS[:3]))
        got = d.get_values_partial(i, l or None, c or None)
        res.append([i, l, c, [[k[0], k[1], k[2], list(v)] for k, v in got.items()]])
    return res


def read_full(db, ask):
    d = db.get_descriptors()
    res = []
    for i in ask:
        got = d.get_descriptor(i)
        res.append([i, [[l, c, list(got[c][l])] for c in got for l in got[c]]])
    return res


def read_structure(db, ask, r):
    s = db.get_structure()
    svals = [[i, k, list(s.get_values(i, k))] for i in ask for k in STRUCTURE_KEYS]
    spart = []
    for i in ask:
        k = r.choice([''] + list(STRUCTURE_KEYS))
        got = s.get_values_partial(i, k or None)
        spart.append([i, k, [[q[0], q[1], list(v)] for q, v in got.items()]])
    return svals, spart


def read_only(db, ask, r):
    """the descriptors of some of the files"""
    res = []
    for k in (r.randrange(3), len(ask)):
        names = r.sample(ask, min(k, len(ask)))
        names = [i for i in names if os.path.isfile(db.path_of(i))]
        d = db.get_descriptors(files_list=[os.path.relpath(db.path_of(i), db.folder) for i in names])
        rows = {}
        for (i, l, c), (v,) in d.df.iterrows():
            rows.setdefault((i, l, c), []).append(v)
        res.append([names, [[*k, v] for k, v in rows.items()]])
    return res


def type_of(u):
    from ieml.dictionary.script import Script
    from ieml.usl.decoration.instance import InstancedUSL
    u = u.usl if isinstance(u, InstancedUSL) else u
    return 'morpheme' if isinstance(u, Script) else type(u).__name__.lower()


def read_parsed(db, r):
    from common import attempt
    asked = r.sample([('', '')] + [(t, p) for t in TYPES for p in ('', 'yes', 'no')], 4)
    ok, got = attempt(lambda: [(t, p, db.list(t or None, {'': None, 'yes': True, 'no': False}[p], parse=True)) for t, p in asked])
    if not ok:
        return dict(ok=False, err=got)
    return dict(ok=True, rows=[[t, p, [str(u) for u in q], [type_of(u) for u in q]] for t, p, q in got])


def read_paths(db, ask):
    """path_of, given the unit"""
    from ieml.usl.parser import IEMLParser
    res = []
    for i in ask:
        u = IEMLParser().parse(i)
        for k in ('desc', 'ieml'):
            res.append([i, k, as_path(i, os.path.relpath(db.path_of(u, descriptor=k == 'desc'), db.folder))])
    return res


TYPES = ['morpheme', 'polymorpheme', 'lexeme', 'word']


def read_lists(db, r):
    from ieml.dictionary.script import Script
    from ieml.usl import Lexeme, PolyMorpheme, Word
    classes = dict(polymorpheme=PolyMorpheme, lexeme=Lexeme, word=Word)
    res = []
    for t, p in [('', '')] + [(t, p) for t in TYPES for p in ('', 'yes', 'no')]:
        # the type is given by its name or by its class
        got = db.list(classes[t] if t in classes and r.random() < .3 else t or None, {'': None, 'yes': True, 'no': False}[p])
        res.append([t, p, [str(x) for x in got]])
    return res
