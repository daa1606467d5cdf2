"""What check.py executes for every property."""

SMALL = {'Seeds': '<- SmallSeeds', 'P0': '{"E:", "A:", "M:"}', 'P1': '{"E:.", "wa.", "O:M:."}',
         'P2': '{"E:.-", "M:.-"}', 'LMax': '3', 'NMax': '40', 'Depth': '2'}
LARGE = dict(SMALL, Depth='3')


def mcscript(*inv, quick=SMALL, thorough=LARGE):
    return [dict(module='MCScript', invariants=list(inv) + ['Emit'],
                 quick=dict(constants=quick, timeout=300), thorough=dict(constants=thorough, timeout=3600))]


def script(*inv, **k):
    return dict(dict(mc=mcscript(*inv), driver='drv_script', trace='ScriptTrace', verdict='ScriptVerdict'), **k)


DSMALL = {'RootPool': '{"F:O:.", "M:M:."}', 'Sub': '{"O:O:.", "U:O:.", "S:M:.", "M:O:."}',
          'Inhib': '{"opposed", "father_mode"}', 'Depth': '3'}
DLARGE = {'RootPool': '{"F:O:.", "M:M:.", "O:", "O:O:O:."}', 'Sub': '{"O:O:.", "U:O:.", "S:M:.", "M:O:.", "O:U:O:.", "U:.", "S:M:.+B:M:."}',
          'Inhib': '{"opposed", "father_mode", "associated"}', 'Depth': '4'}


def dictionary(*inv, **k):
    return dict(dict(mc=[dict(module='MCDict', invariants=list(inv) + ['Emit'], quick=dict(constants=DSMALL, timeout=300),
                              thorough=dict(constants=DLARGE, timeout=5000))],
                     driver='drv_dict', trace='DictTrace', verdict='DictVerdict', jobs=4), **k)


def store(kinds, invariants, properties, quick, thorough, **k):
    base = {'Iemls': '{"a.", "A:B:.", "O:M:."}', 'LS': '{"fr", "en"}', 'CS': '{"translations", "comments"}',
            'VS': '{"v", " v", "x y"}', 'KVS': '<- KVSmall', 'Kinds': kinds, 'Depth': '3'}
    return dict(dict(mc=[dict(module='MCStore', invariants=invariants, properties=properties, view='View',
                              action_constraint='Emit', workers=1,
                              quick=dict(constants=dict(base, **quick), timeout=300),
                              thorough=dict(constants=dict(base, **thorough), timeout=3000))],
                     driver='drv_store', trace='StoreTrace', verdict='StoreVerdict', jobs=8), **k)


def git(invariants, properties, quick, thorough, **k):
    return dict(dict(mc=[dict(module='MCGit', invariants=invariants, properties=properties, view='View', action_constraint='Emit', workers=1,
                              quick=dict(constants=quick, timeout=300), thorough=dict(constants=thorough, timeout=3000))],
                     driver='drv_git', trace='GitTrace', verdict='GitVerdict', jobs=8), **k)


USMALL = {'Morphs': '{"a.", "wa.", "b.", "E:"}', 'Mults': '{1, 2}', 'Roles': '<- RolesSmall', 'Lexs': '{"(wo.)", "()"}', 'PMDepth': '2', 'WDepth': '1'}
ULARGE = {'Morphs': '{"a.", "wa.", "b.", "E:", "O:"}', 'Mults': '{1, 2, 3}', 'Roles': '<- RolesLarge', 'Lexs': '{"(wo.)", "()(wo.)"}',
          'PMDepth': '3', 'WDepth': '2'}

T2 = {'Morphs': '{"a.", "E:.wo.-", "E:.wa.-"}', 'Mults': '{1}', 'Roles': '<- Roles1', 'RolesOf2': '<- Roles2', 'Lexs': '{"(wo.)", "()(m1(a. wa.))"}'}


def usl(*inv, quick=USMALL, thorough=ULARGE, **k):
    return dict(dict(mc=[dict(module='MCUsl', invariants=list(inv) + ['Emit'], quick=dict(constants=quick, timeout=300),
                              thorough=dict(constants=thorough, timeout=4000))],
                     driver='drv_usl', trace='UslTrace', verdict='UslVerdict', jobs=4), **k)


PROPS = {
    'C07': usl('TextLaw', quick=dict(USMALL, PMDepth='1')),
    'C11': usl('TextLaw', 'WritingLaw'),
    'C12': usl('SSLaw'),
    'C13': usl('CheckLaw'),
    'C14': usl('TextLaw', 'WritingLaw', 'RoleLaw', quick=dict(USMALL, Morphs='{"a.", "E:"}', PMDepth='1', WDepth='2')),
    'C15': dict(mc=[dict(module='MCPath', invariants=['PathLaw', 'ComposeLaw', 'PrefixLaw', 'EmitPath'],
                         quick=dict(constants=dict(USMALL, Morphs='{"a.", "E:.wo.-", "E:.wa.-"}', PMDepth='2', WDepth='1'), timeout=300),
                         thorough=dict(constants=dict(ULARGE, Morphs='{"a.", "wa.", "E:.wo.-", "E:.wa.-"}', PMDepth='3', WDepth='2'), timeout=4000))],
                driver='drv_path', trace='PathTrace', verdict='PathVerdict', jobs=4),
    'C16': dict(mc=[dict(module='MCTable2D', spec='TableSpec', invariants=['TableLaw', 'EmitTable'],
                         quick=dict(constants=dict(T2, PMDepth='3', WDepth='1', MaxCells='8', LexMax='2'), timeout=300),
                         thorough=dict(constants=dict(T2, Morphs='{"a.", "wa.", "E:.wo.-", "E:.wa.-"}', Mults='{1, 2}', PMDepth='4', WDepth='2', MaxCells='18', LexMax='4'),
                                       timeout=4000))],
                driver='drv_tab', trace='Table2DTrace', verdict='Table2DVerdict', jobs=4),
    'C17': dict(mc=[dict(module='MCDeco', invariants=['ReadLaw', 'DecoLaw', 'SSLaw', 'Emit'],
                         quick=dict(constants=dict(Units='<- UnitsSmall', Values='<- ValuesSmall', Depth='2'), timeout=300),
                         thorough=dict(constants=dict(Units='<- UnitsLarge', Values='<- ValuesSmall', Depth='3'), timeout=4000))],
                driver='drv_deco', trace='DecoTrace', verdict='DecoVerdict', jobs=4),
    'C18': usl('OrderLaw', quick=dict(USMALL, PMDepth='1'), thorough=dict(ULARGE, PMDepth='2', WDepth='1')),
    'C01': script('ReadBack', 'Writings'),
    'C02': script('SSLaw'),
    'C03': script('OrderLaw'),
    'C04': script('SSLaw', 'ReadBack', jobs=4),
    'C05': script('TabLaw'),
    'C06': script('ClassLaw'),
    'C08': dictionary('ContentLaw'),
    'C09': dictionary('ForestLaw'),
    'C10': dictionary('RelationLaw'),
    'C19': store('{"d"}', [], ['AddLaw', 'RemLaw'], {'Depth': '2'}, {'Depth': '3', 'Iemls': '{"a.", "A:B:.", "wa. wo."}', 'VS': '{"v", " v", "a\\nb"}'}),
    'C20': store('{"s"}', [], ['SLaw'], {'Depth': '3', 'Iemls': '{"O:M:.", "O:M:E:.", "M:O:."}'},
                 {'Depth': '4', 'KVS': '<- KVPool', 'Iemls': '{"O:M:.", "O:M:E:.", "M:O:."}'}),
    'C21': store('{"d", "s"}', ['PathLaw'], [],
                 {'Depth': '2', 'Iemls': '{"a.", "O:M:.", "wo. wa.", "m1(wa. wo. y.)", "()(a.)", "[! E:A:. ()(m1(b. a.))]"}',
                  'LS': '{"fr"}', 'CS': '{"tags"}', 'VS': '{"v"}'},
                 {'Depth': '3', 'Iemls': '{"a.", "O:M:.", "wo. wa.", "m1(wa. wo. y.)", "()(a.)", "(m1(b. a.))(wo.)", "[! E:A:. (wa.)]", "[! E:A:. ()(m1(b. a.))]"}',
                  'LS': '{"fr"}', 'CS': '{"tags"}', 'VS': '{"v"}'}),
    'C22': dict(mc=[dict(module='MCCache', properties=['Coherent'], view='View', action_constraint='Emit', workers=1,
                         quick=dict(constants={'Edits': '<- EditsSmall', 'Folders': '{"A"}', 'Depth': '5'}, timeout=300),
                         thorough=dict(constants={'Edits': '<- EditsLarge', 'Folders': '{"A", "B"}', 'Depth': '6'}, timeout=3000))],
                driver='drv_store', trace='StoreTrace', verdict='StoreVerdict', jobs=8),
    'C23': git(['Faithful'], ['Atomic', 'Grows'],
               {'Clones': '{"A"}', 'Pool': '<- PoolAlone', 'Depth': '4', 'Commits': '4', 'Remotes': '{"edit", "reset"}'},
               {'Clones': '{"A"}', 'Pool': '<- PoolAlone', 'Depth': '5', 'Commits': '5', 'Remotes': '{"edit", "reset"}'}),
    'C24': git(['Faithful'], ['Atomic', 'Grows', 'MergeLaw', 'Converge'],
               {'Clones': '{"A", "B"}', 'Pool': '<- PoolBoth', 'Depth': '5', 'Commits': '5', 'Remotes': '{"pull", "push"}'},
               {'Clones': '{"A", "B"}', 'Pool': '<- PoolMore', 'Depth': '6', 'Commits': '6', 'Remotes': '{"pull", "push"}'}),
    'C25': dict(mc=[dict(module='MCTx', invariants=['Sound'], properties=['RootLaw', 'DescLaw'], view='View', action_constraint='Emit', workers=1,
                         quick=dict(constants={'Pool': '<- PoolSmall', 'Depth': '3'}, timeout=300),
                         thorough=dict(constants={'Pool': '<- PoolLarge', 'Depth': '4'}, timeout=4000))],
                driver='drv_tx', trace='TxTrace', verdict='TxVerdict', jobs=8),
    'C26': git(['Faithful'], ['Grows'],
               {'Clones': '{"A"}', 'Pool': '<- PoolAlone', 'Depth': '3', 'Commits': '4', 'Remotes': '{"reset"}'},
               {'Clones': '{"A"}', 'Pool': '<- PoolAlone', 'Depth': '4', 'Commits': '5', 'Remotes': '{"reset"}'}),
    'C27': dict(mc=[dict(module='MCCopy', invariants=['Same'], properties=['Apart'], view='View', action_constraint='Emit', workers=1,
                         quick=dict(constants={'Texts': '{"a. m1(b. c.)", "a."}', 'Asks': '{"ss", "same", "paths"}', 'Hows': '{"deep", "pickle", "away"}',
                                               'Objects': '3', 'Depth': '4'}, timeout=300),
                         thorough=dict(constants={'Texts': '{"a. m1(b. c.)", "a.", "(a.)(m2(a. b. c.))", "[! E:A:. (a.)(m1(b. c.)) > E:A:. E:U:. (a.)]"}',
                                                  'Asks': '{"ss", "same", "paths", "text", "valid"}', 'Hows': '{"deep", "pickle", "away", "copy"}', 'Objects': '3', 'Depth': '5'},
                                       timeout=4000))],
                driver='drv_copy', trace='CopyTrace', verdict='CopyVerdict', jobs=8),
}

NOT_APPLICABLE = {}
