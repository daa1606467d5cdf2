"""Writes properties.jsonl."""
import json
import os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
S='ieml/dictionary/script/script.py'; T='ieml/dictionary/script/tools.py'; SP='ieml/dictionary/script/parser/parser.py'
p('C01','Every writing of a morpheme has one canonical form that parses back to itself',
 "Any valid text of a morpheme (addends in any order or repeated, explicit or implicit nulls, spelled out or abbreviated symbols, spaces) is read as the morpheme whose canonical writing the algebra defines; reading the canonical writing gives an equal morpheme with the same hash and writing. Building the same morpheme with sums and products of existing morphemes gives the same writing and leaves the operands and the caller's lists unchanged. Texts that are not morphemes, and combinations of different layers, are refused.",
 ['inputs'],'all texts over the alphabet of morphemes up to layer 6, all sums and products of morphemes',
 'The tests parse a few dozen fixed texts; equality of writings is a statement on all pairs of texts.',
 [S,SP,'ieml/dictionary/script/operator.py'],[('AdditiveScript/MultiplicativeScript/NullScript normalise their children and precompute the text',S),('ScriptParser grammar',SP)],
 obs=['script(text)','str(script)','==','hash','add, m, +'])
p('C02','Singular sequences, cardinal and containment of a morpheme',
 "The singular sequences of a morpheme are exactly those the algebra defines (product of those of the children, union of those of the addends), listed once each in increasing order; the cardinal and length are their number, a morpheme is singular iff there is one, and a morpheme is contained in another iff they have the same layer and its singular sequences all belong to the other. A morpheme with more than 360 singular sequences is never built, and one with at most 360 is never refused.",
 ['inputs'],'all morphemes up to layer 6','Tests check the singular sequences of a handful of paradigms, none with overlapping addends or at the limit.',
 [S,'ieml/constants.py'],[('_compute_singular_sequences, cardinal, __contains__, MAX_SINGULAR_SEQUENCES',S)],obs=['singular_sequences','singular_sequences_set','cardinal','len','in','is_singular'])
p('C03','Morphemes have one strict total order',
 "For every two different morphemes exactly one is less than the other, the order is transitive, no morpheme is less than itself, and it is the order defined by layer, null first, number of singular sequences, canonical bytes, products before sums, then children. Sorting any list of morphemes therefore gives the same result whatever its initial order.",
 ['inputs'],'all pairs and triples of morphemes','Totality and transitivity quantify on all pairs and triples; the tests sort two short lists.',
 [S],[('Script.__lt__ and total_ordering',S)],obs=['<','sorted'])
p('C04','Factorization keeps the meaning and depends only on it',
 "Factorizing morphemes yields a canonical morpheme with exactly the same singular sequences (promoted to the highest layer), whose addends are pairwise disjoint and in which a complete product is written as one product. The result depends only on the set of singular sequences, not on the order, grouping or hash seed of the process, and factorizing it again changes nothing; it never fails when there are at most 360 sequences.",
 ['inputs','configurations'],'all sets of singular sequences, all iteration orders (PYTHONHASHSEED)','Tests factorize a few sets, in one process, with the order of that process.',
 [T],[('factorize, _factorize, promote',T)],obs=['factorize(...)'])
p('C05','Tables of a paradigm cover exactly its singular sequences',
 "The cells of the tables of a paradigm contain exactly its singular sequences, each at the row, column and tab of its coordinates; the scripts of the tables are parts of the paradigm that together cover it and the headers of each dimension are the sub-paradigms of the rows and columns in increasing order. A product with several plural children one of which has more than 12 values has no table and is refused.",
 ['inputs'],'all paradigms','Tests compare the shape of three tables.',[S],[('_build_tables, _compute_cells, tables_script, headers',S)],obs=['cells','tables_script','headers'])
p('C06','Grammatical class of morphemes',
 "A primitive verb symbol (U, A) is a verb, the other non-null primitives are nouns, and the null morpheme is auxiliary; the class of a product is that of its substance and the class of a sum is the greatest class of its addends. A morpheme is empty iff it is a null morpheme.",
 ['inputs'],'all morphemes','Three examples are tested.',[S,'ieml/constants.py'],[('script_class, grammatical_class',S)],obs=['grammatical_class','empty'])
D='ieml/dictionary/dictionary.py'; TS='ieml/dictionary/table/table_structure.py'; TB='ieml/dictionary/table/table.py'; RE='ieml/dictionary/relation/relations.py'
p('C08','The content of a dictionary depends only on its paradigms and its structure',
 "A dictionary built from paradigms and structure rows contains exactly its root paradigms, all their singular sequences, and the other paradigms (not ignored) that are included in a root and have a place in its tables; each morpheme once, in increasing order, found back by its text and its index, with the roots marked. The order in which the paradigms and rows are given does not matter, nor whether a row is repeated; a row for a morpheme that is not given has no effect, and a row for a singular sequence of a root neither removes it nor prevents the dictionary from being built; a paradigm marked is_ignored or outside of every root is absent, and two root paradigms that share a singular sequence are refused.",
 ['inputs'],'all sets of paradigms and structure rows, in all orders','The tests load one fixed dictionary and check a few memberships.',
 [D,TS],[('Dictionary.__init__',D),('TableStructure._build_tables',TS)],obs=['Dictionary(...).scripts','index','roots_idx','in','[]','len'])
p('C09','The tables of a dictionary form a forest with a rank for each',
 "In each root, the paradigms are placed by decreasing number of singular sequences (then in the order of the morphemes); the parent of a paradigm is the smallest of the tables already placed that accept it (a row, column, dimension or connexe tiling of a 2D table, an interval of a 1D table, a union of whole tables of a set of tables), its rank follows from that of its parent (root 0, regular +2, other +1, from 1 at least, no more than 5), a paradigm that none accepts is left out and the singular sequences are cells of rank 6 under the root. Kind, parent, children, rank and root agree with each other and do not depend on the order of insertion nor on the hash seed of the process. A table has the shape and the cells of its paradigm: the coordinates of each of its singular sequences lead back to it, and its rows and columns are the morphemes of their cells.",
 ['inputs','configurations'],'all sets of paradigms, all iteration orders (PYTHONHASHSEED)','Tests look at one table of one root, in one process.',
 [TS,TB],[('_define_root and accept_script',TS),('Table.rank',TB)],obs=['dictionary.tables','Table.index_of, [], shape, rows, columns'])
p('C10','The relations of a dictionary are exactly those of its morphemes',
 "The relations contains, father (substance, attribute, mode), opposed, associated, crossed, twin, table_0..table_5 and identity hold between two morphemes of a dictionary exactly when their definition on the morphemes, their root and the ranks says so; contained and child are the converse of contains and father, siblings are symmetric and inside one root. A relation listed in the inhibitions of a root holds for no morpheme of this root as a subject, and no other relation or root is affected. The objects of a morpheme, the matrix, the rows given to pandas and the relations between two morphemes agree.",
 ['inputs'],'all dictionaries, all pairs of morphemes, all inhibitions','The relations are a function on all pairs of morphemes of all dictionaries; the tests check a few pairs of one dictionary.',
 [RE,D],[('RelationsGraph._compute_*',RE)],obs=['relations.object','relations.relation','relations.boolean_matrix','relation_object','RelationsGraph.pandas'])

DB='ieml/ieml_database/ieml_database.py'; DE='ieml/ieml_database/descriptors.py'; CO='ieml/commons.py'
p('C19','The descriptors read are exactly those written and not removed',
 "After any sequence of additions and removals, the descriptors of a USL for a language and a class are exactly the values added to this key and not removed since, each as many times as it was added, whatever the writing of the USL used and whatever the characters of the value (quotes, spaces, line ends, backslashes, numbers, NA, unicode); only the spaces around a value are dropped and a line end is written \\n. A removal removes every occurrence of what its arguments designate (a value, a key, a language, a class, the whole USL) and nothing else; reading only some of the files gives the descriptors of these files; and an edit with an invalid USL, language or class is refused without changing anything.",
 ['inputs','histories'],'all sequences of edits with all values','A test writes and removes one value; a value can look like a key, a row, a number or a missing field, and the edits interact.',
 [DB,DE],[('add_descriptor, remove_descriptor, escape_value',DB),('Descriptors.get_values, get_values_partial, get_descriptor',DE)],obs=['get_descriptors().get_values / get_values_partial / get_descriptor'])
p('C20','The structure read is exactly the one written and not removed',
 "After any sequence of additions and removals of structure (is_root, is_ignored, inhibition), the structure of a USL has for each key exactly the values added and not removed since, booleans being the same in all their writings; a removal removes every occurrence of the designated value, key or USL and nothing else. A key that does not exist or a value that its key does not accept is refused without changing anything.",
 ['inputs','histories'],'all sequences of edits','The tests add one row; the effect of a removal depends on all the edits before it.',
 [DB,DE],[('add_structure, remove_structure',DB),('normalize_key(structure=True)',DE)],obs=['get_structure().get_values / get_values_partial'])
p('C21','Every USL has its own file, placed by the USL alone, and is listed once',
 "The folder of a database has exactly one descriptor file for each USL that got a descriptor (and one structure file for each that got structure), until it is removed as a whole; its place depends only on the canonical USL: its type (morpheme, polymorpheme, lexeme, word), whether it is singular or a paradigm, and its writing, two different USLs (long or decorated ones included) never sharing a file. Listing the database by type and paradigm gives each USL that has a descriptor once, and only those of the type (named or given by its class) and kind asked, as texts or as the units that they are the writing of.",
 ['inputs','histories'],'all USLs of all types, all sequences of edits','The tests look at the path of a few USLs; that no two USLs share a file, and that nothing is lost, is about all pairs and histories.',
 [DB],[('path_of, filename_of, list',DB)],obs=['the files of the folder','IEMLDatabase.list'])
p('C22','Cached results are always those of the current content of the database',
 "The dictionary and the list of all the USLs read from a database are those of its current files, whether they come from the cache or not: after any sequence of edits (through any IEMLDatabase instance on the folder), readings and accidents of the cache folder (truncated, empty, foreign or additional cache files), every instance, with any cache folder or none, gives the same result as a computation from scratch; nothing is stale and a broken cache is never an error. The dictionary is that of the listed paradigms and structure; the list has every USL whose morphemes are in the dictionary, with its type, kind and all its descriptors, type by type and in the order of its morphemes in the dictionary.",
 ['histories','fault_sequences'],'all interleavings of edits, readings and cache failures','Staleness depends on the history of edits between two readings; the tests read once.',
 [CO,DB],[('cache_results_watch_files, FolderWatcherCache',CO),('get_dictionary, get_list',DB)],obs=['IEMLDatabase.get_dictionary','IEMLDatabase.get_list'])

GI='ieml/ieml_database/git_interface.py'; TX='ieml/ieml_database/transactions/DBTransaction.py'
p('C23','A transaction on a versioned database is committed as a whole or not at all',
 "When a transaction (GitInterface.commit) ends normally, exactly one commit is added on the head, with the content of the working folder, which has all the edits; when there is nothing to commit no commit is added. When it ends with an exception, whatever the edit and the kind of exception, the head does not move and the folder, new and removed files included, is back as it was; a transaction is refused on a folder with uncommitted edits, which are left as they are. If the process dies at any point, opening the database again gives the folder of one of the two commits, clean. Reset, checkout and opening give exactly the files of the commit asked. This holds of all the files of the folder, those of USLs and others, except those whose path from the folder starts with a point, which are never touched nor committed.",
 ['histories','crash_points','fault_sequences'],'all sequences of transactions, edits, resets and openings, an exception after any edit, a crash after any line of the database code','The tests commit once; atomicity is about every point where a transaction can stop.',
 [GI],[('git_transaction, GitInterface.reset, checkout',GI)],obs=['the commits and their trees','the files of the folder','status()','get_version()'])
p('C24','Pulling merges the remote content and tells every conflict',
 "A pull leaves the clone clean, on its own head if it is up to date, on the remote head if it was behind, and otherwise on one new commit with both heads as parents and in this order. A file changed on one side only has the content of this side; a file changed on both sides is either merged row by row or has the remote content, and then the pull returns the USL with all its local descriptors (empty if removed locally); no other USL is returned. A remote that can not be reached counts as it was last seen. A push makes the branch of the origin equal to the head or is refused without effect when it is not a descendant of the origin, unless forced. If the process dies during a pull, opening the clone again gives a clean commit and the pull can be done again.",
 ['histories','schedules','crash_points'],'all interleavings of transactions, pulls, pushes and resets of several clones of an origin','Two tests merge one file; the result depends on what each side did to each file since their common ancestor.',
 [GI],[('GitInterface.pull, push',GI)],obs=['pull()','push()','the commits and their trees','the files of the folder'])
p('C25','Every operation on the dictionary of a database does its exact edit or nothing',
 "Creating a root paradigm, adding, removing or updating a paradigm, setting inhibitions or descriptors, and rewriting all the IEML of a database each make exactly the edit they stand for and commit it, and an operation whose conditions are not met (a singular sequence as a paradigm, a root that intersects another or that already exists, a paradigm outside of every root or over two roots, an update to a defined script or to a smaller root, a script without table, an inhibition that does not exist) is refused and leaves the files, the commits and the dictionary unchanged. After any sequence of these operations the dictionary can be loaded and its roots are pairwise disjoint; the descriptors and structure of the USLs that an operation does not designate are never modified.",
 ['histories','inputs'],'all sequences of dictionary operations with all paradigms','The tests run three operations on a network database that is not available; the conditions depend on what was done before.',
 [TX],[('DBTransactions.*',TX)],obs=['the files of the folder','the commits','IEMLDatabase.get_dictionary','the value returned by set_descriptors'])
p('C26','The difference of two commits is exactly the set of rows that changed',
 "The difference between two commits has one entry for each file whose rows differ, with its canonical IEML, the rows that are only in the second (added) and only in the first (deleted), and whether the file is new or removed; applying it to the first commit gives the second, the difference in the other direction exchanges added and deleted, and two commits with the same content have no difference.",
 ['histories','inputs'],'all pairs of commits of all histories','No test calls it; the rows can contain any character.',
 [GI],[('GitInterface.diff',GI)],obs=['diff(commit0, commit1)'])

U='ieml/usl/usl.py'; PM='ieml/usl/polymorpheme.py'; LX='ieml/usl/lexeme.py'; WO='ieml/usl/word.py'; SF='ieml/usl/syntagmatic_function.py'; UP='ieml/usl/parser/parser.py'
p('C07','Reading a text depends only on the text and only fails by refusing it',
 "For every text over the alphabet of IEML, IEMLParser either gives the unit that the grammar defines (morpheme, polymorpheme, lexeme or word) or refuses it with CannotParse (TooManySingularSequences for a morpheme that is too large); no other exception escapes, no malformed text (unbalanced parentheses, missing focus, missing lexeme, unknown role, trailing text) is accepted. The result does not depend on the texts read before, valid or not, on the options of other calls, on the instance of the parser nor on the threads that read at the same time. A parser that is given a dictionary refuses, in the same way, exactly the texts that contain a morpheme that is not in the dictionary.",
 ['inputs','histories','schedules'],'all texts, all sequences of readings, several threads','The tests read valid texts one after the other with a new parser.',
 [UP,'ieml/usl/parser/lexer.py',U],[('IEMLParserSingleton.parse and its grammar',UP)],obs=['IEMLParser().parse','usl(text)'])
p('C11','Polymorphemes and lexemes have one canonical writing that reads back equal',
 "A polymorpheme is its set of constants and its groups with their multiplicities, whatever the order, the spaces and the writing of the morphemes; a lexeme is its flexion and its content, the flexions around the content being merged. The canonical writing has the constants then the groups in increasing order, without empty morphemes, and reads back as an equal unit with the same hash; two units of the same kind are equal iff they have the same canonical writing. The morphemes, the emptiness and the grammatical class (that of the constants for a polymorpheme, of the content for a lexeme) follow. Building a unit from its parts gives the same unit and does not modify the arguments.",
 ['inputs'],'all polymorphemes and lexemes, all their writings','The tests read a few texts; equality of writings is about all pairs.',
 [PM,LX,UP,U],[('PolyMorpheme.__init__, Lexeme.__init__',PM),('p_poly_morpheme, p_lexeme',UP)],obs=['IEMLParser().parse','str','==','hash','morphemes','empty','grammatical_class'])
p('C12','Singular sequences of polymorphemes, lexemes and words',
 "The singular sequences of a valid polymorpheme are the unions of its constants with a draw of morphemes from its groups, the numbers drawn from the groups differing by at most one, each at most the multiplicity and the size of its group, and at most five morphemes in total; each is listed once. Those of a lexeme combine each flexion with each content, those of a word combine the lexemes of all its roles, with the same roles and focus. The cardinal and length are their number, a unit is singular iff there is one, a singular sequence is its own singular sequence, and a unit is contained in another iff all its singular sequences are among those of the other.",
 ['inputs'],'all valid units','The tests count the sequences of a few polymorphemes with groups of the same size.',
 [PM,LX,WO,U],[('compute_PM_singular_sequences',PM),('USL.singular_sequences, cardinal, __contains__',U)],obs=['singular_sequences','singular_sequences_set','cardinal','len','is_singular','in'])
p('C13','A unit is valid iff every polymorpheme it is made of is valid',
 "The check of a polymorpheme accepts it iff each of its groups has a multiplicity between 1 and 3 that is not greater than its number of morphemes, no morpheme appears twice (in the constants, in a group or in two of them) and every morpheme is singular; a lexeme is valid iff its flexion and content are, a word iff the lexemes of all its roles, at any depth and in junctions, are. An invalid unit is refused with ValueError by the method and by the function alike.",
 ['inputs'],'all readable units, valid or not','A single invalid part at any place must be found; the tests check three polymorphemes.',
 [PM,LX,WO,'ieml/usl/__init__.py'],[('check_polymorpheme',PM),('check_lexeme',LX),('check_word',WO)],obs=['check()','check_polymorpheme, check_lexeme, check_word'])
p('C14','Words keep exactly the roles, lexemes and focus they are written with',
 "A word is read iff its roles form one process (one valence, and actants), one dependant quality or one independant quality, with their qualities at any depth, junctions whose members have the same link and are numbered without gap, a lexeme for every role, no role twice, and a focus on one of its roles. It then has exactly these roles with these lexemes, and this focus and context; the canonical writing lists the roles in their order, reads back as an equal word, and rebuilding the word from its list of roles gives the same word. The lexeme of a role, the morphemes, components, emptiness and class of the word agree with its roles. Simplifying a word without junction removes exactly the branches that are empty and do not lead to the focus.",
 ['inputs'],'all lists of roles and lexemes','Roles nest at any depth and junctions contain qualities; the tests use a handful of flat words.',
 [SF,WO,UP],[('SyntagmaticFunction.from_list, as_list, get',SF),('Word, simplify_word',WO)],obs=['IEMLParser().parse','str','syntagmatic_fun.as_list / get','role','context_type','iter_structure','simplify_word'])
PA='ieml/usl/decoration/path.py'; PP='ieml/usl/decoration/parser/parser.py'
p('C15','Paths name the components of a unit, and a unit is made of its paths',
 "A text of path (role, content or flexion, constant or group with its multiplicity, morpheme; the roles by their script or by their name) is read or refused with CannotParse; its canonical writing reads back as an equal path with the same hash. iter_structure_path of a polymorpheme, a lexeme or a word (with at most three groups each) lists every role, lexeme, polymorpheme, group and morpheme of the unit, and each path, once written and read again, leads to exactly this component; a path that the unit does not have is refused with DeferenceError and contained is False. usl() and usl_from_path_values applied to the morphemes at the paths of a valid unit, in any order, give this unit again (the flexions being grouped by their paradigm of flexion), and inconsistent sets of paths are refused with ValueError. has_prefix is true iff the path is equal to the prefix or goes on from it, so that head.concat(tail) is the path again.",
 ['inputs'],'all units and all texts of paths','Every component of every unit, at any depth and in any junction, must be reachable by exactly its path; the tests follow the paths of four units.',
 [PA,PP,'ieml/usl/decoration/parser/lexer.py',PM,LX,WO,SF],[('UslPath and its subclasses, usl_from_path_values',PA),('PathParser',PP),('iter_structure_path of each kind',U)],obs=['PathParser().parse','str','deference, contained, has_prefix, split_tail, concat','iter_structure_path','usl(list of (path, morpheme))'])
DEC='ieml/usl/decoration/instance.py'
p('C16','The tables of a unit cross the variations of two of its components',
 "For a unit and two components of it (named by paths in any of their writings, none inside the other), UslTable2D has one column per singular sequence of the component in columns and one row per singular sequence of the component in rows; without a component for the rows, one row per combination of the draws of the groups that are not in the component of the columns, polymorpheme by polymorpheme. The column j is the unit where only the component in columns is replaced by its j-th variation (a variation of a group becomes constants of its polymorpheme), the row i is the unit where only what varies in the rows is replaced, and the cell (i, j) has both replacements: all its other morphemes, groups, roles and its focus are those of the unit. Rows and columns are strictly increasing, whatever the order in which rows, columns and cells are asked for, and the unit is not modified. enumerate_partitions gives exactly once every set of components with variations of which none is in another one, and the number of those that contain no other one.",
 ['inputs'],'all composed valid units, all pairs of disjoint components, all orders of access','Tables are products of substitutions over arbitrary units; the only test prints a table and asserts nothing about cells, so that a table with wrong rows, missing constants or misplaced morphemes passes.',
 ['ieml/usl/table.py',PA,PM,U],[('UslTable2D',"ieml/usl/table.py"),('enumerate_partitions',"ieml/usl/table.py"),('UslPath.has_prefix, concat, as_constant',PA)],obs=['UslTable2D.rows, columns, cells','enumerate_partitions'])
p('C17','A decorated unit keeps exactly the values given at its paths, and nothing else',
 "A unit followed by decorations [path \"value\"] is read as this unit with, for each component designated by a path (in any of its writings), the last value given, whatever the characters of the value (quotes and backslashes are escaped by a backslash); a path that the unit does not have, or a malformed decoration, is refused with CannotParse. The canonical writing is the unit then its decorations, each path in its canonical writing, and reads back as an equal decorated unit with the same hash. The unit itself, its other components (those made of the same morpheme included) and the units read before or after are not changed by it: its morphemes, class, emptiness and validity are those of the unit. The singular sequences of a decorated unit are those of the unit, each with the decorations whose path it contains. A literal set on a component of a unit becomes the decoration of its path by InstancedUSL.from_usl, which removes it from the component.",
 ['inputs','histories'],'all units, all paths, all values','Decorations are attached to components that can be shared by several places and units, and their values can contain the syntax itself; the tests decorate three fixed units.',
 [DEC,PA,UP,'ieml/usl/parser/lexer.py','ieml/commons.py'],[('InstancedUSL, Decoration',DEC),('UslPath.normalize',PA),('p_instanced_usl, p_decoration',UP),('DecoratedComponent',CO)],obs=['IEMLParser().parse','InstancedUSL.decorations, singular_sequences, from_usl','str','==','hash','get_literal'])
p('C18','Units of all kinds have one strict total order',
 "Any two units, of the same kind or not, are comparable: morphemes come before polymorphemes, then lexemes, then words; polymorphemes are ordered by their number of constants, constants then groups, lexemes by flexion then content, words by their roles and lexemes then focus. Exactly one of two different units is less than the other, the order is transitive and no unit is less than itself, so that sorting any list of units gives the same result whatever its initial order.",
 ['inputs'],'all pairs and triples of units','Totality and transitivity quantify on all pairs and triples; no test compares words with junctions or units of different kinds.',
 [U,PM,LX,WO,SF],[('USL.__lt__ and the do_lt of each kind',U)],obs=['<','sorted'])
p('C27','A copy of a unit, a path or a dictionary, made anywhere, answers as the original',
 "A morpheme, polymorpheme, lexeme, word, decorated unit or path that is copied (copy, deepcopy, pickle with any protocol, in this process or read in another one with another hash seed), whatever was asked of it before the copy, answers every question as what is read from its text does: it is equal to it both ways, has the same hash, is found in the sets and maps that have it and conversely, and has the same text, singular sequences, cardinal, class, emptiness, validity, morphemes, paths, decorations and place in the order. The original and the other copies still answer the same. A list, set or map of units that is copied has the same units, and what was one object in it is one object. A dictionary that is copied, its tables and relations included, has the same content, forest of tables and relations as one that is built from its paradigms and structure.",
 ['histories','configurations'],'all units, paths and dictionaries, all histories of questions and copies between processes with different hash seeds','What an object remembers (its singular sequences, their set, its tables) depends on what was asked of it before; the tests copy nothing, and the cache of the database stores such objects for other processes.',
 [S,U,PA,DEC,'ieml/dictionary/dictionary.py'],[('Script.__new__, __getnewargs_ex__, __hash__',S),('USL.__new__, __getnewargs_ex__, __hash__',U),('InstancedUSL',DEC),('UslPath',PA),('Dictionary','ieml/dictionary/dictionary.py')],obs=['copy.copy, copy.deepcopy, pickle','==','hash','in','every reader of the units'])

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as fp:
    fp.write(''.join(json.dumps(x) + '\n' for x in P))
