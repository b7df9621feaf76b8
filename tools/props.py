# The properties.  gen.py makes properties.jsonl and MANIFEST.json from this.
# id: (title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], note)
P = {}
def prop(id, title, statement, over, quant, why, files, mech, note, observe=()):
    P[id] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, observe=list(observe))

prop('C01', 'Rows are permutations and combine by the laws of transposition',
 'Products, quotients, inverses, powers and conjugates of rows are those of the permutations they stand for, a shorter row being completed with the missing bells in their own places. The sign, order, cycles, positions of bells, comparison, and tests for rounds of a row, and the rows made by applying changes to it one by one or in a block, agree with that permutation.',
 ['inputs'], 'all rows on any number of bells, pairs and triples of rows of different lengths, and all powers and lists of changes',
 'There are n! rows and no bound on powers; the tests transpose a handful of rows on few bells, almost all of one length.',
 ['ringing/row.h', 'ringing/row.cpp', 'ringing/change.h', 'ringing/change.cpp'],
 [('transposition, quotient, inverse, power', 'ringing/row.cpp'), ('order, cycles, sign', 'ringing/row.cpp'), ('block of rows', 'ringing/row.h')],
 'Random rows up to 70 bells against an independent vector model of permutations.')
prop('C02', 'Bells and rows survive writing and reading; bad text is refused',
 'Any row or bell written as text, in the usual or any other set of bell symbols, is read back unchanged from text and from streams, leaving what follows it unread. Text that does not denote a row or a bell is refused with the documented error or by failing the stream without changing the target, and never crashes the program.',
 ['inputs'], 'all rows on 1 to 200 bells, all symbol sets, and all texts, including arbitrary bytes',
 'Tests read a few correct rows; neither the round trip over all rows and symbol sets nor the response to arbitrary bytes can be enumerated.',
 ['ringing/bell.h', 'ringing/bell.cpp', 'ringing/row.h', 'ringing/row.cpp', 'ringing/streamutils.cpp'],
 [('bell symbols', 'ringing/bell.cpp'), ('parsing of rows', 'ringing/row.cpp')],
 'Round trip and differential against an independent parser, with byte-level mutation of texts.')
prop('C03', 'A change does what its place notation says',
 'A change read from any accepted spelling swaps exactly the pairs that its places leave free, and prints back as the same change. Swaps, places, internal places, sign, reversal, comparison and the effect of a change on a bell are those of that permutation, and stay so when pairs are swapped in or out of it. Anything that is not a change is refused with the documented error.',
 ['inputs', 'histories'], 'all changes on up to 120 bells in all spellings, all sequences of requests to swap pairs, and all texts',
 'The number of changes grows as the Fibonacci numbers, each with many spellings; tests parse about a dozen.',
 ['ringing/change.h', 'ringing/change.cpp'],
 [('parsing and printing of changes', 'ringing/change.cpp'), ('sorted list of swaps', 'ringing/change.cpp')],
 'Differential against an independent model of places.')
prop('C04', 'Named rows and lead heads are what ringers mean by them',
 'Plain bob and cyclic lead heads, queens, kings, tittums and reverse rounds are the rows of those names for every stage and number of hunt bells. A row is recognised as a lead head of one of these families exactly when it is a power of that family\'s first lead head, and the power reported reproduces it.',
 ['inputs'], 'every stage from 1 to 100 bells, every number of hunt and cover bells, every power, and all other rows',
 'Tests check a few stages; the recognisers must be right for every power at every stage and reject all other rows.',
 ['ringing/row.h', 'ringing/row.cpp'],
 [('lead heads and their recognition', 'ringing/row.cpp')],
 'Differential against rows made by plain hunting and rotation in the model.')
prop('C05', 'Place notation means the same sequence of changes in every spelling',
 'Place notation in any accepted form, with crosses, omitted external places, separators, spaces, and symmetric and asymmetric blocks, is read as the changes it denotes by every way of reading it. Text that is not place notation is refused with the documented error, and nothing read causes a crash.',
 ['inputs'], 'all sequences of changes on 1 to 40 bells in all spellings, and all texts',
 'The grammar allows many spellings of each of infinitely many methods; tests parse a few method definitions.',
 ['ringing/place_notation.h', 'ringing/place_notation.cpp', 'ringing/method.cpp'],
 [('place notation reader', 'ringing/place_notation.h')],
 'Grammar-based generation of spellings, and mutation of them.')
prop('C06', 'Place notation written for a method reads back as the method',
 'The place notation written for a method under any combination of formatting options denotes exactly the changes of that method, or all but the last when the lead head is omitted. Each option has its documented effect on the text.',
 ['inputs', 'configurations'], 'all methods on up to 40 bells, symmetric about any point or not, and all combinations of formatting options',
 'The product of methods, points of symmetry and option sets cannot be enumerated; tests format a few methods with few options.',
 ['ringing/method.h', 'ringing/method.cpp'],
 [('formatting and compression of symmetric methods', 'ringing/method.cpp')],
 'Round trip through an independent reader of place notation.')
prop('C07', 'What a method says about itself is true of its rows',
 'The lead head, number of leads, hunt bells, regularity, symmetry and its point, doubleness, and longest run of blows in one place reported for a method agree with the rows it generates. So do plain hunting, dodges, internal places and symmetry of the path of each bell.',
 ['inputs'], 'all sequences of changes on up to 20 bells, taken as methods, and every bell in each',
 'Tests look at a few standard methods, in which most of these questions have the same answer.',
 ['ringing/method.h', 'ringing/method.cpp'],
 [('symmetry and path tests', 'ringing/method.cpp')],
 'Differential against the paths of bells in the model, over methods built to have each feature.')
prop('C08', 'Methods are classified, titled and coded by the published rules',
 'The class and title of a method, under the rules before and since 2019, follow from its rows by the published definitions: principle, differential, little, plain, treble dodging, treble place, alliance and hybrid. Its lead head code names the power of the plain bob or grandsire lead head that it has and its lead end change. Stages and untitled methods are named as documented.',
 ['inputs', 'configurations'], 'all methods on 2 to 14 bells for classes, on 1 to 22 bells for codes, and all years; plain and treble dodging hunt bells are in their usual position at the lead head',
 'The classes divide an unbounded set of methods; tests try one or two members of some of them.',
 ['ringing/method.h', 'ringing/method.cpp'],
 [('classification', 'ringing/method.cpp'), ('lead head codes', 'ringing/method.cpp')],
 'Differential against a classifier written from the published definitions, working on paths only.')
prop('C09', 'An extent has every row exactly once, in order, with fixed bells fixed',
 'Walking an extent or half extent forwards or backwards meets each of its rows once in lexicographic order and then its end, and the changes on some bells come once each. The position of a row in an extent and the row at a position are inverse to each other and agree with that order, and rows outside are refused. Random rows are rows of the extent asked for.',
 ['inputs', 'histories'], 'extents of 0 to 7 working bells in full and rows of extents on up to 20 working bells, with any fixed bells at either end, and all changes on up to 16 bells',
 'Tests walk one or two small extents; arithmetic on positions only goes wrong on many bells or with fixed bells.',
 ['ringing/extent.h', 'ringing/extent.cpp'],
 [('next and previous permutation', 'ringing/extent.cpp'), ('factorial number system', 'ringing/extent.cpp')],
 'Exhaustive model walk of small extents, and an independent factorial number system for large ones.')
prop('C10', 'Groups have exactly the rows that their generators make',
 'A group made from any rows has each product of them once and no other row, and conjugates, even subgroups, direct products, named groups, fixed bells and comparison are those of the set of its rows. The label of a coset is its least row, and so is the same for all rows of the coset and for no other row.',
 ['inputs'], 'all sets of generators of groups of up to 800 rows on up to 10 bells, all rows as coset members, and named groups on up to 12 bells',
 'There are no tests of groups, and the shortcut for coset labels depends on the structure of the group.',
 ['ringing/group.h', 'ringing/group.cpp'],
 [('closure of generators', 'ringing/group.cpp'), ('coset labels from orbits', 'ringing/group.cpp')],
 'Differential against a brute-force closure.')
prop('C11', 'A touch is proved true exactly when no row comes too often',
 'After any history of adding rows, taking them back and branching, a touch is reported true exactly if no row occurs more often than allowed, and its length, repeats and the count of any row are right. The rows reported as repeated are exactly those that occur too often, each with all the lines on which it does. Proving a whole touch in full, quickly, or in parts gives the same answer.',
 ['histories', 'inputs'], 'all histories of up to 80 steps on touches and branches of touches, with 1 to 4 occurrences allowed, and all touches of up to 60 rows',
 'Tests do not prove anything; truth depends on the whole history, including rows taken back and rows of the branch below.',
 ['ringing/proof.h', 'ringing/proof.cpp'],
 [('multiset of rows with line numbers, and counts of false rows', 'ringing/proof.cpp')],
 'Stateful model-based testing against a list of rows.')
prop('C12', 'False leads and courses are exactly those that share a row',
 'The false lead heads given for methods or lists of rows, under every option, are exactly the quotients of their rows that the option admits, in order and once each. The false courses of a method are exactly the course heads whose courses share a row with the plain course, and the falseness groups of course heads are those that are false together in every regular symmetric method.',
 ['inputs', 'configurations'], 'all pairs of methods or lists of rows on up to 10 bells with all options, course heads on 8 to 14 bells, and methods of any kind on 3 to 10 bells',
 'There are no tests of falseness, and the shortcuts by half leads and groups are right only if the method allows them.',
 ['ringing/falseness.h', 'ringing/falseness.cpp'],
 [('tables of false lead heads', 'ringing/falseness.cpp'), ('false course heads and their groups', 'ringing/falseness.cpp')],
 'Differential against all pairs of rows of leads and courses.')
prop('C13', 'Music is counted and scored for exactly the rows that match',
 'Each row adds one, at the right stroke, to the count of each pattern that it matches and of no other, in whatever order patterns, bells and rows are given. Scores are those counts times the score for the stroke, the bells reported on wildcards are those of a real match, and named music and scored texts mean what is documented.',
 ['inputs', 'histories'], 'lists of up to 6 patterns with up to 3 stars on 1 to 14 bells, all rows, named music on 3 to 20 bells, and histories of clearing, copying and changing the number of bells',
 'Tests only read patterns; whether rows match depends on where stars fall in a search tree built for the number of bells.',
 ['ringing/music.h', 'ringing/music.cpp'],
 [('tree of patterns and its matcher', 'ringing/music.cpp'), ('named music and scores', 'ringing/music.cpp')],
 'Differential against a direct matcher of patterns.')
prop('C14', 'The number of rows matching a pattern is exact',
 'The number of rows said to match a pattern is the number of rows that do match it, however many stars and sets it has and however the number of bells is given. Text is accepted as a pattern exactly if it follows the syntax and its bells are within range, and otherwise is refused with the documented exception.',
 ['inputs'], 'all patterns with up to 4 stars on up to 7 bells against every row, patterns on up to 12 bells, and all texts',
 'Rows that match in several ways must count once, which the few patterns in the tests hardly exercise.',
 ['ringing/row_wildcard.h', 'ringing/row_wildcard.cpp'],
 [('counting matches and checking syntax', 'ringing/row_wildcard.cpp')],
 'Differential against every row for few bells, and metamorphic relations for many.')
prop('C15', 'A touch is exactly the changes of its tree, in order',
 'Iterating over a touch gives the changes of its blocks in order, each repeated as often as its parent says, however nodes are nested, shared, empty or edited between iterations. Copies of a touch keep its nodes alive. Iterators are forward iterators: copies move independently and are equal exactly at the same place.',
 ['inputs', 'histories'], 'all trees of up to 12 nodes with repeats of 0 to 4 and empty nodes, all edits of them, and every pair of places in a touch',
 'There are no tests of touches; nesting, sharing, repeats and empty blocks combine without bound.',
 ['ringing/touch.h', 'ringing/touch.cpp', 'ringing/pointers.h'],
 [('iterator over children and their repeats', 'ringing/touch.cpp')],
 'Stateful comparison with the expanded list of changes.')
prop('C16', 'A multiplication table multiplies as the rows do',
 'A multiplication table has one entry for each coset of its rows by the part ends, and by the group on the right if there is one. Finding any row gives the entry for its coset, and multiplying an entry by a precomputed row or change on either side gives the entry for the product, in whatever order columns are added, and also in copies. A row which does not commute with the group concerned is refused.',
 ['inputs', 'histories'], 'all groups of up to 360 rows on up to 8 bells with groups of part ends and right hand groups within them, and sequences of up to 9 columns',
 'There are no tests of multiplication tables; which row stands for a coset depends on the groups.',
 ['ringing/multtab.h', 'ringing/multtab.cpp'],
 [('representatives of cosets and columns of products', 'ringing/multtab.cpp')],
 'Differential against cosets computed in the model.')
prop('C17', 'Searches for touches find every true touch once, and nothing else',
 'A search finds exactly the sequences of plain and called leads within the limits which come round without repeating a row, each once, or once up to rotation if rotations are ignored. With part ends it finds exactly the parts whose rows are all different in all parts, and which join up unless mutually true parts are allowed. Blocks that need not come round are found if they cannot be extended. A search stops when told to.',
 ['inputs', 'configurations'], 'all methods with leads of up to 12 changes on 3 to 6 bells with up to 3 calls, all limits in leads or changes, and groups of part ends of up to 12 rows',
 'There are no tests of searching in the library; completeness and truth are claims about all sequences of calls.',
 ['ringing/basic_search.cpp', 'ringing/table_search.cpp', 'ringing/search_base.h', 'ringing/search_base.cpp'],
 [('pruning of rotations', 'ringing/table_search.cpp'), ('truth by falseness of leads and parts', 'ringing/table_search.cpp')],
 'Differential against trying all sequences of calls and comparing all rows.')
prop('C18', 'Libraries of methods in text formats are read as they are written',
 'Reading a library gives one entry for each method of the file, in order, whose changes, number of bells, names with and without class and stage, and facets are what the format says. This holds for lines of place notation with payloads, MicroSIRIL files and Central Council collections, whatever the layout of a table, and each time the library is read. Methods are found by changes, by title and by name in any case, and through the search path. Damaged files give answers or exceptions.',
 ['inputs'], 'files of up to 9 lines or three tables on 3 to 12 bells in every layout the formats have, and damaged files',
 'There are no tests of libraries; what is read depends on layout, wrapping, byte order marks and the tables that came before.',
 ['ringing/library.h', 'ringing/library.cpp', 'ringing/litelib.cpp', 'ringing/mslib.cpp', 'ringing/cclib.cpp', 'ringing/libfacet.h'],
 [('numbers of bells and payloads of lines', 'ringing/litelib.cpp'), ('columns of a table', 'ringing/cclib.cpp'), ('lead end from the lead head code', 'ringing/mslib.cpp')],
 'The model writes the files, so what they hold is known; metamorphic in layout.')
prop('C19', 'Methods written as XML are the methods read back, however the XML is spelt',
 'Writing methods as XML and reading them back gives the same methods in the same order with the same names and titles, whatever characters the names have. The document also gives the number of bells, lead head, class and lead head code of each method. Documents of both supported kinds give the same methods, dates and places however they are written: with comments, entities, character data sections, and elements in any order. Damaged documents give answers or exceptions.',
 ['inputs'], 'up to 9 methods on 3 to 16 bells in documents of both kinds with all forms of place notation, and damaged documents',
 'There are no tests of XML; the form in which a method is written depends on its symmetry, and documents written by others come in many spellings.',
 ['ringing/xmllib.cpp', 'ringing/xmlout.cpp', 'ringing/dom_gdome.cpp', 'ringing/peal.h'],
 [('splitting at the symmetry point', 'ringing/xmlout.cpp'), ('text of elements', 'ringing/dom_gdome.cpp'), ('sets of methods and facets', 'ringing/xmllib.cpp')],
 'Round trip, and differential against a model which writes the documents.')
prop('C20', 'A set of methods holds each distinct method once, with its name and facets',
 'After any history of appending methods, library entries, ranges and files, a method set has exactly one entry for each distinct sequence of changes and number of bells appended, with the name and chosen facets it had when first appended and those set since. Entries found stay valid as more is appended, and clearing empties the set.',
 ['histories'], 'histories of up to 14 operations over up to 6 methods on 3 to 8 bells',
 'There are no tests of method sets; the claim is about all histories.',
 ['ringing/methodset.h', 'ringing/methodset.cpp', 'ringing/libbase.h', 'ringing/libout.h'],
 [('the set of entries and their facets', 'ringing/methodset.cpp')],
 'Stateful testing against a map.')
prop('C21', 'Lines of methods written to a stream can be read back by the next program',
 'Writing methods as lines, with or without numbers of bells and with the name, title or payload asked for, gives one line for each method, from which a reader of lines gets the same methods with that text. Several outputs at once each get every method.',
 ['inputs'], 'up to 5 methods on 3 to 20 bells in each form',
 'There are no tests of method streams; the programs of the library are made to be joined by pipes in this format.',
 ['ringing/method_stream.cpp', 'ringing/libout.h', 'ringing/libout.cpp', 'ringing/litelib.cpp'],
 [('the form of a line', 'ringing/method_stream.cpp')],
 'Round trip through lines.')
prop('C22', 'Printed pages show the rows, lines and text that were asked for',
 'A PostScript or PDF document is well formed (structuring comments, cross references, lengths, fonts), has the pages asked for in the orientation asked for, and has on each exactly the marks asked for: the bells of each row in their places, unless left out under lines; the lines of bells from row to row, or only where they cross other lines; grids, dots, place bells, rules and text, with positions, fonts, sizes and colours. A method is printed as its rows in columns, sets and pages with the rule-offs, numbers, place notation, place bells and calls that its settings ask for, and fits the space it is fitted to.',
 ['inputs', 'configurations'], 'documents of up to 3 pages of up to 9 columns of up to 40 rows on up to 16 bells, and methods of up to 24 changes on 3 to 10 bells with all settings',
 'There are no tests of printing; what is on a page is the result of relative movements and state of a page description language.',
 ['ringing/print.h', 'ringing/print.cpp', 'ringing/print_ps.cpp', 'ringing/print_pdf.cpp', 'ringing/printm.cpp', 'ringing/pdf_fonts.cpp'],
 [('lines collected row by row', 'ringing/print_ps.cpp, ringing/print_pdf.cpp'), ('columns, sets and pages of a method', 'ringing/printm.cpp'), ('table of objects', 'ringing/print_pdf.cpp')],
 'The documents are interpreted by small PostScript and PDF interpreters in the harness, and the marks found are compared with those of a model; methods are also printed on a page that records what it is asked for.')
prop('C23', 'Dimensions are read, written and calculated exactly',
 'Text in any form of a dimension (whole number, decimal, fraction or both, with sign, spacing and any spelling of the unit) is read as its exact value in lowest terms; what is not a dimension is refused and changes nothing. A dimension that is not zero is written so that it is read back as itself. Multiplying, dividing and negating are exact, and the value in points is right.',
 ['inputs'], 'numbers of up to 2^31 in all forms and units; malformed text',
 'There are no tests of dimensions; signs, fractions and overflow matter only for particular values.',
 ['ringing/dimension.h', 'ringing/dimension.cpp'],
 [('reader of numbers and units', 'ringing/dimension.cpp')],
 'The text is made from a known exact value; round trip.')
prop('C24', 'Arithmetic behind the library is right over its whole range',
 'Highest common factors, lowest common multiples, factorials, Fibonacci numbers, powers, primes and largest orders of rows are right for all arguments whose results can be represented. Random numbers lie within the range asked for, reach its ends, and are evenly spread for every range of the underlying generator.',
 ['inputs'], 'all arguments whose result is representable; random ranges up to 2^31 with generators of any range',
 'Overflow and range errors appear only for large arguments and unusual generators, which tests do not use.',
 ['ringing/mathutils.h', 'ringing/mathutils.cpp'],
 [('Euclid, sieve and random helpers', 'ringing/mathutils.cpp')],
 'Differential against independent arithmetic, with overflow detection.')
prop('C26', 'The pointers the library is built on keep values apart and objects alive',
 'After any history of making, copying, assigning, swapping, resetting and destroying them, cloning and copy on write pointers hold independent values, shared pointers share one object, and scoped pointers own theirs until released. Every object lives as long as something holds it and is destroyed exactly once, and a copy is of the class of its original. Text casts give back what was put in and refuse anything else.',
 ['histories'], 'histories of up to 25 operations on up to 6 pointers to objects of two classes',
 'There are no tests of the pointers; libraries, searches and touches are built on them, and ownership errors show only after particular histories.',
 ['ringing/pointers.h', 'ringing/lexical_cast.h', 'ringing/streamutils.cpp'],
 [('reference counts and clones', 'ringing/pointers.h')],
 'Stateful testing against a model, with a census of live objects.')

prop('C30', 'gsiril proves compositions as its language says',
 'A program given to gsiril rings the rows that its expressions denote: place notation, rows, repetition, loops, alternatives with tests, reversal, replacement, assignment, functions, and symbols called at their moments during the proof. The proof reports true, false, not round, too short or aborted exactly when that is so of the rows rung, with their number, the last row and the number of repeated rows; strings are printed with these put in, subject to the row mask, music is counted, and the exit status is 0 only if every proof succeeded.',
 ['inputs', 'histories'], 'all programs in the expression language on 3 to 8 bells, with settings given by statements or options',
 'The tests of gsiril run a few fixed scripts; the language composes about thirty constructs without limit, each changing the state that later ones see.',
 ['apps/gsiril/expression.cpp', 'apps/gsiril/proof_context.cpp', 'apps/gsiril/statement.cpp', 'apps/gsiril/parser.cpp', 'apps/gsiril/functions.cpp', 'ringing/proof.h'],
 [('expressions', 'apps/gsiril/expression.cpp'), ('state of a proof', 'apps/gsiril/proof_context.cpp'), ('parser', 'apps/gsiril/parser.cpp')],
 'Random typed programs against an independent interpreter of the language.')
prop('C31', "gsiril's statements, options and modes do what they are documented to do",
 'Definitions (plain, conditional and immediate), if and foreach blocks, echo, warn and error statements, modules, -D, -S, -m, -P, -I, -q, -E, --prove-one, --determine-bells and tracing take effect in the documented order and print exactly what they should. As a filter, gsiril prints exactly those methods of the stream for which the program succeeds, as place notation that reads back as the method, with their payloads; in MicroSIRIL mode, the first symbol is proved with the syntax of that program.',
 ['inputs', 'configurations'], 'all programs of statements and modules with combinations of options, and all method streams, on 3 to 8 bells',
 'The combinations of options, modules, and order of definitions are unbounded, and the tests use few of them and none as a filter with symbols of the user.',
 ['apps/gsiril/main.cpp', 'apps/gsiril/statement.cpp', 'apps/gsiril/execution_context.cpp', 'apps/gsiril/symbol_table.cpp', 'apps/gsiril/prog_args.cpp', 'apps/gsiril/import.cpp'],
 [('order of evaluation, filter', 'apps/gsiril/main.cpp'), ('statements', 'apps/gsiril/statement.cpp'), ('symbols', 'apps/gsiril/symbol_table.cpp')],
 'Random programs of statements with random options, against an independent interpreter.')
prop('C32', 'gsiril survives any program, and its node limit is exact',
 'Whatever the program, module text, method stream or definition, gsiril run with a node limit ends by itself with one of its four exit statuses, never by a crash, memory error or endless loop, in batch, interactive and filter modes. The node limit stops a program exactly when it executes that many nodes, having printed the beginning of what it would have printed, and otherwise changes nothing.',
 ['inputs'], 'all byte strings as programs, streams and definitions, and all limits',
 'gsiril runs programs from strangers on a public web site; hostile input is not something that fixed tests can sample.',
 ['apps/gsiril/parser.cpp', 'apps/gsiril/expression.cpp', 'apps/gsiril/execution_context.cpp', 'apps/utils/tokeniser.cpp'],
 [('parser', 'apps/gsiril/parser.cpp'), ('tokeniser', 'apps/utils/tokeniser.cpp'), ('node count', 'apps/gsiril/execution_context.cpp')],
 'Token-level generation and mutation of valid programs under sanitizers; metamorphic relation between limits.')

prop('C34', 'methsearch lists, counts, filters and names methods consistently',
 'Starting a search at a method found gives the rest of the list, limiting it gives the first so many, random order with a seed gives the same methods in an order which that seed repeats, and one method at a time gives some of them. The count, raw count, histogram, quiet mode, output file and response file agree with the list. As a filter methsearch lists, in order and with their payloads, exactly those methods of a stream (or of its libraries) which answer the query, or with --invert-filter those which do not. Methods in a library have its names, others the name for those unnamed, and --named and --unnamed tell them apart. --row-match keeps just those methods with a row matching each pattern in some part.',
 ['inputs', 'configurations'], 'queries as for C33; streams of up to 40 methods on 3 to 8 bells; libraries of up to some tens of methods',
 'The tests run a few dozen fixed command lines. How options which only look at the list interact (a limit with a filter, a start with symmetry) is hardly sampled.',
 ['apps/methsearch/search.cpp', 'apps/methsearch/main.cpp', 'apps/methsearch/prog_args.cpp', 'apps/methsearch/libraries.cpp', 'apps/methsearch/output.cpp'],
 [('filter, limit, start and random order', 'apps/methsearch/search.cpp'), ('libraries', 'apps/methsearch/libraries.cpp')],
 'Metamorphic: the list of the plain query against the lists, counts and histograms of its variants. Filters and names against the predicate of C33 and the library that the case wrote.')

prop('C36', 'musgrep and extent select, count and list rows exactly',
 'musgrep prints exactly those rows of its input, in order, which match a pattern and have the parity asked for; with counts or scores instead, these are the numbers of matching rows, of rows with a positive or negative score, the total score, and the score of each pattern, where a pattern scores for its stroke as often as it is found. Highlighting marks those rows and prints the rest. extent lists each row with the hunt bells, tenors and parity asked for once, in order. Neither crashes on any input.',
 ['inputs'], 'streams of up to 40 rows on up to 20 bells, up to 5 patterns of each kind with scores, all options; extents of up to 6 working bells',
 'Neither program has a test; matching depends on pattern, row, stroke and options together.',
 ['apps/musgrep/musgrep.cpp', 'apps/extent/extent.cpp', 'ringing/music.cpp'],
 [('counts and scores', 'apps/musgrep/musgrep.cpp'), ('matching of patterns', 'ringing/music.cpp')],
 'Random streams and patterns against an independent matcher, through the programs.')
prop('C37', 'Row expressions evaluate to the rows they denote',
 'rowcalc prints exactly the rows, each once and in order, or the number of rows, that its expressions denote: rows with bells left out at either end, products, both quotients, powers positive and negative, conjugates, sets, groups, differences, and files and standard input as sets, with the documented precedence, and element by element over sets. Whatever the text of an expression, it ends by itself with a result or a message.',
 ['inputs'], 'expressions nested up to 4 deep on up to 9 bells; any text',
 'rowcalc has no tests; the same expressions give the rows to avoid and the part ends to methsearch. Sets are evaluated lazily, so that an operand may be read once or many times.',
 ['apps/utils/row_calc.cpp', 'apps/utils/row_calc.h', 'apps/rowcalc/rowcalc.cpp'],
 [('nodes and their restart', 'apps/utils/row_calc.cpp'), ('parser', 'apps/utils/row_calc.cpp')],
 'Random expressions against an evaluator over sets.')
prop('C33', 'methsearch finds exactly the methods that were asked for',
 'methsearch lists each method that has the number of bells, hunt bells, dodges and treble path asked for, is symmetric as asked, and meets every restriction given: places in succession and in a change, adjacent places, right place, sections, surprise and other classes old and new, lead heads, half leads and cyclic snaps, changes allowed, masks and prefixes, points, balance of parity, and truth over the half lead, lead or course from a start row, with rows to avoid and part ends, falseness groups allowed, and leads enough for an extent. It lists each once with its lead head, and lists no other; it says that there can be none only if there are none.',
 ['inputs', 'configurations'], 'queries combining about forty options, on 3 to 6 bells with 0 to 3 hunt bells, small enough that all methods can be enumerated (up to some 6000 for each query); symmetrical treble dodging methods on 6 to 12 bells of which all but a few changes are given',
 'The tests count the answers to a few dozen fixed queries. Each restriction is applied in a search which prunes, copies changes by symmetry and keeps its own running totals, so that mistakes show only for combinations of options.',
 ['apps/methsearch/search.cpp', 'apps/methsearch/methodutils.cpp', 'apps/methsearch/mask.cpp', 'apps/methsearch/prog_args.cpp', 'apps/methsearch/main.cpp'],
 [('the search and its pruning', 'apps/methsearch/search.cpp'), ('masks', 'apps/methsearch/mask.cpp'), ('options', 'apps/methsearch/prog_args.cpp')],
 'Enumeration of all methods and a predicate on whole methods, against the list printed, in both directions. Where the documentation is silent (delight with an even number of hunt bells and symmetry, falseness of half lead heads) either answer is accepted.')

prop('C35', 'methsearch formats and expressions mean what they are documented to mean',
 'What methsearch prints for a method is exactly what its format denotes: text and escapes, each variable (place notation in each form, rows and changes of the lead, paths, lead head and its codes, symmetry, class, coursing order, staticity, work above and below the treble with its names, music score over the courses, leads and half leads asked for, with scores at either stroke, numbers padded to a width), expressions with the documented operators, precedence, conversions and errors, and the output and status of commands. Requirements select the methods for which they are true; suppress and abort skip a method and end the search; histograms list each combination of values with its frequency. A format which cannot be understood is refused with a message and none crashes.',
 ['inputs', 'configurations'], 'methods on 4 to 10 bells, of up to some 40 changes; formats of up to eight items, expressions nested up to 3 deep; variables which need no library',
 'The tests use about ten formats. The language has some 25 variables and 20 operators which convert between text and numbers, so that nearly every format that is used in practice is one that no test has.',
 ['apps/methsearch/format.cpp', 'apps/methsearch/expression.cpp', 'apps/methsearch/output.cpp', 'apps/methsearch/methodutils.cpp', 'apps/methsearch/music.cpp', 'apps/utils/tokeniser.cpp', 'apps/utils/exec.cpp'],
 [('parsing of formats', 'apps/methsearch/format.cpp'), ('expressions', 'apps/methsearch/expression.cpp'), ('variables', 'apps/methsearch/output.cpp'), ('music', 'apps/methsearch/music.cpp')],
 'Random formats and requirements over streams of random methods, against an interpreter of the documented language whose variables are computed from the rows. Spoiled formats for the absence of crashes.')

prop('C38', 'touchsearch prints the touches there are, each once, as asked for',
 'For a method and calls, touchsearch prints every true touch that comes round within the length range (in changes, of the whole touch, when there are part ends), exactly once and nothing else: with part ends, each touch whose parts are true together and which joins up the parts (or does not, for mutually true parts); with rotations ignored, one of each set of rotations; with non-round blocks allowed, each block that cannot be extended truly. As a filter, it prints the methods of the list which have such a touch, with one of them. With a plan, it prints each sequence of leads of the plan that comes round without using a lead head or lead end twice. The printed form has the names of the calls, the number of repeats and the length, or the comma-separated form that gsiril reads; counts and limits agree with it; bad input ends with a message.',
 ['inputs', 'configurations'], 'methods on 4 to 6 bells (plans to 7) with leads of up to 14 changes, up to 3 calls, groups of up to 12 part ends, plans of up to 30 lead heads',
 'No test runs touchsearch. It chooses tables by parity and by whether the treble is fixed, divides lengths by parts and leads, and walks a shared touch structure to print, so mistakes show only for particular combinations of parity, parts and limits.',
 ['apps/touchsearch/main.cpp', 'apps/touchsearch/prog_args.cpp', 'apps/touchsearch/join_plan_search.cpp', 'ringing/table_search.cpp', 'ringing/touch.cpp'],
 [('printing', 'apps/touchsearch/main.cpp'), ('options', 'apps/touchsearch/prog_args.cpp'), ('plans', 'apps/touchsearch/join_plan_search.cpp')],
 'Enumeration of all sequences of calls, row by row, in the harness, for random methods, calls, groups, ranges and plans, and comparison of the lines printed as multisets; damaged input for the absence of crashes.')
prop('C39', 'fextent finds sets of leads or courses which are true, linked and as asked for',
 'Every set of leads or whole courses that fextent reports has no row twice, in any part; is of the bells, course and tenors-together rows asked for; has the required leads or courses; and, when linkage is asked for, every lead or course in it is linked by the calls to another of it (or the set is reported as not fully linked, and not printed). The numbers of leads and changes, and the greatest so far, are those of the set. Where no two leads or courses are false against each other, a long enough search finds all of them. Requirements that contradict the falseness or the part ends are refused, and every search ends.',
 ['inputs', 'configurations', 'random seeds'], 'methods on 4 to 8 bells with leads of up to 32 changes, groups of up to 12 part ends, up to 3 required leads or courses, up to 2 calls, up to 300 steps of the search',
 'No test runs fextent. It is a random search which keeps falseness, linkage and scores up to date with small changes over tables indexed modulo the part ends, so mistakes need particular falseness, parts and sequences of steps.',
 ['apps/fextent/fextent.cpp', 'ringing/falseness.cpp', 'ringing/multtab.cpp'],
 [('changes to the set and its linkage', 'apps/fextent/fextent.cpp (class state::perturbation)'), ('falseness of leads and courses', 'ringing/falseness.cpp'), ('rows modulo part ends', 'ringing/multtab.cpp')],
 'The sets printed are expanded to rows in the harness, in all parts, and checked row by row for truth, requirements and linkage; damaged options for the absence of crashes and of endless searches.')
prop('C40', 'methodlib prints exactly the methods asked for from its libraries',
 'Given libraries on the command line, in the environment or on the search path, methodlib prints a line for each distinct method that passes the filters on number of bells, length and start of title, or for each title asked for on the command line or in the input (with suffixes tried in order, comments and blank lines skipped), in the order asked; with its place notation, readable by the other programs, and its name, full title, or the text that came with the title; the first library that has a method gives it its name. Each title not found is reported, and the status says whether everything was found. Libraries that are missing, empty or damaged end with a message.',
 ['inputs', 'configurations'], 'up to 3 XML or MicroSIRIL libraries of up to 5 methods on 4 to 8 bells that share methods, up to 5 titles',
 'No test runs methodlib; it joins the formats of libraries, the set of methods, facets and the stream of lines, whose combinations no unit test covers.',
 ['apps/methodlib/methodlib.cpp', 'ringing/methodset.cpp', 'ringing/method_stream.cpp', 'ringing/library.cpp', 'ringing/mslib.cpp', 'ringing/xmllib.cpp'],
 [('filters and titles', 'apps/methodlib/methodlib.cpp'), ('set of methods', 'ringing/methodset.cpp'), ('lines', 'ringing/method_stream.cpp')],
 'Libraries are generated as files from a list of methods in the harness, which says what lines are to come out; options, titles and damage at random for the absence of crashes.')
prop('C41', 'printmethod prints the rows of the method, in the colours asked for',
 'printmethod prints the rows of a lead or a whole course of the method from the row given, with as many blows of rounds before and after as asked, and without the first or last row if asked; a course ends when the starting row comes back. Bells are printed in the colours and weight chosen on terminals that have them and plainly on others, with no other escapes. A number of bells, method or row that is not one is refused with a message.',
 ['inputs', 'configurations'], 'methods on 3 to 16 bells with leads of up to 16 changes and courses of up to 2000; four kinds of terminal; other symbols for the bells',
 'No test runs printmethod: it joins the parsing of methods, courses and the terminal database.',
 ['apps/printmethod/main.cpp', 'apps/utils/bell_fmt.cpp', 'apps/utils/args.cpp'],
 [('rows', 'apps/printmethod/main.cpp'), ('colours', 'apps/utils/bell_fmt.cpp')],
 'Random methods, options and terminals; the output is read back into characters with colours and compared with rows computed in the harness.')
prop('C42', 'psline draws the method that was asked for, in the layout asked for',
 'The PostScript, EPS or PDF document that psline writes shows the rows of the method (the course, or the leads or rows asked for, from the first row asked for) in the leads or rows to a column, columns across, sets down and pages asked for, with lines for the bells in their colours and widths (only where they cross another line if so asked), the numbers that are not left out, rules, guides, place notation, place bells, calls and title; with the spacing given, or else fitted to the page or the space given, and within the bounding box of an EPS file. A method is found by name in a library, and a title may have its full name. What cannot be understood or cannot fit is refused with a message and none crashes.',
 ['inputs', 'configurations'], 'methods on 3 to 12 bells with leads of up to 40 changes and up to some 240 rows; about 35 options together',
 'No test runs psline. It derives the layout from any combination of six numbers, a space and spacings, and prints in three formats, so that errors show only for some combinations.',
 ['apps/psline/psline.cpp', 'ringing/printm.cpp', 'ringing/print_ps.cpp', 'ringing/print_pdf.cpp', 'ringing/dimension.cpp'],
 [('options and layout', 'apps/psline/psline.cpp'), ('fitting', 'ringing/printm.cpp'), ('marks', 'ringing/print_ps.cpp, ringing/print_pdf.cpp')],
 'The document is interpreted to marks on pages by a PostScript or PDF interpreter in the harness; the positions of rows and columns are found from the numbers and dots, and every number, stroke, circle, rule and guide is compared with those of a model of the method in a layout that the options allow. Where fitting may choose, any such layout is accepted.')

prop('C43', 'Options are read as documented, however and wherever they are written',
 'Options given by short or long name, merged, with an argument attached, following or after =, before or after other arguments, or in a file of arguments (quoted in any way, perhaps naming further files) have the documented effect and no other: every kind of option (flags, counts, numbers, ranges, rows, texts, lists, with and without defaults) gets exactly its argument, and all that is not an option is kept in order; -- ends the options, and - is not one. What is not an option, lacks or may not have an argument, or has an argument that is not of its kind is refused with a message which names it. In each program the long and short spellings of an option do the same. The help message has every option, argument and description, wrapped to the terminal.',
 ['inputs', 'configurations'], 'tables of up to 10 options of 16 kinds, up to some 10 arguments, up to 6 files nested up to 4 deep, terminals of 50 to 140 columns; the options of the ten programs, up to four at a time',
 'Every program depends on one parser of options, for which there are no unit tests; the other tests use a few spellings of a few options.',
 ['apps/utils/args.cpp', 'apps/utils/args.h', 'apps/utils/argv.cpp', 'apps/utils/init_val.h', 'apps/utils/stringutils.cpp'],
 [('options', 'apps/utils/args.cpp'), ('files of arguments', 'apps/utils/argv.cpp'), ('help', 'apps/utils/args.cpp')],
 'The parser is linked into the harness and driven with random tables and command lines against a separate reader of the documented rules; a writer of quoted files provides a round trip; the programs are run with pairs of spellings and compared.')

prop('C44', 'ringmethod sounds each bell at its time, at its pitch',
 'ringmethod writes a WAVE file whose header says what follows it. Each row of the input is rung in order, with each bell struck once, at a time given by the peal speed, its place, the handstroke lead and its own offset and deviation at that stroke (or as soon after as the row before it allows), and sounds at the pitch of its degree of the major scale on the frequency of the tenor, dying away; the sound goes on for five seconds after the last bell. Bells that a row leaves out ring at its end. With no rows there is no sound. Options that are impossible, and rows of too many bells, are refused with a message.',
 ['inputs', 'configurations', 'random seeds'], 'up to 16 bells and 8 rows at sample rates from 3 to 192000, speeds of 1 to 400 minutes, offsets of up to 20 places',
 'No test runs ringmethod, the only program whose output is not text; an error in a time or pitch is one that only listening, or a model of the sound, would show.',
 ['apps/ringmethod/ringmethod.cpp', 'ringing/mathutils.cpp'],
 [('times and the header', 'apps/ringmethod/ringmethod.cpp'), ('sound of bells', 'apps/ringmethod/ringmethod.cpp (classes harmonic, bell_sound and tower_sounds)'), ('deviations', 'ringing/mathutils.cpp')],
 'The harness synthesises the sound by itself from the rows and options, as turning complex numbers, and compares it sample by sample.')

prop('C45', 'splices finds the splices between methods, and only those',
 'For each pair of methods read or given (or a method and a set of rows), splices prints the number of leads that have to be rung together: half the number of lead heads and lead ends reached by going from a lead of one to those of the other that share rows with it and back, in and out of course or only in course or between the two, for whole or half leads. It names the pivot bell, or the pair of bells that swap, of the lead heads. Pairs without a splice, or with one of another number of leads, are left out unless asked for. Grouped together, methods are joined exactly when a chain of the same splices does, by lead end if so asked, with lead splices in brackets. As a filter exactly the methods that are not lead splices of earlier ones, or that splice with the one given, pass. The group and table of falseness are printed in full. Impossible options and damaged input end with a message.',
 ['inputs', 'configurations'], 'up to 8 methods on 4 to 7 bells with leads of up to some 26 changes, with every compatible combination of options; damaged methods, rows and options',
 'No test runs splices. It combines falseness tables, groups, partitions of methods and their names, where errors show only with particular relations between methods.',
 ['apps/splices/splices.cpp', 'ringing/falseness.cpp', 'ringing/group.cpp', 'ringing/litelib.cpp', 'ringing/methodset.cpp'],
 [('splices', 'apps/splices/splices.cpp'), ('falseness and its group', 'ringing/falseness.cpp, ringing/group.cpp')],
 'Random pools of methods that differ in a few changes; shared rows are found row by row, and leads linked by breadth-first search; the output is read back and matched with the pairs, or sets, computed in the harness.')

prop('C46', 'spliceplan finds every plan of an extent of spliced methods, and no false one',
 'Given methods with the same lead backwards, spliceplan prints each way of choosing a method for every lead head so that every row comes exactly once (each lead head and lead end being in one lead), with the number of leads of each method: all of them and none twice; all in course, or the same in each part of the part ends given, if so asked, or one for each class of rotations with the size of the class. The plans written to files are the same ones, in the same order. Impossible options, part ends and methods that cannot be used end with a message.',
 ['inputs', 'configurations'], 'up to 5 palindromic methods on 4 to 6 bells with up to 1500 plans; up to two generators of part ends; damaged methods and options',
 'No test runs spliceplan: it is an exhaustive search, and a plan that is missing or false is one only another exhaustive search can tell.',
 ['apps/spliceplan/spliceplan.cpp', 'ringing/falseness.cpp', 'ringing/multtab.cpp', 'ringing/group.cpp'],
 [('search', 'apps/spliceplan/spliceplan.cpp (class searcher)'), ('rotations and files', 'apps/spliceplan/spliceplan.cpp (class spliced_plan)')],
 'Random methods that differ in a few changes; the harness lays leads row by row into the extent, backtracking over every lead head, and compares the plans as sets, printed and written.')

prop('C47', 'The symbols chosen for bells change how they are written, and nothing else',
 'With BELL_SYMBOLS set to other symbols for the bells, as many as there are bells or more, the programs do with arguments and input written in them exactly what they do with the usual symbols: the output is the same, with every bell written in the new symbols, and nothing that is not a bell (numbers, names, codes of lead heads and of falseness, classes, symmetry, music, lengths) is changed, nor is the status or whether there is a message. Symbols that are all capitals or all small letters are read in either case, and mixed ones only in their own.',
 ['inputs', 'configurations'], 'sets of symbols with and without digits, in capitals, small letters or both, in any order and exactly long enough; rows, patterns, expressions, methods, calls, masks, part ends and formats on 3 to 12 bells given to nine programs',
 'Every test runs with the usual symbols, with which a bell written out in the code as text, or a number printed as a bell, looks right.',
 ['ringing/bell.cpp', 'ringing/method.cpp', 'ringing/falseness.cpp', 'apps/methsearch/search.cpp', 'apps/methsearch/methodutils.cpp', 'apps/utils/row_calc.cpp', 'apps/fextent/fextent.cpp', 'apps/touchsearch/main.cpp', 'apps/splices/splices.cpp', 'apps/spliceplan/spliceplan.cpp', 'apps/musgrep/musgrep.cpp', 'apps/extent/extent.cpp', 'apps/rowcalc/rowcalc.cpp', 'apps/ringmethod/ringmethod.cpp'],
 [('symbols of bells', 'ringing/bell.cpp (set_symbols, read_char, is_symbol)'), ('codes of lead heads and falseness', 'ringing/method.cpp, ringing/falseness.cpp, apps/methsearch/methodutils.cpp')],
 'Metamorphic: random command lines and input for nine programs, run with the usual symbols and again translated into others (with the case changed where it may be); the second output has to be the translation of the first, field by field.')
