"""Writes properties.jsonl (kept as a script only so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

QP='sqlpuzzle/_queryparts/'
p('C01', 'Concurrent readers of one shared query all see the same, correct text',
  "When several threads render, print, compare, inspect, copy or embed the same finished query (or the same condition, value or function object used in several queries) and nobody modifies it, every one of them gets exactly the result a single thread would get. Afterwards the object still renders, compares and inspects exactly as before, and every reader finishes.",
  ['schedules'], 'every interleaving, down to individual source lines, of any number of reading threads over any query the library can express',
  'The tests are single-threaded: no test renders one object from two threads, and no test could choose the interleaving.',
  ['sqlpuzzle/_queries/query.py', QP+'tables.py', QP+'queryparts.py', 'sqlpuzzle/_common/object.py', 'sqlpuzzle/_common/sqlvalue.py'],
  [('rendering reads the parts and writes nothing back', 'Query.__str__, QueryParts.__str__, Table.__str__ (joins are minimised for output only)'),
   ('copy is a deep copy', 'Object.copy')],
  ['str(query)', 'repr(query)', 'query == other', 'query.has(...)', 'query.copy()'],
  [('joins of a table', 'list of joins a table renders; must not be rewritten while rendering', QP+'tables.py')])
p('C02', 'Looking at a query never changes it',
  "Rendering, printing, comparing, ordering, hashing, inspecting, copying or embedding a query (or a part used in it) any number of times, at any moments between the calls that build it, never changes what the query finally renders to, reports or compares equal to. This includes looks that raise, such as rendering an UPDATE or DELETE before its condition is given, and queries whose values came from one-shot iterables.",
  ['schedules', 'histories'], 'every placement of any mix of observations between the building calls of any history',
  'A test renders a query once, at the end; settling this needs every placement of observations in every history.',
  [QP+'tables.py', QP+'queryparts.py', 'sqlpuzzle/_queries/query.py', 'sqlpuzzle/_common/sqlvalue.py', 'sqlpuzzle/relations.py'],
  [('joins are merged into the output, not into the query', 'Table.__str__/_minimize_joins'),
   ('one-shot iterables are read when the value is made', 'relations.IN, SqlValue')],
  ['str(query) at the end of the history'])
p('C03', 'A rendering that is cut short leaves no trace',
  "If rendering, printing, comparing, inspecting or copying a query is cut short at any instant by an exception (an interrupt, memory or stack exhaustion, or a failing user-supplied SQL object), the exception reaches the caller and the query, and every other query in the process, afterwards renders exactly as if that attempt had never been made.",
  ['crash_points', 'fault_sequences'], 'every line of the rendering/inspection code as the interruption point, every fault kind, sequences of several such faults, any query',
  'No test interrupts a rendering; unit tests reach only complete renderings and the two confirm exceptions raised before rendering starts.',
  ['sqlpuzzle/_queries/query.py', QP+'tables.py', QP+'queryparts.py', 'sqlpuzzle/_common/sqlvalue.py', 'sqlpuzzle/_common/object.py', 'sqlpuzzle/relations.py'],
  [('no state is kept between or during renderings', 'Query.__str__, Table.__str__, SqlValue.__str__')],
  ['str(query) after the failed attempt', 'str() of an unrelated query'])
p('C04', 'A building call that is rejected changes nothing',
  "If a call that extends a query raises, whether because any one of its arguments, at any position and in any argument form, is invalid, or because an iterable, mapping or object supplied by the caller fails while the library reads it, the query afterwards behaves exactly as if the call had not been made. In particular a rejected condition list never leaves some of its conditions behind.",
  ['fault_sequences', 'histories'], 'every building method, every position of the failing argument, every failure kind, any history before and after, repeated failures',
  'Tests check that a bad argument raises on an empty part; none looks at what a failed call left behind or goes on building afterwards.',
  [QP+'conditions.py', QP+'values.py', QP+'columns.py', QP+'tables.py', QP+'order.py', QP+'limit.py', QP+'onconflictdoupdate.py', QP+'queryparts.py', 'sqlpuzzle/_common/argsparser.py'],
  [('arguments are parsed and validated completely before anything is appended', 'Conditions.where, Values.set, Columns.columns, Tables.set, Orders.order, Limit.limit')],
  ['str(query) after the rejected call and after further calls'])
p('C05', 'Queries never influence one another',
  "What a query renders to depends only on the calls made on it (and on the selected database), never on which other queries were built, rendered, copied, failed or thrown away earlier in the process, nor on which are being built or rendered by other threads at the same time.",
  ['schedules', 'histories'], 'every interleaving of any number of threads each building and rendering its own queries, after any earlier history in the process, including tasks that die half way',
  'Each test builds one query in isolation, so state shared by accident between instances or threads (class attributes, caches, scratch buffers) stays invisible.',
  ['sqlpuzzle/_queries/query.py', 'sqlpuzzle/_queries/options.py', 'sqlpuzzle/_common/argsparser.py', 'sqlpuzzle/_common/sqlvalue.py', QP+'queryparts.py', QP+'tables.py', QP+'functions.py'],
  [('every query creates its own parts', 'Query.__init__'), ('parser state lives in a per-call object', 'parse_args')],
  ['str() of each query against the same calls alone in a fresh process'])
p('C06', 'A copy is equal at birth and independent for ever',
  "A copy of a query, condition, value or function renders the same and compares equal to the original when it is made. From then on, whatever is done to either one (or to sub-queries, conditions or functions embedded in the original), in any order or interleaving of threads, never shows in the other.",
  ['histories', 'schedules'], 'every history before the copy, every interleaving of calls on the original, on parts embedded in it, on the copy and on copies of copies',
  'Each part has one test that copies it and appends one item to the original; nested state (joins, sub-queries, conditions of conditions, functions, options, flags) and interleavings are not reached.',
  ['sqlpuzzle/_common/object.py', 'sqlpuzzle/_queries/query.py', QP+'queryparts.py', QP+'tables.py', 'sqlpuzzle/_common/sqlvalue.py'],
  [('deep copy', 'Object.copy')],
  ['str(copy), str(original), copy == original'])
p('C07', 'Choosing the database is one process-wide, all-or-nothing switch',
  "Once a call selecting the database has returned, every rendering and every database-dependent building call started later, in any thread and on any query old or new, follows that database's syntax (quoting, booleans, binary literals) and capabilities (full join, upsert) until the next selection; only an upsert clause keeps the form given by the call that added it. A selection that fails or is interrupted never leaves anything but the previous or the requested database in force, and a rendering that overlaps no selection never mixes two syntaxes.",
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving of selections (valid, invalid, interrupted) and renderings in several threads; any queries built before or after a switch',
  'Tests select one database per test in one thread, then render one new query.',
  ['sqlpuzzle/_backends/__init__.py', 'sqlpuzzle/_backends/sql.py', 'sqlpuzzle/_common/sqlvalue.py', 'sqlpuzzle/_queries/insert.py', QP+'tables.py'],
  [('one module-level backend, validated before it is assigned, read at every use', 'set_backend, get_backend')],
  ['str(query)', 'full_join / on_duplicate_key_update acceptance'],
  [('selected backend', 'the database whose syntax is generated', 'sqlpuzzle/_backends/__init__.py')])
p('C08', 'An UPDATE or DELETE of all rows is never rendered without consent',
  "An UPDATE or DELETE renders without a WHERE condition only if, among the calls that took effect, the last consent call allowed it; otherwise, while it has no condition, every attempt to render it in any form raises the confirmation exception. This holds after failed, empty or interrupted condition calls, after copies, and for readers in other threads, each of which sees the situation at some moment during its rendering.",
  ['histories', 'fault_sequences', 'schedules'], 'every history of condition, consent, revocation, copy and failing calls, with reader threads rendering at every point in between',
  'Tests cover the two one-step cases (no where; allow) in one thread with no failed calls.',
  ['sqlpuzzle/_queries/update.py', 'sqlpuzzle/_queries/delete.py', QP+'conditions.py', QP+'queryparts.py', 'sqlpuzzle/exceptions.py'],
  [('guard evaluated at every rendering', 'Update.__str__, Delete.__str__'), ('consent flag', 'allow_*_all / forbid_*_all')],
  ['str(query)/repr(query)/tosql(): text with WHERE, text without, or confirmation exception'],
  [('consent flag', 'whether a statement without WHERE may be rendered', 'sqlpuzzle/_queries/update.py, delete.py')])
p('C09', 'An interrupted building call damages nothing that was there before',
  "If a call that extends a query (or a condition or function used in one) is interrupted at any instant (keyboard interrupt, timeout, memory exhaustion), everything earlier calls contributed is still there unchanged, the query still renders, and what it renders is what it would be had the call not been made, or been made with some or all of its items. Building can then go on normally, and no other query is affected.",
  ['crash_points', 'histories'], 'every line executed by a building call as the interruption point, any history before and after',
  'No test interrupts a call half way.',
  [QP+'queryparts.py', QP+'conditions.py', QP+'tables.py', QP+'order.py', QP+'values.py', QP+'limit.py', QP+'onconflictdoupdate.py', 'sqlpuzzle/_queries/insert.py'],
  [('new parts are completed before they are attached', 'append_part, Table.join, MultipleValues.add')],
  ['str(query) after the interrupt'])
p('C10', 'The same calls give byte-identical SQL in every process',
  "The same calls with equal arguments always produce byte-identical SQL, whatever the process's hash seed, the insertion order of dictionaries and keyword arguments, the iteration order of sets, or where objects lie in memory.",
  ['configurations', 'inputs'], 'every hash seed, insertion order, set order and memory layout; any query',
  'The suite runs under one fixed hash seed and writes its dictionaries in one order.',
  ['sqlpuzzle/_common/argsparser.py', 'sqlpuzzle/_common/object.py', 'sqlpuzzle/_common/sqlvalue.py', QP+'values.py', 'sqlpuzzle/_queries/options.py', 'sqlpuzzle/relations.py'],
  [('dictionary items and insert columns are sorted', 'Parser._parse_dictionary, MultipleValues.all_columns, Options.__str__')],
  ['str(query)'])
p('C11', "The caller's containers are neither modified nor kept",
  "A building call never modifies the dictionaries, lists, sets or tuples passed to it, so the same container can be used again, also by several threads at once. Whatever the caller does to such a container after the call has returned never shows in the query.",
  ['schedules', 'histories'], 'every building method and argument form; every later mutation of the container; every interleaving of threads sharing a container',
  'Tests pass fresh literals and never look at them again.',
  [QP+'tables.py', 'sqlpuzzle/relations.py', 'sqlpuzzle/_common/sqlvalue.py', 'sqlpuzzle/_common/argsparser.py', QP+'functions.py'],
  [('arguments are read into own tuples/lists', 'Parser._create_batch, relations.IN')],
  ['the container before and after the call', 'str(query) after the container was changed'])
p('C12', 'A one-shot stream of values is read once, wholly, or the call fails',
  "A generator (or, in a membership relation, any iterator) given as a value is read exactly once and to its end by the call that takes it, and the complete list of its items appears in every later rendering and copy. If the stream fails at any item, that same failure reaches the caller of that call and the query is unchanged: no query ever renders with a truncated list.",
  ['fault_sequences', 'schedules'], 'every stream length, every failing position and exception kind (type errors and interrupts included), every method and relation that takes values, any number and interleaving of later renderings',
  'One test renders one healthy generator once.',
  ['sqlpuzzle/relations.py', 'sqlpuzzle/_common/sqlvalue.py', QP+'conditions.py'],
  [('membership relations copy the iterable into a list', 'relations.IN.__init__')],
  ['str(query), repeatedly', 'number of items pulled from the stream'])
p('C13', 'Code running in the middle of library code may itself use the library',
  "Code that runs on the same thread in the middle of a rendering or building call (a signal handler, a finaliser, a user-supplied SQL object, the body of a generator argument) may build and render other queries and render the one being worked on. Neither side is affected: the outer call ends as if nothing had happened, the inner results are what they would be alone, and both finish.",
  ['schedules'], 'every line of a rendering or building call as the point where nested code runs, any nested work',
  'No test re-enters the library from a callback.',
  ['sqlpuzzle/_queries/query.py', QP+'queryparts.py', QP+'tables.py', 'sqlpuzzle/_common/argsparser.py', 'sqlpuzzle/_common/sqlvalue.py'],
  [('no scratch state outside the call frame', 'Query.__str__, parse_args, SqlValue')],
  ['results of outer and nested calls'])
# --- pure functions of their input: stated for completeness, not claimed ---
p('C14', 'The clauses of a query may be given in any order',
  "When several parts of an application contribute to one query, each its own clause (columns, tables with their joins, conditions, grouping, ordering, limit, output file settings, single options, values, consent to touch all rows, the two sides of a union, the settings of a function), the finished query and the acceptance of every call are the same however those contributions are interleaved, also when some of them are refused and when the query is looked at or continued on a copy in between.",
  ['schedules', 'histories'], 'every interleaving of any number of contributors, each keeping its own order, with any of their calls refused',
  'A test calls the methods in one, usual order; the number of orders of one query alone is beyond any list of tests.',
  ['sqlpuzzle/_queries/select.py', 'sqlpuzzle/_queries/insert.py', 'sqlpuzzle/_queries/update.py', 'sqlpuzzle/_queries/delete.py', 'sqlpuzzle/_queries/selectoptions.py', QP+'intooutfile.py', QP+'functions.py'],
  [('every clause is kept in its own part', 'Query.__init__'), ('parts are put together only when the query is rendered', 'Query.__str__')],
  ['str(query)', 'query == other', 'outcome of each building call'])
p('C15', 'Nothing of a discarded query is kept',
  "Once the application has dropped a query, its copies and the objects it passed in (containers, streams, own SQL objects), the library holds none of them any more: they can be reclaimed, however the work on them ended (well, refused, cut short by an exception, or with its thread killed). Repeating the same work does not make the library hold more.",
  ['histories', 'fault_sequences', 'crash_points'], 'every history of building, rendering, copying, failing and interrupted calls in any number of threads',
  'Tests never look at what stays behind; a reference left by one failing call at one point shows only as growth of a long-lived process.',
  ['sqlpuzzle/_queries/query.py', 'sqlpuzzle/_common/object.py', 'sqlpuzzle/_common/utils.py', 'sqlpuzzle/relations.py', 'sqlpuzzle/_backends/__init__.py'],
  [('queries know their parts and nothing knows the queries', 'Query.__init__, Object.copy'), ('the only process-wide state is the selected database', '_backends/__init__.py')],
  ['weak references to dropped objects', 'number of library objects alive'])
p('C20', 'Data can never escape its literal or identifier',
  "Whatever string, bytes, number, date or name is supplied as a value or identifier, it is rendered as exactly one literal or identifier of the selected database that denotes that value, so data can never become SQL syntax.",
  ['inputs'], 'every value and identifier, each supported database',
  'Tests sample a handful of strings.',
  ['sqlpuzzle/_common/sqlvalue.py', 'sqlpuzzle/_backends/sql.py', 'sqlpuzzle/_backends/postgresql.py', 'sqlpuzzle/_backends/mysql.py'],
  [('escaping and quoting', '_escape_value, SqlBackend.reference/is_reference')], ['str(value)', 'str(reference)'])
p('C21', 'The statement says what the calls said, in every argument form',
  "The rendered statement contains exactly the columns, tables, joins, conditions, values, orderings, limits and options that were requested, each in its clause and in valid clause order, with every inserted value under its own column; passing them as arguments, tuples, lists, dictionaries or keywords makes no difference.",
  ['inputs', 'programs'], 'every sequence of building calls and argument forms',
  'Tests sample some forms per part.',
  ['sqlpuzzle/_queries/select.py', 'sqlpuzzle/_queries/insert.py', 'sqlpuzzle/_queries/update.py', 'sqlpuzzle/_queries/delete.py', 'sqlpuzzle/_common/argsparser.py', QP+'values.py'],
  [('query template and argument parser', 'Query.__str__, parse_args')], ['str(query)'])
p('C22', 'Automatic rewriting of conditions and joins preserves their meaning',
  "Where the library rewrites what was asked for (NULL inside membership lists, brackets around combined conditions, merging of repeated joins, dropping of duplicate parts), the rewritten SQL selects the same rows as the SQL literally asked for.",
  ['inputs', 'programs'], 'every condition tree, membership list and join sequence',
  'Tests compare fixed strings for single cases.',
  ['sqlpuzzle/relations.py', QP+'conditions.py', QP+'tables.py'],
  [('rewriting', 'IN/NOT_IN._format_condition, ConditionsOfConditions, _minimize_joins')], ['str(query)'])
p('C23', 'Arguments of the wrong kind are always refused',
  "A column, table, alias, ordering, limit, value or relation of a kind that has no SQL meaning there is refused with the library's invalid-argument exception and never silently rendered.",
  ['inputs'], 'every argument of every method',
  'Tests sample a few wrong types per method.',
  ['sqlpuzzle/_common/utils.py', 'sqlpuzzle/relations.py', 'sqlpuzzle/exceptions.py'],
  [('type checks', 'check_type_decorator, _RelationValue._check_value_type')], ['exception raised'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
