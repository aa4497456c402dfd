import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    assert 1<=statement.count('. ')+1<=3,(id,statement.count('. ')+1)
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    P.append(d)

p('C01','Arithmetic yields the exact value, null or an error',
 'For every expression built from +, -, *, /, %, ^, unary minus and parentheses over integers, floats and null, the result is the one given by the usual precedence (unary minus binds tightest, then ^, then * / %, then + -) with left-to-right evaluation: integers combine to 64-bit integers (division truncates towards zero and the remainder has the sign of the dividend), a float operand makes the result a float, and ^ always gives a float. A null operand makes the result null. Division or remainder by zero, and operands of unsupported kinds, are reported as errors and never produce a value.',
 ['inputs','programs'],'all operator sequences, nestings and operand values',
 'The tests evaluate a couple of constant expressions; no test varies operand kinds, nulls, operator order or chains of three or more operators.',
 ['arithmeticeval.go','ast.go'],
 [('unary minus','arithmeticeval.go: unaryAddOrSubtractExpression.Evaluate'),('power','arithmeticeval.go: powerOfExpression.Evaluate'),('multiplicative','arithmeticeval.go: multiplyDivideModuloExpression.Evaluate and mul* helpers'),('additive','arithmeticeval.go: addOrSubtractExpression.Evaluate and add* helpers'),('operator order kept by the tree','ast.go: oC_AddOrSubtractExpression, oC_MultiplyDivideModuloExpression, oC_UnaryAddOrSubtractExpression')])

p('C02','Comparisons and boolean operators follow three-valued logic',
 'Comparison operators agree with one total order on each comparable kind (numbers across integer and float, strings by code point, booleans, dates, times, date-times, durations), a chain a < b <= c means the conjunction of its adjacent pairs, and a comparison with null is null. AND, OR, XOR and NOT follow the three-valued truth tables with precedence NOT, AND, XOR, OR, a non-boolean operand being an error unless another operand already decides the result. Values of incomparable kinds are never reported as equal or ordered.',
 ['inputs','programs'],'all operand values including null, all operators, all chains and nestings of boolean operators',
 'No test compares values of every kind, chains comparisons, or uses null as an operand; truth tables have 3^n rows per operator shape.',
 ['relationaleval.go','ast.go'],
 [('value order','relationaleval.go: comparePrimitiveValues'),('comparison chains','relationaleval.go: comparisonExpression.Evaluate'),('boolean operators','relationaleval.go: andExpression, orExpression, xorExpression, notExpression'),('operator parsing','ast.go: oC_PartialComparisonExpression, oC_NotExpression')])

p('C03','String, list, null and CASE operators return the right element or value',
 'STARTS WITH, ENDS WITH, CONTAINS, string and list concatenation, IS NULL and IS NOT NULL return what their definitions say for every operand; IN is true exactly when an equal element exists, null when that is undecided because of a null, and false otherwise. List indexing returns the element at the (possibly negative) position or null when there is none, and a slice returns exactly the elements from its start up to but not including its end, clamped to the list. CASE returns the branch of the first alternative that is true (or equal to the tested value), else its default, else null.',
 ['inputs','programs'],'all strings, lists, indexes, slice bounds, element values and alternatives, including nulls and nesting',
 'Tests contain no list slicing, IN with null, negative index, or CASE with several alternatives.',
 ['eval.go','arithmeticeval.go','ast.go'],
 [('postfix operators','eval.go: stringListNullOperatorExpressionPart.evaluate, stringOperatorExpression.evaluate'),('list concatenation','arithmeticeval.go: addlistlist'),('CASE','eval.go: caseClause.Evaluate'),('operator parsing','ast.go: oC_ListOperatorExpression, oC_StringOperatorExpression, oC_NullOperatorExpression, oC_CaseExpression')])

p('C04','Built-in functions compute their documented results for all arguments',
 'For every argument, size counts list elements or characters, left, right and substring select the named characters (the whole rest when fewer remain, the empty string when the start is beyond the end), trim, ltrim, rtrim and split cut at white space or delimiter, range lists the integers from start up to but excluding end by step, labels lists the labels of a node, type gives the type of a relationship, and the toInteger/toFloat conversions give the converted number. A null argument gives null. A wrong number of arguments, an unknown function, or a string that cannot be converted is an error, except that the OrNull conversions give null for it.',
 ['inputs'],'all argument tuples including multi-byte strings, bounds beyond the string, integer limits, null and values of the wrong kind',
 'No test calls the string, conversion or range functions with boundary or multi-byte arguments.',
 ['stringfuncs.go','scalarfuncs.go','functions.go','eval.go'],
 [('string functions','stringfuncs.go'),('conversions','scalarfuncs.go'),('range, labels, type, size','functions.go'),('arity check and dispatch','eval.go: functionInvocation.Evaluate; ctx.go: GetFunction')])

p('C05','Literals denote their written value and escaping round-trips',
 'Every literal (decimal, hexadecimal and octal integers, floats, strings with escape sequences, booleans, null, lists, maps) evaluates to the value it denotes, and names written with or without backticks, including reserved words, denote exactly the written name. A string, label or property key passed through the corresponding escape helper and embedded in a query denotes the original text. Keyword case, white space, comments, redundant parentheses and a final semicolon do not change what a query means.',
 ['inputs','programs'],'all literals, all names and strings (valid UTF-8), all layouts of a query',
 'Tests use a few plain literals; quotes, backslashes, backticks, unicode escapes, reserved words as names and layout variations are never exercised.',
 ['ast.go','literal.go','lang.go'],
 [('literals','ast.go: oC_Literal, oC_IntegerLiteral, oC_DoubleLiteral; literal.go: unescapeStringLiteral, listLiteral, mapLiteral'),('names','ast.go: oC_SymbolicName, oC_SchemaName, oC_ReservedWord'),('escape helpers','literal.go: EscapeLabelLiteral, EscapePropertyKeyLiteral, EscapeStringLiteral')])

p('C06','Parsing any text gives a query or an error, and rejects malformed text',
 'Parsing any input text, as a query or as a pattern expression, returns promptly with either a usable result or an error, never both and never a crash. Text that is not a complete well-formed query (stray or unrecognised characters, unbalanced delimiters, missing or trailing tokens, numbers out of range) is rejected with an error instead of being partly ignored. Well-formed text of the supported language is accepted.',
 ['inputs'],'all input strings',
 'Tests only parse a handful of well-formed queries.',
 ['lang.go','ast.go','parser/cypher_parser.go','parser/cypher_lexer.go'],
 [('error collection','lang.go: Parse, ParsePatternExpr, errorListener'),('panic containment','lang.go: recoverParseError'),('tree building','ast.go: oC_* functions')])

p('C07','Evaluating any parsed query gives a result or an error, never a crash or hang',
 'Evaluating any query that parses, against any graph, variables and parameters made of supported values, terminates with either a result or an error and never crashes. Constructs that are not implemented and operands of the wrong kind are reported as errors. After such an error the graph and the context remain usable.',
 ['programs','inputs'],'all parsed queries, graphs and parameter values',
 'The tests evaluate well-typed supported queries only; the combinations of construct and operand kind are unbounded.',
 ['eval.go','patterneval.go','update.go','arithmeticeval.go','functions.go','resultset.go'],
 [('unsupported constructs','eval.go: ErrUnsupported'),('operand checks','eval.go, arithmeticeval.go, relationaleval.go type switches'),('pattern compilation','patterneval.go: runPattern, getPattern')])

p('C08','A parsed query can be re-evaluated: every evaluation is as if freshly parsed',
 'Evaluating the same parsed query again, on another row, context, graph or parameter set, gives the result a freshly parsed copy would give there; nothing remembered from an earlier evaluation, including a failed one, shows. Every reference to a variable, parameter or function within a query sees the value it has for the current row. Repeating a query that only reads gives the same rows again.',
 ['histories','inputs'],'all sequences of evaluations of one parsed query with varying parameters, variables, functions, rows and graphs',
 'Tests parse and evaluate each query once; a value cached in the parsed query on the first evaluation is invisible to them.',
 ['arithmeticeval.go','literal.go','eval.go','ctx.go'],
 [('constant caching','constValue in arithmeticeval.go and literal.go, guarded by Value.IsConst'),('constness of variables and parameters','ctx.go: GetVar; eval.go: propertyOrLabelsExpression.Evaluate'),('function lookup','eval.go: functionInvocation.Evaluate')])

p('C09','MATCH finds exactly the occurrences of a pattern',
 'For any finite graph, MATCH with a pattern of nodes and relationships returns one row per assignment of its elements that satisfies every label, relationship type (any of the listed types), direction, property value and repeated variable in it: none missing, none extra, none twice. A property fits if it equals the value asked for (numbers by numeric value), a relationship with no arrow or two fits in either direction, and a variable-length relationship matches exactly the paths of distinct relationships whose length is within its bounds and whose relationships all fit. The order in which nodes and relationships were created, and the direction in which the pattern is written, do not matter.',
 ['inputs','programs'],'all graphs (including loops, parallel relationships and disconnected parts) and all patterns',
 'Tests match one or two patterns on one fixed graph each; soundness and completeness quantify over all graphs and patterns.',
 ['patterneval.go','ast.go'],
 [('pattern translation','patterneval.go: PatternPart.getPattern, nodePattern.getPattern, relationshipPattern.getPattern'),('constraints checked on each match','patterneval.go: matchResultAccumulator.accept, hasProperties'),('search','github.com/cloudprivacylabs/lpg/v2 Pattern.Run')])

p('C10','Pattern parts, MATCH and OPTIONAL MATCH clauses and WHERE combine as a join',
 'Several patterns in a MATCH and several MATCH clauses yield exactly the combinations of their occurrences that agree on shared variables, each clause seeing the variables bound by earlier ones row by row. WHERE keeps exactly the combinations for which its condition is true, dropping those for which it is false or null. OPTIONAL MATCH keeps every incoming row, with its new variables null when there is no match, and otherwise behaves like MATCH.',
 ['inputs','programs'],'all graphs, all sequences of MATCH and OPTIONAL MATCH clauses and conditions',
 'No test has two MATCH clauses, several pattern parts sharing variables, or OPTIONAL MATCH without a result.',
 ['patterneval.go','eval.go'],
 [('clause join','eval.go: singlePartQuery.Evaluate'),('parts, WHERE and OPTIONAL','patterneval.go: Match.GetResults'),('bound variables','patterneval.go: BuildPatternSymbols, matchResultAccumulator.accept')])

p('C11','RETURN projects, deduplicates, orders and pages rows correctly',
 'RETURN gives one row per input row holding exactly the requested columns, named by their alias or else by their 1-based position (and all variables for *), each with the value of its expression for that row. DISTINCT keeps exactly one of each group of equal rows, ORDER BY sorts rows by its keys in the stated directions with null as the largest value and ties left in input order, and then SKIP and LIMIT drop and keep exactly the stated number of rows, in that order. Without these clauses no row is lost, added or merged.',
 ['inputs','programs'],'all row sequences, projections, sort keys, and skip and limit values',
 'Tests check single-row projections; none uses DISTINCT, ORDER BY, SKIP or LIMIT.',
 ['eval.go','resultset.go','ast.go'],
 [('projection','eval.go: projectionItems.Project, singlePartQuery.Evaluate; ast.go: getProjectedNames'),('ordering','eval.go: order.getKeys, order.sort'),('distinct','resultset.go: ResultSet.find')])

p('C12','UNION and UNION ALL combine the rows of their queries',
 'UNION ALL returns the rows of each query followed by the rows of the next, with nothing lost or merged; UNION returns each distinct row of that sequence exactly once, in order of first appearance, nulls being equal to each other for this purpose. Each query of the union is evaluated independently: variables of one are not visible in another.',
 ['inputs','programs'],'all numbers of queries, row sequences and values',
 'One test joins two result sets; duplicates within one side, three or more queries, nulls and composite values are not covered.',
 ['eval.go','resultset.go','value.go'],
 [('union','eval.go: regularQuery.Evaluate; resultset.go: ResultSet.Union, find'),('sameness of values','value.go: IsValueSame')])

p('C13','CREATE adds exactly its pattern once per incoming row',
 'For each incoming row (once when there is none) CREATE adds exactly the nodes and relationships of its pattern whose variables are not yet bound, with exactly the stated labels, type, direction and non-null property values, and reuses the nodes that are bound. Nothing else in the graph changes, and later clauses and RETURN see the created elements under their variables. An invalid pattern (redefining a bound node, reusing a relationship variable, several types, a length range) is an error.',
 ['inputs','programs','histories'],'all graphs, patterns, preceding clauses and property values',
 'Tests create fixed patterns on an empty graph, and never after a MATCH with several rows.',
 ['update.go','patterneval.go'],
 [('creation','update.go: create.Update, create.TopLevelUpdate, PatternPart.Create, nodePattern.Create, relationshipPattern.Create'),('properties','patterneval.go: Properties.getPropertiesMap; ctx.go: PropertyValueFromNative')])

p('C14','SET and REMOVE change exactly the named properties and labels',
 'SET and REMOVE apply their items in order to the elements of each row and change exactly the named properties and labels of exactly those nodes: x.p = v stores the value (null removes it), x = map or node replaces all properties, x += map merges them (null entries remove), x:L adds and REMOVE x:L removes labels, REMOVE x.p removes a property. Every right-hand side is evaluated for its own row, seeing the effects of earlier items and rows. When a property filter is installed, every value stored by an update is what the filter returned for that key and value.',
 ['inputs','programs','histories'],'all graphs, item lists, row multisets (including rows sharing nodes), values and filters',
 'Tests set one property on one node at a time; multi-row, self-referencing, null and map forms are mostly untested.',
 ['update.go','eval.go','ctx.go'],
 [('SET','update.go: set.Update, setItem.update'),('REMOVE','update.go: remove.Update'),('property assignment','eval.go: propertyExpression.Evaluate'),('filter hook','ctx.go: PropertyValueFromNative')])

p('C15','DELETE removes exactly the selected elements and never leaves dangling ones',
 'DELETE removes exactly the nodes and relationships that its expressions denote over all rows, however many rows name the same element, and null is ignored. Without DETACH, a node that would still have relationships not deleted by the same clause makes the clause fail and nothing is removed; with DETACH those relationships are removed with it. Everything else in the graph stays as it was.',
 ['inputs','programs','histories'],'all graphs and all row multisets selecting nodes and relationships',
 'One test deletes from a fixed graph; repeated elements, loops, parallel relationships and rejected deletions are not covered.',
 ['update.go'],
 [('deletion','update.go: deleteClause.Update')])

p('C16','MERGE matches if it can and creates exactly once if it cannot',
 'For each incoming row (once when there is none), MERGE returns the existing occurrences of its pattern if there are any, leaving the graph as it was, and otherwise creates the whole pattern exactly once, reusing bound nodes. ON MATCH actions run exactly when it matched and ON CREATE actions exactly when it created, on the matched or created elements. Rows are handled in order, so a later row sees what an earlier one created, and repeating a MERGE creates nothing more.',
 ['inputs','programs','histories'],'all graphs, patterns, incoming rows and actions',
 'Tests merge a few patterns on small fixed graphs; repeated rows, partial matches and combined actions are not enumerated.',
 ['update.go','patterneval.go'],
 [('match or create','update.go: merge.doMerge, merge.Update, merge.TopLevelUpdate'),('actions','update.go: merge.processActions')])

p('C17','Queries that only read leave the graph unchanged, and indexes change no result',
 'Evaluating a query without updating clauses, whether it succeeds or fails, leaves every node, relationship, label, property and index lookup of the graph unchanged. Adding an index on a property of nodes or relationships, before or after the data is created, changes neither the rows any query returns nor the effect of any update.',
 ['programs','histories','configurations'],'all read queries, graphs, index configurations and update histories',
 'No test compares the graph before and after a read, or runs the same history with and without an index.',
 ['patterneval.go','eval.go','update.go'],
 [('evaluation on rows rather than on the graph','eval.go, patterneval.go'),('properties pushed down to the graph search','patterneval.go: runPattern'),('indexes','github.com/cloudprivacylabs/lpg/v2 graphindex.go')])

p('C18','The graph stays internally consistent after any sequence of queries',
 'After any sequence of queries, successful or failing, the graph is consistent: every relationship connects two nodes that are in the graph and is listed exactly once from both ends and globally, and lookups by label, type and indexed property return exactly the elements that have them. The nodes and relationships in the graph are exactly the ones the sequence implies, and a query sees all of them.',
 ['histories'],'all sequences of creating, updating, merging, deleting and failing queries',
 'Tests run one to three queries on one graph; consistency must hold after every history.',
 ['update.go','eval.go','patterneval.go'],
 [('updates','update.go'),('graph store','github.com/cloudprivacylabs/lpg/v2')])

p('C19','Variables and parameters are scoped to their context',
 'A variable that a query creates, or returns as it is, is visible to later queries of the same context with the value of its last row, and constrains or feeds them exactly as a bound variable does. Variables and parameters set in a context are visible in its sub-contexts, a sub-context can shadow them without changing its parent, and contexts that are not related do not affect each other. An unknown variable or parameter is an error.',
 ['histories','inputs'],'all sequences of queries and of variable and parameter settings over trees of contexts',
 'Tests use a context for one to three queries; shadowing, removal, stale values and sibling contexts are not enumerated.',
 ['ctx.go','eval.go','patterneval.go'],
 [('lookup','ctx.go: GetVar, GetParameter, SubContext, SetVars'),('export of query variables','eval.go: regularQuery.Evaluate'),('bound variables','patterneval.go: BuildPatternSymbols')])

p('C20','Temporal values: calendar-correct construction, arithmetic, order and text',
 'date() builds the stated calendar date from a map (a month or day that is missing is 1) or an ISO string (null in, null out; malformed text is an error), and adding or subtracting a duration to or from a date, time or date-time gives the calendar-correct result, a duration added and then subtracted leaving date arithmetic consistent with its components. Durations add, subtract and scale component by component. Comparison of dates, times and date-times is chronological, comparison of durations orders by months, then days, then seconds, then nanoseconds, equality is by value, and the text form of a date, time or duration denotes the same moment or duration.',
 ['inputs'],'all dates, times, durations and factors, including month and year ends, leap days and negative durations',
 'No test evaluates a temporal value.',
 ['datefuncs.go','datetime.go','duration.go','arithmeticeval.go','relationaleval.go'],
 [('construction','datefuncs.go: dateFunc; datetime.go: NewDate, NewLocalTime, NewLocalDateTime'),('arithmetic','arithmeticeval.go: adddatedur, addtimedur, adddatetimedur, adddurdur, muldurint, muldurfloat'),('order','relationaleval.go: comparePrimitiveValues')])

p('C21','Pattern expressions find exactly the nodes related to a starting node',
 'For any graph and starting node, evaluating a parsed pattern expression from that node returns exactly the nodes that its target element takes over all occurrences of the pattern in which its starting element is that node, once per occurrence. Occurrences not starting at the given node never contribute. The graph is not changed, and the same parsed expression can be used for any number of nodes and graphs.',
 ['inputs','programs'],'all graphs, starting nodes and pattern expressions',
 'The test evaluates a handful of patterns on one tree-shaped graph.',
 ['lang.go','patterneval.go'],
 [('evaluation','lang.go: PatternPart.FindRelative, ParsePatternExpr'),('search','patterneval.go: runPattern')])

p('C22','Value conversion, sameness and result-set operations are exact',
 'Converting a native Go value of a supported type to a query value preserves it, and sameness of values is an equivalence relation under which two values are the same exactly when they have the same contents (numbers by numeric value, lists in order, maps by key, nodes and relationships by identity, null with null). The union of result sets keeps exactly the rows it should, in order, the column accessor lists the column of every row that has it, and the cartesian products visit every combination exactly once and stop when told to.',
 ['inputs'],'all pairs and triples of values and all small result sets',
 'One test checks one union and one product with fixed rows.',
 ['value.go','resultset.go'],
 [('conversion','value.go: ValueOf'),('sameness','value.go: IsValueSame'),('set operations','resultset.go: Union, find, Column, CartesianProduct')])

p('C23','A failing sub-expression fails the query; a later evaluation is unaffected',
 'If evaluating any part of a query that its result depends on fails, at whatever position, row or clause, the query reports that error instead of returning rows. Functions registered by the embedding program are called with the evaluated arguments, once per evaluation of the call, and their result or error is what the expression yields. A failed evaluation does not affect later ones: the same query succeeds once the cause is gone.',
 ['fault_sequences','programs'],'every position of a failing call in every construct, failing at each of its successive evaluations',
 'No test makes an evaluation fail in the middle of a query.',
 ['eval.go','arithmeticeval.go','relationaleval.go','literal.go','patterneval.go','update.go','functions.go'],
 [('error returns','every Evaluate, Update and GetResults method'),('function calls','eval.go: functionInvocation.Evaluate; functions.go: RegisterGlobalFunc')])

p('C24','Concurrent evaluation: independent contexts do not interfere',
 'Queries parsed and evaluated at the same time in different goroutines, each with its own context and graph, give the results they give when run alone, even when the goroutines share one parsed query or one parsed pattern expression, in every interleaving. They have no data race. Queries that only read may also share one graph.',
 ['schedules'],'all interleavings of two or three evaluations, up to the stated preemption bound',
 'All tests are single-threaded.',
 ['eval.go','arithmeticeval.go','literal.go','patterneval.go','functions.go','lang.go'],
 [('parsed query is not modified by evaluation','eval.go: functionInvocation.Evaluate; arithmeticeval.go and literal.go: constValue; patterneval.go: runPattern copies the pattern'),('shared function table is only read','functions.go: globalFuncs')])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
