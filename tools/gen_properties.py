#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
EV = ['serde', 'iter', 'locations', 'singular_selector']
def c(crate): return 'crates/jsonpath_rfc9535' + ('_' + crate if crate else '')
def ev(*names):
    return [f'{c(k)}/src/{n}' for k in EV for n in names if os.path.exists(f'/repo/{c(k)}/src/{n}')]
PEST6 = ['pest', 'pest_recursive'] + EV
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe: a['observe_at'] = [observe]
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
SER = 'crates/jsonpath_rfc9535_serde/src/ast.rs'
LOC = 'crates/jsonpath_rfc9535_locations/src'
ITER = 'crates/jsonpath_rfc9535_iter/src'
SING = 'crates/jsonpath_rfc9535_singular_selector/src'
HAND = 'crates/jsonpath_rfc9535/src'

prop('P01', 'Comparison operators follow the RFC 9535 decision table',
 'In every evaluating crate (serde, iter, locations, singular) a comparison in a filter yields exactly the result RFC 9535 section 2.3.5.2.2 prescribes for every pair of operand kinds: `==` is deep and type-strict with integers and floats compared by numeric value and "nothing" equal only to "nothing" (an empty singular query result counts as nothing); `<` is defined only for two numbers or two strings and is false otherwise; `!=` is not-`==`, `>` is `<` swapped, and `<=`/`>=` are `<`/`>` or `==`. A singular query operand stands for the value of its node.',
 ['inputs'], 'all pairs of operand kinds (null, bool, int, float, string, array, object, empty and one-element node list, nothing) and all six operators, in four crates',
 'The compliance suite samples some operand pairs; there are 11 x 11 kinds x 6 operators x 4 crates and unbounded values inside each kind.',
 ev('filter.rs') + [SER],
 [('compare/eq/lt/nodes_or_singular/json_eq', SER + ', ' + LOC + '/filter.rs and copies in iter and singular'),
  ('from_json_value', 'maps a JSON value to a comparable in each crate')],
 observe='which array elements or object members a filter selector keeps')

prop('P02', 'Logical operators and existence tests: truth of filter expressions',
 'In every evaluating crate a filter keeps a child exactly when its expression is true: a query test is true iff it selects at least one node (whatever the value of that node), a function of logical type is true iff it returns true, `!` negates, `&&` is true iff both operands are and `||` iff at least one is. Literals and comparisons keep their own value, and every kind of filter expression evaluates to the result kind it denotes (null, booleans, numbers and strings as written, nested expressions with both operands evaluated against the same root and current value).',
 ['inputs'], 'all filter expression trees and all result kinds',
 'Tests evaluate a finite list of expressions; the claim covers each operator over all result kinds, including ones no test feeds to it.',
 ev('filter.rs') + [SER],
 [('FilterExpression::evaluate', LOC + '/filter.rs and copies; ' + SER), ('is_truthy, is_truthy_ref, logical', 'same files')])

prop('P03', '`$` is always the query argument and `@` the current child',
 'At every nesting depth of filters, function arguments and embedded queries, an absolute query (`$...`) is evaluated from the root of the document that was passed to find, and a relative query (`@...`) from the child value the innermost enclosing filter selector is testing. This holds in all four evaluating crates and for every selector and segment kind in between.',
 ['inputs'], 'all nesting depths and positions of embedded queries, all documents',
 'Tests have one or two levels of nesting; a wrong root at a deeper level or in one crate only is invisible to them.',
 ev('filter.rs', 'query.rs', 'segment.rs', 'selector.rs', 'iter.rs') + [SER],
 [('QueryContext / root parameter', SER + ', ' + LOC + '/query.rs'), ('RootQuery, RelativeQuery', 'FilterExpression::evaluate'), ('QueryIter::from_current', ITER + '/iter.rs')])

prop('P04', 'Index and slice selectors select exactly the RFC 9535 elements, in order',
 'For every array length and every index, an index selector selects element i for 0 <= i < len, element len+i for -len <= i < 0, and nothing otherwise. For every start, end and step (each optional, any sign), a slice selector selects exactly the elements of the RFC 9535 section 2.3.4.2.2 algorithm, in its order: defaults by the sign of step, negative bounds counted from the end, clamping to the array, nothing for step 0. Neither selects anything from a value that is not an array.',
 ['inputs'], 'all array lengths and all 64-bit start, end, step and index values the parser admits',
 'The parameter space is five unbounded integers; off-by-one errors in clamping show only at particular combinations, and each crate has its own copy.',
 ev('selector.rs') + [SER],
 [('slice', SER + ', ' + ITER + '/selector.rs, ' + LOC + '/selector.rs, ' + SING + '/selector.rs'), ('norm_index', 'same files')])

prop('P05', 'Each selector selects exactly the children RFC 9535 defines, by value kind',
 'For every selector kind and every JSON value kind, a selector yields exactly: the member with that name for a name selector on an object; all elements in array order, or all members in object iteration order, for a wildcard; the elements or members whose filter expression is true, in the same order, for a filter; and nothing for every other combination. No child is skipped, repeated or taken from a different value.',
 ['inputs'], 'all selectors x all JSON values, in four crates and in both serde evaluators',
 'Tests cover a few documents per selector; the claim is per selector and per value kind for containers of any size.',
 ev('selector.rs', 'iter.rs') + [SER],
 [('Selector::resolve, Selector::resolve_loop', SER + ', ' + LOC + '/selector.rs'), ('SelectorIter::new, ArrayFilterIter, ObjectFilterIter', ITER + '/iter.rs')])

prop('P06', 'Descendant segments visit every node once, in document order',
 'A descendant segment applies its selectors to the input node itself and to every value nested in it at any depth through arrays and objects, each exactly once, parents before their descendants, children in array or object order. For each visited node all selectors are applied in the order they are written.',
 ['inputs'], 'documents of any shape and depth',
 'Tests use small documents; skipping a level, a container kind or the node itself shows only for particular nestings.',
 ev('segment.rs', 'iter.rs') + [SER],
 [('visit', SER), ('visit_iter, descendants', ITER + '/segment.rs'), ('Segment::visit, Segment::descend', LOC + '/segment.rs')])

prop('P07', 'Queries compose: segments left to right, selectors in written order',
 'The result of a query is obtained by starting with the root (for embedded queries, the root or current node) and applying each segment in order to the complete node list of the previous one; a child segment applies, node by node, every selector in written order. Nothing is dropped, de-duplicated, reordered or limited, and a query without segments yields the start node. The public find entry points return exactly this node list for the parsed query.',
 ['inputs'], 'queries with any number of segments and selectors',
 'Unit tests use at most a handful of segments; an error in the accumulation shows only for particular combinations of empty and non-empty intermediate lists.',
 ev('query.rs', 'segment.rs', 'iter.rs', 'jsonpath.rs', 'env.rs') + [SER],
 [('Query::find, Query::resolve', SER + ', ' + LOC + '/query.rs'), ('Segment::resolve', 'same crates'), ('QueryIter, SegmentIter', ITER + '/iter.rs'), ('find, Environment::find', 'jsonpath.rs, env.rs')])

prop('P08', 'Every node carries the location of its own value',
 'For every node in a result, its location is the path from the query argument to exactly the value it carries: the location of the parent node extended by the member name or the non-negative array index under which the value is stored there. The root has the empty location, written `$`; nodes selected by descendant, slice, wildcard, filter and negative index selectors are located by their real position.',
 ['inputs'], 'all queries and documents',
 'Most tests compare values only; a location taken from a loop counter or from the selector instead of the position is wrong only for negative indices, slices with a step, or filters that skipped a child.',
 ev('selector.rs', 'node.rs', 'iter.rs', 'segment.rs', 'conslist.rs') + [SER],
 [('new_child_member, new_child_element', SER + ', ' + ITER + '/node.rs'), ('new_array_element, new_object_member, ConsList::append', LOC + '/node.rs, conslist.rs')])

prop('P09', 'Node locations are written as RFC 9535 normalized paths',
 "The textual form of a location is the normalized path of RFC 9535 section 2.7: `$` followed by one bracketed step per level, outermost first, `[n]` with a decimal index for elements and `['name']` for members. In names exactly the single quote, the backslash and the control characters U+0000 to U+001F are escaped, as \\' \\\\ \\b \\t \\n \\f \\r or \\u00xx in lower case hex, and every other character is copied.",
 ['inputs'], 'all member names (any Unicode string), all depths',
 'Names are arbitrary strings; tests contain a few plain ASCII ones.',
 ev('node.rs') + [SER],
 [('Node::path', LOC + '/node.rs'), ('escape_name', LOC + '/node.rs, ' + ITER + '/node.rs, ' + SER)])

prop('P10', 'The standard functions length, count and value compute what RFC 9535 says',
 'length returns the number of Unicode scalar values of a string, of elements of an array or of members of an object, and nothing for any other argument; count returns the number of nodes of its argument; value returns the value of the only node of its argument and nothing if there is not exactly one. Arguments are passed in written order, converted by declared parameter type: a one-node query becomes its value and an empty one nothing for value parameters, the existence test result for logical parameters, the node list itself for nodes parameters.',
 ['inputs'], 'all argument kinds, strings over all of Unicode, node lists of every length',
 'Tests sample ASCII strings and short lists; byte length versus character length and multi-node lists are quantified over all inputs.',
 ev('standard_functions.rs', 'filter.rs') + [SER],
 [('Length, Count, Value', 'crates/*/src/standard_functions.rs'), ('unpack_result', 'filter.rs / ast.rs')])

prop('P11', 'match() is a full match, search() a substring match, both history independent',
 'For two string arguments match is true iff the pattern is a valid I-Regexp and matches the entire first string, search iff it matches some substring, with a dot matching anything but \\n and \\r; with any other argument, or with an invalid pattern, both are false. The result depends only on the two arguments, never on earlier calls (compiled patterns are cached by pattern, separately per function), and the argument order is string, then pattern.',
 ['inputs', 'histories'], 'all strings and patterns; all sequences of earlier calls through the shared cache',
 'History dependence needs a specific sequence of calls through the process-wide cache, and anchoring errors need alternations or anchored patterns.',
 ev('standard_functions.rs'),
 [('Match::call, Search::call', 'crates/*/src/standard_functions.rs'), ('full_match, map_regex', 'same files')],
 state=[('cache', 'LRU cache from pattern to compiled regex, one per function')])

prop('P12', 'Function names, parameter types and result types agree everywhere',
 'The functions a parser accepts (count, length, match, search, value), with their parameter types and result type, are exactly the signatures RFC 9535 section 2.4 gives, in all seven parsers; and in each evaluating crate the evaluator registers under each of these names the implementation of that function with the same signature. A query that parses therefore never names a function the evaluator lacks or calls one with another signature.',
 ['configurations', 'inputs'], 'all five functions in seven parsers and four evaluators',
 'Two independent tables per crate must agree; a test that calls each function once does not notice a wrong declared type.',
 [f'{c(k)}/src/function.rs' for k in EV] + [f'{c(k)}/src/env.rs' for k in EV] + [f'{c(k)}/src/parser.rs' for k in ['', 'pest', 'pest_recursive']],
 [('standard_functions', 'function.rs'), ('Environment::new', 'env.rs'), ('FunctionExtension::sig', 'standard_functions.rs'), ('function_signatures', 'parser.rs of pest, pest_recursive and the hand written parser')])

prop('P13', 'Ill-typed filter expressions are rejected on every path',
 'In all seven parsers a query is accepted only if it is well-typed in the sense of RFC 9535 section 2.4.3: the function is known and has the declared number of arguments; an argument for a value parameter is a literal, a singular query or a function of value type; for a logical parameter it is a test expression; for a nodes parameter a query or a function of nodes type; operands of a comparison are literals, singular queries or functions of value type; and a function of value type (or a literal) is never used as a test on its own or under `!`, `&&` or `||`. Well-typed expressions are never rejected for their types.',
 ['inputs'], 'all filter expressions, in every syntactic position (top level, negated, parenthesised, operand, argument, nested)',
 'Tests try a few ill-typed queries in one position; the check must be on every path that builds the expression.',
 [f'{c(k)}/src/parser.rs' for k in [''] + PEST6],
 [('assert_well_typed, assert_comparable, assert_compared', 'parser.rs in each crate'), ('is_value_type, is_nodes_type, is_logical_type', 'parser.rs in each crate')])

prop('P14', 'Indices and slice bounds outside the I-JSON range are rejected',
 'In all seven parsers every integer that becomes an array index or a slice start, end or step lies within [-(2^53)+1, (2^53)-1], and any integer outside that interval (or too long for 64 bits) makes the parse fail with an error; integers inside the interval are accepted and stored with their exact value.',
 ['inputs'], 'all integer literals in index, start, end and step position',
 'Boundary values in each of four positions in seven parsers; tests check a couple of them.',
 [f'{c(k)}/src/parser.rs' for k in [''] + PEST6],
 [('parse_i_json_int, index_range', 'parser.rs in each crate')])

prop('P15', 'String literals and quoted names are decoded exactly',
 'In all seven parsers the value of a quoted name or string literal is its text with the escapes \\b \\t \\n \\f \\r \\" \\\' \\/ \\\\ and \\uXXXX replaced by the characters they denote, UTF-16 surrogate pairs combined to one character, and every other character kept; lone or malformed surrogates are an error. (The hand written parser in addition rejects escapes for U+0000 to U+001F by \\u.)',
 ['inputs'], 'all strings over Unicode, all escape sequences, both quote kinds',
 'Unbounded strings; surrogate arithmetic and rare escapes are easily wrong for a subset of code points.',
 [f'{c(k)}/src/unescape.rs' for k in EV] + [f'{c(k)}/src/parser.rs' for k in ['', 'pest', 'pest_recursive']],
 [('unescape, decode_hex_char, parse_hex_digits, encode_code_point', 'unescape.rs'), ('unescape_string', 'parser.rs of the pest crates and the hand written parser')])

prop('P16', 'The grammars define exactly the RFC 9535 language',
 'Each of the six PEG grammars accepts exactly the strings of the RFC 9535 ABNF start symbol (the singular crate: plus its documented singular-query selector and implicit root extension): the same characters in names, strings, escapes, numbers and blanks, blanks in the same places and nowhere else, the same operators, alternatives and repetition bounds, and the end of input required. Ordered choice hides no alternative: wherever the RFC derives a string, the grammar does.',
 ['inputs'], 'all strings, per grammar rule',
 'The compliance suite samples the language; equality per rule is a statement about infinitely many strings, and there are six grammar files to keep equal.',
 [f'{c(k)}/src/jsonpath.pest' for k in PEST6],
 [('grammar rules', 'jsonpath.pest in each crate')])

prop('P17', 'The syntax tree says what the query says',
 'For every accepted query, in each pest based parser, the syntax tree has one segment per segment of the text, in order, child or descendant as written, with one selector per selector in order and of the written kind and value; slice start, end and step are in their own fields and absent when not written; filter expressions keep operator, operand order and argument order, with `||` binding weaker than `&&`, `&&` weaker than comparison and `!`, and parentheses grouping; literals keep type and value.',
 ['inputs'], 'all accepted queries',
 'Tests compare a few dozen printed trees; the mapping is per grammar rule and per optional part.',
 [f'{c(k)}/src/parser.rs' for k in PEST6],
 [('JSONPathParser::parse_segment, parse_selector, parse_slice_selector, parse_logical_or_expression, ...', 'parser.rs in each pest crate')])

prop('P18', 'Printing a query gives its canonical text',
 "For every syntax tree of every crate, the Display form is canonical: `$` followed by one bracketed segment per segment (`..` before the bracket for descendants), selectors in order separated by `, `, names in single quotes, slices as `start:end:step` with an explicit step, filters as `?expr`, relative queries starting with `@`, the lexeme of each operator, function arguments in order separated by `, `. Grouping is preserved: logical operators are printed in parentheses and `!` before a comparison or another `!` is printed with parentheses around its operand.",
 ['inputs'], 'all syntax trees',
 'Tests print a few trees; each node kind with each optional part in seven crates has its own printing code.',
 ev('query.rs', 'segment.rs', 'selector.rs', 'filter.rs') + [SER, HAND + '/query.rs', c('pest') + '/src/ast.rs', c('pest_recursive') + '/src/ast.rs'],
 [('impl Display', 'query.rs, segment.rs, selector.rs, filter.rs, ast.rs')])

prop('P19', 'Parsing never panics',
 'For every string, each of the seven parsers returns a query or an error: no input reaches a panic (unwrap on nothing, unreachable code, failed assertion, slicing off a character boundary, index out of bounds, arithmetic overflow). Exhaustion of stack or memory by extreme nesting or size is outside this property.',
 ['inputs'], 'all input strings',
 'A panic needs one unlucky input among all strings; the parsers rely on unwrap and unreachable with the grammar as justification.',
 [f'{c(k)}/src/parser.rs' for k in [''] + PEST6] + [HAND + '/lexer.rs'],
 [('unwrap / unreachable! / expect sites', 'parser.rs, unescape.rs, lexer.rs')])

prop('P20', 'Evaluating a parsed query never panics',
 'For every query a crate accepts and every JSON document, evaluation runs to completion without a panic in each evaluating crate: no unwrap on nothing, no unreachable arm, no index out of bounds, no arithmetic overflow, no missing function. Exhaustion of stack or memory by extreme nesting or size is outside this property.',
 ['inputs'], 'all accepted queries and all JSON documents',
 'Needs a specific query/document pair (huge numbers, negative steps, nested filters); tests sample few.',
 ev('filter.rs', 'selector.rs', 'segment.rs', 'standard_functions.rs', 'iter.rs') + [SER],
 [('unwrap / unreachable! / arithmetic sites', 'filter.rs, selector.rs, standard_functions.rs, ast.rs')])

prop('P21', 'No hidden state: results depend only on query and document',
 'Parsing and evaluation are deterministic functions of their arguments in every crate: they read no clock, environment, file, random or thread-dependent source, perform no I/O, iterate over no randomly ordered collection, contain no unsafe code of their own, and share no mutable state except the regular expression caches. The query, the environment and the document are never modified.',
 ['histories', 'schedules', 'inputs'], 'all call histories and thread interleavings',
 'A test cannot rule out dependence on history, hash order or timing.',
 ['crates/*/src/*.rs'],
 [('statics PARSER and ENV', 'query.rs, jsonpath.rs'), ('function_register: HashMap', 'env.rs'), ('regex caches', 'standard_functions.rs')])

prop('P22', 'Results borrow from the document; parsers and environments are shareable',
 'In the evaluating crates every node of a result refers to a value inside the document passed in (no copies): a node list cannot outlive its document, while it may outlive the query expression string. Queries, environments and parsers may be used from several threads at once wherever they are kept in process-wide statics.',
 ['programs', 'schedules'], 'all client programs',
 'A test is one program that compiles; that wrong programs do not compile is a property of all programs.',
 ev('node.rs', 'query.rs', 'env.rs', 'iter.rs', 'jsonpath.rs') + [SER],
 [('Node { value: &Value }', 'node.rs, ast.rs'), ('FunctionRegister: Box<dyn ... + Sync>', 'function.rs')])

prop('P23', 'Errors are reported, never swallowed, with the right kind',
 'A query text that does not parse makes every public entry point return an error, never an empty or partial result, and no failure of a nested parsing step is discarded or replaced by a default. Syntax failures are reported as syntax errors, type check failures as type errors and unknown function names as name errors.',
 ['inputs', 'fault_sequences'], 'all invalid queries, and every nested step that can fail',
 'Swallowing an error in one of many `?` positions is only visible for inputs failing exactly there.',
 [f'{c(k)}/src/parser.rs' for k in [''] + PEST6] + [f'{c(k)}/src/errors.rs' for k in [''] + PEST6],
 [('Result propagation', 'parser.rs'), ('JSONPathError constructors', 'errors.rs')])

prop('P24', 'Singular query selectors resolve through the root to one index or name',
 'In the singular crate a selector that is a singular query is resolved against the query argument: if it yields exactly one node holding an integer it selects that array element (negative from the end), if a string that object member, and in every other case (no node, several nodes, other kinds, non-integer numbers, wrong container kind) nothing. A query may omit the leading `$`, which is then implied.',
 ['inputs'], 'all embedded queries, documents and value kinds',
 'The crate has a handful of tests for this extension; the case analysis ranges over all kinds of both the selecting and the selected value.',
 [SING + '/selector.rs', SING + '/parser.rs', SING + '/jsonpath.pest'],
 [('Selector::SingularQuery', SING + '/selector.rs'), ('implicit_root rules', SING + '/jsonpath.pest')])

prop('P25', 'is_singular and is_empty classify queries correctly',
 'For every parsed query, is_singular is true iff every segment is a child segment with exactly one selector which is a name or an index, and is_empty is true iff the query has no segments; the end-of-input marker some parsers keep as a pseudo segment counts for neither.',
 ['inputs'], 'all parsed queries',
 'Predicates over unbounded segment and selector lists.',
 ev('query.rs') + [SER, c('pest') + '/src/ast.rs', c('pest_recursive') + '/src/ast.rs', HAND + '/query.rs'],
 [('Query::is_singular, Query::is_empty', 'query.rs, ast.rs')])

prop('P26', 'The two serde evaluators and all wrappers agree',
 'For every query and document, the iterator based and the loop based evaluation functions of the serde crate return the same nodes in the same order with the same locations, or both an error; and every convenience entry point (module level find, Environment::find, Query::standard followed by find) of a crate returns the same result as the others.',
 ['inputs'], 'all queries and documents',
 'Differential agreement over all inputs; tests exercise mostly one of the two.',
 [SER, 'crates/jsonpath_rfc9535_serde/src/jsonpath.rs', 'crates/jsonpath_rfc9535_serde/src/env.rs'] + ev('jsonpath.rs', 'env.rs'),
 [('Query::find_loop, resolve_loop', SER), ('find, Environment::find', 'jsonpath.rs, env.rs')])

prop('P27', 'The hand written lexer recognises exactly the RFC 9535 tokens',
 'The lexer of the hand written parser classifies characters and recognises tokens as the RFC 9535 ABNF does: name-first and name-char, digits, function names, the four blank characters, escapes in quoted strings, operators including the two character ones, and number literals without leading zeros; each lexeme yields the token of its own kind, with the text it covers, and the whole input is consumed or an error token is produced.',
 ['inputs'], 'all characters in every lexer state',
 'Character classes contain over a million code points and each lexer state has its own copy of the decision.',
 [HAND + '/lexer.rs', HAND + '/token.rs'],
 [('lex_root, lex_segment, lex_descendant_segment, lex_inside_bracketed_segment, lex_inside_filter, lex_string, lex_number', HAND + '/lexer.rs'),
  ('is_name_first, is_name_char, is_digit, is_function_name_first, is_function_name_char, is_whitespace_char', HAND + '/lexer.rs')])

prop('P28', 'The hand written parser maps tokens to the right syntax tree',
 'The hand written parser turns each token into the syntax tree element of the same meaning: operator tokens to the operator with that lexeme, with `||` binding weaker than `&&`, `&&` weaker than comparisons and comparisons weaker than `!`; keyword tokens to true, false and null; root and current identifiers to root and relative queries; name, index, slice, wildcard and filter tokens to the selector of that kind; and slice parts to start, end and step in that order. Any token without a meaning in its position is a syntax error.',
 ['inputs'], 'all token kinds in every parser position',
 'Tests parse a few dozen queries; the tables range over all token kinds per position.',
 [HAND + '/parser.rs', HAND + '/token.rs', HAND + '/query.rs'],
 [('parse_segments, parse_bracketed, parse_slice, parse_filter_expression, parse_basic, parse_infix, precedence', HAND + '/parser.rs')])

prop('P29', 'Every loop in lexing, parsing and evaluation makes progress',
 'Each loop and each recursion in the seven crates terminates on every finite input: every iteration consumes input, an iterator element or a bounded counter, and every recursive call is on a strictly smaller query, expression or value, or after consuming input.',
 ['inputs'], 'all queries and documents',
 'Non-termination cannot be observed by a test, and appears only for inputs that take the non-consuming branch.',
 ['crates/*/src/*.rs'],
 [('while and loop statements, recursive calls', 'lexer.rs, parser.rs, unescape.rs, selector.rs, segment.rs, conslist.rs')])

prop('P30', 'Locations are persistent: extending one never changes another',
 'The shared location list behaves as an immutable sequence: extending a location yields a new one whose newest element is the added one and whose remainder is the original, leaving the original and all others sharing its tail unchanged; its length, iteration, head, tail and equality are those of that sequence, also after any other location sharing it was dropped.',
 ['histories'], 'all sequences of append, clone, drop and iteration',
 'Sharing bugs appear only for particular sequences of appends and drops over the same tail.',
 [LOC + '/conslist.rs', SING + '/conslist.rs'],
 [('ConsList::append, tailn, iter, len, Drop, Clone', LOC + '/conslist.rs')])

prop('P31', 'Evaluation never recurses over the elements of a list',
 'In each evaluating crate the depth of recursion during evaluation, including stepping a result iterator, is bounded by the nesting of the parsed query and of the document: a function calls itself, directly or through others, only for a part nested inside what it is evaluating (a child value, a sub-expression, a nested query), never for the next element or the rest of the same array, object, node list, segment or selector list. Arrays, objects and node lists of any length are evaluated at the same stack depth.',
 ['inputs'], 'all documents and queries of any length',
 'Tests use small documents; recursion per element overflows the stack only with hundreds of thousands of elements.',
 [ITER + '/iter.rs', LOC + '/selector.rs', SING + '/selector.rs', SER],
 [('Iterator::next of the segment and filter iterators; visit, resolve, evaluate', 'iter.rs, segment.rs, selector.rs, filter.rs, ast.rs')])

with open(OUT, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
