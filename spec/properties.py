"""Source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""

def P(id, title, statement, over, text, why, files, mech, observe, level='proof', note='', technique='', claim=True, na=''):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                observe=observe, level=level, note=note, technique=technique, claim=claim, na=na)

CB = 'contract-based deductive verification: CBMC contracts on the extracted/instrumented real C functions (goto-instrument --dfcc, loop invariants, contract stubs), plus a labelled bounded stand-in run on the real library'
S = 'lib/src/'
PROPS = [
P('C01', 'In-memory text and streams are parsed identically, byte for byte',
  'Parsing the same bytes supplied as a string, as a buffer with an explicit length or through a standard I/O stream delivers the same segments, nodes, error messages, positions and return value, with the full parser and with the quick parser alike (only the context shown with an error may reach less far ahead in a stream, which is not read ahead). Every byte up to the given length is taken exactly once and in order, whatever its value (NUL bytes included), however the stream hands it out, and however large the input; no byte beyond the length is read.',
  ['inputs', 'configurations'], 'all byte strings, all lengths, all ways a stream splits its reads, all flag combinations',
  'The tests parse short literals mostly through one entry point; none compares the two sources, none exceeds the size at which the buffer is refilled more than once.',
  [S + 'parser.c', S + 'quick_parser.c', S + 'parser.leg'],
  [('source_from_buffer', S + 'parser.c'), ('source_from_stream', S + 'parser.c'), ('yyrefill', 'generated from ' + S + 'parser.leg'), ('source_from_buffer', S + 'quick_parser.c')],
  ['cypher_uparse_each', 'cypher_fparse_each', 'cypher_quick_uparse', 'cypher_quick_fparse'], note='source functions, refill, the matching primitives and commit of both parsers proved for all inputs; rules reach input only through them. A native companion compares the entry points (bounded).', technique=CB),
P('C02', 'Every reported position locates the byte it describes',
  'In every range and position reported for a segment, node or error, the offset is the number of input bytes before it plus the configured initial offset, the line is the configured initial line plus the number of newline characters before it, and the column is one plus the number of bytes since the last newline, or, with no newline before it, the configured initial column plus the number of bytes before it. This holds in every later segment of the same input, and for newlines inside comments, strings and quoted names.',
  ['inputs', 'configurations'], 'all inputs, all newline placements, all segments, all initial positions',
  'Tests check a few dozen positions of short, mostly single-line inputs from position 1:1.',
  [S + 'parser.c', S + 'parser.leg', S + 'quick_parser.c', S + 'quick_parser.leg'],
  [('input_position', S + 'parser.c'), ('line_start / backtrack_lines', S + 'parser.c'), ('EOL rule', S + 'parser.leg')],
  ['cypher_astnode_range', 'cypher_parse_error_position', 'cypher_parse_segment_get_range', 'cypher_quick_parse_segment_get_range'], note='the position arithmetic and line table of both parsers proved, and for every rule generated from quick_parser.leg that each newline it takes begins a line; that the rules of parser.leg record every newline they take is exercised by the bounded companion.', technique=CB),
P('C03', 'Segments are delivered once each, contiguous, in order, under callback control',
  'Incremental parsing delivers segments in input order: the first starts at the configured initial position, each next one starts where the previous one ended, and together they cover the input; a segment is flagged as the end of input exactly if the end of the input, rather than a semicolon or line end, ended it, which only the last can be. Parsing stops after the first segment when only one is asked for, stops successfully after a callback returns a positive value, and stops returning the callback\'s value when that is negative; when asked for, the last position reported is the end of the last segment delivered.',
  ['inputs', 'histories', 'configurations'], 'all inputs, all sequences of callback results, all flags and initial positions',
  'Tests use callbacks that always return zero over two or three statements.',
  [S + 'parser.c', S + 'segment.c'],
  [('parse_each', S + 'parser.c'), ('parse_one', S + 'parser.c'), ('cypher_parse_segment', S + 'segment.c')],
  ['cypher_uparse_each', 'cypher_parse_segment_get_range', 'cypher_parse_segment_is_eof'], note='parse_each, parse_one and every public entry point proved against the contract of one match.', technique=CB),
P('C04', 'Quick parsing splits input exactly at statement and command ends',
  'The quick parser delivers, in input order, each statement and each client command as the exact bytes of the input it spans, without the surrounding whitespace, comments or terminating semicolon, with the matching range, the position at which the next begins, its kind and the end-of-input flag; semicolons inside quoted strings and comments do not end a statement. Only statements are recognised when so asked, parsing stops after one segment when so asked, and a callback\'s positive or negative result stops it with success or with that result.',
  ['inputs', 'histories', 'configurations'], 'all inputs, all callback results, all flags',
  'Tests cover about two dozen short inputs.',
  [S + 'quick_parser.c', S + 'quick_parser.leg'],
  [('segment', S + 'quick_parser.c'), ('parse', S + 'quick_parser.c'), ('statement, client-command rules', S + 'quick_parser.leg')],
  ['cypher_quick_uparse', 'cypher_quick_parse_segment_get_text', 'cypher_quick_parse_segment_get_next'], level='other', note='segment delivery and the loop of the quick parser are proved; which bytes the generated recognizer takes as a statement or command is checked only on bounded generated inputs against a reference scanner', technique=CB),
P('C05', 'A constructed AST node reports back exactly what it was built from',
  'For every kind of AST node and all valid arguments, the node a constructor returns has that kind, the given source range and the given children in order, and each of its accessors returns precisely the corresponding argument: the same node, string bytes, flag, operator, count or the element at the index asked for, and null beyond the end. The node keeps no reference to the caller\'s arrays or strings.',
  ['inputs'], 'all constructors, all argument values, all sequence lengths and indexes',
  'Tests reach accessors only through parsing, with short sequences; many optional combinations never occur.',
  [S + 'ast_*.c', S + 'ast.c', S + 'astnode.h'],
  [('cypher_ast_* constructors and accessors', S + 'ast_*.c'), ('cypher_astnode_init', S + 'ast.c')],
  ['cypher_ast_* accessors', 'cypher_astnode_get_child', 'cypher_astnode_range'], note='every constructor and accessor proved.', technique=CB),
P('C06', 'A cloned AST is a complete and independent copy',
  'Cloning any AST yields a tree of the same shape in which every node has the same kind, source range and number of children, and every accessor of a clone returns the clone of (for nodes) or the same value as (for strings, flags, operators and counts) what the original\'s accessor returns, absent parts staying absent. The two trees share no memory: changing annotations of, or freeing, either leaves the other intact, and the original is unchanged.',
  ['inputs'], 'all trees of all node kinds with all optional parts and sequence lengths',
  'The tests do not clone at all.',
  [S + 'ast.c', S + 'ast_*.c', S + 'astnode.h'],
  [('cypher_ast_clone', S + 'ast.c'), ('clone functions', S + 'ast_*.c'), ('child_index', S + 'astnode.h')],
  ['cypher_ast_clone', 'all accessors on the clone'], note='every clone function and the generic clone proved.', technique=CB),
P('C07', 'The printed detail of a node shows its parts, whole and in order',
  'The description printed beside a node shows the parts the node has: references to the nodes that are its parts by their ordinals, its flags, operators, directions and literal text, in the fixed form for that kind of node, with every element of every sequence and nothing of parts that are absent. It is never cut off, whatever its length.',
  ['inputs'], 'all nodes of all kinds, all combinations of optional parts, all sequence and string lengths',
  'Tests compare printed trees for about three hundred queries; long sequences and many combinations of optional parts never appear.',
  [S + 'ast.c', S + 'ast_*.c', S + 'util.c'],
  [('detailstr functions', S + 'ast_*.c'), ('snprint_sequence', S + 'ast.c'), ('cypher_astnode_detailstr_realloc', S + 'ast.c')],
  ['cypher_ast_fprint'], note='every description function, the sequence printer and the growing of the buffer proved.', technique=CB),
P('C08', 'Printing an AST emits one aligned line per node, in depth-first order',
  'Printing a tree or forest writes each node exactly once, parents before children and children in order, each with its ordinal, its start and end offsets, two characters of indentation per level of depth, its type name and, when it has one, its description; columns are aligned for all nodes of the forest. Control characters of a description are written as escapes, a description wider than the requested width continues on lines indented to the description column without losing a character, and any write error is reported as failure.',
  ['inputs', 'configurations', 'fault_sequences'], 'all trees, widths and colorizations, and write failures at any point',
  'Tests print parsed trees with width 0 and no colors only.',
  [S + 'ast.c', S + 'segment.c', S + 'result.c'],
  [('_cypher_ast_fprint', S + 'ast.c'), ('ast_fprint_detail', S + 'ast.c'), ('ast_fprint_field_widths', S + 'ast.c')],
  ['cypher_ast_fprint', 'cypher_parse_result_fprint_ast', 'cypher_parse_segment_fprint_ast'], note='all printing functions of ast.c proved.', technique=CB),
P('C09', 'Annotations are kept per context and node, and released exactly once',
  'After any sequence of operations, looking up an annotation of a node in a context returns what was last attached there and not removed since, or null; attaching hands back the annotation replaced, and removing hands back the annotation removed. When a node or a context is freed, its release handler, if set, is called exactly once with its user data, the node and the data for each annotation still attached, no other annotation is affected, and nothing leaks.',
  ['histories'], 'all interleavings of attach, replace, remove, lookup, node free, context free over any number of nodes and contexts',
  'Tests exercise a handful of fixed sequences with one or two contexts.',
  [S + 'annotation.c', S + 'ast.c'],
  [('attach/detach list operations', S + 'annotation.c'), ('cp_release_annotation', S + 'annotation.c'), ('cypher_ast_free', S + 'ast.c')],
  ['cypher_astnode_get_annotation', 'cypher_astnode_attach_annotation', 'release handler calls'], note='all list operations proved.', technique=CB),
P('C10', 'Syntax errors are reported at the furthest point, with all that was expected',
  'When input cannot be matched, one error is reported at the furthest position at which something else was expected, naming the character found there (escaped if it is a control character, or the end of input) and each distinct thing expected there once, in the order first tried, separated by commas and a final "or". Expectations recorded at earlier positions are left out, no two errors are reported at the same or a decreasing position within a segment, and errors of one segment do not leak into the next.',
  ['inputs', 'histories', 'configurations'], 'all sequences of failed expectations and recoveries, any number of labels and errors, any colorization',
  'Tests compare a few dozen messages with at most a few labels.',
  [S + 'errors.c', S + 'errors.h', S + 'parser.c'],
  [('cp_et_note_potential_error', S + 'errors.c'), ('cp_et_reify_potentials', S + 'errors.c'), ('error_report', S + 'errors.c'), ('_err, record_error', S + 'parser.c')],
  ['cypher_parse_error_message', 'cypher_parse_error_position'], note='all functions of the error tracker proved.', technique=CB),
P('C11', 'The context of an error is the input line that contains it',
  'The context of an error is the text of the one input line it lies on, from the start of its segment if that began on the line and as far as the input has been read, without line terminators and at most eighty bytes long, and the context offset is the place within it of the byte at the error position. If that text is longer, a window of eighty bytes containing the position is given, whose cut ends, and only those, are marked by three dots. No byte outside the input is read.',
  ['inputs'], 'all buffers, error offsets, line lengths and line terminators',
  'Tests look at the context of a few short lines.',
  [S + 'util.c', S + 'parser.c'],
  [('line_context', S + 'util.c'), ('finished', S + 'parser.c')],
  ['cypher_parse_error_context', 'cypher_parse_error_context_offset'], note='line_context and its caller proved.', technique=CB),
P('C12', 'A whole-input parse result is the concatenation of its segments',
  'Parsing a whole input gives a result whose roots, directives and errors are those of the successive segments an incremental parse of the same input delivers, all of them, in order and complete, whose node count is the sum of theirs, and which reports the end of input exactly if a segment holding a directive or an error reached it. Each accessor returns the element at the index asked for and null beyond the end, and the result stays usable until freed, which frees everything once.',
  ['inputs', 'histories'], 'any number of segments with any number of roots, directives and errors',
  'Tests parse at most a few statements per input, so growth of the collections beyond their first allocation is not reached.',
  [S + 'result.c', S + 'segment.c', S + 'parser.c'],
  [('cp_result_merge_segment', S + 'result.c'), ('parse', S + 'parser.c'), ('cypher_parse_segment', S + 'segment.c')],
  ['cypher_parse_result_get_root', 'cypher_parse_result_get_directive', 'cypher_parse_result_get_error', 'cypher_parse_result_eof'], note='merging and accessors proved.', technique=CB),
P('C13', 'Nodes are numbered depth-first without gaps or repetition',
  'Node ordinals in a parse are consecutive: the first root has the configured initial ordinal, each node is numbered before its children and after all nodes that precede it in depth-first order, numbering continues from one segment to the next, and the node count reported for a segment or result is the number of nodes in its trees. The reported depth of a tree is the number of nodes on its longest path from the root.',
  ['inputs', 'configurations'], 'all trees, all sequences of segments, all initial ordinals',
  'Tests observe ordinals of small printed trees, starting from zero.',
  [S + 'ast.c', S + 'segment.c', S + 'parser.c'],
  [('cypher_ast_set_ordinals', S + 'ast.c'), ('cypher_parse_segment', S + 'segment.c'), ('cypher_ast_depth', S + 'ast.c')],
  ['cypher_ast_fprint', 'cypher_parse_segment_nnodes', 'cypher_parse_result_nnodes', 'cypher_ast_depth'], note='numbering, depth and segment construction proved.', technique=CB),
P('C14', 'The node type hierarchy and names are those documented',
  'For every pair of node types, a node of the first is an instance of the second exactly if the second is the first or one of its documented ancestors, and a null node is an instance of nothing; every type has its own value and its documented name. Node types behave so for nodes built by the constructors and by the parser alike.',
  ['inputs'], 'all pairs of node types',
  'Tests check single instanceof relations on parsed nodes; most of the ten thousand pairs are never asked.',
  [S + 'ast.c', S + 'ast_*.c', S + 'cypher-parser.h.in'],
  [('cypher_astnode_instanceof', S + 'ast.c'), ('virtual tables and parents', S + 'ast_*.c'), ('cypher_astnode_typestr', S + 'ast.c')],
  ['cypher_astnode_instanceof', 'cypher_astnode_typestr', 'cypher_astnode_type'], note='decided exhaustively over the real tables, no bound involved.', technique=CB),
P('C15', 'Expressions group by operator precedence and associativity',
  'An expression written without brackets parses to the same tree as the expression fully bracketed according to the operator table: OR, XOR, AND, NOT, equality, ordering, additive, multiplicative, power, unary sign, then string, list and null predicates, subscripts and projections, and property and label access, each binding closer than the one before; binary operators group to the left, except power, which groups to the right; comparison operators of equal rank written in a row form one chained comparison keeping every operand and operator in order.',
  ['inputs'], 'all expressions over all operators, of any length and nesting',
  'Tests parse some twenty operator combinations.',
  [S + 'operators.c', S + 'parser.leg', S + 'parser.c'],
  [('operator table', S + 'operators.c'), ('_prec_push, PREC_CHK', S + 'parser.c'), ('expression rules', S + 'parser.leg')],
  ['cypher_uparse', 'expression accessors'], level='other', note='the operator table, the precedence stack, the operator rules and the two precedence rules (as generated) are proved; the remaining generated expression rules are checked only on bounded generated expressions', technique=CB),
P('C16', 'Literal and name text is decoded exactly and in full',
  'The text of every string, number, parameter, identifier, label, property, function and procedure name in the input reaches its node whole and unchanged, for any length and content, except that in quoted strings each documented escape sequence is replaced by the character it denotes. Text of one literal never leaks into another.',
  ['inputs'], 'all literal contents and lengths, all escape sequences, all sequences of literals',
  'Tests contain a few short literals and a few of the escapes.',
  [S + 'string_buffer.c', S + 'parser.leg', S + 'parser.c', S + 'vector.c'],
  [('cp_sb_append', S + 'string_buffer.c'), ('string and name rules', S + 'parser.leg'), ('_strbuf_*', S + 'parser.c'), ('cp_vector_push', S + 'vector.c')],
  ['cypher_ast_string_get_value', 'cypher_ast_identifier_get_name', '...'], level='other', note='the string buffer and vectors are proved for any length and content; the generated string and name rules are checked only on bounded generated literals', technique=CB),
P('C17', 'Running out of memory is reported, leaks nothing and corrupts nothing',
  'If any single memory allocation made by a parse, a constructor, a clone, a print or an annotation operation fails, the call either reports failure (null or a negative value, with the error number set) or completes with the same outcome as without the failure. Everything allocated by the failed call is released exactly once, nothing the caller owns is released or changed, and later calls behave normally.',
  ['fault_sequences', 'inputs'], 'every allocation site of every operation, on all inputs',
  'The tests never make an allocation fail.',
  [S + 'parser.c', S + 'ast.c', S + 'ast_*.c', S + 'vector.c', S + 'string_buffer.c', S + 'errors.c', S + 'segment.c', S + 'result.c', S + 'annotation.c'],
  [('abort_parse / parse_one cleanup', S + 'parser.c'), ('cleanup paths of constructors', S + 'ast_*.c'), ('cp_vector_push', S + 'vector.c')],
  ['return values, errno, heap'], note='every constructor and clone function with any allocation failing proved; parse-time cleanup proved in the units of C03, C10, C12, C13, C19; a native companion fails every allocation of generated runs (bounded).', technique=CB),
P('C18', 'The lint tool reports every error and its exit status says whether there was one',
  'The lint tool exits with success exactly if every named input could be read and parsed and none contained an error; for each input, in order up to the first that cannot be read, it writes each error once, in order, to standard error with the input\'s name, the line, the column and the message, then the context line with a caret under the offending place. With the tree option it writes the trees of all statements parsed to standard output, the same whether or not streaming apart from column alignment and the name of the input shown before them, and its options select one statement, only statements, the output width and coloring as documented.',
  ['inputs', 'configurations'], 'all combinations of options, inputs and files, including unreadable ones',
  'There are no tests of the tool.',
  ['linter/src/cypher-lint.c'],
  [('main', 'linter/src/cypher-lint.c'), ('process_streamed, process_all, parse_callback, print_error', 'linter/src/cypher-lint.c')],
  ['exit status', 'standard output', 'standard error'], note='all functions of the tool but usage() proved.', technique=CB),
P('C19', 'Each construct of the language parses to the nodes that denote it',
  'A well-formed statement or client command parses without errors to a tree that denotes it: every clause, pattern, option and expression written is represented by a node of its kind, with the parts written in the roles they were written in, in source order, every flag and direction set as written, and nothing added or dropped. The source range of each such node begins at its first character and ends after its last, followed at most by the white space and comments before what comes next.',
  ['inputs'], 'all well-formed statements built from the documented constructs, of any size and nesting, in any letter case and spacing',
  'Tests parse about three hundred fixed statements, mostly one construct at a time with fixed spacing and case.',
  [S + 'parser.leg', S + 'parser.c'],
  [('grammar rules', S + 'parser.leg'), ('node construction from a closed block (_statement ... _skip)', S + 'parser.c')],
  ['cypher_uparse', 'accessors of all node types', 'cypher_astnode_range'], level='other', note='every build function and the block machinery under them is proved (constructor, roles, order, range); the generated rules that call them are checked only on bounded generated statements with their expected trees', technique=CB),
P('C20', 'Segments, results and configurations keep what they hold until released',
  'A segment retained by the callback keeps its nodes, errors, range and flags unchanged after the callback and the parse have ended, until it has been released as often as it was retained plus once; then all it holds is released exactly once. A parser configuration starts as the documented default (position 1:1 offset 0, ordinal 0, no colors), each setting changes only its own part, and a parse with no configuration behaves as with a default one.',
  ['histories', 'configurations'], 'all sequences of retain and release, all configuration settings',
  'Tests never retain a segment and set configurations in two places.',
  [S + 'segment.c', S + 'parser_config.c', S + 'parser.c'],
  [('cypher_parse_segment_retain/release', S + 'segment.c'), ('cypher_parser_config_*', S + 'parser_config.c')],
  ['segment accessors', 'cypher_parser_new_config'], note='proved.', technique=CB),
P('C21', 'Every input is parsed to completion without a crash',
  'Whatever bytes it is given, parsing terminates, returns normally without failing an internal assertion, reading or writing outside its memory or leaking any, and reports malformed input only through errors in the delivered segments.',
  ['inputs'], 'all byte strings', 'Tests parse only a fixed set of inputs.',
  [S + 'parser.leg', S + 'parser.c', S + 'quick_parser.leg'],
  [('all grammar rules', S + 'parser.leg')],
  ['process outcome'], claim=False,
  na='Termination and absence of aborts of the generated backtracking recognizer (12,000 lines of mutually recursive functions) for all inputs needs a joint inductive invariant over the whole grammar, the memo of deferred actions and the operator and block stacks; the CBMC contracts available here cannot express the deferred-action language those stacks depend on, and no WP-style prover for C is installed. The parts that contracts reach (refill, position, block, error and construction functions) are decided under C01, C02, C03, C10, C16 and C19.'),
]
