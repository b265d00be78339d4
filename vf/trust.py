"""What each proof takes on trust, assumes without checking, and drops when the
verified text is extracted.  Reported in the evidence of every run."""

TRUST = [
    'cbmc/goto-cc/goto-instrument 6.11 (C semantics, loop-contract instrumentation) and its SAT back ends (minisat2, cadical)',
    'vf/core.py, the mechanical extraction: text of /repo copied on every run, loop contracts inserted after loop heads, named callee bodies replaced by contract stubs',
    'machine arithmetic is not idealised: C integers are bit-vectors of the x86-64 LP64 model; pointers are objects with offsets',
]
ASSUME = [
    'counts of elements (children, errors, labels, nodes per level, segments held) at most 2^20 and byte lengths at most 2^29, so that sums stay within the types; no loop is unrolled to a bound',
]
LEG = 'the rule and action functions leg generates are left out of the unit (the run time leg puts around them is verified as generated)'
STUB = 'bodies of callees that have a unit of their own are replaced by their contract'
ALLOC = 'malloc, calloc, realloc, free are contract stubs: fresh memory or null with errno set; realloc keeps the old contents; free keeps errno (POSIX.1-2024, glibc 2.33 and later)'
WIT = 'quantified statements are proved at one arbitrary index or byte (a witness chosen before the call), which is the universal statement by generalisation'
IND = 'trees are reasoned about one level at a time; recursive calls meet the contract being proved (induction over depth); the trees are assumed finite and acyclic'

PER = {
 'C01': dict(trusted=['getc and ferror of the C library (contract stubs)', 'leg 0.1.x as generator of the run time, and the recognizer\'s use of yymatch* as the only access to input (checked textually: rules dropped, run time kept)'],
             assumptions=['lengths of input within int, as the generated run time counts in int', 'literals of the grammar are at most 8 bytes longer than none: unit string is completely unwound for the longest literal in the generated text, and refuses to apply if one is longer'],
             drops=[LEG, STUB]),
 'C02': dict(trusted=['parser.leg: that its rules call line_start at every newline they take (for quick_parser.leg this is proved, rule by rule: units grammar-*; for parser.leg it is left to the bounded companion)'],
             assumptions=['the table of line starts is the sorted set of places after newlines before the current position: established by unit line-start, kept by unit backtrack, used by unit position', 'units grammar-*: inputs shorter than 2^30 bytes; a rule called is replaced by its contract (facts in spec/grammar.json), also where rules are mutually recursive (partial correctness); matching primitives by contracts about one arbitrary newline'],
             drops=[LEG, STUB, 'units grammar-*: star loops of the generated text are rewritten from a label and a goto to while (1) with a loop contract; the deferred actions themselves (they do not move the position) are left out']),
 'C03': dict(trusted=['sigsetjmp/siglongjmp: modelled as an arbitrary second return'],
             assumptions=['contract of YYPARSEFROM: matches and commits a prefix, leaves the blocks in the state the actions leave them (actions proved under C19)'],
             drops=[LEG, STUB, 'the generated YYPARSEFROM and YYRELEASE bodies become contracts']),
 'C04': dict(trusted=['sigsetjmp/siglongjmp: modelled as an arbitrary second return', 'which bytes the generated recognizer of quick_parser.leg matches: the bounded companion compares it with a reference scanner'],
             assumptions=['contract of YYPARSEFROM: at most one segment per match, bounds within the bytes matched'],
             drops=[LEG, STUB, 'the generated YYPARSEFROM and YYRELEASE bodies become contracts']),
 'C05': dict(trusted=[ALLOC, 'memcpy, strlen, strncpy contract stubs'],
             assumptions=[WIT, 'argument lists satisfy the documented requirements (REQUIRE*), which are otherwise refused: refusal is checked for the single requirements, membership of the children array is assumed for the parts'],
             drops=['membership scans REQUIRE_CONTAINS, REQUIRE_CONTAINS_OPTIONAL (macros) are assumed to succeed']),
 'C06': dict(trusted=[ALLOC], assumptions=[WIT, IND, 'the part of a node is one of its children (required by the constructors): child_index is verified as find-or-count'],
             drops=[STUB, 'calls through the type table go to the contract of clone/release; that each type\'s table holds its own functions is checked in the unit of that type']),
 'C07': dict(trusted=['snprintf: "as much as fits, a terminating NUL, the full length returned" (C11 7.21.6.5), piece by piece of the format literal', 'strlen'],
             assumptions=[WIT, 'a node prints as "@ordinal"; the number of digits is an arbitrary function of the ordinal', 'the total length of one description stays within int'],
             drops=['snprintf(S, N, "literal", args) is rewritten to the pieces of its format literal, arguments in order; %s and %u/%d only, anything else refuses to apply', 'str[E] = c becomes vf_store(E, c)', 'node->array[e]->ordinal becomes the arbitrary ordinal of the e-th element, in order of access', STUB]),
 'C08': dict(trusted=['fprintf, fputs, fputc: write what they are given, or fail', 'log10 and ceil/floor of an unsigned: the number of digits (log10(0) is taken to give one; see DESIGN.md)'],
             assumptions=[WIT, IND, 'the last character of a wrapped description may pass the width by one when it is an escape (as documented by the code)'],
             drops=[STUB]),
 'C09': dict(trusted=[ALLOC, 'release handlers do not touch the lists (documented as user code)'],
             assumptions=['the two lists are well formed on entry (invariant proved to be kept by every operation)', WIT], drops=[STUB]),
 'C10': dict(trusted=[ALLOC, 'strcmp of two labels: an arbitrary equivalence'],
             assumptions=[WIT, 'labels are string literals that outlive the parse'], drops=[LEG, STUB]),
 'C11': dict(trusted=[ALLOC], assumptions=[WIT, 'the limit on the context length is at most 4096 (the callers give 80)'], drops=[LEG, STUB]),
 'C12': dict(trusted=[ALLOC], assumptions=[WIT, 'sums of counts over all segments fit an unsigned'], drops=[STUB]),
 'C13': dict(trusted=[ALLOC], assumptions=[WIT, IND, 'numbers of nodes fit an unsigned'], drops=[STUB]),
 'C14': dict(trusted=['spec/types.txt transcribes the documented hierarchy'], assumptions=[], drops=[]),
 'C15': dict(trusted=['setting of the operator and precedence stacks while matching is the same as while acting: the match-time functions are verified, the order leg runs actions in is leg\'s'],
             assumptions=['the expression rules other than those under contract (atoms, argument lists) do not touch the operator stacks: exercised by the bounded companion only'],
             drops=[LEG + ' except the operator and precedence rules, which are verified as generated', STUB]),
 'C16': dict(trusted=[ALLOC, 'memcpy contract stub'],
             assumptions=[WIT, 'that the string and name rules of the grammar pass every matched block or its escape to _strbuf_* is exercised by the bounded companion only'], drops=[STUB]),
 'C17': dict(trusted=[ALLOC], assumptions=[WIT, 'parse-time cleanup (blocks, segments, results, error lists) is proved in the units of C03, C10, C12, C13 and C19, each with failing allocations'],
             drops=['membership scans REQUIRE_CONTAINS* assumed to succeed', STUB]),
 'C18': dict(trusted=['getopt_long, fopen, fclose, fprintf, strerror: contract stubs (getopt_long: an arbitrary option sequence of the tables given)', 'the library, by the contracts proved under C01 to C13'],
             assumptions=[WIT], drops=['fprintf(S, "literal", args) of print_error is rewritten to the pieces of its format literal', 'main is renamed, usage() emptied', STUB]),
 'C19': dict(trusted=['spec/wrappers.json says which constructor each build function stands for, and in which roles its arguments go (transcribed from the documentation of the constructors)'],
             assumptions=['that the grammar rules call the build functions with the blocks and arguments the text denotes is exercised by the bounded companion (generated statements with their expected tree) only'],
             drops=[LEG, STUB]),
 'C20': dict(trusted=[ALLOC], assumptions=[WIT, 'retain and release of one segment are not concurrent (documented)'], drops=[STUB]),
}


def add(pid, spec):
    p = PER.get(pid, {})
    spec['trusted'] = TRUST + p.get('trusted', []) + list(spec.get('trusted', []))
    spec['assumptions'] = ASSUME + p.get('assumptions', []) + list(spec.get('assumptions', []))
    spec['drops'] = p.get('drops', []) + list(spec.get('drops', []))
    return spec
