"""C18: the functions of the lint tool under contract."""
import re
from .core import Unit, chain, stub_body, find_function, blank_comments, match_close
from .units_ast import D as DROP, H
from .units_detail import unprintf, within

F = 'cypher-lint.inc'


def pieces(body):
    """Mechanical: fprintf(S, "literal", args...) becomes its pieces."""
    body = body.replace('%*.*s', '%p')
    return unprintf(body, call='fprintf', fixed=1)


def c18():
    pe = stub_body('print_error', 'vf_print_error(error, filename, colorization);')
    main = lambda s: re.sub(r'\bint\s+main\s*\(', 'int lint_main(', s)
    loop = lambda: {0: '''
        __CPROVER_assigns(i, error, shown, seen)
        __CPROVER_loop_invariant(i <= N && shown == i && (!(W < i) || seen) && !printed_ast)
        __CPROVER_decreases(N - i)'''}
    def U(name, what, fn, edits, **k):
        return Unit(name, H('c18_lint.c'), defs=['-DVF_WHAT=%d' % what], malloc_fail=False, pre=DROP, functions=['%s (cypher-lint.c)' % fn], edits={F: chain(main, *edits)}, **k)
    return [
        U('print-error', 1, 'print_error', [within('print_error', pieces)], unwind=4, sat='cadical'),
        U('callback', 2, 'parse_callback', [pe], dfcc=True, loops={(F, 'parse_callback'): loop()}),
        U('all', 3, 'process_all', [pe], dfcc=True, loops={(F, 'process_all'): loop()}),
        U('streamed', 4, 'process_streamed', [pe]),
        U('process', 5, 'process', [stub_body('process_streamed', 'return sub(1, stream, filename, config, cp_config, error_colorization, output_colorization);'),
                                    stub_body('process_all', 'return sub(0, stream, filename, config, cp_config, error_colorization, output_colorization);'), pe]),
        U('options', 7, 'longopts, shortopts', [pe], unwind=22),
        U('main', 6, 'main', [stub_body('process', 'return vf_process(stream, filename, config);'), stub_body('usage', ''), pe, lambda s: s.replace('static void usage(FILE *s, const char *prog_name)', 'static void usage_(FILE *s, const char *prog_name)')], dfcc=True,
          ghost={(F, 'main'): {1: 'VF_ARG();'}},
          loops={(F, 'main'): {0: '''
              __CPROVER_assigns(c, config, result, oi, helped, versioned, bad, x_one, x_ast, x_only, x_stream, x_ceo, x_cee, x_width, w_arg)
              __CPROVER_loop_invariant(oi <= nopts && !helped && !versioned && !bad && result == EXIT_FAILURE && config.dump_ast == x_ast && config.stream == x_stream && config.width == x_width
                  && config.colorize_output == x_ceo && config.colorize_errors == x_cee && config.flags == ((x_one ? CYPHER_PARSE_SINGLE : 0) | (x_only ? CYPHER_PARSE_ONLY_STATEMENTS : 0)))
              __CPROVER_decreases(nopts - oi)''', 1: '''
              __CPROVER_assigns(argc, argv, err, ai, is_dash, open_fails, cur_arg, done, g_err, g_stop, __CPROVER_object_whole(argv))
              __CPROVER_loop_invariant(argc >= 0 && ai <= nargs && (unsigned)argc == nargs - ai && done == ai && !g_stop && (err != 0) == g_err && argv == __CPROVER_loop_entry(argv) + ai)
              __CPROVER_decreases(argc)'''}}),
    ]
