"""Which modules and replay oracle decide each property, and what each module assumes."""
import os, re

_C = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')


def lemmas(*files):
    return {n for f in files for n in re.findall(r'proof fn (\w+)', open(f'{_C}/{f}').read())}


READ_BACK = lemmas('peg_cplt.inc', 'peg_det.inc')
PRINTS_OK = lemmas('round.inc')


def printer_label(snip, message, f):
    """the property of a failed obligation that has no label of its own line"""
    if 'r@ ==' in snip or 'acc' in snip:
        return ['C01'] if 'print_edge' not in f else ['C01', 'C03']
    if 'cv(*ctx)' in snip or 'cv(*final' in snip:
        return ['C04']
    return ['C01']


def parser_label(snip, message, f):
    """lemmas over the grammar, and obligations without a label of their own line"""
    f = f.split('::')[-1]
    if re.match(r'precondition|decreases|could not prove termination|possible|unreach', message) and not re.match(r'[lscbu]_', f):
        return ['C07']
    if f in ('ok_all', 'term', 'goes', 'mono', 'ends_all', 'all_end'):
        return ['C07']
    if f in ('l_compass', 'points'):
        return ['C10']
    if re.match(r'l_(blanks|bc|lc|comment|skips?)$', f) or re.match(r'(c|z)_|alike|skip_val', f) or f in (
            'sim', 'sim_star', 'cl_all', 'file_sim', 'leaf_val', 'same_layout', 'two_layouts', 'two_writings') or f in READ_BACK:
        return ['C11', 'C06']
    if re.match(r'l_(digits|letters|words?|number|plain|chars|string|hpart|hstar2?|html|nw)$', f):
        return ['C09']
    return []


def round_label(snip, message, f):
    """lemmas and the client that put the parser behind the printer"""
    n = f.split('::')[-1]
    if n in PRINTS_OK:
        return ['C06', 'C02']
    if n in ('print_and_parse', 'print_twice') or n in READ_BACK:
        return ['C06']
    return parser_label(snip, message, f) or printer_label(snip, message, f)


MODULES = {
    'round': {'srcs': ['graphviz', 'structures'], 'label': round_label, 'rlimit': 40},
    'parser': {'srcs': ['graphviz', 'structures'], 'label': parser_label, 'default_labels': ['C08'], 'rlimit': 40},
    'printer': {'srcs': ['graphviz', 'structures'], 'label': printer_label},
    'cmd': {'srcs': ['graphviz', 'structures']},
    'structures': {'srcs': ['repo_structures'], 'default_labels': ['C16']},
    'gen': {'srcs': ['gen', 'repo_structures'], 'default_labels': ['C15']},
    'attrs': {'srcs': ['graphviz', 'structures'], 'default_labels': ['C14']},
    'derive': {'srcs': ['derive', 'structures'], 'default_labels': ['C14']},
}

TRUSTED = {
    'all': [
        'Verus, its Z3 and rustc',
        'the extractor /verif/extract (text of each function from the compiler\'s macro expansion; rewrites listed in DESIGN.md)',
    ],
    'printer': [
        'String, str, Vec, HashMap, format!/join/repeat behave as their contracts in contracts/prelude.inc and contracts/printer.rs',
        'two Strings with the same characters are equal (axiom string_ext)',
        'stack depth and memory are unbounded',
    ],
    'cmd': [
        'std::process::Command, Output, ExitStatus and tempfile::NamedTempFile/TempPath behave as their contracts in contracts/cmd.rs',
        'the path of a temporary file is UTF-8',
        'derived Debug of a fieldless enum writes the name of the variant',
        'to_lowercase on ASCII text lowers A-Z',
    ],
}

PR = {'modules': ['printer'], 'replay': 'replay', 'level': 'proof'}
CM = {'modules': ['cmd'], 'replay': 'replay', 'level': 'proof'}
GRAPHS = 'graphs drawn from (seed, index): kinds of statement, nesting up to 8, up to 40 statements, all id and port kinds, contexts built by random builder calls; non-trivial: '
PROPS = {
    'C01': dict(PR, joint=['C05', 'C17', 'C04'], rule=GRAPHS + 'a graph with at least one statement'),
    'C02': dict(PR, modules=['printer', 'round'], rule=GRAPHS + 'the two texts differ'),
    'C03': dict(PR, joint=['C01', 'C05', 'C17'], rule=GRAPHS + 'at least one edge, after up to two other prints'),
    'C04': dict(PR, rule=GRAPHS + 'a sequence of prints with one context'),
    'C05': dict(PR, rule=GRAPHS + 'a graph with at least one statement'),
    'C12': dict(CM, rule='a random list of arguments given to exec with a stand-in dot that records its arguments; non-trivial: at least one argument'),
    'C13': dict(CM, rule='a random text and argument list, a stand-in dot with a random outcome (exit code, signal, missing, output bytes)'),
    'C17': dict(PR, rule=GRAPHS + 'a printer registered for some id of the graph'),
}
NOTE = ('All inputs, no bound: Verus discharges the contract of every printing function on the text extracted from the current tree. '
        'Assumes the contracts of String/Vec/HashMap operations in contracts/prelude.inc, unbounded stack and memory, and (precondition) that indentation fits usize, that ports name something and chains have a vertex. ')
for k, n in {
    'C01': 'The printed text equals a specification that lists every element once and in order.',
    'C02': 'The printed text equals a specification in which layout options only choose blanks and optional separators; that these keep all tokens apart is proved by reading two layouts of one well-formed graph back (verified client print_twice; there with the preconditions of C06).',
    'C03': 'Edge text equals its specification with the operator chosen by the kind of graph, at any depth.',
    'C04': 'Frame condition of every print function: the context afterwards is the one before (a graph sets the direction).',
    'C05': 'Each builder has its exact effect on the context; the text equals the layout specification.',
    'C17': 'The value printer is an uninterpreted function of its four arguments; attribute text equals id, =, its result.',
}.items():
    PROPS[k]['note'] = NOTE + n
PROPS['C12']['note'] = ('All variants: the text of each argument equals the table of graphviz names (contracts/cmd.rs), and From keeps the value. '
    'Assumes derived Debug prints the variant name and ASCII lower-casing; that graphviz understands the names is taken from its documentation.')
PROPS['C13']['note'] = ('All texts, argument lists and outcomes of the process: the file handed to dot holds exactly the text, the command line is the arguments then the file, '
    'the result is stdout on exit code 0 and an error with stderr otherwise (or an operating-system error). Assumes the contracts of Command and NamedTempFile; '
    'that the file still exists while dot runs and is gone afterwards (values dropped in scope) is replayed, bounded.')
CT = ['the library contracts of contracts/prelude.inc (String, str, Vec, format!)']
TRUSTED.update({
    'structures': CT + ['to_lowercase on ASCII text lowers A-Z'],
    'gen': CT + ['rustc\'s macro expansion: the invocations in drivers/gen/src/lib.rs stand for every invocation of the same form'],
    'attrs': CT + ['core\'s Display of numbers, bool and char is a function of the value', 'derived Debug and Display of the argument types are what the extraction shows'],
    'derive': CT + ['core\'s Display of numbers is a function of the value'],
})
PROPS['C14'] = {'modules': ['attrs', 'derive'], 'replay': 'replay replay_gen', 'level': 'proof',
    'rule': 'every constructor with argument values drawn from (seed, index); distinct: constructor and value',
    'note': 'Every argument value of every constructor graphviz_rust::attributes defines (found mechanically in the expansion on each run: one that is added or renamed is put under contract by its name), '
            'and of representative types deriving IntoAttribute in drivers/derive. Assumes core\'s Display of numbers and the contracts of format!/String.'}
PROPS['C15'] = {'modules': ['gen'], 'replay': 'replay_gen', 'level': 'proof',
    'rule': 'each of the 123 invocations with argument values drawn from (seed, index); distinct: invocation and values',
    'note': 'Every argument value, for each of 123 invocations that cover every arm of every macro. Bounded in the number of repetitions of a list argument (1, 3 and 5), because a macro of any arity is not one function: '
            'the contract is discharged on the function each invocation expands to.'}
PROPS['C16'] = {'modules': ['structures'], 'replay': 'replay_gen', 'level': 'proof',
    'rule': 'structures drawn from (seed, index)',
    'note': 'All inputs: every function of the repository\'s dot-structures crate is under contract, except that GraphAttributes::new is specified for the three names it accepts (it panics on others: precondition).'}
TRUSTED['parser'] = CT + [
    'pest\'s combinators (ParserState: match_string, match_range, skip, sequence, optional, repeat, lookahead, atomic, rule, start/end_of_input) mean the interpreter `run` of contracts/peg.inc; the functions built from them are read from the expansion on every run',
    'DotParser::parse runs the function of the rule it is given on the whole text from position 0 and answers with its result (contract in contracts/parser_x.inc)',
    'pest::iterators::Pair/Pairs hand out the pairs of the parse tree (as_rule, as_str, into_inner, next, peek, clone)',
    'two Strings with the same characters are equal (axiom string_ext)',
    'stack depth, memory and time are unbounded (the grammar backtracks: deep nesting costs exponential time)',
]
PA = {'modules': ['parser'], 'replay': 'replay', 'level': 'proof'}
NP = ('All texts, no bound: the functions of parser.rs are under contract over a parse tree whose shape, per rule, is proved of the functions pest generated for the grammar '
      '(extracted as data on every run). Assumes that pest\'s combinators mean the interpreter in contracts/peg.inc, unbounded stack, memory and time. ')
TEXTS = 'texts drawn from (seed, index): printed graphs, random token sequences, mutated texts; non-trivial: '
PROPS['C07'] = dict(PA, rule=TEXTS + 'every text', note=NP + 'Every call in the parser meets its precondition (no unwrap on nothing, no unexpected rule), every loop and recursion decreases, and the grammar has an answer at every position (no left recursion, no empty loop).')
PROPS['C08'] = dict(PA, joint=['C09', 'C10'], rule=TEXTS + 'the text parses', note=NP + 'An accepted text consists, between blanks and comments, of exactly the words and signs of the parse tree, and the graph returned is the one the tree stands for.')
PROPS['C09'] = dict(PA, rule=TEXTS + 'the text has an id that is not a plain word', note=NP + 'The lexical rules take exactly what the definitions of words, numerals, strings and html strings in contracts/peg.inc say, and ids carry that text and kind.')
PROPS['C10'] = dict(PA, rule=TEXTS + 'the text has a port', note=NP + 'Every form of port, with the compass points as a set of texts.')
PROPS['C11'] = dict(PA, rule=TEXTS + 'the two texts differ', note=NP + 'Two texts with the same words and signs, whatever blanks and comments stand between them, are both refused or give graphs that stand for the same tree (verified client two_layouts). The optional commas, semicolons and empty attribute lists as well: every writing of a graph (contracts/peg_writes.inc) is accepted and gives that graph (verified client two_writings).')
TRUSTED['round'] = TRUSTED['parser'] + TRUSTED['printer']
PROPS['C06'] = {'modules': ['round'], 'replay': 'replay', 'level': 'proof', 'rule': GRAPHS + 'the graph has at least one statement',
    'note': 'All graphs and layouts, no bound: what print returns (its contract) is a writing of the graph (prints_ok), parse accepts every writing of a graph and gives that graph back up to the names of anonymous graphs and subgraphs (read_back); the client print_and_parse is verified against the contracts of print and parse. '
            'Preconditions: ids are texts of the grammar and no unquoted graph/node/edge/subgraph where a statement starts, ports name something and a lone compass is not a plain id, chains have at least three vertices, indentation fits usize, no value printer, line separator of blanks. Assumes what C01 and C08 assume.'}
NOT_APPLICABLE = {}
