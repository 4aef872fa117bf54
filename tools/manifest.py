"""Writes MANIFEST.json from the table of claimed checks (run it after editing the table)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id: (technique, level, note)
CLAIMED = {
    'C01': ('exhaustive enumeration of texts against a reference model of plain text', 'exploration',
            'every text over a token alphabet up to a length, plain and around constructs'),
    'C02': ('exhaustive enumeration of token sequences against a reference parser', 'exploration',
            'every token sequence per grammar context up to a length, trees compared with an independent parser'),
    'C03': ('exhaustive enumeration of inputs on the real code, watched for escapes, hangs and report counts', 'exploration',
            'every token and character sequence up to a length, every function and construct applied to every kind of value, '
            'every configuration and diagnostic mode'),
    'C04': ('exhaustive enumeration of programs against a reference evaluator', 'exploration',
            'every function of up to three parameters x every call shape x every equivalent form of the call'),
    'C05': ('exhaustive enumeration of operation sequences against a reference evaluator', 'model_checking',
            'every sequence of assignments, lets and uses up to a length, states of the model counted'),
    'C06': ('exhaustive enumeration of programs against a reference evaluator', 'exploration',
            'every list, loop, condition, subscript, string and infix program up to a depth'),
    'C07': ('exhaustive enumeration of programs, compared with the substituted program', 'exploration',
            'every macro body, quotation and evaluated string over a token alphabet up to a length x every call'),
    'C08': ('exhaustive enumeration of emit histories against a reference evaluator', 'model_checking',
            'every sequence of emits, copies and assignments up to a length'),
    'C09': ('explicit-state exploration of placements, import graphs and histories against a model of the module search', 'model_checking',
            'every import graph over three modules with every import form, every placement over the search directories, every '
            'position of a skip, on the real code'),
    'C10': ('exhaustive enumeration of calls and call histories against a reference table', 'exploration',
            'every documented function x every argument tuple of a value set, every pair of calls in a row'),
    'C11': ('exhaustive enumeration of run histories, each compared with the run alone in a fresh process', 'model_checking',
            'every ordered pair of a set of runs that touch each piece of process-wide state, and longer chains and triples, on '
            'the real code; differences are looked for in status, printed text, log and files'),
    'C12': ('explicit-state exploration of invocation histories against a model of the output protocol', 'model_checking',
            'every combination of names, file kinds, existing outputs and options, every sequence of files, every history of '
            'invocations and edits up to a length, on the real command, directory compared with the model after each'),
    'C13': ('exhaustive enumeration of crash points and file faults on the real code', 'fault_enumeration',
            'every file operation of a run is made the last, torn or failing (also in pairs) by a preloaded injector; then a '
            'normal run recovers; death of the process, not of the machine'),
    'C14': ('explicit-state exploration of a model of file times and contents, every state laid out for the real import', 'model_checking',
            'all 85,796 reachable states of the model (two sources, a dependency, settings, output, force), and histories of '
            'edits and imports in one process'),
    'C16': ('exhaustive enumeration of faulty constructs at every place against a model of the report', 'exploration',
            'every faulty construct at every line and nesting depth, in files, functions, macros, loops and modules'),
    'C17': ('exhaustive enumeration of programs, every copied character looked up in the record', 'exploration',
            'every mix of text, constructs, blocks, indents, blank lines, macros and modules up to a length, looked up as the '
            'plug-in does and with the plug-in itself'),
    'C18': ('exhaustive enumeration of option combinations over programs, compared with the plain run', 'exploration',
            'every combination of diagnostic options for every construct and every pair of constructs'),
    'C19': ('exhaustive enumeration of layouts against a model of the rendering', 'exploration',
            'every arrangement of line pieces, constructs and values up to a length'),
    'C20': ('exhaustive enumeration of texts against a model of the clean-up', 'exploration',
            'every text over blanks, tabs, line ends and words up to a length, through translate and reduce'),
    'C21': ('explicit-state exploration of option histories against a model of the order', 'model_checking',
            'every pair of arguments and longer conflicting sequences, every pair of settings statements over both files, every '
            'sequence of files in one process; the effective options are read off translations'),
    'C22': ('explicit-state exploration of passage declarations and histories against a model of the files written', 'model_checking',
            'every source of up to three declarations of up to four elements with every use and output name, in a row with others, '
            'with failing passages, through the real command'),
    'C25': ('exhaustive enumeration of sessions against a model of the interactive loop', 'model_checking',
            'every entry and every pair, every split of entries over lines, every end of a session and every option, through the '
            'real loop; each answer compared with the entry given alone in a fresh process'),
    'C15': ('exhaustive enumeration of declarations, bodies and reading modes on the real codec', 'exploration',
            'every spelling and place of the declaration x base encoding x body x every way to read, import or run the file, in '
            'this and in fresh processes; the code delivered and the values it computes'),
    'C26': ('exhaustive enumeration of call stacks, compared with the standard traceback of the generated files', 'exploration',
            'every call stack of up to three frames over generated, plain and interpreter files x failing line x failure x '
            'interface of the traceback module; every header form'),
    'C27': ('exhaustive enumeration of programs against a reference evaluator', 'exploration',
            'every function with late parameters x every argument over late, free and bound names x every place and way of the '
            'call; lazily passed lists; expressions that wait for a parameter'),
    'C24': ('exhaustive enumeration of uses of the library against models of its documentation', 'exploration',
            'every documented function x every arrangement of small arguments, histories of definitions, every use after every '
            'other, headers as seen through gcc -E by the implementation and by users in C and C++'),
    'C23': ('explicit exploration of a model of coroutines, each trace of which is replayed by the compiled program', 'model_checking',
            'every small body, also within loops and branches, and every pair of bodies, in both C variants and in Python, under '
            'every schedule of resumptions and events of five or six steps'),
}
NOT_APPLICABLE = {}
TODO = 'its check is not built yet'


def main():
    with open(os.path.join(V, 'properties.jsonl')) as f:
        ids = [json.loads(x)['id'] for x in f]
    m = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -B mc/selftest.py',
        'checks': [{
            'property': i,
            'quick_cmd': 'bash check.sh %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough bash check.sh %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': CLAIMED[i][0], 'level': CLAIMED[i][1], 'level_note': CLAIMED[i][2],
        } for i in ids if i in CLAIMED],
        'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE.get(i, TODO)} for i in ids if i not in CLAIMED],
    }
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
