"""property id -> rules that decide it, translation units to load, and the rule in one sentence"""

SOLVER = ['src/solver/' + u for u in ('NapSAT.cpp', 'NapSAT-utils.cpp', 'NapSAT-conflict.cpp', 'NapSAT-clauses.cpp', 'NapSAT-backtrack.cpp', 'NapSAT-assumptions.cpp',
                                     'NapSAT-imply.cpp', 'NapSAT-purge.cpp', 'NapSAT-propagation.cpp')] + ['src/utils/heap.cpp', 'src/utils/bitset.cpp', 'src/SAT-API.cpp']

TABLE = {
    'H01': dict(units=['src/utils/heap.cpp'], rules=[('heap', 'check_index')],
                rule='Path-sensitive dataflow over every heap operation: net effect on (positions, index, sizes) per operation and per '
                     'sift iteration must keep the position index the inverse of the heap array.',
                assumes=['callers respect the documented preconditions (insert: key absent; remove/update: key present)']),
    'H02': dict(units=['src/utils/heap.cpp'], rules=[('heap', 'check_order')],
                rule='Path-sensitive dataflow: every sift iteration may move an element only past a neighbour ordered on this path, may stop '
                     'only where order holds on this path, and every mutator starts the sifts its change needs after storing the change.',
                assumes=['activities are not NaN', 'unsigned index arithmetic does not overflow (heap below 2^31 entries)']),
    'D01': dict(units=['src/proof/dependency_tracker.cpp'], rules=[('deps', 'check')],
                rule='Set-algebra dataflow: on every path through each tracker operation, the premise sets gain exactly the union the '
                     'operation promises (per loop iteration where it iterates), and are cleared exactly where it promises.',
                assumes=['operations are called with identifiers of clauses in use (documented assertions)']),
    'S01': dict(units=['src/solver/NapSAT-imply.cpp', 'src/solver/NapSAT-backtrack.cpp', 'src/solver/NapSAT.cpp', 'src/solver/NapSAT-utils.cpp', 'src/utils/heap.cpp', 'src/utils/bitset.cpp'], rules=[('trail', 'check')],
                
                rule='Path-sensitive dataflow in each backtracking mode: on every path assigning, unassigning and backtracking have exactly the '
                     'stated net effect, per trail element for the scans.',
                assumes=['the documented preconditions of these operations hold (literal unassigned, reason unit under the assignment)']),
    'S02': dict(units=SOLVER, rules=[('status', 'check')],
                rule='Typestate of the solver status: every write of it, on every path, must be guarded by one of the stated justifications; '
                     'per iteration of the propagation and solving loops and per exit the stated protocol must hold.',
                assumes=['the conflict level and repair possibilities are computed as specified elsewhere']),
    'S03': dict(units=['src/solver/NapSAT.cpp', 'src/solver/NapSAT-utils.cpp', 'src/solver/NapSAT-clauses.cpp', 'src/utils/heap.cpp', 'src/utils/bitset.cpp'], rules=[('clauses', 'check')],
                rule='Path-sensitive dataflow over clause intake in each backtracking mode: per literal for the scans and copies, per size and per value of the two watched literals '
                     'for the consequences, replay of the exchanges that choose the watched literals, tabulation of the value function.',
                assumes=['literals passed by the solver itself are not at root (asserted in the source)']),
    'S04': dict(units=['src/solver/' + u for u in ('NapSAT-propagation.cpp', 'NapSAT.cpp', 'NapSAT-clauses.cpp', 'NapSAT-utils.cpp', 'NapSAT-conflict.cpp')] + ['src/utils/heap.cpp', 'src/utils/bitset.cpp'], rules=[('watches', 'check'), ('rewatch', 'check')],
                rule='Path-sensitive dataflow over one arbitrary entry of each watch list in each backtracking mode: what the path knows about the roles of the literals of the clause '
                     'must justify keeping, moving, implying, re-implying or reporting it; per iteration for the replacement searches; effect of watching and unwatching on the lists; the choice of new watched literals is evaluated as guarded transitions for every order of the literals\' worth in clauses of two to four.',
                assumes=['binary clauses hold two distinct literals', 'a watched clause contains the literal whose list it is in (kept by these operations)']),
    'S05': dict(units=['src/solver/' + u for u in ('NapSAT-purge.cpp', 'NapSAT-clauses.cpp', 'NapSAT.cpp', 'NapSAT-conflict.cpp')] + ['src/utils/heap.cpp', 'src/utils/bitset.cpp'], rules=[('purge', 'check')],
                rule='Path-sensitive dataflow over one arbitrary clause, list entry or literal of every purging loop, in each backtracking mode: what the path has tested must justify each deletion, '
                     'removal of a literal or of a list entry; the lists and the first two literals must agree again at the end of the iteration.',
                assumes=['the watch invariant holds before purging (kept by S03 and S04)', 'blocking literals belong to their clause (kept by S04)']),
    'S06': dict(units=['src/solver/' + u for u in ('NapSAT-conflict.cpp', 'NapSAT-backtrack.cpp', 'NapSAT.cpp', 'NapSAT-clauses.cpp', 'NapSAT-utils.cpp')] + ['src/utils/heap.cpp', 'src/utils/bitset.cpp'], rules=[('learn', 'check'), ('rewatch', 'check')],
                rule='Path-sensitive dataflow over the phases of conflict analysis, learning and repair: for one arbitrary literal, trail position, clause and conflict of every loop, what an iteration marks, '
                     'counts, collects or drops must be justified by what the path has tested, and the loops must cover every position, in each backtracking mode.',
                assumes=['the trail invariant holds before analysis (kept by S01 and S04)', 'the implied literal of a reason comes first (kept by S03 and S04)', 'in graph backtracking the choice of decisions to undo is not covered']),
    'S07': dict(units=['src/solver/' + u for u in ('NapSAT.cpp', 'NapSAT-utils.cpp', 'NapSAT-conflict.cpp', 'NapSAT-clauses.cpp', 'NapSAT-backtrack.cpp', 'NapSAT-imply.cpp', 'NapSAT-purge.cpp')] + ['src/utils/heap.cpp', 'src/utils/bitset.cpp'], rules=[('activity', 'check')],
                rule='Path-sensitive dataflow over decision, suggestion, bumping and rescaling in each backtracking mode: what every path chooses, stores and adds, and for one arbitrary variable of the rescaling loop; '
                     'backward search over the call graph for the operations every activity, increment and queue change belongs to.',
                assumes=['the queue yields the highest activity it holds (H01, H02)', 'floating-point rounding is ignored']),
    'S08': dict(units=['src/solver/' + u for u in ('NapSAT.cpp', 'NapSAT-utils.cpp', 'NapSAT-conflict.cpp', 'NapSAT-clauses.cpp', 'NapSAT-backtrack.cpp', 'NapSAT-imply.cpp', 'NapSAT-purge.cpp')] + ['src/utils/heap.cpp', 'src/utils/bitset.cpp'], rules=[('elim', 'check')],
                rule='Path-sensitive dataflow over clause creation, deletion, bumping, elimination and the call that triggers it, in each backtracking mode: what every path counts, stores and compares, and for one arbitrary clause of every loop; '
                     'backward search over the call graph for the operations that change the count, the activities and the limits.',
                assumes=['floating-point rounding is ignored']),
    'O01': dict(units=None, rules=[('options', 'check')],
                rule='Dataflow over the option code: the declarations are read as a table (flag, option, aliases, needs, overrules, ranges, defaults) and compared with the documented one; the paths that take a value, '
                     'strip the environment flags and derive settings are evaluated as guarded transitions over the classes of tokens and settings; the loops that read the line and resolve conflicts are decided by what one arbitrary iteration does; '
                     'every write to an option in the whole program is owned by the option code; conversions that can throw lie under handlers for both exceptions.',
                assumes=['the tokens of one class (on, off, empty, dash, word, number) are treated alike, as the code compares only these', 'number conversion itself is the library function']),
    'T01': dict(units=['src/SAT-API.cpp', 'src/solver/NapSAT.cpp', 'src/solver/NapSAT-conflict.cpp', 'src/solver/NapSAT-utils.cpp', 'src/proof/proof.cpp'], rules=[('encoding', 'check')],
                rule='The bodies of the operations of the basic types are turned into terms over the object and the arguments by dataflow over every path, and these terms compared with the arithmetic each operation stands for at every bit position '
                     'and around every distinguished number; distinguished constants are compared as evaluated by the compiler; for tables, the index and size handed to the underlying vector are such terms too.',
                assumes=['a term that is right at the representative numbers (each single bit, the ends, alternating bits) is right', 'operations of a template no code instantiates are not seen']),
    'I02': dict(units=['src/SAT-API.cpp', 'src/solver/NapSAT.cpp', 'src/solver/NapSAT-utils.cpp', 'src/solver/NapSAT-assumptions.cpp'], rules=[('api', 'check')],
                rule='Path-sensitive dataflow from each function of the interface: what is handed to the solver (operation, arguments, how often), what is answered from the operation\'s own result, and every other effect; queries are evaluated for '
                     'representative states of the fields they read; the function that makes variables is evaluated for representative numbers of variables and buffer capacities on each of its paths.',
                assumes=['the operations themselves do what they promise (the other properties)', 'sizes of one class are treated alike']),
    'I03': dict(units=['main.cpp'], rules=[('api', 'program')],
                rule='Path-sensitive dataflow over the program with the interface opaque and its output as a value: on every path the lines printed, calls made and exit code are compared with what the answers of the interface '
                     'on that path require, for each status the path allows.',
                assumes=['the interface does what it promises (I01, I02)', 'output is written only through the standard streams']),
    'I01': dict(units=['src/solver/NapSAT-utils.cpp', 'src/solver/NapSAT.cpp', 'src/utils/decoder.cpp'], rules=[('dimacs', 'check')],
                rule='Path-sensitive dataflow over the reader with strings and streams as values: the guarded transitions of one arbitrary line and one arbitrary token are evaluated for representatives of every kind of line '
                     'and token (kind, indentation, sign, trailing text, number of variables so far), what each does must be what the format prescribes; every way out has the answer and status its tests justify; '
                     'for the decompressors, what follows every decompressed piece, what precedes every next piece and what is known where success is answered.',
                assumes=['lines and tokens of one class are treated alike', 'the library functions (number conversion, liblzma, libbz2) do what they document', 'adding a literal or clause does what it promises (checked as S03)', 'files of several concatenated compressed streams are not covered']),
    'B01': dict(units=['src/utils/bitset.cpp'], rules=[('bits', 'single')], technique='static dataflow extraction of the transition relation, tabulated over the boundary classes of the stored form (custom analyser; nothing is executed)',
                rule='Extraction of the transition relation of every operation (paths and loop transitions over index, iterator and array terms), tabulated over the stored forms of sets at the '
                     'word, block and capacity boundaries: exactly one path applies and the form and answer it leads to are those of the mathematical set. '
                     'Bounded: up to three index words and the representatives of each boundary class, not all sets.',
                assumes=['the stored form is the normal form (kept by these operations)', 'indexes below the capacity (asserted in the source)']),
    'B02': dict(units=['src/utils/bitset.cpp'], rules=[('bits', 'sets')], technique='static dataflow extraction of the transition relation, tabulated over the boundary classes of the stored form (custom analyser; nothing is executed)',
                rule='The same tabulation for the operations on two sets, over all pairs of the stored forms at the word and block boundaries. Bounded as B01.',
                assumes=['both operands are in normal form (B01)', 'both operands have the same capacity (asserted in the source)']),
    'P02': dict(units=['src/solver/' + u for u in ('NapSAT-conflict.cpp', 'NapSAT-imply.cpp', 'NapSAT-purge.cpp', 'NapSAT.cpp', 'NapSAT-clauses.cpp', 'NapSAT-utils.cpp', 'NapSAT-backtrack.cpp', 'NapSAT-propagation.cpp')] + ['src/utils/heap.cpp', 'src/utils/bitset.cpp', 'src/SAT-API.cpp'], rules=[('record', 'check')],
                rule='Path-sensitive dataflow pairing every change of a clause under derivation with the calls of the proof recorder on the same path: for one arbitrary literal, reason or clause of every loop, '
                     'each removal must be matched by exactly one resolution with the clause that justifies it, and each chain be started, ended or abandoned on every path.',
                assumes=['the trail invariant holds (kept by S01 and S04)', 'the recorder stores what it is given (checked as P01)']),
    'P01': dict(units=['src/proof/proof.cpp'], rules=[('proof', 'check')],
                rule='Path-sensitive dataflow over the proof store and its checker: for one arbitrary clause, link and literal of every loop, what is stored, merged, removed or compared must be what resolution '
                     'prescribes, the loops must cover every position, and each way out must have the verdict its tests justify.',
                assumes=['chains start with a clause without pivot and premises are recorded before they are used (asserted in the source)']),
    'L01': dict(units=['src/solver/NapSAT.cpp'], rules=[('luby', 'check')],
                rule='Transition contract of the restart counter: every extracted path of its operations, tabulated over the abstract counter states '
                     '(position, round, interval, repetition), must yield the next state and answer of the stated sequence.',
                assumes=['fewer than 2^31 conflicts between restarts']),
    'A01': dict(units=['src/utils/partition.cpp'], rules=[('avl', 'check')],
                rule='Path-sensitive dataflow over the tree operations: search direction, linking, unlinking, rotation choice and height updates are checked '
                     'on every path and for one arbitrary iteration of every loop.',
                assumes=['nodes passed on the way down are linked (asserted in the source)']),
    'X01': dict(units=None, rules=[('lint', 'observe')], technique='whole-program side-effect analysis of the source (custom analyser: interprocedural write summaries; nothing is executed)',
                rule='Whole-program write summaries (may-write sets by root object, over the call graph, for both build variants): the expansion of every check, notification and statistic, every branch '
                     'decided by the presence of an observer or statistics, and every query may write only to the observer, the statistics and storage that is emptied before it is read.',
                assumes=['the observer library itself is outside the repository (replaced by declarations)', 'no writes through pointers made from integers']),
    'X02': dict(units=None, rules=[('lint', 'dependence')], technique='whole-program source-and-sink lint over the typed syntax tree and control-flow graph (custom analyser; nothing is executed)',
                rule='No call of a source of chance outside the checks; clock values flow only into statistics and text; every object that outlives a call is constant, shapes only printed text, or is emptied on every path '
                     'before it is read; every plain field and local is given a value on every path before it is read; no loop over hashed or address-ordered containers whose order matters.',
                assumes=['user callbacks (weight function) depend only on their arguments', 'fields of objects are set by the constructor of their class']),
    'X03': dict(units=None, rules=[('lint', 'recording')], technique='whole-program side-effect analysis of the source (custom analyser: interprocedural write summaries; nothing is executed)',
                rule='Every branch decided by the presence of a proof (or by an option that creates it, or a function that returns such a test) may write only to the proof and may not leave the code it is in; '
                     'the same for dependencies, except that functions may answer differently when they are kept.',
                assumes=['marks set while recording are taken back (checked as P02)']),
}
