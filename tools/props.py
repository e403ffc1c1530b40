"""property texts (source of properties.jsonl)"""
PROPS = [
 dict(id='H01', title='Variable heap: membership and positions stay exact',
  statement='After any sequence of insertions, removals, pops and activity changes, the variable heap contains exactly the keys inserted and not yet removed or popped, and its size says so. A key is reported as contained if and only if it is in the heap, including keys that were never inserted, and pop and top return a key that is in the heap.',
  over=['histories', 'inputs'], q='every history of insert/remove/update/increase/normalize/pop over arbitrary keys and activities',
  why='The test suite has no heap test; the solver tests are not even compiled here.',
  files=['src/utils/heap.cpp', 'src/utils/heap.hpp'],
  mech=[('element exchange keeps index inverse', 'src/utils/heap.cpp swap'), ('growth of the index table', 'src/utils/heap.cpp insert'), ('removal through the last slot', 'src/utils/heap.cpp pop/remove')]),
 dict(id='H02', title='Variable heap: pop order follows current activities',
  statement='At any moment the key returned by top or pop has an activity at least as large as every other key in the heap, where the activity of a key is the one last given by insertion or update, scaled by later normalisations. This holds after removals from the middle, activity increases and decreases, and growth of the key range.',
  over=['histories', 'inputs'], q='every history of heap operations with arbitrary keys and non-NaN activities',
  why='Order violations need particular shapes (last right child, replacement from another branch); no heap test exists.',
  files=['src/utils/heap.cpp', 'src/utils/heap.hpp'],
  mech=[('sift up / sift down loops', 'src/utils/heap.cpp heapify_up/heapify_down'), ('sifts started by each mutator', 'src/utils/heap.cpp insert/remove/update/increase_activity/pop')]),
 dict(id='D01', title='Dependency tracker: a learned clause reports exactly its input premises',
  statement='After any sequence of tracker operations, the dependencies reported for an input clause are that clause alone, and those reported for a learned clause are exactly the union of the dependencies of the clauses tracked for it or linked to it. A deleted clause leaves nothing behind for a later clause reusing its identifier, and tracking started for one clause never leaks into another.',
  over=['histories', 'inputs'], q='every history of add/link/track/finalise/cancel/delete operations over arbitrary clause identifiers',
  why='No test exercises the tracker; wrong premises only show as wrong UNSAT cores after identifier reuse.',
  files=['src/proof/dependency_tracker.cpp', 'src/proof/dependency_tracker.hpp'],
  mech=[('premise sets per clause', 'src/proof/dependency_tracker.cpp'), ('tracking set', 'src/proof/dependency_tracker.cpp track_dependency/finalize_tracking')]),
 dict(id='S01', title='Trail, assignment and levels stay consistent through assign and backtrack',
  statement='Assigning a literal appends it once to the trail and gives its variable the literal\'s value, the reason, the saved phase and the level the reason implies (root for a unit reason, a fresh level for a decision). Backtracking to a level, or undoing a set of decisions in graph backtracking, unassigns exactly the variables above that level or depending on those decisions, resets them, offers them to decisions again, and keeps all other literals on the trail in order. Kept literals whose propagation may be stale are propagated again, and in lazy strong chronological mode a literal known to be implied lower down is put back with that reason.',
  over=['histories', 'inputs', 'configurations'], q='every assignment and backtrack in every backtracking mode, for arbitrary trails and clauses',
  why='No test executes the solver; a stale flag or a wrong level only shows after particular sequences of conflicts.',
  files=['src/solver/NapSAT-imply.cpp', 'src/solver/NapSAT-backtrack.cpp', 'src/solver/NapSAT.hpp'],
  mech=[('assignment', 'src/solver/NapSAT-imply.cpp imply_literal'), ('unassignment', 'src/solver/NapSAT-backtrack.cpp var_unassign'), ('backtracking', 'src/solver/NapSAT-backtrack.cpp backtrack')]),
 dict(id='S02', title='Status changes only with a justification; solve stops only when allowed',
  statement='The status becomes SAT only when every variable is assigned and propagated or no variable is left to decide, and UNSAT only for a conflict at root level, an empty clause added or learned, or a conflict that no backtracking outside the assumptions repairs. A SAT answer is withdrawn by a new variable, a newly constrained variable, backtracking or a falsified clause, and an UNSAT answer only by changing assumptions. Solving returns a decided status at once; otherwise it decides only after complete conflict-free propagation, repairs every conflict before going on, and stops undecided only when the conflicts counted exceed the limit in force, which a per-call limit replaces for that call only.',
  over=['histories', 'inputs', 'configurations'], q='every path through propagation, solving, deciding and every write of the status, in every backtracking mode',
  why='No test executes the solver; wrong transitions need a new clause after an answer, a limit hit at the right conflict, or an assumption.',
  files=['src/solver/NapSAT.cpp', 'src/solver/NapSAT-conflict.cpp', 'src/solver/NapSAT-clauses.cpp', 'src/solver/NapSAT-assumptions.cpp'],
  mech=[('propagation loop', 'src/solver/NapSAT.cpp propagate'), ('solving loop', 'src/solver/NapSAT.cpp solve'), ('decision', 'src/solver/NapSAT.cpp decide'), ('repair', 'src/solver/NapSAT-conflict.cpp repair_conflicts')]),
 dict(id='L01', title='Restart sequence: restarts fall due after 1, 1, 2; 1, 1, 2, 4; ... conflicts',
  statement='The restart counter reports a restart due after intervals of 1, 1, 2 increments, then 1, 1, 2, 4, then 1, 1, 2, 4, 8 and so on: every round repeats the first interval, then doubles it up to one power of two more than the round before, without end. Between two reports it reports nothing, and a reset at any point starts the sequence over.',
  over=['histories'], q='every number of increments and resets in any order',
  why='The test compares a bounded prefix; later rounds and resets at other points are not exercised.',
  files=['src/utils/luby-counter.hpp'],
  mech=[('counting and round change', 'src/utils/luby-counter.hpp increment'), ('starting over', 'src/utils/luby-counter.hpp reset')]),
 dict(id='A01', title='Search tree: exact entries, order, balance and best fit',
  statement='After any sequence of insertions and removals the search tree contains exactly the (key, data) entries inserted and not removed, ordered by key and then data, and the subtree heights of every node differ by at most one. Inserting an entry already present and removing an absent one are refused without change. The best fit for a key is the data of an entry with the smallest key not below it, or nothing if there is none.',
  over=['histories', 'inputs'], q='every history of insert, remove and best-fit queries over arbitrary keys and data',
  why='Wrong rotations need particular shapes: equal keys, a removal with a balanced sibling, a replacement with a child.',
  files=['src/utils/partition.cpp', 'src/utils/partition.hpp'],
  mech=[('insertion and rebalancing', 'src/utils/partition.cpp insert'), ('removal', 'src/utils/partition.cpp remove'), ('rotations', 'src/utils/partition.cpp rotate_left/rotate_right'), ('query', 'src/utils/partition.cpp find_best_fit')]),
 dict(id='S03', title='A clause given is stored exactly, takes effect at once, and is watched well',
  statement='A clause given to the solver is stored with exactly its distinct literals except those false at root level; it is dropped only if one of its literals is true at root level or it contains a literal and its negation, and if no literal is left the problem is unsatisfiable. Once stored, a clause with a single non-false literal implies it (a unit clause at root level), a falsified clause is recorded as a conflict, and a clause of two or more literals is watched on its two best literals: a true one before an unassigned before a false one, the latest-assigned false one first. An identifier given back is reused only for a clause its storage holds, and a new one never collides with one in use.',
  over=['histories', 'inputs', 'configurations'], q='every clause (any literals, duplicates, size) added at any point of any session, in every backtracking mode',
  why='No test executes the solver; a lost literal or wrong watch needs a duplicate, a root literal or a reused identifier at the right position.',
  files=['src/solver/NapSAT-clauses.cpp', 'src/solver/NapSAT-utils.cpp', 'src/solver/NapSAT.cpp'],
  mech=[('intake', 'src/solver/NapSAT-clauses.cpp internal_add_clause'), ('storage', 'src/solver/NapSAT-clauses.cpp next_clause_id'), ('choice of watches', 'src/solver/NapSAT-clauses.cpp select_watched_literals'),
        ('duplicates and tautologies', 'src/solver/NapSAT-utils.cpp cleanup_duplicate_literals'), ('clause building', 'src/solver/NapSAT.cpp add_literal/finalize_clause/add_clause')]),
 dict(id='S04', title='Propagation misses nothing and implies only what a clause forces',
  statement='When a literal is propagated, every clause watching its negation is examined, or a conflict is reported, and afterwards each examined clause is satisfied, watches a non-false literal instead, has implied its only non-false literal, or is reported as a conflict. A literal is implied, or re-implied at a lower level in the strong modes, only by a clause whose other literals are all false, and a clause is reported as a conflict only if all its literals are false, its highest-level literal first. Watch lists keep exactly one entry per watched literal of a clause.',
  over=['histories', 'inputs', 'configurations'], q='every watch list, clause size and assignment, in every backtracking mode',
  why='No test executes propagation; an overlooked replacement or a dropped list entry needs a particular position in a clause or list.',
  files=['src/solver/NapSAT-propagation.cpp', 'src/solver/NapSAT.cpp', 'src/solver/NapSAT-clauses.cpp'],
  mech=[('watched clauses', 'src/solver/NapSAT-propagation.cpp propagate_lit'), ('binary clauses', 'src/solver/NapSAT-propagation.cpp propagate_binary_clauses'), ('replacement search', 'src/solver/NapSAT-propagation.cpp quick_replacement'),
        ('highest false literal', 'src/solver/NapSAT-propagation.cpp advanced_level_replacement/advanced_graph_replacement')]),
 dict(id='S05', title='Clauses are deleted or shortened only when nothing is lost',
  statement='A clause is deleted by the solver only if it is true at root level or is a learned clause of at least three literals, and never while it is the reason of an assigned literal; given clauses are kept while dependencies are recorded. Shortening a clause removes exactly literals false at root level, a clause shortened to two literals is treated as binary from then on, and one shortened to a single literal implies it. Afterwards no watch list refers to a deleted clause and every remaining clause of at least two literals is still found through both of its watched literals.',
  over=['histories', 'inputs', 'configurations'], q='every clause set and assignment at every purge or deletion, in every backtracking mode',
  why='No test executes purging; a clause lost or unwatched only shows as a wrong answer much later.',
  files=['src/solver/NapSAT-purge.cpp', 'src/solver/NapSAT-clauses.cpp', 'src/solver/NapSAT.cpp', 'src/solver/NapSAT-conflict.cpp'],
  mech=[('shortening', 'src/solver/NapSAT-purge.cpp purge_clauses'), ('root literals', 'src/solver/NapSAT-purge.cpp purge_root_watch_lists'), ('watch lists', 'src/solver/NapSAT-purge.cpp repair_watch_lists'),
        ('redundant clauses', 'src/solver/NapSAT-purge.cpp simplify_clause_set'), ('deletion', 'src/solver/NapSAT-clauses.cpp delete_clause')]),
 dict(id='S06', title='Learned clauses follow from the conflict, and a repair undoes every conflict',
  statement='Conflict analysis starts from a clause whose literals are all false and removes a literal only by resolving with a clause that implied it (adding all its other literals), because the remaining literals imply it, or because it is false at root level; exactly one literal of the conflict level is left, and it comes first. Exactly this clause is added, as a learned clause under its own identifier, unless a clause in use or learned at the same time has no literal outside it. Outside graph backtracking, a repair undoes the highest literals of every conflict and learned clause, then adds the learned clauses, implies the literal of a conflict that became unit, and repairs again what is still falsified.',
  over=['histories', 'inputs', 'configurations'], q='every conflict (any trail, reasons, several conflicts at once), in every backtracking mode',
  why='No test executes conflict analysis; an unsound learned clause only shows when a model is lost.',
  files=['src/solver/NapSAT-conflict.cpp', 'src/solver/NapSAT-backtrack.cpp', 'src/solver/NapSAT.hpp'],
  mech=[('resolution', 'src/solver/NapSAT-conflict.cpp analyze_conflict_impl/mark_relevant_literals'), ('minimisation', 'src/solver/NapSAT-conflict.cpp lit_is_required_in_learned_clause'), ('learning', 'src/solver/NapSAT-conflict.cpp try_and_learn_impl'),
        ('redundant clauses', 'src/solver/NapSAT-conflict.cpp learned_clause_is_redundant/clause_subsumed_in_formula/compute_subsumed_clauses'), ('repair', 'src/solver/NapSAT-conflict.cpp level_repair/fix_conflicts_and_learned_in_order'), ('level', 'src/solver/NapSAT-backtrack.cpp choose_backtracked_level')]),
 dict(id='B01', title='The sparse bit set stores exactly the members added',
  statement='After any sequence of additions, removals, clearing and growing, reading, counting, the emptiness test and iteration (in increasing order, each member once) all agree with the mathematical set, for members in every block of the capacity. Growing keeps all members and gives at least the requested capacity; clearing keeps the capacity.',
  over=['inputs', 'histories'], q='every set, index and capacity',
  why='The compressed layout has word, block and capacity boundaries whose combinations tests only sample.',
  files=['src/utils/bitset.cpp', 'src/utils/bitset.hpp'],
  mech=[('layout', 'src/utils/bitset.cpp get_offset, bitset::set, bitset::resize'), ('iteration', 'src/utils/bitset.cpp bitset::iterator')]),
 dict(id='B02', title='Operations on two sparse bit sets are those of mathematical sets',
  statement='For two sets of the same capacity, intersection, union, symmetric difference and difference (also in place), the subset and equality comparisons and the tests for common or further members give what the same operation on mathematical sets gives. The result has the same capacity and is again in the normal form that equality relies on.',
  over=['inputs', 'histories'], q='every pair of sets of equal capacity',
  why='The merged walk over two compressed forms goes wrong only for particular combinations of empty words and blocks.',
  files=['src/utils/bitset.cpp'],
  mech=[('combination', 'src/utils/bitset.cpp combine/update'), ('comparison', 'src/utils/bitset.cpp subset_check/compare')]),
 dict(id='P02', title='Every derivation the solver makes is recorded as resolutions that yield it',
  statement='With proof recording on, every clause the solver learns, shortens, or finally finds empty is recorded with the chain of resolutions that produces exactly its literals, in an order in which each pivot is present when it is resolved. Literals dropped because they are false at root are resolved away through the recorded root reasons, and abandoned derivations leave no trace. Clauses given by the user are recorded as inputs, and removed or replaced clauses stop being available under their identifier.',
  over=['inputs', 'histories', 'configurations'], q='every learned or shortened clause, in every backtracking mode',
  why='A forgotten resolution only shows for clauses where the omitted literal matters, and only when the clause reaches the empty one.',
  files=['src/solver/NapSAT-conflict.cpp', 'src/solver/NapSAT.cpp', 'src/solver/NapSAT-purge.cpp', 'src/solver/NapSAT-clauses.cpp', 'src/solver/NapSAT-imply.cpp'],
  mech=[('learned clauses', 'src/solver/NapSAT-conflict.cpp learn_clause/analyze_conflict'), ('root literals', 'src/solver/NapSAT.cpp prove_root_literal_removal'), ('shortening', 'src/solver/NapSAT-purge.cpp purge_clauses')]),
 dict(id='P01', title='A recorded proof is accepted exactly when every step of it is a resolution',
  statement='The proof keeps every clause given or derived with its literals and its chain of resolutions, under the identifier last given for it. Checking it accepts exactly when the empty clause was reached and every clause it rests on was given or follows from its chain: each pivot is present, its negation occurs in the premise, and what remains are the literals of the clause. Removing literals false at root records a chain that yields the shortened clause.',
  over=['inputs', 'histories'], q='every sequence of recorded clauses and chains, correct or not',
  why='A checker that accepts too much never fails a test made of correct proofs.',
  files=['src/proof/proof.cpp', 'src/proof/proof.hpp'],
  mech=[('checker', 'src/proof/proof.cpp check_proof/check_resolution_chain'), ('store', 'src/proof/proof.cpp input_clause/finalize_resolution'), ('root literals', 'src/proof/proof.cpp remove_root_literals')]),
 dict(id='X01', title='Checks, statistics, notifications and queries never change the search',
  statement='Every internal check, statistic and notification only looks at the solver: it writes to nothing but the observer and the statistics, and nothing else is decided by whether these are attached. Functions that answer questions leave the solver as it was.',
  over=['inputs', 'histories', 'configurations'], q='every check, notification, statistic and query of the program, in both build variants',
  why='The difference between an observed and an unobserved run only shows when both are made and compared step by step.',
  files=['src/solver/NapSAT.hpp', 'src/solver/NapSAT.cpp', 'src/solver/NapSAT-checker.cpp', 'src/SAT-API.cpp'],
  mech=[('checks', 'src/utils/custom-assert.hpp ASSERT'), ('notifications', 'src/solver/NapSAT.hpp NOTIFY'), ('queries', 'src/SAT-API.cpp')]),
 dict(id='X02', title='A run depends only on its inputs; solvers do not influence one another',
  statement='What the solver does depends only on the clauses, calls and options given to it: never on sources of chance, addresses, hashing order, the clock or values never set. Apart from the settings of the environment and the layout of printed text, solvers of one process share nothing that carries over from one to another.',
  over=['histories', 'schedules'], q='every sequence of calls on any number of solvers',
  why='Leftovers of another solver or of earlier memory appear only in particular combinations of calls.',
  files=['src/solver/NapSAT.cpp', 'src/solver/NapSAT-conflict.cpp', 'src/solver/NapSAT.hpp', 'src/utils/bitset.cpp'],
  mech=[('shared scratch storage', 'src/solver/NapSAT-conflict.cpp graph_repair'), ('initial state', 'src/solver/NapSAT.hpp TSvar')]),
 dict(id='X03', title='Recording a proof does not change the run',
  statement='With and without a proof the solver assigns the same literals, learns and deletes the same clauses and gives the same answers. Keeping dependencies for unsatisfiable cores changes nothing other than that given clauses are kept.',
  over=['inputs', 'histories', 'configurations'], q='every run with any recording options',
  why='The difference shows only when runs with and without recording are compared step by step.',
  files=['src/solver/NapSAT.cpp', 'src/solver/NapSAT-conflict.cpp', 'src/solver/NapSAT-purge.cpp', 'src/solver/NapSAT-clauses.cpp'],
  mech=[('recording in analysis', 'src/solver/NapSAT-conflict.cpp'), ('recording in purging', 'src/solver/NapSAT-purge.cpp')]),
 dict(id='S07', title='Decisions take the most active free variable and its saved or suggested value',
  statement='A decision the solver makes itself takes an unassigned variable of highest activity among all unassigned variables, and gives it the value it had last or, when a value was suggested since, the suggested one. Adding a given clause raises the activity of each of its variables and every conflict that of exactly the variables its analysis meets (resolved on, or kept from a lower level), later conflicts counting more; a rescaling scales all activities, the increment and the queue by the same factor.',
  over=['histories', 'inputs', 'configurations'], q='every sequence of calls and conflicts, in every backtracking mode',
  why='Stale or unequal activities cost search, never answers, so no test comparing answers can see them.',
  files=['src/solver/NapSAT.cpp', 'src/solver/NapSAT-utils.cpp', 'src/solver/NapSAT-conflict.cpp', 'src/solver/NapSAT-clauses.cpp', 'src/solver/NapSAT-backtrack.cpp'],
  mech=[('decision', 'src/solver/NapSAT.cpp decide'), ('activities', 'src/solver/NapSAT-utils.cpp bump_var_activity/variables_update'), ('candidates', 'src/solver/NapSAT-backtrack.cpp unassign, src/solver/NapSAT-utils.cpp var_allocate')]),
 dict(id='S08', title='Learned clauses are counted exactly and eliminated only for low activity',
  statement='The number of learned clauses equals the learned clauses stored; every new clause, also one in a reused place, starts with the highest activity, each clause found in conflict gains the current increment, and a rescaling scales all of them, the increment and the maximum alike. Once the number reaches the limit and deletion is allowed, the next conflict runs one elimination: the threshold decays, exactly the removable learned clauses whose activity is below that fraction of the maximum are deleted, and the limit grows.',
  over=['histories', 'inputs', 'configurations'], q='every sequence of conflicts, additions and deletions, in every backtracking mode',
  why='Elimination starts after thousands of conflicts and only changes which clauses are kept, not the answers.',
  files=['src/solver/NapSAT-clauses.cpp', 'src/solver/NapSAT-purge.cpp', 'src/solver/NapSAT-utils.cpp', 'src/solver/NapSAT-conflict.cpp', 'src/solver/NapSAT.cpp'],
  mech=[('count', 'src/solver/NapSAT-clauses.cpp internal_add_clause/delete_clause'), ('activities', 'src/solver/NapSAT-utils.cpp bump_clause_activity'), ('elimination', 'src/solver/NapSAT-purge.cpp simplify_clause_set')]),
 dict(id='O01', title='Command-line options set exactly what they document',
  statement='Every documented flag and alias sets its own option and no other, to the on/off, number or text in the following token when there is one; exactly the tokens used are skipped, a missing or malformed value is refused and leaves the option unchanged, unknown tokens and repeated options are ignored, and options not given keep their documented values. Options overruled by another one, or whose requirements are not met, are taken back until none is left, a value out of its range is refused, at most one backtracking mode remains, and checking or printing a proof turns on building it. After that no option changes any more, except that a solving call with its own conflict limit uses that limit and restores the option afterwards.',
  over=['inputs', 'configurations'], q='every command line',
  why='Tests build the options by hand or with one or two flags; combinations of options, values at the edge of the number format and malformed lines are not sampled.',
  files=['src/solver/SAT-options.cpp', 'src/utils/options.cpp', 'src/utils/options.hpp', 'include/SAT-options.hpp'],
  mech=[('values', 'src/utils/options.cpp BoolOption/DoubleOption/StringOption::consume'), ('reading and conflicts', 'src/utils/options.cpp OptionParser::parse/resolve'), ('declarations and derived settings', 'src/solver/SAT-options.cpp build_option_parser/options'), ('environment', 'src/solver/SAT-options.cpp env::extract_environment_variables')]),
 dict(id='I01', title='A DIMACS file is read for exactly what it holds',
  statement='Reading a file in DIMACS format adds each of its clauses once, literal by literal with its variable and sign, however the clauses are laid out over lines, makes the variables its header declares, and takes nothing from comments except the weights (cw) and names (co) they give to one variable; a malformed weight or name changes nothing. Compressed files (.xz, .bz2) are read as what they decompress to. Reading fails, with the error status, exactly when the file cannot be opened or fully decompressed, its header is malformed or a token is no number; it stops early only at a % line or once the clauses are unsatisfiable.',
  over=['inputs'], q='every file',
  why='Tests read no files; layouts, malformed tokens, truncated or highly compressible archives and lines of unusual form are not sampled.',
  files=['src/solver/NapSAT-utils.cpp', 'src/utils/decoder.cpp'],
  mech=[('lines and tokens', 'src/solver/NapSAT-utils.cpp NapSAT::parse_dimacs'), ('decompression', 'src/utils/decoder.cpp decompress_xz/decompress_bz2')]),
 dict(id='I02', title="The interface's functions act on and report the solver's own state",
  statement='Each function of the interface performs the one operation it is named after, once and with the arguments given, and answers what that operation answers; queries (status, value, decided, fixed at the root level, partial assignment, variable count: one above the highest variable) report what the solver holds and change nothing, and a list of assumptions is added one by one, succeeding exactly when each did. A new variable is the next one and the only one made; every variable made is complete: watch lists, room in the clause buffer (whose literals are kept), and to be assigned unless unused variables are ignored. The cost of a literal is what the given weight function says, or else the weight of its variable, and synchronising records the value of every literal of the assignment.',
  over=['inputs', 'histories', 'configurations'], q='every call of the interface in every state',
  why='Tests do not call the interface; dropped arguments, unusual growth of the variables or a list of assumptions show only in particular sessions.',
  files=['src/SAT-API.cpp', 'src/solver/NapSAT.cpp', 'src/solver/NapSAT-utils.cpp', 'src/solver/NapSAT-assumptions.cpp'],
  mech=[('interface', 'src/SAT-API.cpp'), ('variables', 'src/solver/NapSAT-utils.cpp NapSAT::var_allocate'), ('costs and synchronisation', 'src/solver/NapSAT.cpp literal_cost/synchronize')]),
 dict(id='I03', title='The program reports what the solver concluded',
  statement='The command-line program reads the file named, solves it once and prints the verdict line (s SATISFIABLE, s UNSATISFIABLE, s TIMEOUT) of the status the solver ended with and no other; a file that cannot be read gives a nonzero exit code and no verdict. The proof is checked, a wrong one being reported, and printed exactly when asked for and the formula was found unsatisfiable. When all models are asked for, exactly the model found is excluded before the next is looked for, until there is none; the solver made is ended once.',
  over=['inputs', 'configurations'], q='every file and option set',
  why='No test runs the program; its verdict, exit code and handling of proofs and models depend on the combination of options and outcome.',
  files=['main.cpp'],
  mech=[('the program', 'main.cpp main')]),
 dict(id='T01', title='Literals, variables, levels and clause names are encoded consistently',
  statement='A literal made from a variable and a sign gives both back; negating it changes its sign and nothing else; for every value of its variable it is exactly one of satisfied, falsified and undefined, by its sign. Variables, literals, levels and clause names compare, step and add as their numbers do over the whole range. The values that stand for nothing, root, lazy, assumption or error are told apart from each other and from ordinary ones, outcomes of solving have distinct texts, and a table indexed by a name holds its entry at its number and has the size asked for.',
  over=['inputs'], q='every variable, sign, level, clause name and value',
  why='Every part of the solver and the proof is written on top of these operations; a fault at large numbers, with an unassigned variable or with one of the two forms of an operator surfaces far away, and tests use a handful of small numbers.',
  files=['include/SAT-types.hpp'],
  mech=[('the types', 'include/SAT-types.hpp Tvar, Tlit, Tlevel, Tclause'), ('indexed tables', 'include/SAT-types.hpp indexed_vector')]),
 dict(id='N01', title='The verdict of solve is right',
  statement='When solving answers SAT the assignment satisfies every clause given, and when it answers UNSAT the clauses given (with the assumptions) have no model.',
  over=['inputs', 'histories', 'configurations'], q='every formula, session and option set',
  why='A wrong verdict may need a rare interleaving of learning, repair, purging and re-implication.',
  files=['src/solver/NapSAT.cpp', 'src/solver/NapSAT-conflict.cpp'],
  mech=[('solving loop', 'src/solver/NapSAT.cpp solve')]),
 dict(id='N02', title='Solving without a limit always finishes',
  statement='Solving without a conflict limit returns SAT or UNSAT after finitely many steps for every formula and option set.',
  over=['inputs', 'configurations'], q='every formula and option set',
  why='Divergence needs a particular cycle of restarts, deletions and repairs.',
  files=['src/solver/NapSAT.cpp'],
  mech=[('solving loop', 'src/solver/NapSAT.cpp solve')]),
 dict(id='N03', title='Solving under assumptions keeps every assumption',
  statement='While assumptions are set, every assignment found satisfies each of them, solving answers UNSAT only when the clauses and assumptions together have no model, and taking them back restores the verdict of the clauses alone.',
  over=['inputs', 'histories', 'configurations'], q='every session with assumptions',
  why='Assumptions interact with every repair and restart of a session.',
  files=['src/solver/NapSAT-assumptions.cpp', 'src/solver/NapSAT-conflict.cpp'],
  mech=[('assumptions', 'src/solver/NapSAT-assumptions.cpp assume/forget_assumption')]),
]
NA = {
 'N01': 'The verdict as a whole is a statement about runtime values (the assignment against every clause, entailment of every learned clause over a history); static rules decide the parts it rests on (S01-S06), and their composition is an argument on paper, not something a check over the source decides.',
 'N03': 'Whether an assumption survives depends on the chunks, levels and conflicts of the whole session at run time; the feature is also documented as unfinished (graph backtracking only), and sessions exist in which it does not hold, so no rule could be both sound and quiet.',
 'N02': 'Termination rests on a well-founded measure over runtime assignments and learned clauses (progress of conflict-driven search under restarts and deletions); no structural rule in reach bounds it, and in the chronological modes the measure itself is an open question of the research the project implements.',
}
