CO='src/solver/NapSAT-conflict.cpp'; N='src/solver/NapSAT.cpp'; P='src/solver/NapSAT-purge.cpp'; I='src/solver/NapSAT-imply.cpp'; H='src/solver/NapSAT.hpp'; CL='src/solver/NapSAT-clauses.cpp'; A='src/SAT-API.cpp'
DEMO='#include "base.hpp"\n'+r'''
typedef function<void(options&)> Tweak;
struct Run { NapSAT* s; mt19937 g; unsigned nv; unsigned left; string out; bool poll;
  Run(const char* mode, unsigned seed, unsigned nv, double ratio, Tweak t, bool poll = false) : g(seed), nv(nv), left(nv * ratio), poll(poll) { options o = mkopt(mode); if (t) t(o); s = create_solver(nv, 80, o); }
  ~Run() { delete_solver(s); }
  void note(char c) { ostringstream o; o << c << (int)s->_status << ':'; for (Tlit l : get_partial_assignment(s)) o << (l.pol() ? "" : "-") << l.var().value << ' '; o << '#' << s->_clauses.size().value << '\n'; out += o.str(); }
  // one step of the session; false at the end
  bool step() {
    if (left == 0 || s->_status == status::UNSAT) return false;
    unsigned k = min(left, 1 + unsigned(g() % (nv * 2)));
    left -= k;
    for (; k && s->_status != status::UNSAT; k--) { unsigned z = 3; if (g() % 4 == 0) z = 2 + g() % 4; vector<Tlit> t; set<int> u; while (u.size() < z) u.insert(1 + g() % nv); for (int v : u) t.push_back(L(g() % 2 ? v : -v)); add_clause(s, t.data(), z); }
    note('a');
    for (unsigned i = 0; i < 2000 && s->_status == status::UNKNOWN; i++) { solve_limited(s, 20); if (poll) { get_status(s); is_decided(s, L(1)); is_root_level(s, Tvar(1)); } note('l'); s->_conflict_count = 0; }
    if (poll) { get_status(s); is_decided(s, L(1)); is_root_level(s, Tvar(1)); }
    note('s');
    return true; }
};
static string all(Run& r) { while (r.step()); return r.out; }
static int differ(const string& a, const string& b, const char* mode, unsigned seed) {
  if (a == b) return 0;
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  printf("mode '%s' seed %u: the runs differ after %zu characters of the trace\n", mode, seed, i); return 1; }
struct Quiet { streambuf *e, *o; Quiet() { env::set_suppress_info(true); env::set_suppress_warning(true); e = cerr.rdbuf(nullptr); o = cout.rdbuf(nullptr); } ~Quiet() { cerr.rdbuf(e); cout.rdbuf(o); } };
static int same(const char* mode, unsigned n, unsigned nv, double ratio, Tweak x, Tweak y, bool poll = false) {
  Quiet q;
  for (unsigned k = 1; k <= n; k++) { Run a(mode, k, nv, ratio, x), b(mode, k, nv, ratio, y, poll); if (differ(all(a), all(b), mode, k)) return 1; }
  return 0; }
static int alone(const char* mode, unsigned n, unsigned nv, double ratio) {
  Quiet q;
  for (unsigned k = 1; k <= n; k++) { string x, y; { Run a(mode, k, nv, ratio, nullptr); x = all(a); }
    Run a(mode, k, nv, ratio, nullptr), b(mode, k + 1000, nv + 3, ratio, nullptr); bool p = true, r = true; while (p || r) { p = a.step(); r = b.step(); }
    if (differ(x, a.out, mode, k)) return 1; }
  return 0; }
#define STATS [](options& o) { o.print_stats = true; }
#define PROOF [](options& o) { o.build_proof = true; }
'''
def main(*ms): return DEMO+'int main() { '+' '.join('if (%s) return 1;'%m for m in ms)+' return 0; }\n'
ST=['same("%s", 40, %d, 4.4, nullptr, STATS)'%(m,n) for m,n in (('',140),('-cb',80),('-gb',30))]
PO=['same("%s", 60, %d, 4.4, nullptr, nullptr, true)'%(m,n) for m,n in (('',90),('-cb',80),('-gb',30))]
PR=['same("%s", 40, %d, 4.4, nullptr, PROOF)'%(m,n) for m,n in (('',90),('-cb',80),('-gb',30))]
AL=['alone("%s", 40, %d, 4.4)'%(m,n) for m,n in (('',90),('-cb',80),('-gb',30))]
UN=DEMO+r'''
int main() { static long raw[64]; memset(raw, 0xff, sizeof raw);
  NapSAT::TSvar* v = new ((void*)raw) NapSAT::TSvar(); REQUIRE(v->state == Tval::UNDEF); REQUIRE(!v->synced); REQUIRE(!v->propagated); REQUIRE(!v->marked); REQUIRE(v->level == LEVEL_UNDEF);
  return 0; }
'''
BUGS=[
dict(id='lint-stat-count',property='X01',kind='solver',flags='-DNDEBUG',
 needs='a run long enough to eliminate clauses, with statistics on',
 breaks='every restart brings the next elimination of clauses closer when statistics are collected',
 edits=[(N,'  NOTIFY_STAT(_n_restart);\n','  NOTIFY_STAT_N(_n_restart, (_next_clause_elimination *= 0.95) > 0);\n')],
 demo=main(*ST)),
dict(id='lint-stat-purge',property='X01',kind='solver',flags='-DNDEBUG',
 needs='a run with root literals and restarts, with statistics on',
 breaks='clauses are purged later when statistics are collected',
 edits=[(N,'    if (_n_root_lvl_lits >= _purge_threshold && solver_level()','    if (_n_root_lvl_lits >= _purge_threshold + (is_observing() ? 3u : 0u) && solver_level()')],
 demo=main(*ST)),
dict(id='lint-query-propagate',property='X01',kind='solver',flags='-DNDEBUG',
 needs='a status query between two calls of solve with a conflict limit',
 breaks='asking for the status propagates first: conflicts are repaired and literals assigned by a question',
 edits=[(A,'  return solver->get_status();\n','  if (solver->get_status() == status::UNKNOWN)\n    solver->propagate();\n  return solver->get_status();\n')],
 demo=main(*PO)),
dict(id='lint-shared-luby',property='X02',kind='solver',flags='-DNDEBUG',
 needs='two solvers used in turn in one process',
 breaks='the restart counter is shared by all solvers of the process',
 edits=[(H,'    luby_counter _luby_counter;','    inline static luby_counter _luby_counter;')],
 demo=main(*AL)),
dict(id='lint-static-turn',property='X02',kind='solver',flags='-DNDEBUG',
 needs='two solvers, one of them reaching the elimination limit',
 breaks='every other elimination of clauses in the process is skipped, whichever solver asks',
 edits=[(P,'  double threshold = _max_clause_activity * _clause_activity_threshold;\n','  double threshold = _max_clause_activity * _clause_activity_threshold;\n  static bool odd = false;\n  odd = !odd;\n  if (odd && _clauses.size() > 4)\n    threshold *= 0.5;\n')],
 demo=main(*AL)),
dict(id='lint-undefined-phase',property='X02',kind='solver',flags='-DNDEBUG',
 needs='memory that was used before for the variables',
 breaks='the preferred value of a new variable is whatever the memory held',
 edits=[(H,'        synced(0),\n','')],
 demo=UN),
dict(id='lint-proof-restart',property='X03',kind='solver',flags='-DNDEBUG',
 needs='a run with restarts and with a proof',
 breaks='no restarts beyond the first level when a proof is recorded',
 edits=[(N,'      if (_options.restarts && _luby_counter.increment()) {','      if (_options.restarts && _luby_counter.increment() && !(_options.build_proof && solver_level() > 4u)) {')],
 demo=main(*PR)),
dict(id='lint-proof-keep',property='X03',kind='solver',flags='-DNDEBUG',
 needs='a run that eliminates clauses, with a proof',
 breaks='short learned clauses are never eliminated when a proof is recorded',
 edits=[(P,'    if (_activities[cl] < threshold) {','    if (_activities[cl] < threshold && (_proof == nullptr || _clauses[cl].size > 6)) {')],
 demo=main(*PR)),
dict(id='lint-proof-bump',property='X03',kind='solver',flags='-DNDEBUG',
 needs='a run that eliminates clauses after conflicts on long clauses, with a proof',
 breaks='long reasons gain activity twice when a proof is recorded, so other clauses are eliminated',
 edits=[(CO,'''  if (_proof)
    _proof->link_resolution(~lit, reason);
''','''  if (_proof) {
    _proof->link_resolution(~lit, reason);
    if (clause_size(reason) > 4)
      bump_clause_activity(reason);
  }
''')],
 demo=main(*PR)),
]
