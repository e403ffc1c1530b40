O='src/utils/options.cpp';S='src/solver/SAT-options.cpp';OH='src/utils/options.hpp'
SR=[O,S,'src/utils/printer.cpp']
PRE='''#include "SAT-options.hpp"
#include "options.hpp"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
using namespace std; using namespace napsat;
#define REQUIRE(x) do { if (!(x)) { printf("line %d: %s\\n", __LINE__, #x); exit(1); } } while (0)
static vector<string> T(const char* s) { vector<string> r; string w; for (; ; s++) { if (*s == ' ' || !*s) { if (!w.empty()) r.push_back(w); w.clear(); if (!*s) break; } else w += *s; } return r; }
static napsat::options opts(const char* s) { vector<string> t = T(s); return napsat::options(t); }
'''
def B(id,needs,breaks,edits,demo,**k):
    return dict(id=id,property='O01',srcs=SR,stubs=True,flags='-DNDEBUG',needs=needs,breaks=breaks,edits=edits,demo=PRE+demo,**k)
BUGS=[
B('opt-requirement-round','an option registered before the one it needs, which itself loses its requirement','an option stays active although what it needs was taken back',
 [(O,'''          LOG_WARNING("The option is ignored.");
          opt->reset_to_default();
          changed = true;''','''          LOG_WARNING("The option is ignored.");
          opt->reset_to_default();
          changed = !opt->get_subsumed().empty();''')],
'''int main() { env::set_suppress_warning(true);
  for (int c = 0; c < 2; c++) { bool v[3] = {false, false, c == 1}; OptionParser p; auto& a = p.add_bool("-a", v[0], ""); auto& b = p.add_bool("-b", v[1], ""); auto& d = p.add_bool("-d", v[2], "");
    a.require(b, true); b.require(d, true); auto t = T("-a -b"); p.parse(t); p.resolve();
    REQUIRE(v[0] == (c == 1)); REQUIRE(v[1] == (c == 1)); }
  return 0; }
'''),
B('opt-reset-off','an option that is on by default and overruled by another one','the option is switched off instead of getting its value from before back',
 [(OH,'''    void reset_to_default() override { _storage = _default; }
    bool truthy() const override { return _storage; }''','''    void reset_to_default() override { _storage = _storage && !_was_set && _default; }
    bool truthy() const override { return _storage; }''')],
'''int main() { env::set_suppress_warning(true);
  // the loser was given and is off again after the reset: its value before is restored
  bool w = false, l = false; { OptionParser p; auto& a = p.add_bool("-w", w, ""); auto& b = p.add_bool("-l", l, ""); a.subsumes(b); auto t = T("-w -l"); p.parse(t); p.resolve(); REQUIRE(w && !l); }
  bool need = false, x = true; OptionParser p; auto& n = p.add_bool("-n", need, ""); auto& o = p.add_bool("-x", x, ""); (void) n; auto t = T("-x"); p.parse(t);
  x = false; o.reset_to_default(); REQUIRE(x);
  return 0; }
'''),
B('opt-range-edge','a value exactly at an end of the range','the program ends although the value is allowed',
 [(O,'if (_storage < _min || _storage > _max) {','if (!(_storage > _min && _storage <= _max)) {')],
'''int main() { env::set_suppress_warning(true);
  auto a = opts("--clause-activity-threshold-decay 1"); REQUIRE(a.clause_activity_threshold_decay == 1);
  auto b = opts("--clause-activity-threshold-decay 0.5"); REQUIRE(b.clause_activity_threshold_decay == 0.5);
  auto c = opts("--clause-activity-threshold-decay 0"); REQUIRE(c.clause_activity_threshold_decay == 0);
  return 0; }
'''),
B('opt-env-swallow','a folder flag without its value, followed by another flag','the flag after it is lost',
 [(S,'''        LOG_WARNING("option " << token << " requires a string value.");
        LOG_WARNING("The option is ignored.");
        continue;''','''        LOG_WARNING("option " << token << " requires a string value.");
        LOG_WARNING("The option is ignored.");
        i += next_token.size() > 2;
        continue;''')],
'''int main() { env::set_suppress_warning(true);
  for (const char* f : {"-icf", "--obsidian-template-folder"}) for (const char* g : {"-i", "-gb", "--proof"}) {
    auto t = T((string("x.cnf ") + f + " " + g + " -o").c_str()); auto r = env::extract_environment_variables(t); REQUIRE((r == vector<string>{"x.cnf", g, "-o"})); }
  return 0; }
'''),
B('opt-repeat-flag','a flag given without a value and then again with one','the second occurrence overrides the first',
 [(O,'''      if (match->consume(tokens, i))
        match->mark_set();''','''      const unsigned flag = i;
      if (match->consume(tokens, i) && i > flag)
        match->mark_set();''')],
'''int main() { env::set_suppress_warning(true);
  REQUIRE(opts("-bp").build_proof); REQUIRE(!opts("-del off -del on").delete_clauses); REQUIRE(opts("-bp -bp off").build_proof); REQUIRE(opts("-iuv -cb --ignore-unused-variables off").ignore_unused_variables);
  return 0; }
'''),
B('opt-merge-both','lazy and eager chunk merging requested together','both ways of merging are active at once',
 [(S,'  ecm.require(gb, true);\n  ecm.require(lcm, false);\n','  ecm.require(gb, true);\n  lcm.require(gb, true);\n')],
'''int main() { env::set_suppress_warning(true);
  auto a = opts("-gb -ecm"); REQUIRE(a.eager_chunk_merging); auto b = opts("-gb -lcm -ecm"); REQUIRE(b.lazy_chunk_merging && !b.eager_chunk_merging); auto c = opts("-lcm"); REQUIRE(!c.lazy_chunk_merging);
  return 0; }
'''),
B('opt-group-last-brace','a braced group for the observer followed by other text in braces','the options between the groups are taken for options of the observer',
 [(S,'''        closed = true;
        break;
      }
    }
    if (!closed) {''','''        closed = true;
        if (tokens.back().empty() || tokens.back().back() != '}' || end + 1 == tokens.size())
          break;
      }
    }
    if (!closed) {''')],
'''int main() { env::set_suppress_warning(true);
  for (const char* f : {"-o", "--observing"}) { auto t = T((string("-bp ") + f + " {--gui -commands f} -gb -ecm").c_str()); auto o = napsat::options(t); REQUIRE(o.graph_backtracking && o.eager_chunk_merging && o.build_proof);
    REQUIRE((t == vector<string>{"-bp", f, "-gb", "-ecm"}));
    auto u = T((string(f) + " {--gui} --proof -gb on {x}").c_str()); auto q = napsat::options(u); REQUIRE(q.build_proof && q.graph_backtracking); REQUIRE((u == vector<string>{f, "--proof", "-gb", "on", "{x}"})); }
  return 0; }
'''),
dict(id='opt-limit-sticky',property='O01',kind='solver',flags='-DNDEBUG',
 needs='a solving call with a conflict limit that is reached, followed by one without a limit',
 breaks='the limit of the earlier call stays in force',
 edits=[('src/solver/NapSAT.cpp','  status result = solve();\n  _options.conflict_limit = old_conflict_limit;\n','  status result = solve();\n  if (result != status::UNKNOWN || old_conflict_limit >= 0)\n    _options.conflict_limit = old_conflict_limit;\n')],
 demo='''#include "base.hpp"
// pigeons: too hard for two conflicts
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (const char* mode : {"", "-cb", "-gb"}) {
    unsigned n = 5, m = n * (n + 1); NapSAT* s = fresh(m + 1, 100, mode);
    auto v = [&](unsigned p, unsigned h) { return int(p * n + h + 1); };
    for (unsigned p = 0; p <= n; p++) { vector<Tlit> c; for (unsigned h = 0; h < n; h++) c.push_back(L(v(p, h))); s->add_clause(c.data(), c.size()); }
    for (unsigned h = 0; h < n; h++) for (unsigned p = 0; p <= n; p++) for (unsigned q = 0; q < p; q++) { Tlit c[2] = {L(-v(p, h)), L(-v(q, h))}; s->add_clause(c, 2); }
    REQUIRE(solve_limited(s, 2) == status::UNKNOWN);
    s->_conflict_count = 0;
    REQUIRE(s->solve() == status::UNSAT);
    delete_solver(s); }
  return 0; }
'''),
]
