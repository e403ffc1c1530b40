// random incremental sessions on small formulas, compared with brute force
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <queue>
#include <chrono>
#include <cassert>
#include <bit>
#include <fstream>
#define private public
#define protected public
#include "solver/NapSAT.hpp"
#undef private
#undef protected
#include "SAT-API.hpp"
using namespace napsat;
using namespace std;
#define REQUIRE(c) do { if (!(c)) { printf("failed line %d: %s\n", __LINE__, #c); return 1; } } while (0)
static mt19937 rng;
static unsigned rnd(unsigned n) { return rng() % n; }
static Tlit L(int x) { return Tlit(Tvar(abs(x)), x > 0); }
static options mkopt(const char* mode) {
  vector<string> a;
  if (*mode) { string m = mode; size_t p; while ((p = m.find(' ')) != string::npos) { a.push_back(m.substr(0, p)); m = m.substr(p + 1); } a.push_back(m); }
  return options(a);
}
// the solver keeps its own copy of the options
static NapSAT* fresh(unsigned n, unsigned m, const char* mode) { static options o; o = mkopt(mode); return create_solver(n, m, o); }
struct Sess {
  NapSAT* s = nullptr; vector<vector<int>> cls; unsigned nv = 0; options opt;
  unsigned step = 0; unsigned seed = 0; bool done = false;
};
static bool brute(const Sess& S, unsigned m) {
  for (unsigned b = 0; b < (1u << m); b++) {
    bool ok = true;
    for (auto& c : S.cls) { bool t = false; for (int x : c) t |= (((b >> (abs(x) - 1)) & 1) == (x > 0)); if (!t) { ok = false; break; } }
    if (ok) return true;
  }
  return false;
}
// every trail literal is true, appears once, has the level of its segment; every other variable is unassigned
static const char* trail_bad(NapSAT* s) {
  unsigned nvars = s->var_count().value;
  vector<int> seen(nvars, 0);
  for (Tlit l : s->_trail) {
    if (seen[l.var().value]++) return "a variable is on the trail twice";
    if (!s->lit_true(l)) return "a trail literal is not true";
    if (s->lit_level(l) == LEVEL_UNDEF) return "a trail literal has no level";
  }
  for (unsigned v = 1; v < nvars; v++)
    if (!seen[v] && s->_vars[Tvar(v)].state != Tval::UNDEF) return "an assigned variable is not on the trail";
  for (Tlevel i = 0; i < s->_decision_index.size(); i.value++) {
    if (s->_decision_index[i] >= s->_trail.size()) return "a level starts past the trail";
    Tlit d = s->_trail[s->_decision_index[i]];
    if (s->lit_reason(d) != CLAUSE_UNDEF) return "a level does not start with a decision";
  }
  return nullptr;
}
static const char* model_bad(const Sess& S) {
  for (auto& c : S.cls) {
    bool t = false, taut = false;
    for (int x : c) { t |= abs(x) < (int)S.s->var_count().value && S.s->lit_true(L(x)); for (int y : c) taut |= x == -y; }
    if (!t && !taut) return "the model falsifies a clause";
  }
  return nullptr;
}
// runs n sessions; after(S, event) returns a complaint or null. Events: 'a' clause added, 's' solved, 'e' end
static int sessions(const char* mode, unsigned n, function<const char*(Sess&, char)> after, function<void(options&)> tweak = nullptr, unsigned extra = 7, unsigned seed0 = 1, unsigned ratio = 2) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = seed0; k < seed0 + n; k++) {
    rng.seed(k);
    Sess S; S.seed = k; S.opt = mkopt(mode); if (tweak) tweak(S.opt);
    S.nv = 3 + rnd(extra);
    S.s = create_solver(rnd(2) ? S.nv : 0, 10, S.opt);
    unsigned steps = 2 + rnd(8);
    const char* why = nullptr;
    for (unsigned i = 0; i < steps && !S.done && !why; i++, S.step++) {
      unsigned nc = rnd(4) == 0 ? 0 : rnd(ratio * S.nv);
      for (unsigned c = 0; c < nc && !why; c++) {
        unsigned sz = 1 + rnd(4); if (sz == 1 && rnd(3)) sz = 3;
        vector<int> cl; for (unsigned q = 0; q < sz; q++) { int v = 1 + rnd(S.nv); cl.push_back(rnd(2) ? v : -v); }
        vector<Tlit> t; for (int x : cl) t.push_back(L(x));
        S.cls.push_back(cl);
        if (get_status(S.s) == status::UNSAT) continue;
        add_clause(S.s, t.data(), t.size());
        why = after(S, 'a');
      }
      if (why) break;
      bool u = get_status(S.s) == status::UNSAT;
      status st = solve(S.s);
      bool sat = brute(S, S.nv);
      if (st == status::UNKNOWN) why = "solve gives no answer";
      else if ((st == status::SAT) != sat) why = "wrong verdict";
      else if (sat) why = model_bad(S);
      else S.done = true;
      (void)u;
      if (!why) why = after(S, 's');
    }
    if (!why) why = after(S, 'e');
    if (why) { printf("seed %u mode '%s': %s\n", k, mode, why); return 1; }
    delete_solver(S.s);
  }
  return 0;
}
