U='src/solver/NapSAT-utils.cpp'; D='src/utils/decoder.cpp'
PRE='''#include "base.hpp"
#include <fstream>
#include <cstdlib>
static string put(const string& n, const string& t) { ofstream f(n, ios::binary); f << t; f.close(); return n; }
static NapSAT* make() { static vector<string> t; static napsat::options o(t); env::set_suppress_warning(true); env::set_suppress_info(true); return create_solver(0, 0, o); }
static int val(NapSAT* s, int v) { for (Tlit l : get_partial_assignment(s)) if (l.var() == Tvar(v)) return l.pol() ? 1 : -1; return 0; }
'''
def B(id,needs,breaks,edits,demo,**k):
    return dict(id=id,property='I01',kind='solver',flags='-DNDEBUG',needs=needs,breaks=breaks,edits=edits,demo=PRE+demo,**k)
BUGS=[
B('dimacs-percent-line','an end mark followed by something else on its line (as in the SATLIB files)','reading fails instead of ending at the mark',
 [(U,'is_prefix(line, "%")','line == "%"')],
'''int main() { for (const char* e : {"%", "% 0", "%\\n0", ""}) { NapSAT* s = make(); string t = string("p cnf 2 2\\n1 0\\n-2 0\\n") + e + "\\n"; REQUIRE(parse_dimacs(s, put("a.cnf", t).c_str())); REQUIRE(get_status(s) != status::ERROR);
  REQUIRE(solve(s) == status::SAT); REQUIRE(val(s, 1) == 1 && val(s, 2) == -1); delete_solver(s); } return 0; }
'''),
B('dimacs-weight-precision','a weight that single precision cannot hold','the variable gets a slightly different weight, and costs tie or order differently',
 [(U,'double weight = stod(weight_string, &pos);','double weight = stof(weight_string, &pos);')],
'''int main() { NapSAT* s = make(); REQUIRE(parse_dimacs(s, put("a.cnf", "p cnf 3 1\\ncw 1 0.5\\ncw 2 0.1\\ncw 3 16777217\\n1 2 3 0\\n").c_str()));
  REQUIRE(s->_vars[1].weight == 0.5); REQUIRE(s->_vars[2].weight == 0.1); REQUIRE(s->_vars[3].weight == 16777217.0); delete_solver(s); return 0; }
'''),
B('dimacs-xz-unread','an xz file with a piece that expands to more than one output buffer','compressed data is dropped and the file is refused',
 [(D,'} while (strm.avail_out == 0);','} while (strm.avail_out == 0 && strm.avail_in > buff_size / 2);')],
'''#include <lzma.h>
static string pack(const string& t) { string o(t.size() + 1000, 0); size_t n = 0; if (lzma_easy_buffer_encode(6, LZMA_CHECK_CRC32, 0, (const uint8_t*) t.data(), t.size(), (uint8_t*) &o[0], &n, o.size()) != LZMA_OK) abort(); o.resize(n); return o; }
int main() { for (int n : {1, 10, 300, 3000}) { string t = "p cnf " + to_string(n) + " 2\\n"; for (int i = 0; i < 60; i++) t += "1 2 0\\n"; t += to_string(n) + " 0\\n";
    NapSAT* s = make(); REQUIRE(parse_dimacs(s, put("a.cnf.xz", pack(t)).c_str())); REQUIRE(solve(s) == status::SAT); REQUIRE(val(s, n) == 1); delete_solver(s); }
  return 0; }
'''),
B('dimacs-bz-truncated','a bz2 file that ends early','the formula is taken as read although clauses are missing',
 [(D,'bool success = (bzError == BZ_STREAM_END);','bool success = (bzError != BZ_DATA_ERROR && bzError != BZ_DATA_ERROR_MAGIC);')],
'''#include <bzlib.h>
static string pack(const string& t) { string o(t.size() + 1000, 0); unsigned n = o.size(); if (BZ2_bzBuffToBuffCompress(&o[0], &n, (char*) t.data(), t.size(), 1, 0, 0) != BZ_OK) abort(); o.resize(n); return o; }
int main() { string t = "p cnf 2 2\\n1 2 0\\n-1 0\\n"; string p = pack(t);
  for (size_t n = p.size(); n > p.size() - 12; n--) { NapSAT* s = make(); bool r = parse_dimacs(s, put("a.cnf.bz2", p.substr(0, n)).c_str());
    REQUIRE(r == (n == p.size())); REQUIRE((get_status(s) == status::ERROR) == !r); if (r) { REQUIRE(solve(s) == status::SAT); REQUIRE(val(s, 2) == 1); } delete_solver(s); }
  return 0; }
'''),
B('dimacs-prefix-anywhere','a header, and variables that occur in no clause','the header is taken for a comment and its variables are not made',
 [(U,'return s.compare(0, prefix.size(), prefix) == 0;','return s.find(prefix) != string::npos;')],
'''int main() { NapSAT* s = make(); REQUIRE(parse_dimacs(s, put("a.cnf", "c x\\np cnf 5 2\\n1 0\\n-2 0\\n").c_str())); REQUIRE(solve(s) == status::SAT); REQUIRE(val(s, 1) == 1 && val(s, 2) == -1);
  for (int v = 3; v <= 5; v++) REQUIRE(val(s, v) != 0); delete_solver(s); return 0; }
'''),
B('dimacs-tab-comment','a comment that is indented by a tab','reading fails with an error',
 [(U,'return !isspace(ch);',"return ch != ' ';")],
'''int main() { for (const char* in : {"", " ", "\\t", " \\t "}) { NapSAT* s = make(); string t = "p cnf 2 2\\n" + string(in) + "c a comment\\n" + in + "1 0\\n" + in + "-2 0\\n"; REQUIRE(parse_dimacs(s, put("a.cnf", t).c_str()));
  REQUIRE(solve(s) == status::SAT); REQUIRE(val(s, 1) == 1 && val(s, 2) == -1); delete_solver(s); } return 0; }
'''),
B('dimacs-number-tail','a number with something attached to it','a malformed file is read as if the rest of the token were not there',
 [(U,'if (pos != token.size())','if (pos + 1 < token.size() && token[pos] != 46)')],
'''int main() { for (const char* c : {"1x", "1.", "2-", "-1,", "1.5"}) { NapSAT* s = make(); REQUIRE(!parse_dimacs(s, put("a.cnf", string("p cnf 2 1\\n1 2 0\\n") + c + " 0\\n").c_str())); REQUIRE(get_status(s) == status::ERROR); delete_solver(s); } return 0; }
'''),
]
