F='include/SAT-types.hpp'
M=[
('neg','bad',[(F,'Tlit(value ^ 1)','Tlit(value ^ 3)')]),
('neg2','bad',[(F,'Tlit(value ^ 1)','Tlit(value | 1)')]),
('negplus','bad',[(F,'Tlit(value ^ 1)','Tlit(value + 1)')]),
('var','bad',[(F,'Tvar(value >> 1)','Tvar((value & 0xFFFFF) >> 1)')]),
('varint','bad',[(F,'Tvar(value >> 1)','Tvar((unsigned short) value >> 1)')]),
('pol','bad',[(F,'return value & 1;','return value & 2;')]),
('make','bad',[(F,'Tlit(Tvar var, Tval val) : value(var.value << 1 | (val == Tval::TRUE ? 1 : 0))','Tlit(Tvar var, Tval val) : value(var.value << 1 | (val == Tval::FALSE ? 1 : 0))')]),
('sat','bad',[(F,'satisfied(Tval val) const { return !(pol() ^ val); }','satisfied(Tval val) const { return !((pol() ^ val) & 1); }')]),
('fals','bad',[(F,'!(pol() ^ val ^ 1)','(pol() ^ val)')]),
('undef','bad',[(F,'{ return val >> 1; }','{ return (val >> 1) == 1 && pol(); }')]),
('lazy','bad',[(F,'CLAUSE_LAZY       = 0xFFFFFFFE','CLAUSE_LAZY       = 0xFFFFFFFD')]),
('lvlerr','bad',[(F,'LEVEL_ERROR = 0xFFFFFFFE','LEVEL_ERROR = 0xFFFE')]),
('deflvl','bad',[(F,'Tlevel() : value(0xFFFFFFFF)','Tlevel() : value(0)')]),
('post','bad',[(F,'inline Tclause operator++(int) { Tclause tmp = *this; value++; return tmp; }','inline Tclause operator++(int) { value++; Tclause tmp = *this; return tmp; }')]),
('postlvl','bad',[(F,'inline Tlevel operator--(int) { Tlevel tmp = *this; value--; return tmp; }','inline Tlevel operator--(int) { Tlevel tmp = *this; value++; return tmp; }')]),
('le','bad',[(F,'inline bool operator<=(const Tlevel& other) const { return value <= other.value; }','inline bool operator<=(const Tlevel& other) const { return value < other.value + 1; }')]),
('tval','bad',[(F,'    UNDEF = 2,','    UNDEF = 1,')]),
('size','bad',[(F,'return Index(base::size());','return Index(base::size() - 1);')]),
('resize','bad',[(F,'base::resize(n.value);','base::resize(n.value >> 1);')]),
('resize2','bad',[(F,'base::resize(n.value, value);','base::resize(n.value + 1, value);')]),
('idx','bad',[(F,'const T& operator[](Index idx) const {\n          return base::operator[](idx.value)','const T& operator[](Index idx) const {\n          return base::operator[](idx.value & 0xFFFFFF)')]),
('xorset','bad',[(F,'value ^= a.value;','value = a.value;')]),
('minus','bad',[(F,'inline Tlevel operator-(unsigned int n) const { return Tlevel(value - n); }','inline Tlevel operator-(unsigned int n) const { return Tlevel(value > n ? value - n : 0); }')]),
('r_pol','ok',[(F,'return value & 1;','return (value % 2) == 1;')]),
('r_neg','ok',[(F,'Tlit(value ^ 1)','Tlit(var(), !pol())')]),
('r_neg2','ok',[(F,'Tlit(value ^ 1)','pol() ? Tlit(value - 1) : Tlit(value + 1)')]),
('r_sat','ok',[(F,'satisfied(Tval val) const { return !(pol() ^ val); }','satisfied(Tval val) const { return pol() ? val == Tval::TRUE : val == Tval::FALSE; }')]),
('r_fals','ok',[(F,'return !(pol() ^ val ^ 1);','return (~(*this)).satisfied(val);')]),
('r_undef','ok',[(F,'{ return val >> 1; }','{ return val == Tval::UNDEF; }')]),
('r_make','ok',[(F,'Tlit(Tvar var, unsigned pol) : value(var.value << 1 | pol)','Tlit(Tvar var, unsigned pol) : value(2 * var.value + (pol & 1))')]),
('r_cmp','ok',[(F,'inline bool operator>=(const Tlevel& other) const { return value >= other.value; }','inline bool operator>=(const Tlevel& other) const { return !(*this < other); }')]),
('r_post','ok',[(F,'inline Tclause operator++(int) { Tclause tmp = *this; value++; return tmp; }','inline Tclause operator++(int) { return Tclause(value++); }')]),
('r_pre','ok',[(F,'inline Tclause operator++() { value++; return *this; }','inline Tclause operator++() { *this += 1; return *this; }')]),
('r_size','ok',[(F,'return Index(base::size());','return Index(static_cast<unsigned>(base::size()));')]),
('r_idx','ok',[(F,'const T& operator[](Index idx) const {\n          return base::operator[](idx.value)','const T& operator[](Index idx) const {\n          const unsigned position = idx.value;\n          return base::operator[](position)')]),
('r_lazy','ok',[(F,'CLAUSE_LAZY       = 0xFFFFFFFE','CLAUSE_LAZY       = 0xFFFFFFFFu - 1')]),
('txt','bad',[(F,'case status::TIMEOUT: return "TIMEOUT";','case status::TIMEOUT: return "UNKNOWN";')]),
('r_txt','ok',[(F,'case status::TIMEOUT: return "TIMEOUT";','case status::TIMEOUT: { std::string text = "TIMEOUT"; return text; }')]),
]
