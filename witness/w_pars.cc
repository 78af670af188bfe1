// parameters of every kind
#include "Pars.h"
#include "BooleanNegatedProxy.h"

using namespace parameters;

double& scenario_add_double(Table& t, const std::string& s, const std::string& d, double v) {return t.add(s,d,v);}
int& scenario_add_int(Table& t, const std::string& s, const std::string& d, int v) {return t.add(s,d,v);}
std::string& scenario_add_string(Table& t, const std::string& s, const std::string& d, const std::string& v) {return t.add(s,d,v);}
double& scenario_add_mod(Table& t, const std::string& s, const std::string& m, const std::string& d, double v) {return t.add(s,m,d,v);}
bool& scenario_add_bool(Table& t, const std::string& s, const std::string& d, bool v) {return t.add(s,d,v);}
bool& scenario_add_boolmod(Table& t, const std::string& s, const std::string& m, const std::string& d, bool v) {return t.add(s,m,d,v);}
Base& scenario_sub(Table& t, const std::string& s) {return t[s];}
const Base& scenario_csub(const Table& t, const std::string& s) {return t[s];}
std::string scenario_cmdline(const Table& t) {return *t.getParsedCommandLine();}
bool scenario_proxy(cppqedutils::BooleanNegatedProxy& p) {return p;}
void scenario_assign(cppqedutils::BooleanNegatedProxy& p, bool b) {p=b;}
void scenario_add_title(Table& t, const std::string& s, const std::string& m) {t.addTitle(s,m);}
