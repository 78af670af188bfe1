// storing, restoring and constructing every random engine that is offered
#include "Archive.h"
#include "BlitzArray.h"
#include "StochasticTrajectory.h"

using namespace cppqedutils;

template <typename E>
void engine(E& e, iarchive& ia, oarchive& oa)
{
  boost::serialization::serialize(ia, e, 0u);
  boost::serialization::serialize(oa, e, 0u);
}

void gslEngine(randomutils::GSL_Engine& e, iarchive& ia, oarchive& oa) { serialize(ia, e, 0u); serialize(oa, e, 0u); }
void stdEngine(std::mt19937_64& e, iarchive& ia, oarchive& oa) { engine(e, ia, oa); }
void pcgEngine(pcg64& e, iarchive& ia, oarchive& oa) { engine(e, ia, oa); }
void xoshiroEngine(XoshiroCpp::Xoshiro256PlusPlus& e, iarchive& ia, oarchive& oa) { engine(e, ia, oa); }

using PP = trajectory::ParsStochastic<pcg64>;
auto makeParameterised(unsigned long s, unsigned long p) { return randomutils::EngineWithParameters<pcg64>(s, p); }
auto& reportParameterised(const randomutils::EngineWithParameters<pcg64>& e, std::ostream& os) { return e.stream(os); }
pcg64 ordo(PP& p) { return randomutils::streamOfOrdo(p); }
void next(PP& p) { randomutils::incrementForNextStream(p); }
void fills(DArray<1>& a, std::mt19937_64& e, unsigned long seed, double m, double s)
{
  randomutils::fill<std::normal_distribution<double>>(a, e, m, s);
  randomutils::fill<std::normal_distribution<double>, std::mt19937_64>(a, seed, m, s);
}
PP pars(parameters::Table& t) { return PP(t); }
