// an ensemble of a trajectory type that is none of the library's own, using the generic average
#include "Archive.h"
#include "BlitzArray.h"
#include "StochasticTrajectory.h"

using namespace cppqedutils;

struct ToySingle
{
  using EnsembleAverageResult = double;
  using StreamedArray = double;
  double getTime() const;
  double getDtDid() const;
  void step(double, std::ostream&);
  double averaged() const;
  template <typename Ar> Ar& stateIO(Ar&);
  std::ostream& streamParameters(std::ostream&) const;
};
struct ToyStreamer
{
  double operator()(double, double, std::ostream&, int) const;
  std::ostream& streamKey(std::ostream&, size_t&) const;
};
struct ToyLogger
{
  void operator()(const std::vector<ToySingle>&, std::ostream&) const;
};

using ToyEnsemble = trajectory::Ensemble<ToySingle, ToyStreamer, ToyLogger>;

void toyAdvance(ToyEnsemble& e, double d, std::ostream& os) { e.advance(d, os); }
double toyAveraged(ToyEnsemble& e) { return e.averaged(); }
double toyDtDid(ToyEnsemble& e) { return e.getDtDid(); }
double toyTime(ToyEnsemble& e) { return e.getTime(); }
double toyStream(ToyEnsemble& e, std::ostream& os, int precision) { return e.stream(os, precision); }
std::ostream& toyKey(ToyEnsemble& e, std::ostream& os) { return e.streamKey(os); }
std::ostream& toyLog(ToyEnsemble& e, std::ostream& os) { return e.logOnEnd(os); }
void toyLoad(ToyEnsemble& e, iarchive& ar) { e.stateIO(ar); }
void toySave(ToyEnsemble& e, oarchive& ar) { e.stateIO(ar); }
