// a component-grid "solver" whose values are prescribed integers
#pragma once
#include <boost/serialization/export.hpp>
#include "gridgen.hpp"
#include "task/Task.hpp"
namespace vh {
using namespace combigrid;
struct VTaskData {  // common to all tasks of a process: what the next run writes
  static std::vector<int>& procs() { static std::vector<int> p; return p; }
  static bool& fwd() { static bool f = false; return f; }
  // value of point i of task id in the current step (multiplied by scale); hold: keep the values
  static std::function<long(size_t, long)>& value() { static std::function<long(size_t, long)> f; return f; }
  // number of grids per task, and the one that value() is asked for
  static size_t& grids() { static size_t n = 1; return n; }
  static size_t& which() { static size_t n = 0; return n; }
  static bool& hold() { static bool h = false; return h; }
};
template <class T> class VTaskT : public combigrid::Task<T> {
 public:
  VTaskT(const LevelVector& l, const std::vector<BoundaryType>& b, real coeff, LoadModel* m) : Task<T>(l, b, coeff, m) {}
  VTaskT() {}
  ~VTaskT() override { delete g; for (auto x : more) delete x; }
  void init(CommunicatorType lcomm, const std::vector<IndexVector>& dec) override {
    if (g) delete g;
    for (auto x : more) delete x;
    more.clear();
    for (size_t n = 1; n < VTaskData::grids(); ++n) {
      more.push_back(new OwningDistributedFullGrid<T>(this->getDim(), this->getLevelVector(), lcomm, this->getBoundary(), VTaskData::procs(), VTaskData::fwd(), dec));
      std::fill(more.back()->getData(), more.back()->getData() + more.back()->getNrLocalElements(), T(0));
    }
    g = new OwningDistributedFullGrid<T>(this->getDim(), this->getLevelVector(), lcomm, this->getBoundary(), VTaskData::procs(), VTaskData::fwd(), dec);
    std::fill(g->getData(), g->getData() + g->getNrLocalElements(), T(0));
    this->setFinished(false);
  }
  void run(CommunicatorType) override {
    if (!VTaskData::hold())
      for (size_t n = 0; n <= more.size(); ++n) {
        auto x = n ? more[n - 1] : g;
        VTaskData::which() = n;
        for (IndexType i = 0; i < x->getNrLocalElements(); ++i)
          x->getData()[i] = static_cast<T>(static_cast<double>(VTaskData::value()(this->getID(), x->getGlobalLinearIndex(i))));
        VTaskData::which() = 0;
      }
    ++runs;
    this->setFinished(true);
  }
  void getFullGrid(FullGrid<T>& fg, RankType r, CommunicatorType, int) override { g->gatherFullGrid(fg, r); }
  DistributedFullGrid<T>& getDistributedFullGrid(size_t n) override { return n ? *more.at(n - 1) : *g; }
  const DistributedFullGrid<T>& getDistributedFullGrid(size_t n) const override { return n ? *more.at(n - 1) : *g; }
  void setZero() override { for (IndexType i = 0; i < g->getNrLocalElements(); ++i) g->getData()[i] = T(0); }
  OwningDistributedFullGrid<T>* g = nullptr;
  std::vector<OwningDistributedFullGrid<T>*> more;
  int runs = 0;
 private:
  friend class boost::serialization::access;
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<Task<T>>(*this); }
};
inline uint64_t mix(uint64_t a, uint64_t b, uint64_t c) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b * 0xC2B2AE3D27D4EB4Full + c * 0x165667B19E3779F9ull + 12345;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
}  // namespace vh
