// records two managed systems that are coupled through the real broker (C12, C14)
#include <unistd.h>
#include "broker.hpp"
#include "combigen.hpp"
#include "tick.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessManager.hpp"
#include "utils/BoostExports.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;
static std::ofstream out;
static int wr, wn;
static Tick tk;
static CombiCase cc;
static std::vector<int> sysOf;
static uint64_t caseSeed;
static int pace, mySys, G, tlpg, steps, port;
static bool extra;
static void raw(Ev& e, const char* k, const std::string& v) { e.s += ",\"" + std::string(k) + "\":" + v; }
static int lrank() { int r; MPI_Comm_rank(theMPISystem()->getLocalComm(), &r); return r; }
static int group() { return theMPISystem()->getProcessGroupNumber(); }
static void delay(uint64_t a, uint64_t b) {
  if (!pace) return;
  uint64_t x = mix(caseSeed, a * 31 + static_cast<uint64_t>(mySys), b);
  if (x % 3) usleep(static_cast<useconds_t>(x / 3 % static_cast<uint64_t>(1500 * pace)));
}
class CTask : public combigrid::Task<double> {
 public:
  CTask(const LevelVector& l, const std::vector<BoundaryType>& b, real coeff, LoadModel* m) : Task<double>(l, b, coeff, m) {}
  CTask() {}
  ~CTask() override { delete g; }
  void init(CommunicatorType lcomm, const std::vector<IndexVector>& dec) override {
    delete g;
    g = new OwningDistributedFullGrid<double>(getDim(), getLevelVector(), lcomm, getBoundary(), cc.P, false, dec);
    std::fill(g->getData(), g->getData() + g->getNrLocalElements(), 0.);
  }
  void run(CommunicatorType lcomm) override {
    ++n;
    delay(2, getID() + static_cast<uint64_t>(n) * 100);
    prescribe(cc, caseSeed + static_cast<uint64_t>(n) * 7919, 1L << cc.K);
    for (IndexType i = 0; i < g->getNrLocalElements(); ++i)
      g->getData()[i] = static_cast<double>(VTaskData::value()(getID(), g->getGlobalLinearIndex(i)));
    MPI_Barrier(lcomm);
    setFinished(true);
  }
  DistributedFullGrid<double>& getDistributedFullGrid(size_t) override { return *g; }
  const DistributedFullGrid<double>& getDistributedFullGrid(size_t) const override { return *g; }
  void setZero() override { for (IndexType i = 0; i < g->getNrLocalElements(); ++i) g->getData()[i] = 0.; }
  OwningDistributedFullGrid<double>* g = nullptr;
  int n = 0;
 private:
  friend class boost::serialization::access;
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<Task<double>>(*this); ar& n; }
};
BOOST_CLASS_EXPORT(CTask)
static CombiParameters params() {
  std::vector<LevelVector> ls;
  std::vector<real> cs;
  std::vector<size_t> ids;
  for (size_t i = 0; i < cc.grids.size(); ++i)
    if (sysOf[i] == mySys) { ls.push_back(cc.lv(cc.grids[i])); cs.push_back(cc.coef[i]); ids.push_back(i); }
  CombiParameters p(static_cast<DimType>(cc.dim), cc.lv(cc.lmin), cc.lv(cc.lmax), cc.bt(), ls, cs, cc.dims, ids, static_cast<size_t>(steps), 1, cc.cv(),
                    LevelVector(static_cast<size_t>(cc.dim), 0), cc.lv(cc.red), static_cast<uint32_t>(cc.mib), false, "localhost", static_cast<unsigned short>(port), static_cast<size_t>(tlpg));
  std::vector<BasisFunctionBasis*> b;
  for (auto& n : cc.bases) b.push_back(CombiCase::basis(n));
  p.setHierarchicalBases(b);
  p.setParallelization(cc.P);
  if (!cc.nodec) p.setDecomposition(std::vector<IndexVector>(cc.dec.begin(), cc.dec.end()));
  return p;
}
static void manage(Rng r) {
  ProcessGroupManagerContainer<> pg;
  for (int i = 0; i < G; ++i) pg.emplace_back(std::make_shared<ProcessGroupManager<>>(i));
  std::unique_ptr<LoadModel> lm(new LinearLoadModel());
  TaskContainer<> tasks;
  for (size_t i = 0; i < cc.grids.size(); ++i)
    if (sysOf[i] == mySys) {
      auto* t = new CTask(cc.lv(cc.grids[i]), cc.bt(), cc.coef[i], lm.get());
      t->setID(i);
      tasks.push_back(t);
    }
  auto p = params();
  delay(9, 1);
  {
    ProcessManager<> m{pg, tasks, p, std::move(lm)};
    m.runfirst();
    delay(9, 2);
    size_t n = m.unifySubspaceSizesThirdLevel(extra);
    tk.rec(Ev("total").f("y", mySys + 1).f("n", n));
    for (int s = 1; s <= steps; ++s) {
      if (s > 1) m.runnext();
      delay(9, 10 + static_cast<uint64_t>(s));
      m.combineThirdLevel();
      if (mix(caseSeed, 5, static_cast<uint64_t>(s)) % 2) {
        // both systems evaluate together in the same random points
        std::vector<std::vector<real>> xs;
        std::vector<double> vs;
        m.monteCarloThirdLevel(1 + mix(caseSeed, 6, static_cast<uint64_t>(s)) % 9, xs, vs);
        auto own = m.interpolateValues(xs);
        std::vector<std::vector<std::string>> cs;
        std::vector<std::string> es;
        std::vector<long> os, ts;
        char b[64];
        for (auto& x : xs) { cs.emplace_back(); for (double z : x) { snprintf(b, sizeof b, "%a", z); cs.back().push_back(b); } }
        for (double z : vs) { snprintf(b, sizeof b, "%a", z); es.push_back(b); ts.push_back(std::lround(z * 64)); }
        for (double z : own) os.push_back(std::lround(z * 64));
        tk.rec(Ev("mc").f("y", mySys + 1).f("s", s).f("x", cs).f("v", es).f("own", os).f("tot", ts));
      }
    }
    delay(9, 3);
    m.exit();
  }
  for (auto* t : tasks) delete t;
}
static std::string sizes(const AnyDistributedSparseGrid& d) { std::vector<int> v; for (auto x : d.getSubspaceDataSizes()) v.push_back(static_cast<int>(x)); return js(v); }
static void work() {
  ProcessGroupWorker<double> w;
  bool io = group() == tlpg;
  int step = 0;
  auto vals = [&](const char* what, bool last) {
    for (size_t i = last ? w.getTasks().size() - 1 : 0; i < w.getTasks().size(); ++i) {
      auto& t = w.getTasks()[i];
      auto v = allValues(t->getDistributedFullGrid(0), theMPISystem()->getLocalComm());
      if (lrank() == 0) tk.rec(Ev(what).f("y", mySys + 1).f("t", t->getID() + 1).f("s", std::string(what) == "run" ? dynamic_cast<CTask*>(t.get())->n : step).f("v", v));
    }
  };
  for (;;) {
    SignalType s = w.wait();
    Ev e(s == INIT_DSGUS ? "reg" : "sizes");
    e.f("y", mySys + 1).f("g", group() + 1).f("p", lrank()).f("io", io);
    if (s == INIT_DSGUS) {
      DistributedSparseGridUniform<double> own(static_cast<DimType>(cc.dim), w.getCombinedDSGVector()[0]->getAllLevelVectors(), theMPISystem()->getLocalComm());
      for (auto& t : w.getTasks()) own.registerDistributedFullGrid(t->getDistributedFullGrid(0));
      raw(e, "n", sizes(own));
      tk.rec(e);
    }
    if (s == REDUCE_SUBSPACE_SIZES_TL || s == REDUCE_SUBSPACE_SIZES_TL_AND_ALLOCATE_EXTRA_SG || s == WAIT_FOR_TL_SIZE_UPDATE) {
      raw(e, "n", sizes(*w.getCombinedDSGVector()[0]));
      bool x = s == REDUCE_SUBSPACE_SIZES_TL_AND_ALLOCATE_EXTRA_SG;
      raw(e, "x", x ? sizes(*w.getExtraDSGVector()[0]) : "[]");
      e.f("raw", x ? w.getExtraDSGVector()[0]->getRawDataSize() : w.getCombinedDSGVector()[0]->getRawDataSize());
      tk.rec(e);
    }
    if (s == RUN_FIRST || s == RUN_NEXT) vals("run", s == RUN_FIRST);
    if (s == COMBINE_THIRD_LEVEL || s == WAIT_FOR_TL_COMBI_RESULT) { ++step; vals("comb", false); }
    if (s == EXIT) break;
  }
}
int main(int argc, char** argv) {
  int prov;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
  Stats::initialize();
  Args a(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  if (!tk.open(wr)) return 3;
  int wk = wn / 2 - 1;
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  for (int id = 0, n = a.i("n", 10); id < n; ++id) {
    std::vector<int> gs;
    for (int k = 1; k <= wk; ++k) if (wk % k == 0) gs.push_back(k);
    G = g.pick(gs);
    cc = randCombi(g, 2 * wk, a.i("maxpts", 250), 2 * G, std::max(8, 2 * G + 2));
    cc.variant = "sg";
    sysOf.clear();
    for (int o : cc.owner) sysOf.push_back(o >= G);
    tlpg = g.in(0, G - 1);
    extra = g.coin();
    steps = a.i("sizes", 0) ? 0 : g.in(1, 3);
    caseSeed = g.next();
    pace = g.in(0, 3);
    long chunk = g.pick(std::vector<long>{0, 1, 7, 8, 13, 64, 4096});
    bool fromFile = g.coin();
    unsigned split = g.coin() ? static_cast<unsigned>(g.in(1, 1 << 30)) : 0;
    Broker b;
    if (wr == 0) { if (!b.start(2, chunk, fromFile, split)) { fprintf(stderr, "broker does not start\n"); MPI_Abort(MPI_COMM_WORLD, 3); } port = b.port; }
    MPI_Bcast(&port, 1, MPI_INT, 0, MPI_COMM_WORLD);
    Ev e = cc.ev(id);
    std::vector<int> sys;
    for (int y : sysOf) sys.push_back(y + 1);
    e.f("ns", 2).f("gs", std::vector<int>(2, G)).f("sys", sys).f("steps", steps).f("parts", 1).f("mode", "tcp").f("keep", false).f("reuse", false).f("extra", extra).f("tl", tlpg + 1).f("by", std::vector<int>());
    if (wr == 0) { out << e.str(); out.flush(); }
    mySys = wr >= wn / 2;
    MPI_Comm comm;
    MPI_Comm_split(MPI_COMM_WORLD, mySys, wr, &comm);
    theMPISystem()->initWorldReusable(comm, static_cast<size_t>(G), static_cast<size_t>(cc.np), true);
    MPI_Barrier(MPI_COMM_WORLD);
    if (wr % (wn / 2) == wn / 2 - 1) manage(Rng(caseSeed)); else work();
    MPI_Barrier(MPI_COMM_WORLD);
    tk.flush(out, wr);
    if (wr == 0) { out << Ev("end").f("status", b.end(120)).f("combis", b.stat("numCombinations")).str(); out.flush(); }
    MPI_Barrier(MPI_COMM_WORLD);
  }
  Stats::finalize();
  MPI_Finalize();
  return 0;
}
