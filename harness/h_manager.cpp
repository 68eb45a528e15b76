// records managed computations: a manager and its process groups (C09, C10)
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>
#include "combigen.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessManager.hpp"
#include "rescheduler/TaskRescheduler.hpp"
#include "utils/BoostExports.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;
static std::ofstream out;
static int wr, wn;
static std::atomic<uint64_t>* ticket;  // one order of all events of all processes
static std::vector<std::pair<uint64_t, std::string>> mine;
static uint64_t lastAcc;
static CombiCase cc;
static uint64_t caseSeed;
static long scaleNow;
static int pace;  // 0: no delays
static bool isMgr;
static void rec(const Ev& e, uint64_t t = 0) { if (getenv("VD")) { std::string x = e.s.substr(0,200) + "}\n"; fputs(x.c_str(), stderr); } mine.emplace_back(t ? t : ticket->fetch_add(1), e.s + "}"); }
static void raw(Ev& e, const char* k, const std::string& v) { e.s += ",\"" + std::string(k) + "\":" + v; }
static int lrank() { int r; MPI_Comm_rank(theMPISystem()->getLocalComm(), &r); return r; }
static int group() { return theMPISystem()->getProcessGroupNumber(); }
static void delay(uint64_t a, uint64_t b) {
  if (!pace) return;
  uint64_t x = mix(caseSeed, a * 31 + static_cast<uint64_t>(group()), b);
  int slow = mix(caseSeed, static_cast<uint64_t>(group()), 77) % 3 == 0 ? 6 : 1;
  if (x % 3) usleep(static_cast<useconds_t>(x / 3 % static_cast<uint64_t>(400 * pace * slow)));
}
class MTask : public combigrid::Task<double> {
 public:
  MTask(const LevelVector& l, const std::vector<BoundaryType>& b, real coeff, LoadModel* m) : Task<double>(l, b, coeff, m) {}
  MTask() {}
  ~MTask() override { delete g; }
  void init(CommunicatorType lcomm, const std::vector<IndexVector>& dec) override {
    delete g;
    g = new OwningDistributedFullGrid<double>(getDim(), getLevelVector(), lcomm, getBoundary(), cc.P, false, dec);
    std::fill(g->getData(), g->getData() + g->getNrLocalElements(), 0.);
    rec(Ev("init").f("t", getID() + 1).f("p", group() + 1).f("r", lrank()).f("s", steps).f("lev", std::vector<int>(getLevelVector().begin(), getLevelVector().end())).f("co", exact(getCoefficient())));
    delay(1, getID());
  }
  void run(CommunicatorType lcomm) override {
    rec(Ev("begin").f("t", getID() + 1).f("p", group() + 1).f("r", lrank()).f("s", steps + 1));
    delay(2 + static_cast<uint64_t>(lrank()) * 10, getID() + 100 * static_cast<uint64_t>(steps));
    ++steps;
    prescribe(cc, caseSeed + static_cast<uint64_t>(steps) * 7919, scaleNow);
    for (IndexType i = 0; i < g->getNrLocalElements(); ++i)
      g->getData()[i] = static_cast<double>(VTaskData::value()(getID(), g->getGlobalLinearIndex(i)));
    MPI_Barrier(lcomm);
    setFinished(true);
    rec(Ev("done").f("t", getID() + 1).f("p", group() + 1).f("r", lrank()).f("s", steps));
  }
  void doDiagnostics() override {
    delay(5, getID());
    if (lrank() == 0) {
      double x = 4711. + static_cast<double>(getID());
      MPI_Send(&x, 1, MPI_DOUBLE, theMPISystem()->getManagerRank(), 4242, theMPISystem()->getGlobalComm());
    }
    delay(6, getID());
    rec(Ev("diag").f("t", getID() + 1).f("p", group() + 1).f("r", lrank()));
  }
  void receiveDiagnostics() override {
    double x = 0;
    MPI_Recv(&x, 1, MPI_DOUBLE, MPI_ANY_SOURCE, 4242, theMPISystem()->getGlobalComm(), MPI_STATUS_IGNORE);
    got = static_cast<long>(x) - 4711;
  }
  DistributedFullGrid<double>& getDistributedFullGrid(size_t) override { touch(); return *g; }
  const DistributedFullGrid<double>& getDistributedFullGrid(size_t) const override { touch(); return *g; }
  void setZero() override { for (IndexType i = 0; i < g->getNrLocalElements(); ++i) g->getData()[i] = 0.; }
  void touch() const { delay(7, getID() + static_cast<uint64_t>(steps)); lastAcc = ticket->fetch_add(1); }
  OwningDistributedFullGrid<double>* g = nullptr;
  int steps = 0;
  long got = -1;
 private:
  friend class boost::serialization::access;
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<Task<double>>(*this); ar& steps; }
};
BOOST_CLASS_EXPORT(MTask)
struct HashModel : LoadModel {
  real eval(const LevelVector& l) override {
    uint64_t h = caseSeed;
    for (auto x : l) h = mix(h, static_cast<uint64_t>(x), 3);
    return static_cast<real>(h % 5);  // ties are common
  }
};
struct Mover : TaskRescheduler {
  Rng r{caseSeed + 99};
  std::vector<std::vector<int>> last;
  std::vector<std::pair<LevelVector, int>> eval(const std::map<LevelVector, int>& own, const std::map<LevelVector, unsigned long>&, LoadModel*) override {
    last.clear();
    std::vector<std::pair<LevelVector, int>> res;
    std::vector<std::pair<LevelVector, int>> v(own.begin(), own.end());
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[static_cast<size_t>(r.in(0, static_cast<int>(i) - 1))]);
    for (auto& p : v)
      if (r.coin()) {
        int to = r.in(0, cc.ng - 1);
        if (to == p.second && !r.coin(1, 4)) continue;
        res.push_back({p.first, to});
        for (size_t i = 0; i < cc.grids.size(); ++i) if (cc.lv(cc.grids[i]) == p.first) last.push_back({static_cast<int>(i) + 1, p.second + 1, to + 1});
      }
    return res;
  }
};
static void manage(Rng r, bool canMove) {
  ProcessGroupManagerContainer<> pg;
  for (int i = 0; i < cc.ng; ++i) pg.emplace_back(std::make_shared<ProcessGroupManager<>>(i));
  std::unique_ptr<LoadModel> lm;
  if (r.coin()) lm.reset(new LinearLoadModel()); else lm.reset(new HashModel());
  auto* mover = new Mover();
  TaskContainer<> tasks;
  for (size_t i = 0; i < cc.grids.size(); ++i) {
    auto* t = new MTask(cc.lv(cc.grids[i]), cc.bt(), cc.coef[i], lm.get());
    t->setID(i);
    tasks.push_back(t);
  }
  rec(Ev("op").f("k", "start"));
  auto params = cc.params();
  ProcessManager<> m{pg, tasks, params, std::move(lm), std::unique_ptr<TaskRescheduler>(mover)};
  rec(Ev("ret").f("k", "start"));
  int ex = 0;
  for (int d = 0; d < cc.dim; ++d) { auto u = static_cast<size_t>(d); ex += cc.lmax[u] - cc.lmin[u]; }
  auto owners = [&]() {
    std::string s = "[";
    for (size_t p = 0; p < pg.size(); ++p) {
      std::vector<int> ids;
      for (auto* t : pg[p]->getTaskContainer()) ids.push_back(static_cast<int>(t->getID()) + 1);
      s += (p ? "," : "") + js(ids);
    }
    return s + "]";
  };
  auto norms = [&]() {
    int p = r.in(0, 1);
    rec(Ev("op").f("k", "norms"));
    auto n = m.getLpNorms(p);
    std::string s = "[";
    for (auto& x : n) {
      int sh = 0;  // the one norm in units of the integral of a boundary point's function
      if (p) for (int d = 0; d < cc.dim; ++d) { auto u = static_cast<size_t>(d); sh += cc.grids[x.first][u] + (cc.B[u] == 2); }
      s += (s.size() > 1 ? "," : "") + std::string("[") + std::to_string(x.first + 1) + "," + std::to_string(exact(x.second, std::ldexp(1., sh))) + "]";
    }
    Ev e("ret");
    e.f("k", "norms").f("pn", p);
    raw(e, "res", s + "]");
    rec(e);
  };
  auto norm = [&]() {
    rec(Ev("op").f("k", "norm"));
    double x = m.getLpNorm(0);
    rec(Ev("ret").f("k", "norm").f("res", exact(x)));
  };
  auto interp = [&]() {
    std::vector<std::vector<int>> qs;
    std::vector<std::vector<real>> xs;
    for (int k = 0, n = r.in(1, 6); k < n; ++k) {
      std::vector<int> q;
      std::vector<real> x;
      for (int d = 0; d < cc.dim; ++d) {
        auto u = static_cast<size_t>(d);
        q.push_back(r.in(0, 1 << cc.lmax[u]));
        x.push_back(std::ldexp(static_cast<double>(q.back()), -cc.lmax[u]));
      }
      qs.push_back(q);
      xs.push_back(x);
    }
    rec(Ev("op").f("k", "interp"));
    auto v = m.interpolateValues(xs);
    std::vector<long> rl;
    for (double x : v) rl.push_back(exact(x, std::ldexp(1., ex)));
    rec(Ev("ret").f("k", "interp").f("q", qs).f("res", rl));
  };
  auto diag = [&]() {
    size_t t = static_cast<size_t>(r.in(0, static_cast<int>(cc.grids.size()) - 1));
    rec(Ev("op").f("k", "diagn").f("t", t + 1));
    m.doDiagnostics(t);
    long got = -2;
    for (auto* x : tasks) if (x->getID() == t) got = dynamic_cast<MTask*>(x)->got;
    rec(Ev("ret").f("k", "diagn").f("t", t + 1).f("got", got + 1));
  };
  auto simple = [&](const char* k, const std::function<void()>& f) {
    rec(Ev("op").f("k", k));
    f();
    Ev e("ret");
    e.f("k", k);
    raw(e, "own", owners());
    rec(e);
  };
  simple("runfirst", [&]() { m.runfirst(); });
  bool combined = false;
  int spare = 2 * cc.K <= 15 ? 1 : 0;
  for (int k = 0, n = r.in(2, 9); k < n; ++k) {
    int x = r.in(0, 13);
    if (x <= 3 && combined && spare-- <= 0) continue;  // values stay integers for a limited number of combinations
    if (x <= 3) { simple("combine", [&]() { m.combine(); }); combined = true; if (r.coin(1, 3) && canMove) goto move; }
    else if (x <= 6) { simple("runnext", [&]() { m.runnext(); }); combined = false; spare = 2 * cc.K <= 15 ? 1 : 0; }
    else if (x == 7) norms();
    else if (x == 8) norm();
    else if (x == 9) interp();
    else if (x == 10) { interp(); if (r.coin()) interp(); else norms(); }
    else if (x == 11) diag();
    else if (x == 12) simple("update", [&]() { m.updateCombiParameters(); });
    else if (canMove && combined) {
    move:
      rec(Ev("op").f("k", "move"));
      m.reschedule();
      Ev e("ret");
      e.f("k", "move").f("mv", mover->last);
      raw(e, "own", owners());
      std::string lv = "[";
      std::vector<std::string> by(cc.grids.size(), "[]");
      for (auto* t : tasks)
        if (t->getID() < by.size())
          by[t->getID()] = "[" + js(std::vector<int>(t->getLevelVector().begin(), t->getLevelVector().end())) + "," + std::to_string(exact(t->getCoefficient())) + "," + std::to_string(dynamic_cast<MTask*>(t)->steps) + "]";
      for (size_t i = 0; i < by.size(); ++i) lv += (i ? "," : "") + by[i];
      raw(e, "tasks", lv + "]");
      e.f("n", tasks.size());
      rec(e);
    }
  }
  rec(Ev("op").f("k", "exit"));
  m.exit();
  rec(Ev("ret").f("k", "exit"));
  for (auto* t : tasks) delete t;
}
static void work() {
  ProcessGroupWorker<double> w;
  int combis = 0;
  for (;;) {
    lastAcc = 0;
    SignalType s = w.wait();
    bool first = lrank() == 0;
    std::string k = s == RUN_FIRST ? "runfirst" : s == RUN_NEXT ? "runnext" : s == COMBINE ? "combine" : s == RESCHEDULE_ADD_TASK ? "move" : s == GET_MAX_NORM || s == GET_L1_NORM ? "norms" : "";
    if (first && lastAcc && k != "") rec(Ev("acc").f("p", group() + 1).f("k", k), lastAcc);
    if (s == COMBINE) ++combis;
    if (s == RUN_FIRST || s == RUN_NEXT || s == COMBINE || s == RESCHEDULE_ADD_TASK) {
      bool last = s == RUN_FIRST || s == RESCHEDULE_ADD_TASK;
      for (size_t i = 0; i < w.getTasks().size(); ++i) {
        if (last && i + 1 != w.getTasks().size()) continue;
        auto* t = dynamic_cast<MTask*>(w.getTasks()[i].get());
        auto v = allValues(*t->g, theMPISystem()->getLocalComm());
        if (first) rec(Ev("val").f("t", t->getID() + 1).f("p", group() + 1).f("k", k).f("n", combis).f("s", t->steps).f("v", v));
      }
    }
    if (s == EXIT) break;
  }
  rec(Ev("bye").f("p", group() + 1).f("r", lrank()));
}
int main(int argc, char** argv) {
  int prov;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
  Stats::initialize();
  Args a(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  if (wr == 0) { out.open(a.s("out", "trace.ndjson")); std::ofstream z("ticket"); z << std::string(64, '\0'); }
  MPI_Barrier(MPI_COMM_WORLD);
  int fd = open("ticket", O_RDWR);
  void* p = mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (fd < 0 || p == MAP_FAILED) return 3;
  ticket = reinterpret_cast<std::atomic<uint64_t>*>(p);
  if (wr == 0) ticket->store(1);
  MPI_Barrier(MPI_COMM_WORLD);
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  bool moves = a.s("mode", "run") == "move";
  for (int id = 0, n = a.i("n", 50); id < n; ++id) {
    do {
      cc = randCombi(g, wn - 1, a.i("maxpts", 250), 0, a.i("maxgrids", 9));
    } while (static_cast<int>(cc.grids.size()) < cc.ng || (moves && cc.ng == 1));
    caseSeed = g.next();
    if (moves) {
      // only grids all of whose subspaces are part of the sparse grid, as in schemes made from lmin and lmax
      cc.variant = "sg";
      cc.red.assign(static_cast<size_t>(cc.dim), 0);
      std::vector<LevelVector> lv;
      createTruncatedHierarchicalLevels(cc.lv(cc.lmax), cc.lv(cc.lmin), lv);
      std::set<std::vector<int>> have;
      for (auto& x : lv) have.insert(std::vector<int>(x.begin(), x.end()));
      bool ok = true;
      for (auto& x : cc.grids) ok = ok && have.count(x);
      if (!ok) { --id; continue; }
    }
    scaleNow = 1L << (2 * cc.K <= 15 ? 2 * cc.K : cc.K);
    pace = g.in(0, 4);
    if (wr == 0) { out << cc.ev(id).str(); out.flush(); }
    theMPISystem()->initWorldReusable(MPI_COMM_WORLD, static_cast<size_t>(cc.ng), static_cast<size_t>(cc.np), true);
    mine.clear();
    isMgr = wr == wn - 1;
    Rng r(caseSeed + 5);
    if (isMgr) manage(r, moves); else work();
    std::string s;
    for (auto& x : mine) s += std::to_string(x.first) + " " + x.second + "\n";
    s = gather(MPI_COMM_WORLD, s);
    if (wr == 0) {
      std::vector<std::pair<uint64_t, std::string>> all;
      std::istringstream is(s);
      std::string line;
      while (std::getline(is, line)) { auto q = line.find(' '); all.emplace_back(std::stoull(line.substr(0, q)), line.substr(q + 1)); }
      std::sort(all.begin(), all.end());
      for (auto& x : all) out << x.second << "\n";
      out << Ev("end").str();
      out.flush();
    }
    MPI_Barrier(MPI_COMM_WORLD);
  }
  Stats::finalize();
  MPI_Finalize();
  return 0;
}
