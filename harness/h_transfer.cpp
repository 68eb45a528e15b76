// records objects before and after they travel between processes (C20)
#include <unistd.h>
#include <fstream>
#include "combigen.hpp"
#include "io/BroadcastParameters.hpp"
#include "loadmodel/LearningLoadModel.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessManager.hpp"
#include "mpi/MPIUtils.hpp"
#include "utils/BoostExports.hpp"
#include "utils/MonteCarlo.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;
static std::ofstream out;
static int wr, wn;
static std::string hex(double d) { char b[40]; snprintf(b, sizeof b, "%a", d); return b; }
template <class V> static std::string lst(const V& v) { std::string s = "["; for (auto x : v) s += (s.size() > 1 ? " " : "") + std::to_string(static_cast<long>(x)); return s + "]"; }
static std::string text(const std::string& s) { std::string o; char b[4]; for (unsigned char ch : s) { snprintf(b, sizeof b, "%02x", ch); o += b; } return o; }
// ------------------------------------------------------------- content of objects as text
class XTask : public Task<double> {
 public:
  XTask(const LevelVector& l, const std::vector<BoundaryType>& b, real coeff, LoadModel* m, FaultCriterion* f) : Task<double>(l, b, coeff, m, f) {}
  XTask() {}
  ~XTask() override { delete g; }
  void init(CommunicatorType c, const std::vector<IndexVector>& dec) override {
    delete g;
    g = new OwningDistributedFullGrid<double>(getDim(), getLevelVector(), c, getBoundary(), VTaskData::procs(), VTaskData::fwd(), dec);
  }
  void run(CommunicatorType) override { setFinished(true); }
  DistributedFullGrid<double>& getDistributedFullGrid(size_t) override { return *g; }
  void setZero() override {}
  std::string content() const {
    auto* self = const_cast<XTask*>(this);
    std::string s = std::to_string(static_cast<int>(getDim())) + ";" + std::to_string(getID()) + ";" + lst(getLevelVector()) + ";" + hex(getCoefficient()) + ";" + lst(getBoundary()) + ";" + (isFinished() ? "f" : "u") + ";" + note + ";";
    for (int k = 0; k < 4; ++k) for (int r = 0; r < 4; ++r) s += self->faultCriterion_->failNow(k, 0., r) ? "1" : "0";
    return s;
  }
  std::string note;
  OwningDistributedFullGrid<double>* g = nullptr;
 private:
  friend class boost::serialization::access;
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<Task<double>>(*this); ar& note; }
};
BOOST_CLASS_EXPORT(XTask)
static std::string basisName(const BasisFunctionBasis* b) {
  if (!b) return "none";
  std::string p;
  if (dynamic_cast<const HierarchicalHatPeriodicBasisFunction*>(b)) return "hatp";
  if (dynamic_cast<const HierarchicalHatBasisFunction*>(b)) return "hat";
  if (dynamic_cast<const FullWeightingPeriodicBasisFunction*>(b)) return "fwp";
  if (dynamic_cast<const FullWeightingBasisFunction*>(b)) return "fw";
  if (dynamic_cast<const BiorthogonalPeriodicBasisFunction*>(b)) return "biop";
  if (dynamic_cast<const BiorthogonalBasisFunction*>(b)) return "bio";
  return "other";
}
static std::string content(CombiParameters& p) {
  std::string s = std::to_string(static_cast<int>(p.getDim())) + ";" + lst(p.getLMin()) + ";" + lst(p.getLMax()) + ";" + lst(p.getBoundary()) + ";" + lst(p.getLMaxReductionVector()) + ";";
  std::vector<size_t> ids;
  std::vector<real> co;
  p.getCoeffs(ids, co);
  for (size_t i = 0; i < ids.size(); ++i) s += std::to_string(ids[i]) + "=" + hex(co[i]) + lst(p.getLevel(ids[i])) + (p.getCoeff(ids[i]) == co[i] ? "" : "!") + ",";
  s += ";";
  for (auto& x : p.getLevelsDict()) s += std::to_string(x.first) + lst(x.second);
  s += ";";
  for (auto& x : p.getLevelsToIDs()) s += lst(x.first) + std::to_string(x.second);
  s += ";";
  for (auto& x : p.getCombiDict()) s += lst(x.first) + hex(x.second);
  s += ";" + lst(p.getHierarchizationDims()) + ";";
  for (auto* b : p.getHierarchicalBases()) s += basisName(b) + ",";
  s += ";" + lst(p.getParallelization()) + (p.isParallelizationSet() ? "s" : "u") + ";";
  for (auto& d : p.getDecomposition()) s += lst(d);
  s += std::string(";") + (p.getForwardDecomposition() ? "f" : "b") + ";" + std::to_string(p.getNumberOfCombinations()) + ";" + std::to_string(p.getNumGrids()) + ";" + std::to_string(p.getNumLevels()) + ";" + std::to_string(static_cast<int>(p.getCombinationVariant())) + ";" + std::to_string(p.getChunkSizeInMebibybtePerThread()) + ";" + p.getThirdLevelHost() + ";" + std::to_string(p.getThirdLevelPort()) + ";" + std::to_string(p.getThirdLevelPG());
  return s;
}
static std::string content(const DurationInformation& d) { return std::to_string(d.task_id) + ";" + std::to_string(d.duration) + ";" + hex(d.simtime_now) + ";" + hex(d.real_dt) + ";" + std::to_string(d.pgroup_id) + ";" + std::to_string(d.nProcesses); }
// ------------------------------------------------------------- random objects
static double rndReal(Rng& g) {
  switch (g.in(0, 4)) {
    case 0: return g.in(-3, 3);
    case 1: return 1. / g.in(1, 100);
    case 2: return std::ldexp(static_cast<double>(g.next() >> 11), -g.in(0, 300)) * (g.coin() ? 1 : -1);
    case 3: return std::ldexp(static_cast<double>(g.next() >> 11), g.in(0, 300));
    default: return 0.;
  }
}
static CombiParameters rndParams(Rng& g) {
  size_t dim = static_cast<size_t>(g.in(1, 6));
  LevelVector lmin, lmax, red;
  std::vector<BoundaryType> b;
  std::vector<int> par;
  std::vector<bool> hd;
  for (size_t d = 0; d < dim; ++d) { lmin.push_back(g.in(1, 4)); lmax.push_back(lmin.back() + g.in(0, 5)); b.push_back(static_cast<BoundaryType>(g.in(0, 2))); par.push_back(g.in(1, 4)); red.push_back(g.in(0, 2)); hd.push_back(g.coin(3, 4)); }
  std::set<LevelVector> ls;
  for (int i = 0, k = g.in(1, 30); i < k; ++i) { LevelVector v; for (size_t d = 0; d < dim; ++d) v.push_back(g.in(1, 9)); ls.insert(v); }
  std::vector<LevelVector> levels(ls.begin(), ls.end());
  std::vector<real> co;
  std::vector<size_t> ids;
  size_t id = static_cast<size_t>(g.in(0, 5));
  for (size_t i = 0; i < levels.size(); ++i) { co.push_back(rndReal(g)); ids.push_back(id); id += static_cast<size_t>(g.in(1, 3)); }
  for (size_t i = ids.size(); i > 1; --i) std::swap(ids[i - 1], ids[static_cast<size_t>(g.in(0, static_cast<int>(i) - 1))]);
  auto var = static_cast<CombinationVariant>(g.in(0, 3));
  auto chunk = static_cast<uint32_t>(g.in(1, 200));
  bool fwd = g.coin();
  std::string host = g.coin() ? "" : "host number " + std::to_string(g.in(0, 99)) + " .local";
  auto port = static_cast<unsigned short>(g.in(0, 65535));
  auto pgr = static_cast<size_t>(g.in(0, 40));
  auto ncomb = static_cast<size_t>(g.in(0, 1000));
  auto ngr = g.in(1, 3);
  LevelVector rmin(g.coin() ? 0 : dim, 0), rmax = g.coin() ? LevelVector() : red;
  CombiParameters p;
  switch (g.in(0, 2)) {
    case 0: p = CombiParameters(static_cast<DimType>(dim), lmin, lmax, b, levels, co, ids, ncomb, ngr, var, par, rmin, rmax, chunk, fwd, host, port, pgr); break;
    case 1: p = CombiParameters(static_cast<DimType>(dim), lmin, lmax, b, ncomb, ngr, var, g.coin() ? par : std::vector<int>{0}, rmin, rmax, chunk, fwd, host, port, pgr); break;
    default: p = CombiParameters(static_cast<DimType>(dim), lmin, lmax, b, levels, co, hd, ids, ncomb, ngr, var, rmin, rmax, chunk, fwd, host, port, pgr);
  }
  if (g.coin()) {
    std::vector<BasisFunctionBasis*> bs;
    for (size_t d = 0; d < dim; ++d)
      switch (g.in(0, 5)) {
        case 0: bs.push_back(new HierarchicalHatBasisFunction()); break;
        case 1: bs.push_back(new HierarchicalHatPeriodicBasisFunction()); break;
        case 2: bs.push_back(new FullWeightingBasisFunction()); break;
        case 3: bs.push_back(new FullWeightingPeriodicBasisFunction()); break;
        case 4: bs.push_back(new BiorthogonalBasisFunction()); break;
        default: bs.push_back(new BiorthogonalPeriodicBasisFunction());
      }
    p.setHierarchicalBases(bs);
  }
  if (p.isParallelizationSet() && g.coin()) {
    std::vector<IndexVector> dec;
    for (size_t d = 0; d < dim; ++d) { IndexVector v{0}; for (int i = 1; i < p.getParallelization()[d]; ++i) v.push_back(v.back() + g.in(0, 3)); dec.push_back(v); }
    p.setDecomposition(dec);
  }
  return p;
}
static XTask* rndTask(Rng& g, LoadModel* m) {
  size_t dim = static_cast<size_t>(g.in(1, 6));
  LevelVector l;
  std::vector<BoundaryType> b;
  for (size_t d = 0; d < dim; ++d) { l.push_back(g.in(1, 12)); b.push_back(static_cast<BoundaryType>(g.in(0, 2))); }
  IndexVector fi, fr;
  for (int i = 0, k = g.in(0, 3); i < k; ++i) { fi.push_back(g.in(0, 3)); fr.push_back(g.in(0, 3)); }
  FaultsInfo f;
  f.numFaults_ = static_cast<int>(fi.size());
  f.iterationFaults_ = fi;
  f.globalRankFaults_ = fr;
  auto* t = new XTask(l, b, rndReal(g), m, new StaticFaults(f));
  t->setID(static_cast<size_t>(g.in(0, 100000)));
  t->setFinished(g.coin());
  for (int i = 0, k = g.in(0, 40); i < k; ++i) t->note += static_cast<char>(g.in(33, 126));
  return t;
}
static std::string all;  // events of this rank
// ------------------------------------------------------------- one point-to-point exchange
static void pointToPoint(Rng& g) {
  LinearLoadModel lm;
  int to = g.in(0, wn - 1);
  struct Item { int from, kind; uint64_t seed; };
  std::vector<std::vector<Item>> q(static_cast<size_t>(wn));
  std::vector<int> order;
  for (int s = 0; s < wn; ++s)
    if (s != to) for (int i = 0, k = g.in(0, 3); i < k; ++i) { q[static_cast<size_t>(s)].push_back({s, g.in(0, 2), g.next()}); order.push_back(s); }
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[static_cast<size_t>(g.in(0, static_cast<int>(i) - 1))]);
  uint64_t junk = g.next();
  std::string mine;
  if (wr != to) {
    for (auto& it : q[static_cast<size_t>(wr)]) {
      Rng r(it.seed);
      Ev e("send");
      e.f("s", wr + 1).f("d", to + 1).f("k", it.kind);
      if (it.kind == 0) { auto p = rndParams(r); e.f("x", content(p)); MPIUtils::sendClass(&p, to, MPI_COMM_WORLD); }
      else if (it.kind == 1) { std::unique_ptr<XTask> t(rndTask(r, &lm)); e.f("x", t->content()); Task<double>::send(t.get(), to, MPI_COMM_WORLD); }
      else { DurationInformation d{r.next() % 1000, r.next(), rndReal(r), rndReal(r), r.in(-1, 100), static_cast<unsigned>(r.next())}; e.f("x", content(d)); MPIUtils::sendClass(&d, to, MPI_COMM_WORLD, 777); }
      mine += e.str();
    }
  } else {
    std::vector<size_t> next(static_cast<size_t>(wn), 0);
    Rng r(junk);
    for (int s : order) {
      auto& it = q[static_cast<size_t>(s)][next[static_cast<size_t>(s)]++];
      Ev e("recv");
      e.f("s", s + 1).f("d", to + 1).f("k", it.kind);
      if (it.kind == 0) { CombiParameters p; if (r.coin()) p = rndParams(r); MPIUtils::receiveClass(&p, s, MPI_COMM_WORLD); e.f("x", content(p)); }
      else if (it.kind == 1) { Task<double>* t = nullptr; Task<double>::receive(&t, s, MPI_COMM_WORLD); auto* x = dynamic_cast<XTask*>(t); e.f("x", x ? x->content() : std::string("wrong class")); delete t; }
      else { DurationInformation d{}; MPIUtils::receiveClass(&d, s, MPI_COMM_WORLD, 777); e.f("x", content(d)); }
      mine += e.str();
    }
  }
  // all sends first, then the receives in their order
  auto s1 = gather(MPI_COMM_WORLD, wr != to ? mine : "");
  auto s2 = gather(MPI_COMM_WORLD, wr == to ? mine : "");
  if (wr == 0) out << s1 << s2;
}
static void record(const char* kind, const std::string& original, const std::string& mine, int root) {
  std::string o = gather(MPI_COMM_WORLD, wr == root ? original : "");
  std::string a = gather(MPI_COMM_WORLD, (wr ? "," : "") + js(mine));
  if (wr == 0) { Ev e("bcast"); e.f("k", kind).f("root", root + 1).f("x", o); e.s += ",\"r\":[" + a + "]"; out << e.str(); }
}
static void broadcasts(Rng& g) {
  LinearLoadModel lm;
  int root = g.in(0, wn - 1);
  uint64_t sd = g.next(), junk = g.next() + static_cast<uint64_t>(wr);
  Rng r(sd), r2(junk);
  switch (g.in(0, 6)) {
    case 0: {
      CombiParameters p;
      if (wr == root) p = rndParams(r); else if (r2.coin()) p = rndParams(r2);
      std::string o = wr == root ? content(p) : "";
      MPIUtils::broadcastClass(&p, root, MPI_COMM_WORLD);
      record("params", o, content(p), root);
      break;
    }
    case 1: {
      Task<double>* t = wr == root ? rndTask(r, &lm) : nullptr;
      std::string o = wr == root ? dynamic_cast<XTask*>(t)->content() : "";
      Task<double>::broadcast(&t, root, MPI_COMM_WORLD);
      auto* x = dynamic_cast<XTask*>(t);
      record("task", o, x ? x->content() : std::string("wrong class"), root);
      delete t;
      break;
    }
    case 2: {
      std::vector<double> v;
      for (int i = 0, k = g.coin(1, 5) ? 0 : g.in(0, 50); i < k; ++i) v.push_back(rndReal(r));
      auto tx = [](const std::vector<double>& w) { std::string s; for (double x : w) s += hex(x) + ","; return s; };
      std::string o = tx(v);
      if (wr != root) v.assign(static_cast<size_t>(r2.in(0, 60)), 7.);
      MPIUtils::broadcastContainer(v, root, MPI_COMM_WORLD);
      record("container", o, tx(v), root);
      break;
    }
    case 3: {  // a file only process 0 opens; any bytes
      std::string c, fn = "file.bin";
      for (int i = 0, k = r.pick(std::vector<int>{0, 1, 10, 300, 5000}); i < k; ++i) c += static_cast<char>(r.in(0, 255));
      if (wr == 0) std::ofstream(fn, std::ios::binary) << c;
      auto got = broadcastParameters::getFileContentsFromRankZero(fn, MPI_COMM_WORLD);
      record("file", text(c), text(got), 0);
      if (wr == 0) unlink(fn.c_str());
      break;
    }
    case 4: {  // ini
      std::string c, want, fn = "ctparam";
      for (int sct = 0, k = r.in(1, 4); sct < k; ++sct) {
        c += "[s" + std::to_string(sct) + "]\n";
        for (int i = 0, m = r.in(1, 6); i < m; ++i) {
          std::string v;
          for (int j = 0, n = r.in(1, 12); j < n; ++j) v += static_cast<char>(r.in(48, 57));
          v += " " + std::to_string(r.in(0, 9));
          c += "k" + std::to_string(i) + " = " + v + "\n";
          want += "s" + std::to_string(sct) + ".k" + std::to_string(i) + "=" + v + ",";
        }
      }
      if (wr == 0) std::ofstream(fn) << c;
      auto cfg = broadcastParameters::getParametersFromRankZero(fn, MPI_COMM_WORLD);
      std::string got;
      for (auto& s : cfg) for (auto& kv : s.second) got += s.first + "." + kv.first + "=" + kv.second.data() + ",";
      record("ini", want, got, 0);
      if (wr == 0) unlink(fn.c_str());
      break;
    }
    case 5: {  // json
      std::string c = "[", want, fn = "x.json";
      for (int i = 0, k = r.in(1, 20); i < k; ++i) {
        std::string v = std::to_string(r.in(-50, 50)), w = std::to_string(r.in(0, 5));
        c += std::string(i ? "," : "") + "{\"coeff\": " + v + ", \"group_no\": " + w + "}";
        want += v + "/" + w + ",";
      }
      c += "]";
      if (wr == 0) std::ofstream(fn) << c;
      auto cfg = broadcastParameters::getJsonFromRankZero(fn, MPI_COMM_WORLD);
      std::string got;
      for (auto& s : cfg) got += s.second.get<std::string>("coeff") + "/" + s.second.get<std::string>("group_no") + ",";
      record("json", want, got, 0);
      if (wr == 0) unlink(fn.c_str());
      break;
    }
    default: {  // coordinates as one vector
      size_t dim = static_cast<size_t>(r.in(1, 6)), k = static_cast<size_t>(r.in(1, 20));
      std::vector<std::vector<real>> v(k, std::vector<real>(dim));
      for (auto& x : v) for (auto& y : x) y = rndReal(r);
      auto tx = [](const std::vector<std::vector<real>>& w) { std::string s; for (auto& x : w) { for (double y : x) s += hex(y) + ","; s += "|"; } return s; };
      std::vector<real> ser;
      if (wr == root) ser = serializeInterpolationCoords(v);
      MPIUtils::broadcastContainer(ser, root, MPI_COMM_WORLD);
      record("coords", tx(v), tx(deserializeInterpolationCoords(ser, static_cast<DimType>(dim))), root);
    }
  }
}
// ------------------------------------------------------------- manager to groups
static void managed(Rng& g) {
  int workers = wn - 1;
  std::vector<int> divs;
  for (int i = 1; i <= workers; ++i) if (workers % i == 0) divs.push_back(i);
  int np = g.pick(divs), ng = workers / np;
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, static_cast<size_t>(ng), static_cast<size_t>(np), true);
  size_t dim = static_cast<size_t>(g.in(1, 3));
  auto fs = factorizations(np, static_cast<int>(dim));
  auto par = g.pick(fs);
  VTaskData::procs() = par;
  VTaskData::fwd() = false;
  LevelVector lmin(dim, 4), lmax(dim, 6);
  std::vector<BoundaryType> b;
  for (size_t d = 0; d < dim; ++d) b.push_back(static_cast<BoundaryType>(g.in(0, 2)));
  std::set<LevelVector> ls;
  for (int i = 0; i < 60 && static_cast<int>(ls.size()) < ng + 2; ++i) { LevelVector v; for (size_t d = 0; d < dim; ++d) v.push_back(g.in(4, dim == 1 ? 12 : 6)); ls.insert(v); }
  std::vector<LevelVector> lv(ls.begin(), ls.end());
  std::string o, mine;
  LinearLoadModel lm;
  Rng r(g.next());
  int updates = g.in(0, 2);
  if (static_cast<int>(lv.size()) < ng) return;
  if (wr == wn - 1) {
    ProcessGroupManagerContainer<> pg;
    for (int i = 0; i < ng; ++i) pg.emplace_back(std::make_shared<ProcessGroupManager<>>(i));
    TaskContainer<> tasks;
    std::vector<size_t> ids;
    std::vector<real> co;
    for (size_t i = 0; i < lv.size(); ++i) {
      co.push_back(rndReal(r));
      auto* t = new XTask(lv[i], b, co.back(), &lm, new StaticFaults());
      for (int k = 0, n = r.in(0, 20); k < n; ++k) t->note += static_cast<char>(r.in(33, 126));
      t->setID(i);
      ids.push_back(i);
      tasks.push_back(t);
    }
    auto var = static_cast<CombinationVariant>(r.in(0, 3));
    CombiParameters p(static_cast<DimType>(dim), lmin, lmax, b, lv, co, ids, static_cast<size_t>(r.in(1, 50)), 1, var, par, LevelVector(dim, 0), LevelVector(dim, r.in(0, 1)), static_cast<uint32_t>(r.in(1, 99)), false, "", static_cast<unsigned short>(r.in(1, 60000)), 0);
    o = content(p);
    std::map<size_t, std::string> ts;
    for (auto* t : tasks) ts[t->getID()] = dynamic_cast<XTask*>(t)->content();
    ProcessManager<> m{pg, tasks, p, std::unique_ptr<LoadModel>(new LinearLoadModel())};
    for (int i = 0; i < updates; ++i) m.updateCombiParameters();
    m.runfirst(false);
    m.exit();
    std::string s = "[";
    for (auto& x : ts) s += (s.size() > 1 ? "," : "") + js(x.second);
    o = js(o) + ",\"t\":" + s + "]";
    std::string a = "[";
    for (int k = 0; k < ng; ++k) { std::vector<int> v; for (auto* t : pg[static_cast<size_t>(k)]->getTaskContainer()) v.push_back(static_cast<int>(t->getID()) + 1); a += (k ? "," : "") + js(v); }
    o += ",\"own\":" + a + "]";
  } else {
    ProcessGroupWorker<double> w;
    SignalType x;
    std::string ps, ts;
    while ((x = w.wait()) != EXIT) {
      if (x == UPDATE_COMBI_PARAMETERS) { auto p = w.getCombiParameters(); ps += (ps.empty() ? "" : ",") + js(content(p)); }
      if (x == RUN_FIRST) {
        ts.clear();
        for (auto& t : w.getTasks()) {
          auto* y = dynamic_cast<XTask*>(t.get());
          if (y) y->setFinished(false);
          ts += (ts.empty() ? "" : ",") + js(y ? y->content() : std::string("wrong class"));
          if (y) y->setFinished(true);
        }
      }
    }
    mine = std::string(wr ? "," : "") + "{\"g\":" + std::to_string(theMPISystem()->getProcessGroupNumber() + 1) + ",\"p\":[" + ps + "],\"t\":[" + ts + "]}";
  }
  std::string oo = gather(MPI_COMM_WORLD, o);
  std::string a = gather(MPI_COMM_WORLD, mine);
  if (wr == 0) { Ev e("managed"); e.f("n", updates + 1); e.s += ",\"x\":" + oo + ",\"w\":[" + a + "]"; out << e.str(); }
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  Stats::initialize();
  Args a(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  for (int id = 0, n = a.i("n", 50); id < n; ++id) {
    if (wr == 0) out << Ev("case").f("id", id).f("np", wn).str();
    for (int s = 0, k = g.in(1, 4); s < k; ++s) {
      int x = g.in(0, 9);
      if (x < 4) pointToPoint(g); else if (x < 8 || wn < 2) broadcasts(g); else managed(g);
    }
    if (wr == 0) { out << Ev("end").str(); out.flush(); }
    MPI_Barrier(MPI_COMM_WORLD);
  }
  Stats::finalize();
  MPI_Finalize();
  return 0;
}
