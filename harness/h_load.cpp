// records load models and rescheduling decisions (C18); writes duration files into the working directory
#include <dirent.h>
#include <unistd.h>
#include <fstream>
#include "loadmodel/AverageOfLastNLoadModel.hpp"
#include "loadmodel/AveragingLoadModel.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "rescheduler/RebalancingTaskRescheduler.hpp"
#include "rescheduler/StaticTaskRescheduler.hpp"
#include "vh.hpp"
using namespace combigrid;
using namespace vh;
static std::ofstream out;
static std::vector<LevelVector> randLevels(Rng& g, int n) {
  std::set<LevelVector> s;
  size_t dim = static_cast<size_t>(g.in(1, 4));
  for (int tries = 0; static_cast<int>(s.size()) < n && tries < 200; ++tries) {
    LevelVector v;
    for (size_t d = 0; d < dim; ++d) v.push_back(g.in(1, dim == 1 ? 12 : 5));
    s.insert(v);
  }
  std::vector<LevelVector> r(s.begin(), s.end());
  for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[static_cast<size_t>(g.in(0, static_cast<int>(i) - 1))]);
  return r;
}
static std::string levs(const std::vector<LevelVector>& v) {
  std::string ls = "[";
  for (auto& l : v) ls += (ls.size() > 1 ? "," : "") + js(std::vector<int>(l.begin(), l.end()));
  return ls + "]";
}
static void lastN(Rng& g, int id) {
  auto lv = randLevels(g, g.in(1, 5));
  bool big = g.coin(1, 3);
  unsigned long unit = big ? 600000000ul : 1ul;
  long q = big ? 60 : 1;
  int n = g.in(1, 6);
  Ev e("case");
  e.f("id", id).f("kind", "last").f("n", n).f("q", q);
  e.s += ",\"lv\":" + levs(lv);
  out << e.str();
  AverageOfLastNLoadModel m(static_cast<unsigned>(n), lv, std::unique_ptr<LoadModel>(new LinearLoadModel()));
  for (int s = 0, k = g.in(5, 40); s < k; ++s) {
    int i = g.in(0, static_cast<int>(lv.size()) - 1);
    const auto& l = lv[static_cast<size_t>(i)];
    switch (g.in(0, 3)) {
      case 0: case 1: {
        int d = g.in(0, 40);
        m.addDurationInformation(DurationInformation{static_cast<size_t>(i), unit * static_cast<unsigned long>(d), 1., 1., 0, 1}, l);
        out << Ev("add").f("i", i + 1).f("d", d).str();
        break;
      }
      case 2: {
        long r = static_cast<long>(m.evalSpecificUOT(l).count());
        long step = static_cast<long>(unit) / q;
        out << Ev("usec").f("i", i + 1).f("r", r >= 0 && r % step == 0 && r / step < 1000000 ? r / step : -1).str();
        break;
      }
      default: {
        double r = m.eval(l);
        long step = static_cast<long>(unit) / q;
        // estimates from durations are in the same unit as above, the others are not
        out << Ev("eval").f("i", i + 1).f("raw", exact(r)).f("r", exact(r / static_cast<double>(step))).str();
      }
    }
  }
  out << Ev("end").str();
}
static std::string fname(const LevelVector& l) { return "./l_" + toString(l) + ".durations"; }
static void averaging(Rng& g, int id) {
  auto lv = randLevels(g, g.in(1, 4));
  for (auto& l : lv) unlink(fname(l).c_str());
  Ev e("case");
  e.f("id", id).f("kind", "file").f("n", 0).f("q", 1);
  e.s += ",\"lv\":" + levs(lv);
  out << e.str();
  for (int session = 0, ns = g.in(1, 3); session < ns; ++session) {
    {
      AveragingLoadModel m(lv);
      out << Ev("open").str();
      for (int s = 0, k = g.in(1, 40); s < k; ++s) {
        int i = g.in(0, static_cast<int>(lv.size()) - 1);
        const auto& l = lv[static_cast<size_t>(i)];
        if (g.coin()) {
          int rep = g.coin(1, 12) ? 45 : 1;
          for (int t = 0; t < rep; ++t) {
            int d = g.in(0, 400);
            m.addDurationInformation(DurationInformation{static_cast<size_t>(i), static_cast<unsigned long>(d), 3., 2., id, 4}, l);
            out << Ev("add").f("i", i + 1).f("d", d).str();
          }
        } else {
          out << Ev("mean").f("i", i + 1).f("r", static_cast<long>(std::floor(m.eval(l) * 1000. + 0.5))).str();
        }
      }
    }
    std::string fs = "[";
    for (auto& l : lv) {
      std::ifstream f(fname(l));
      std::vector<long> v;
      std::string line;
      while (std::getline(f, line)) {
        std::istringstream is(line);
        double a, b, c, d;
        if (is >> a >> b >> c >> d) v.push_back(b == 2. && c == 3. && d == id ? static_cast<long>(a) : -2); else v.push_back(-1);
      }
      fs += (fs.size() > 1 ? "," : "") + js(v);
    }
    Ev c("close");
    c.s += ",\"f\":" + fs + "]";
    out << c.str();
  }
  for (auto& l : lv) unlink(fname(l).c_str());
  out << Ev("end").str();
}
static void rebalance(Rng& g, int id) {
  auto lv = randLevels(g, g.in(1, 7));
  int n = g.in(1, 3), G = g.in(1, 4), iters = g.in(0, 5), imb = g.pick(std::vector<int>{0, 100, 100, 105, 110, 130, 150, 200});
  Ev e("case");
  e.f("id", id).f("kind", "last").f("n", n).f("q", 1);
  e.s += ",\"lv\":" + levs(lv);
  out << e.str();
  AverageOfLastNLoadModel m(static_cast<unsigned>(n), lv, std::unique_ptr<LoadModel>(new LinearLoadModel()));
  RebalancingTaskRescheduler reb(static_cast<unsigned>(iters), imb / 100.);
  StaticTaskRescheduler stat;
  std::map<LevelVector, int> place;
  std::map<LevelVector, unsigned long> dur;
  int scale = g.pick(std::vector<int>{1, 3, 20, 200});
  for (auto& l : lv) place[l] = g.in(0, G - 1);
  for (int round = 0, k = g.in(1, 5); round < k; ++round) {
    // durations become known for all levels, or for some
    for (size_t i = 0; i < lv.size(); ++i)
      if (!g.coin(1, 8)) {
        int d = g.in(0, scale);
        m.addDurationInformation(DurationInformation{i, static_cast<unsigned long>(d), 1., 1., 0, 1}, lv[i]);
        dur[lv[i]] = static_cast<unsigned long>(d);
        out << Ev("add").f("i", static_cast<int>(i) + 1).f("d", d).str();
      }
    std::vector<long> p, d;
    for (auto& l : lv) { p.push_back(place[l]); d.push_back(dur.count(l) ? static_cast<long>(dur[l]) : -1); }
    bool useStatic = g.coin(1, 10);
    auto mv = useStatic ? stat.eval(place, dur, &m) : reb.eval(place, dur, &m);
    std::string ms = "[";
    for (auto& x : mv) {
      long i = 0;
      for (size_t j = 0; j < lv.size(); ++j) if (lv[j] == x.first) i = static_cast<long>(j) + 1;
      ms += (ms.size() > 1 ? "," : "") + js(std::vector<long>{i, x.second});
    }
    Ev v("plan");
    v.f("place", p).f("dur", d).f("iters", useStatic ? 0 : iters).f("imb", imb);
    v.s += ",\"mv\":" + ms + "]";
    out << v.str();
    for (auto& x : mv) place[x.first] = x.second;
  }
  out << Ev("end").str();
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  Stats::initialize();
  Args a(argc, argv);
  out.open(a.s("out", "trace.ndjson"));
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  for (int id = 0, n = a.i("n", 100); id < n; ++id) {
    int k = g.in(0, 9);
    if (k < 3) lastN(g, id); else if (k < 5) averaging(g, id); else rebalance(g, id);
    out.flush();
  }
  Stats::finalize();
  MPI_Finalize();
  return 0;
}
