// records the timing records of several processes and the files written from them (C21)
#include <unistd.h>
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#include <filesystem>
#include "vh.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;
typedef std::chrono::high_resolution_clock Clock;
static Clock::time_point base;
static long us(Clock::time_point t) { return static_cast<long>(std::chrono::duration_cast<std::chrono::microseconds>(t - base).count()); }
static long now() { return us(Clock::now()); }
static void raw(Ev& e, const char* k, const std::string& v) { e.s += ",\"" + std::string(k) + "\":" + v; }
static std::string parse(const std::string& name, bool& there, bool& ok) {
  there = std::filesystem::exists(name);
  ok = false;
  boost::property_tree::ptree t;
  if (!there) return "[]";
  try { boost::property_tree::read_json(name, t); ok = true; } catch (const std::exception&) { return "[]"; }
  std::string o;
  for (auto& r : t) {
    std::string a, v;
    if (r.second.size() != 2 || !r.second.count("attributes") || !r.second.count("events")) ok = false;
    if (r.second.count("attributes")) for (auto& x : r.second.get_child("attributes")) a += (a.empty() ? "" : ",") + std::string("[") + js(x.first) + "," + js(x.second.data()) + "]";
    if (r.second.count("events")) for (auto& x : r.second.get_child("events")) {
      std::string l;
      for (auto& p : x.second) {
        std::vector<long> q;
        for (auto& y : p.second) { long w = y.second.get_value<long>(2000000002L); q.push_back(w > 2000000000L || w < -2000000000L ? 2000000001L : w); }
        l += (l.empty() ? "" : ",") + js(q);
      }
      v += (v.empty() ? "" : ",") + std::string("[") + js(x.first) + ",[" + l + "]]";
    }
    o += (o.empty() ? "" : ",") + std::string("{\"rank\":") + js(r.first) + ",\"attr\":[" + a + "],\"ev\":[" + v + "]}";
  }
  return "[" + o + "]";
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int wr, wn;
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  Args a(argc, argv);
  const int n = a.i("n", 10), seed = a.i("seed", 1);
  std::ofstream out;
  std::string name = a.s("out", "trace.ndjson");
  if (wr == 0) out.open(name);
  std::string dir = std::filesystem::path(std::filesystem::absolute(name)).parent_path().string();
  if (chdir(dir.c_str())) MPI_Abort(MPI_COMM_WORLD, 3);
  const std::vector<std::string> pool = {"a", "combine", "run next", "reduce 0_1", "x/y", "B", "ein sehr langer Name eines Ereignisses", "0"};
  for (int c = 0; c < n; ++c) {
    Rng g(static_cast<uint64_t>(seed) * 100003 + static_cast<uint64_t>(c)), m(static_cast<uint64_t>(seed) * 7919 + static_cast<uint64_t>(c) * 131 + static_cast<uint64_t>(wr) + 17);
    base = Clock::now();
    const int ngr = g.in(1, std::min(3, wn));
    const int col = wr % ngr;
    MPI_Comm comm;
    MPI_Comm_split(MPI_COMM_WORLD, col, (g.coin() ? wr : -wr), &comm);
    int cr, cs;
    MPI_Comm_rank(comm, &cr);
    MPI_Comm_size(comm, &cs);
    std::string ops;
    auto flush = [&]() { auto s = gather(MPI_COMM_WORLD, ops); ops.clear(); if (wr == 0) out << s << std::flush; };
    if (wr == 0) ops += Ev("case").f("id", c).f("n", wn).f("ng", ngr).str();
    flush();
    for (int ses = g.in(1, 3); ses > 0; --ses) {
      long t0 = now();
      Stats::initialize();
      ops += Ev("init").f("r", wr + 1).f("a", t0).f("b", now()).f("c", col).f("k", "rank" + std::to_string(cr)).f("m", cs).str();
      std::set<std::string> open;
      const bool idle = m.coin(1, 6);
      const int phases = g.in(1, 6);
      const bool lastPartial = g.coin();
      for (int p = 0; p < phases; ++p) {
        const int nops = idle || m.coin(1, 5) ? 0 : m.in(0, m.coin(1, 8) ? 60 : 10);
        for (int i = 0; i < nops; ++i) {
          auto e = m.pick(pool);
          int what = m.in(0, 9);
          if (what < 7) {
            if (open.count(e)) {
              long x = now();
              auto ev = Stats::stopEvent(e);
              ops += Ev("stop").f("r", wr + 1).f("n", e).f("a", x).f("s", us(ev.start)).f("t", us(ev.end)).f("b", now()).f("d", Stats::getEventDurationInUsec(ev)).str();
              open.erase(e);
              if (m.coin(1, 3)) ops += Ev("last").f("r", wr + 1).f("n", e).f("ms", Stats::getEventDuration(ev)).f("g", Stats::getDuration(e)).str();
            } else {
              long x = now();
              Stats::startEvent(e);
              ops += Ev("start").f("r", wr + 1).f("n", e).f("a", x).f("b", now()).str();
              open.insert(e);
            }
          } else if (what == 7) {
            std::string v = m.coin(1, 4) ? std::string() : std::to_string(m.in(0, 3)) + (m.coin() ? " {x, y}:[1]" : "");
            Stats::setAttribute(e, v);
            ops += Ev("attr").f("r", wr + 1).f("n", e).f("v", v).str();
          } else if (m.coin(1, 3)) usleep(static_cast<unsigned>(m.in(0, 1500)));
        }
        if (p == phases - 1) {  // all events have ended
          std::vector<std::string> still(open.begin(), open.end());
          while (!still.empty()) {
            size_t k = static_cast<size_t>(m.in(0, static_cast<int>(still.size()) - 1));
            auto e = still[k];
            still.erase(still.begin() + static_cast<long>(k));
            long x = now();
            auto ev = Stats::stopEvent(e);
            ops += Ev("stop").f("r", wr + 1).f("n", e).f("a", x).f("s", us(ev.start)).f("t", us(ev.end)).f("b", now()).f("d", Stats::getEventDurationInUsec(ev)).str();
          }
          open.clear();
        }
        flush();
        if (p < phases - 1 || lastPartial) {
          std::string f = "times_" + std::to_string(col) + ".json";
          Stats::writePartial(f, comm);
          // the number of the file is found in the directory
          if (cr == 0) {
            std::string is;
            std::vector<std::string> found;
            for (auto& d : std::filesystem::directory_iterator(".")) {
              auto s = d.path().filename().string();
              if (s.size() > f.size() && s.compare(s.size() - f.size(), f.size(), f) == 0) found.push_back(s);
            }
            bool there = false, ok = false;
            std::string content = "[]", no = "";
            if (found.size() == 1) { no = found[0].substr(0, found[0].size() - f.size()); content = parse(found[0], there, ok); std::filesystem::remove(found[0]); }
            Ev e("partial");
            e.f("c", col).f("no", no).f("there", there).f("ok", ok);
            raw(e, "f", content);
            ops += e.str();
          }
          flush();
        }
      }
      Stats::finalize();
      std::string f = "all_" + std::to_string(col) + ".json";
      Stats::write(f, comm);
      if (cr == 0) {
        bool there, ok;
        auto content = parse(f, there, ok);
        if (g.coin()) std::filesystem::remove(f);  // else the next session has to replace it
        Ev e("write");
        e.f("c", col).f("there", there).f("ok", ok);
        raw(e, "f", content);
        ops += e.str();
      }
      flush();
      MPI_Barrier(MPI_COMM_WORLD);
      g = Rng(g.next());
      { uint64_t s = g.s; MPI_Bcast(&s, 1, MPI_UINT64_T, 0, MPI_COMM_WORLD); g.s = s; }
    }
    MPI_Comm_free(&comm);
  }
  if (wr == 0) { out << Ev("end").str(); out.close(); }
  MPI_Finalize();
  return 0;
}
