// records systems that are coupled through files (C11, C12)
#include <dirent.h>
#include <filesystem>
#include <mutex>
#include <thread>
#include "combigen.hpp"
#include "tick.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;
static std::ofstream out;
static int wr, wn;
static Tick tk;
static int mySys = 0, myGrp = 0, myPos = 0;
static uint64_t caseSeed, calls;
static int pace;
static bool hooks = false;
static void raw(Ev& e, const char* k, const std::string& v) { e.s += ",\"" + std::string(k) + "\":" + v; }
static void delay(uint64_t a) {
  if (!pace) return;
  uint64_t x = mix(caseSeed, a * 31 + static_cast<uint64_t>(mySys), static_cast<uint64_t>(myPos) * 7 + calls++);
  int slow = mix(caseSeed, static_cast<uint64_t>(mySys), 77) % 2 ? 5 : 1;
  if (x % 3) usleep(static_cast<useconds_t>(x / 3 % static_cast<uint64_t>(3000 * pace * slow)));
}
// files: which process opens and closes which file; writers may be slow
static std::map<MPI_File, std::pair<std::string, bool>> opened;
static std::string base(const std::string& f) { auto p = f.rfind('/'); return p == std::string::npos ? f : f.substr(p + 1); }
extern "C" int MPI_File_open(MPI_Comm c, const char* n, int mode, MPI_Info i, MPI_File* f) {
  bool w = mode & (MPI_MODE_WRONLY | MPI_MODE_RDWR);
  if (hooks) {
    tk.rec(Ev(w ? "wopen" : "ropen").f("y", mySys + 1).f("q", wr).f("f", base(n)));
    if (w) delay(1);
  }
  int r = PMPI_File_open(c, n, mode, i, f);
  if (hooks && r == MPI_SUCCESS) opened[*f] = {base(n), w};
  if (hooks && r != MPI_SUCCESS) tk.rec(Ev("nopen").f("q", wr).f("f", base(n)).f("w", w));
  return r;
}
extern "C" int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) {
  if (hooks) delay(2);
  return PMPI_File_write_at_all(f, o, b, n, t, s);
}
extern "C" int MPI_File_close(MPI_File* f) {
  if (hooks) {
    auto it = opened.find(*f);
    if (it != opened.end()) {
      delay(3);
      tk.rec(Ev(it->second.second ? "wclose" : "rclose").f("y", mySys + 1).f("q", wr).f("f", it->second.first));
      opened.erase(it);
    }
  }
  return PMPI_File_close(f);
}
struct Couple {
  CombiCase c;
  int ns = 1, steps = 1, parts = 1;
  std::vector<int> ng;       // groups per system
  std::vector<int> first;    // first group of a system
  std::string mode;          // own: one system reads its own file, direct: two systems, copy: an agent carries files over
  bool keep = false, reuse = false;
  std::string dir;
  std::vector<std::vector<int>> pts;  // large grids: points to look at
  std::vector<std::string> by;  // files of others in the same directory
};
static std::string listing(const std::string& d) {
  std::vector<std::string> v;
  for (auto& x : std::filesystem::directory_iterator(d.empty() ? "." : d)) {
    auto n = x.path().filename().string();
    if (x.is_regular_file() && (n.substr(0, 2) == "g_" || n.substr(0, 2) == "z_" || n.substr(0, 3) == "xg_")) v.push_back(n);
  }
  std::sort(v.begin(), v.end());
  return js(v);
}
static std::string sizes(const AnyDistributedSparseGrid& d) { std::vector<int> v; for (auto x : d.getSubspaceDataSizes()) v.push_back(static_cast<int>(x)); return js(v); }
static void copyFile(const std::string& a, const std::string& b) {
  // in pieces, so that a reader who does not wait for the token sees half a file
  std::ifstream i(a, std::ios::binary);
  std::ofstream o(b, std::ios::binary);
  std::vector<char> buf(std::filesystem::file_size(a) > 100000 ? 32768 : 64);
  int n = 0;
  while (i.read(buf.data(), static_cast<long>(buf.size())) || i.gcount() > 0) { o.write(buf.data(), i.gcount()); o.flush(); if (pace && ++n % 8 == 0) usleep(300); }
}
template <class T> void system1(const Couple& k, MPI_Comm comm) {
  const CombiCase& c = k.c;
  theMPISystem()->initWorldReusable(comm, static_cast<size_t>(k.ng[static_cast<size_t>(mySys)]), static_cast<size_t>(c.np), false);
  theMPISystem()->initOutputGroupComm(static_cast<uint16_t>(k.parts));
  myGrp = theMPISystem()->getProcessGroupNumber();
  myPos = getCommRank(theMPISystem()->getLocalComm());
  VTaskData::procs() = c.P;
  ProcessGroupWorker<T> w;
  w.setCombiParameters(c.params());
  std::vector<LevelVector> ls;
  std::vector<real> cs;
  std::vector<size_t> ids;
  int gg = k.first[static_cast<size_t>(mySys)] + myGrp;
  for (size_t i = 0; i < c.grids.size(); ++i)
    if (c.owner[i] == gg) { ls.push_back(c.lv(c.grids[i])); cs.push_back(c.coef[i]); ids.push_back(i); }
  static LinearLoadModel lm;
  w.template initializeAllTasks<VTaskT<T>>(ls, cs, ids, &lm);
  w.initCombinedDSGVector();
  bool io = theMPISystem()->getOutputGroupComm() != MPI_COMM_NULL;
  {
    // sizes of the group before the exchange come from its grids alone
    DistributedSparseGridUniform<T> own(static_cast<DimType>(c.dim), w.getCombinedDSGVector()[0]->getAllLevelVectors(), theMPISystem()->getLocalComm());
    for (auto& t : w.getTasks()) own.registerDistributedFullGrid(t->getDistributedFullGrid(0));
    Ev e("reg");
    e.f("y", mySys + 1).f("g", myGrp + 1).f("p", myPos).f("io", io);
    raw(e, "n", sizes(own));
    tk.rec(e);
  }
  auto zf = [&](int s) { return k.dir + "z_" + std::to_string(s); };
  std::vector<std::string> rf, rt;
  for (int s = 0; s < k.ns; ++s) if (s != mySys || k.ns == 1) { rf.push_back(zf(s)); rt.push_back(zf(s) + "_tok"); }
  delay(11);
  int nred = w.reduceExtraSubspaceSizesFileBased(zf(mySys), zf(mySys) + "_tok", rf, rt);
  {
    Ev e("sizes");
    e.f("y", mySys + 1).f("g", myGrp + 1).f("p", myPos).f("io", io).f("red", nred);
    raw(e, "n", sizes(*w.getCombinedDSGVector()[0]));
    raw(e, "x", io ? sizes(*w.getExtraDSGVector()[0]) : "[]");
    e.f("raw", io ? w.getExtraDSGVector()[0]->getRawDataSize() : 0);
    tk.rec(e);
  }
  auto vals = [&](const char* what, int s) {
    for (auto& t : w.getTasks()) {
      std::vector<double> sh;
      for (auto& x : k.pts) sh.push_back(shareAt(t->getDistributedFullGrid(0), c, t->getID(), x));
      auto v = k.pts.empty() ? allValues(t->getDistributedFullGrid(0), theMPISystem()->getLocalComm()) : summed(sh, theMPISystem()->getLocalComm());
      if (myPos == 0) tk.rec(Ev(what).f("y", mySys + 1).f("t", t->getID() + 1).f("s", s).f("v", v));
    }
  };
  bool carrier = k.mode == "copy" && getCommRank(comm) == 0;
  auto nameOf = [&](int s, int from) { return "g_" + std::to_string(from) + "_" + std::to_string(k.reuse ? s % 2 : s); };
  auto copyOf = [&](int s, int from, int to) { return "g_" + std::to_string(from) + "to" + std::to_string(to) + "_" + std::to_string(s); };
  std::thread agent;
  if (carrier)
    agent = std::thread([&]() {
      for (int s = 1; s <= k.steps; ++s)
        for (int p = 0; p < k.parts; ++p) {
          std::string d = k.dir + nameOf(s, mySys), pp = ".part" + std::to_string(p);
          while (!std::filesystem::exists(d + "_tok" + pp)) usleep(1000);
          for (int to = 0; to < k.ns; ++to)
            if (to != mySys) {
              std::string n = k.dir + copyOf(s, mySys, to);
              copyFile(d + "_0" + pp, n + "_0" + pp);
              tk.rec(Ev("carry").f("y", mySys + 1).f("f", base(d + "_0" + pp)).f("to", base(n + "_0" + pp)));
              std::ofstream tok(n + "_tok" + pp);
            }
          std::filesystem::remove(d + "_0" + pp);
          std::filesystem::remove(d + "_tok" + pp);
          tk.rec(Ev("drop").f("y", mySys + 1).f("f", base(d + "_0" + pp)));
        }
    });
  long scale = 1L << c.K;
  for (int s = 1; s <= k.steps; ++s) {
    prescribe(c, caseSeed + static_cast<uint64_t>(s) * 7919, scale);
    w.runAllTasks();
    vals("run", s);
    delay(12);
    std::string n = k.dir + nameOf(s, mySys);
    if (io && myPos == 0) tk.rec(Ev("step").f("y", mySys + 1).f("s", s));
    w.combineSystemWideAndWrite(n, n + "_tok");
    delay(13);
    std::vector<std::string> df, dt;
    for (int o = 0; o < k.ns; ++o)
      if (o != mySys || k.ns == 1) { std::string m = k.dir + (k.mode == "copy" ? copyOf(s, o, mySys) : nameOf(s, o)); df.push_back(m); dt.push_back(m + "_tok"); }
    w.combineReadDistributeSystemWide(df, dt, k.ns == 1, k.keep);
    vals("comb", s);
    if (io && myPos == 0) tk.rec(Ev("stepped").f("y", mySys + 1).f("s", s).f("n", w.getCurrentNumberOfCombinations()));
  }
  if (carrier) agent.join();
  w.exit();
}
int main(int argc, char** argv) {
  int prov;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
  Stats::initialize();
  Args a(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  if (!tk.open(wr)) return 3;
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  for (int id = 0, n = a.i("n", 10); id < n; ++id) {
    bool big = a.i("big", 0);
    Couple k;
    std::vector<int> nps;
    for (int p = 1; p <= std::min(wn, 4); ++p) if (wn % p == 0) nps.push_back(p);
    int np = g.pick(nps), G = wn / np;
    k.ns = std::min(G, g.pick(std::vector<int>{1, 2, 2, 2, 3, 3}));
    k.ng.assign(static_cast<size_t>(k.ns), 1);
    for (int i = k.ns; i < G; ++i) ++k.ng[static_cast<size_t>(g.in(0, k.ns - 1))];
    int f = 0;
    for (int x : k.ng) { k.first.push_back(f); f += x; }
    k.c = big ? bigCombi(g, wn, G) : randCombi(g, wn, a.i("maxpts", 250), G, std::max(8, G + 2));
    if (k.c.variant == "sub") k.c.variant = g.pick(std::vector<std::string>{"sg", "out", "chunk"});
    std::vector<int> ps;
    for (int p = 1; p <= np; ++p) if (np % p == 0) ps.push_back(p);
    k.parts = g.pick(ps);
    k.steps = a.i("sizes", 0) ? 0 : g.in(1, 3);
    k.mode = k.ns == 1 ? "own" : k.ns == 2 && g.coin() ? "direct" : "copy";
    k.keep = g.coin(1, 3);
    k.reuse = k.mode == "copy" ? false : !k.keep && g.coin();
    if (k.keep && k.mode == "own") k.keep = g.coin();
    k.dir = g.pick(std::vector<std::string>{"", "", "sub/", "./sub/", "./"});
    if (g.coin()) {
      std::string f = k.mode == "copy" ? "0to1_1" : g.coin() ? "0_1" : "1_1";
      std::string q = "g_" + f + "_0.part0";
      for (auto& b : {"x" + q, q + "0", q + ".bak", "g_" + f + "_00", "g_" + f + "1_0.part0"}) if (g.coin()) k.by.push_back(b);
    }
    caseSeed = g.next();
    calls = 0;
    pace = g.in(0, 3);
    if (big) { k.pts = somePoints(g, k.c, 150); k.steps = std::min(k.steps, 2); }
    Ev e = k.c.ev(id + (big ? 100000 : 0));
    raw(e, "pts", js(k.pts));
    std::vector<int> sys;
    for (size_t i = 0; i < k.c.grids.size(); ++i) { int y = 0; while (y + 1 < k.ns && k.first[static_cast<size_t>(y + 1)] <= k.c.owner[i]) ++y; sys.push_back(y + 1); }
    e.f("ns", k.ns).f("gs", k.ng).f("sys", sys).f("steps", k.steps).f("parts", k.parts).f("mode", k.mode).f("keep", k.keep).f("reuse", k.reuse);
    raw(e, "by", js(k.by));
    if (wr == 0) { out << e.str(); out.flush(); }
    if (wr == 0) {
      for (std::string d : {".", "sub"}) {
        std::filesystem::create_directory("sub");
        for (auto& x : std::filesystem::directory_iterator(d)) { auto q = x.path().filename().string(); if (q.substr(0, 2) == "g_" || q.substr(0, 2) == "z_" || q.substr(0, 3) == "xg_") std::filesystem::remove(x.path()); }
      }
      for (auto& b : k.by) { std::ofstream o(k.dir + b); o << "somebody else's"; }
    }
    int grp = wr / np;
    mySys = 0;
    while (mySys + 1 < k.ns && k.first[static_cast<size_t>(mySys + 1)] <= grp) ++mySys;
    MPI_Comm comm;
    MPI_Comm_split(MPI_COMM_WORLD, mySys, wr, &comm);
    MPI_Barrier(MPI_COMM_WORLD);
    hooks = true;
    system1<double>(k, comm);
    hooks = false;
    MPI_Barrier(MPI_COMM_WORLD);
    if (wr == 0) { Ev f2("files"); raw(f2, "l", listing(k.dir)); tk.rec(f2); }
    tk.flush(out, wr);
    if (wr == 0) { out << Ev("end").str(); out.flush(); }
    MPI_Barrier(MPI_COMM_WORLD);
  }
  Stats::finalize();
  MPI_Finalize();
  return 0;
}
