// two systems that talk to the real broker over loopback sockets (C14)
#include <atomic>
#include <fcntl.h>
#include <algorithm>
#include <mutex>
#include <thread>
#include "third_level/ThirdLevelUtils.hpp"
#include "vh.hpp"
#include "broker.hpp"
using namespace combigrid;
using namespace vh;
static std::mutex mu;
static std::vector<std::string> evs;
static void rec(const Ev& e) { std::lock_guard<std::mutex> g(mu); evs.push_back(e.s + "}"); }
struct Op { std::string k; std::vector<int> n; bool both; };
static const long P = 536870909;
// small arrays in full, and two linear sums of every array
template <typename T>
static std::string desc(const std::vector<T>& v) {
  long a = 0, b = 0, w = 1;
  for (size_t i = 0; i < v.size(); ++i) {
    long x = static_cast<long>(v[i]) % P;
    w = w * 48271 % P;
    a = (a + w * x) % P;
    b = (b + static_cast<long>(i % 100003 + 1) * x) % P;
  }
  std::string s = "{\"n\":" + std::to_string(v.size()) + ",\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b) + ",\"v\":[";
  if (v.size() <= 12) for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(static_cast<long>(v[i]));
  return s + "]}";
}
template <typename T>
static std::vector<T> fill(Rng& g, int n) { std::vector<T> v(n); for (auto& x : v) x = static_cast<T>(g.in(0, 100000)); return v; }
struct Sys {
  int id;
  Rng g;
  const std::vector<Op>& ops;
  int port, lazy;
  const Broker* broker = nullptr;
  std::atomic<bool>* otherGone = nullptr;
  bool waitForOther = false;
  Sys(int i, uint64_t s, const std::vector<Op>& o, int p, int l) : id(i), g(s), ops(o), port(p), lazy(l) {}
  void nap() { if (g.in(0, 9) < lazy) usleep(g.in(0, 9) ? g.in(0, 3000) : g.in(0, 30000)); }
  Ev ev(const char* e) { Ev x(e); x.f("s", id); return x; }
  template <typename T>
  void send(ThirdLevelUtils& t, const std::vector<T>& v) {
    Ev e = ev("sent"); e.s += ",\"d\":" + desc(v); rec(e);
    t.sendData(v.data(), v.size());
  }
  template <typename T>
  void recv(ThirdLevelUtils& t, std::vector<T>& v) {
    t.recvData(v.data(), v.size());
    Ev e = ev("got"); e.s += ",\"d\":" + desc(v); rec(e);
  }
  template <typename T>
  void add(ThirdLevelUtils& t, std::vector<T>& v) {
    Ev o = ev("own"); o.s += ",\"d\":" + desc(v); rec(o);
    t.recvAndAddToData(v.data(), v.size());
    Ev e = ev("sum"); e.s += ",\"d\":" + desc(v); rec(e);
  }
  template <typename T>
  void swap(ThirdLevelUtils& t, const Op& o, bool first) {
    std::vector<T> mine = fill<T>(g, o.n[0]), theirs(o.n[o.both ? 1 : 0]);
    // data of the first: n[0] elements, of the second: n[1] elements
    if (first) {
      send(t, mine); nap();
      if (o.both) recv(t, theirs);
    } else {
      theirs.resize(o.n[0]);
      recv(t, theirs); nap();
      if (o.both) { mine = fill<T>(g, o.n[1]); send(t, mine); }
    }
  }
  void run() {
    ThirdLevelUtils t("localhost", port);
    nap();
    t.connectToThirdLevelManager(5.);
    rec(ev("up"));
    for (auto& o : ops) {
      nap();
      { Ev e = ev("ask"); e.f("k", o.k); rec(e); }
      if (o.k == "combine") t.signalReadyToCombine();
      else if (o.k == "file") t.signalReadyToCombineFile();
      else if (o.k == "sizes") t.signalReadyToUnifySubspaceSizes();
      else t.signalReadyToExchangeData();
      std::string ins = t.fetchInstruction();
      { Ev e = ev("ins"); e.f("i", ins); rec(e); }
      bool first = ins == "send_first";
      nap();
      if (o.k == "combine") {
        for (int n : o.n) {
          auto d = fill<double>(g, n);
          if (first) { send(t, d); nap(); recv(t, d); } else { add(t, d); nap(); send(t, d); }
        }
      } else if (o.k == "sizes") swap<SubspaceSizeType>(t, o, first);
      else if (o.k == "data") swap<double>(t, o, first);
      nap();
      rec(ev("ready"));
      t.signalReady();
    }
    nap();
    // the last one: the broker has to wait for it
    if (waitForOther) { for (int i = 0; i < 5000 && !*otherGone; ++i) usleep(1000); usleep(40000); }
    rec(ev("fin").f("up", broker->running()));
  }
};
int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  Args a(argc, argv);
  std::ofstream out(a.s("out", "trace.ndjson"));
  int n = a.i("n", 10);
  for (int c = 0; c < n; ++c) {
    Rng r(static_cast<uint64_t>(a.i("seed", 1)) * 100003 + c);
    evs.clear();
    std::vector<Op> ops;
    int systems = r.in(0, 15) == 0 ? 1 : 2;
    int k = systems == 1 ? 0 : r.in(0, 7);
    auto len = [&] { int x = r.in(0, 9); return x < 6 ? r.in(1, 12) : x < 9 ? r.in(13, 3000) : r.in(3001, 60000); };
    for (int i = 0; i < k; ++i) {
      Op o;
      o.k = r.pick(std::vector<std::string>{"combine", "combine", "sizes", "data", "data", "file"});
      o.both = o.k == "sizes" || r.coin();
      int m = o.k == "combine" ? r.in(1, 4) : o.k == "file" ? 0 : 2;
      for (int j = 0; j < m; ++j) o.n.push_back(len());
      if (!o.both && m == 2 && o.k == "data") o.n[1] = 0;
      ops.push_back(o);
    }
    long chunk = r.pick(std::vector<long>{0, 1, 2, 3, 7, 8, 9, 64, 1000, 4096, 131072, 200000});
    bool big = false;
    for (auto& o : ops) for (int x : o.n) big |= x > 3000;
    if (big && chunk > 0 && chunk < 64) chunk = 64;
    Broker b;
    if (!b.start(systems, chunk, r.coin(), r.coin() ? static_cast<unsigned>(r.in(1, 1 << 30)) : 0)) { fprintf(stderr, "broker does not start\n"); return 3; }
    Ev ce("case");
    std::string os = "[";
    for (size_t i = 0; i < ops.size(); ++i) os += (i ? "," : "") + std::string("{\"k\":\"") + ops[i].k + "\",\"both\":" + (ops[i].both ? "true" : "false") + ",\"n\":" + js(ops[i].n) + "}";
    ce.f("systems", systems).f("chunk", chunk);
    ce.s += ",\"ops\":" + os + "]";
    rec(ce);
    std::vector<std::thread> th;
    int lz = r.in(0, 9), which = r.in(0, 2);
    int last = systems == 2 && r.coin() ? r.in(1, 2) : 0;
    std::atomic<bool> gone{false};
    for (int s = 1; s <= systems; ++s) {
      uint64_t sd = r.next();
      th.emplace_back([&, s, sd] { Sys x(s, sd, ops, b.port, which == 0 || which == s ? lz : 0);
        x.broker = &b; x.otherGone = &gone; x.waitForOther = s == last;
        try { x.run(); } catch (const std::exception& ex) { rec(Ev("broken").f("s", s).f("what", std::string(ex.what()))); }
        if (s != last) gone = true; });
    }
    for (auto& x : th) x.join();
    int st = b.end(120);
    Ev e("end");
    e.f("status", st).f("combis", b.stat("numCombinations")).f("bytes", b.stat("totalBytesTransferredInCombination"))
        .f("per", b.stat("numBytesTransferredPerCombination")).f("sizes", b.stat("totalBytesTransferredInSizeExchange"));
    if (st != 0) e.f("err", b.errors());
    rec(e);
    for (auto& x : evs) out << x << "\n";
    out.flush();
  }
  return 0;
}
