// records transfers over real sockets whose send and recv calls are split in every possible way (C15)
#include <sys/syscall.h>
#include <algorithm>
#include <cstring>
#include <mutex>
#include <thread>
#include "third_level/NetworkUtils.hpp"
#include "vh.hpp"
using namespace combigrid;
using namespace vh;
// the calls move only as many bytes as the plan of the case allows
static std::mutex mu;
static std::map<int, long> wrote, got;
static std::vector<int> rplan, wplan;
static size_t ri, wi;
static long cutAt = -1;  // sender stops after so many bytes
static int cutFd = -1;
extern "C" ssize_t recv(int fd, void* b, size_t n, int flags) {
  size_t m = n;
  {
    std::lock_guard<std::mutex> g(mu);
    if (!rplan.empty()) { int x = rplan[ri++ % rplan.size()]; if (x > 0) m = std::min(n, static_cast<size_t>(x)); }
  }
  ssize_t r = syscall(SYS_recvfrom, fd, b, m, flags, nullptr, nullptr);
  std::lock_guard<std::mutex> g(mu);
  if (r > 0) got[fd] += r;
  return r;
}
extern "C" ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int flags) { return recv(fd, b, n, flags); }
extern "C" ssize_t send(int fd, const void* b, size_t n, int flags) {
  size_t m = n;
  {
    std::lock_guard<std::mutex> g(mu);
    if (!wplan.empty()) { int x = wplan[wi++ % wplan.size()]; if (x > 0) m = std::min(n, static_cast<size_t>(x)); }
    if (fd == cutFd && cutAt >= 0) {
      long left = cutAt - wrote[fd];
      if (left <= 0) { errno = EPIPE; return -1; }
      m = std::min(m, static_cast<size_t>(left));
    }
  }
  ssize_t r = syscall(SYS_sendto, fd, b, m, flags | MSG_NOSIGNAL, nullptr, 0);
  std::lock_guard<std::mutex> g(mu);
  if (r > 0) wrote[fd] += r;
  return r;
}
static long wroteOf(int fd) { std::lock_guard<std::mutex> g(mu); return wrote[fd]; }
static long gotOf(int fd) { std::lock_guard<std::mutex> g(mu); return got[fd]; }
struct Msg {
  std::string k;        // raw, msg, bin
  std::string type;     // element type of bin
  bool other = false;   // sent with the other byte order
  bool alt = false;     // the other overload of the function
  std::vector<long> v;
};
static int sizeOf(const std::string& t) { return t == "u8" ? 1 : t == "u16" ? 2 : t == "i32" || t == "f32" ? 4 : 8; }
static long bytesOf(const Msg& m) {
  long n = static_cast<long>(m.v.size());
  if (m.k == "raw") return n;
  if (m.k == "msg") return static_cast<long>(std::to_string(n).size()) + 1 + n;
  return 1 + n * sizeOf(m.type);
}
static std::string text(const std::vector<long>& v) { std::string s; for (long x : v) s += static_cast<char>(x); return s; }
static std::vector<long> nums(const char* p, size_t n) { std::vector<long> v; for (size_t i = 0; i < n; ++i) v.push_back(static_cast<unsigned char>(p[i])); return v; }
template <class T> bool sendBin(const ClientSocket& c, const Msg& m) {
  std::vector<T> d;
  for (long x : m.v) d.push_back(static_cast<T>(x));
  if (!m.other) return c.sendallBinary(d.data(), d.size());
  std::string raw(1, static_cast<char>(!NetworkUtils::isLittleEndian()));
  for (auto& x : d) { char b[sizeof(T)]; memcpy(b, &x, sizeof(T)); std::reverse(b, b + sizeof(T)); raw.append(b, sizeof(T)); }
  return c.sendall(raw);
}
#define TYPES(t, f) (t == "u8" ? f(uint8_t) : t == "u16" ? f(uint16_t) : t == "i32" ? f(int32_t) : t == "f32" ? f(float) : t == "i64" ? f(int64_t) : f(double))
static bool sendMsg(const ClientSocket& c, const Msg& m) {
  std::string s = text(m.v);
  if (m.k == "raw") return m.alt ? c.sendall(s.data(), s.size()) : c.sendall(s);
  if (m.k == "msg") return m.alt ? c.sendallPrefixed(s.data(), s.size()) : c.sendallPrefixed(s);
#define F(T) sendBin<T>(c, m)
  return TYPES(m.type, F);
#undef F
}
template <class T> std::vector<long> recvBin(const ClientSocket& c, size_t n, const std::vector<long>* add, size_t chunk, bool& ok) {
  // neighbours of the array must not change
  std::vector<T> d(n + 2, static_cast<T>(77));
  if (add) for (size_t i = 0; i < n; ++i) d[i + 1] = static_cast<T>((*add)[i]);
  if (add) ok = c.recvallBinaryAndReduceInPlace<T>(d.data() + 1, n, [](const T& a, const T& b) -> T { return static_cast<T>(a + b); }, chunk);
  else ok = c.recvallBinaryAndCorrectInPlace<T>(d.data() + 1, n, chunk);
  std::vector<long> v;
  for (size_t i = 0; i < n; ++i) v.push_back(exact(static_cast<double>(d[i + 1])));
  if (d[0] != static_cast<T>(77) || d[n + 1] != static_cast<T>(77)) v.push_back(2000000003L);
  return v;
}
static std::vector<int> plan(Rng& g) {
  int mode = g.in(0, 4);
  if (mode == 0) return {};
  if (mode == 1) return {1};
  std::vector<int> p;
  int hi = mode == 2 ? 3 : mode == 3 ? 9 : 60;
  for (int i = 0, n = g.in(1, 40); i < n; ++i) p.push_back(g.in(1, hi));
  return p;
}
int main(int argc, char** argv) {
  Args a(argc, argv);
  std::ofstream out(a.s("out", "trace.ndjson"));
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  std::cout.setstate(std::ios::failbit);
  auto* srv = new ServerSocket();
  if (!srv->init()) return 3;
  auto pair = [&]() {
    auto c = std::make_shared<ClientSocket>("127.0.0.1", srv->getPort());
    if (!c->init()) exit(3);
    return std::make_pair(c, srv->acceptClient());
  };
  for (int id = 0, n = a.i("n", 100); id < n; ++id) {
    bool big = g.coin(1, 25), fwd = g.coin(1, 4), cut = g.coin(1, 8);
    std::vector<Msg> ms;
    long total = 0;
    for (int i = 0, k = g.in(1, 6); i < k; ++i) {
      Msg m;
      m.k = g.pick(std::vector<std::string>{"raw", "msg", "bin", "bin", "bin"});
      m.alt = g.coin();
      int len = big ? g.in(2000, 6000) : g.coin(1, 5) ? g.in(90, 130) : g.in(1, 14);
      m.type = g.pick(std::vector<std::string>{"u8", "u16", "i32", "f32", "i64", "f64", "f64"});
      m.other = m.k == "bin" && g.coin(1, 3);
      for (int j = 0; j < len; ++j) m.v.push_back(m.k != "bin" || m.type == "u8" ? g.in(0, m.k == "bin" ? 127 : 255) : m.type == "u16" ? g.in(0, 30000) : g.in(-100000, 100000));
      total += bytesOf(m);
      ms.push_back(m);
    }
    auto c1 = pair();
    auto c2 = fwd ? pair() : c1;
    { std::lock_guard<std::mutex> l(mu); wrote.clear(); got.clear(); rplan = plan(g); wplan = plan(g); if (big) { for (auto& x : rplan) x *= 97; for (auto& x : wplan) x *= 89; } ri = wi = 0; cutFd = c1.first->getFileDescriptor(); cutAt = cut ? g.in(0, static_cast<int>(total) - 1) : -1; }
    Ev ce("case");
    out << ce.f("id", id).f("fwd", fwd).f("cut", cutAt).f("total", total).str();
    std::vector<std::pair<bool, long>> sent(ms.size());
    auto snd = c1.first;
    c1.first.reset();
    if (!fwd) c2.first.reset();
    std::thread t([&]() {
      for (size_t i = 0; i < ms.size(); ++i) { long w = wroteOf(snd->getFileDescriptor()); bool ok = sendMsg(*snd, ms[i]); sent[i] = {ok, wroteOf(snd->getFileDescriptor()) - w}; }
      snd.reset();  // closes the connection
    });
    // what the receiver does with every message
    struct Rec { std::string k; size_t n; bool ok; std::vector<long> base, v; long got; };
    std::vector<Rec> rs;
    bool fok = true;
    long fgot = 0, fw = 0;
    std::thread ft;
    if (fwd) {
      int chunk = g.pick(std::vector<int>{1, 3, 16, 131072});
      ft = std::thread([&, chunk]() {
        fok = NetworkUtils::forward(*c1.second, *c2.first, static_cast<size_t>(chunk), static_cast<size_t>(total));
        fgot = gotOf(c1.second->getFileDescriptor());
        fw = wroteOf(c2.first->getFileDescriptor());
        shutdown(c2.first->getFileDescriptor(), SHUT_WR);
      });
    }
    auto& rc = *c2.second;
    int fd = rc.getFileDescriptor();
    for (size_t i = 0; i < ms.size(); ++i) {
      auto& m = ms[i];
      if (m.k == "raw") {
        size_t len = m.v.size(), first = len > 1 && g.coin() ? static_cast<size_t>(g.in(1, static_cast<int>(len) - 1)) : len;
        for (size_t at = 0; at < len;) {
          size_t k = at == 0 ? first : len - at;
          long b = gotOf(fd);
          Rec r{"raw", k, false, {}, {}, 0};
          if (m.alt) { std::vector<char> d(k); r.ok = rc.recvall(d.data(), k); r.v = nums(d.data(), k); }
          else { std::string s; r.ok = rc.recvall(s, k); r.v = nums(s.data(), s.size()); }
          r.got = gotOf(fd) - b;
          rs.push_back(r);
          at += k;
          if (!r.ok) break;
        }
      } else if (m.k == "msg") {
        long b = gotOf(fd);
        Rec r{"msg", m.v.size(), false, {}, {}, 0};
        if (m.alt) { std::unique_ptr<char[]> p; size_t len = 0; r.ok = rc.recvallPrefixed(p, len); if (r.ok) r.v = nums(p.get(), len); }
        else { std::string s; r.ok = rc.recvallPrefixed(s); if (r.ok) r.v = nums(s.data(), s.size()); }
        r.got = gotOf(fd) - b;
        rs.push_back(r);
      } else {
        long b = gotOf(fd);
        size_t chunk = g.pick(std::vector<size_t>{1, 2, 5, 8, 13, 64, 131072});
        if (big) chunk = 131072;
        Rec r{"bin", m.v.size(), false, {}, {}, 0};
        if (m.type == "u8" && g.coin()) {
          r.k = "file";
          std::string f = a.s("out", "trace.ndjson") + ".bin";
          r.ok = rc.recvallBinaryToFile(f, m.v.size(), chunk);
          std::ifstream in(f, std::ios::binary);
          std::stringstream ss;
          ss << in.rdbuf();
          std::string s = ss.str();
          r.v = nums(s.data(), s.size());
          unlink(f.c_str());
        } else {
          if (g.coin()) { r.k = "add"; for (size_t j = 0; j < m.v.size(); ++j) r.base.push_back(m.type == "u8" ? g.in(0, 100) : g.in(0, 30000)); }
#define F(T) recvBin<T>(rc, r.n, r.k == "add" ? &r.base : nullptr, chunk, r.ok)
          r.v = TYPES(m.type, F);
#undef F
        }
        r.got = gotOf(fd) - b;
        rs.push_back(r);
      }
      if (!rs.back().ok) break;
    }
    bool more = rs.back().ok && rc.isReadable(0) && [&]() { char x; return syscall(SYS_recvfrom, fd, &x, 1, MSG_PEEK | MSG_DONTWAIT, nullptr, nullptr) > 0; }();
    if (fwd) ft.join();
    t.join();
    for (size_t i = 0; i < ms.size(); ++i) { Ev e("send"); out << e.f("k", ms[i].k).f("sz", sizeOf(ms[i].type)).f("v", ms[i].v).f("ok", sent[i].first).f("w", sent[i].second).str(); }
    if (fwd) { Ev e("forward"); out << e.f("n", total).f("ok", fok).f("got", fgot).f("w", fw).str(); }
    for (auto& r : rs) {
      if (!r.ok) { r.v.clear(); r.base.clear(); }
      Ev e("recv");
      out << e.f("k", r.k).f("n", r.n).f("ok", r.ok).f("a", r.base).f("v", r.v).f("got", r.got).str();
    }
    Ev e("end");
    out << e.f("more", more).str();
    out.flush();
  }
  out.close();
  _exit(0);
}
