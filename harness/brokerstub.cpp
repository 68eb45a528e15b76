// linked into the broker: the network splits its reads and writes at random, and waiting costs less time
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <poll.h>
#include <dlfcn.h>
#include <cstdlib>
#include <random>
static std::mt19937& gen() { static std::mt19937 g(getenv("SPLIT") ? atoi(getenv("SPLIT")) : 1); return g; }
static size_t part(size_t n) {
  if (!getenv("SPLIT") || n < 2) return n;
  switch (gen()() % 4) { case 0: return 1 + gen()() % n; case 1: return 1 + gen()() % (n < 16 ? n : 16); default: return n; }
}
extern "C" {
unsigned sleep(unsigned s) { usleep(s * 1000); return 0; }
ssize_t recv(int fd, void* b, size_t n, int flags) { return syscall(SYS_recvfrom, fd, b, part(n), flags, nullptr, nullptr); }
ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int flags) { return recv(fd, b, n, flags); }
ssize_t send(int fd, const void* b, size_t n, int flags) { return syscall(SYS_sendto, fd, b, part(n), flags | MSG_NOSIGNAL, nullptr, 0); }
int select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* t) {
  static auto f = reinterpret_cast<int (*)(int, fd_set*, fd_set*, fd_set*, struct timeval*)>(dlsym(RTLD_NEXT, "select"));
  if (!t) return f(n, r, w, x, t);
  struct timeval u = {0, (t->tv_sec * 1000000L + t->tv_usec) / 200 % 1000000L};
  return f(n, r, w, x, &u);
}
int poll(struct pollfd* p, nfds_t n, int t) {
  static auto f = reinterpret_cast<int (*)(struct pollfd*, nfds_t, int)>(dlsym(RTLD_NEXT, "poll"));
  return f(p, n, t > 0 ? t / 200 + 1 : t);
}
}
