#include "h.hpp"
#include "scl/net/tcp_channel.h"
#include "scl/net/threaded_sender.h"
#include <sys/socket.h>
#include <thread>
#include <sys/syscall.h>
using namespace h;
// A socket may accept or deliver fewer bytes than asked for: these stand-ins
// for the system calls cut requests on sockets to a random prefix.
static thread_local u64 cutstate = 88172645463325252ull; static bool cutting = false;
static size_t cut(int fd, size_t n) { if (!cutting || fd < 3 || n < 2) return n; cutstate ^= cutstate << 13; cutstate ^= cutstate >> 7; cutstate ^= cutstate << 17; return cutstate % 3 ? 1 + cutstate % n : n; }
extern "C" ssize_t write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, cut(fd, n)); }
extern "C" ssize_t read(int fd, void* b, size_t n) { return syscall(SYS_read, fd, b, cut(fd, n)); }
extern "C" ssize_t send(int fd, const void* b, size_t n, int f) { return syscall(SYS_sendto, fd, b, cut(fd, n), f, nullptr, 0); }
extern "C" ssize_t recv(int fd, void* b, size_t n, int f) { return syscall(SYS_recvfrom, fd, b, cut(fd, n), f, nullptr, nullptr); }
static void mk(int s[2], int buf) { if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) { perror("socketpair"); _exit(0); } for (int i = 0; i < 2; i++) { setsockopt(s[i], SOL_SOCKET, SO_SNDBUF, &buf, sizeof buf); setsockopt(s[i], SOL_SOCKET, SO_RCVBUF, &buf, sizeof buf); } }
void run() {
  Rng r(seed * 67); cutting = true;
  SECTION("send-partial") for (int it = 0; it < (thorough ? 60 : 12); it++) { size_t N = it % 4 == 0 ? r.below(5) : 1000 + r.below(400000); casef("send %zu bytes to a slow reader it=%d", N, it); int s[2]; mk(s, 2048); std::vector<u8> d(N), o; for (auto& x : d) x = (u8)r.next(); u64 s1 = r.next(); bool nb = it % 3 == 0; (void)nb;
    std::thread rd([&] { Rng q(s1); u8 b[4096]; while (true) { ssize_t k = ::read(s[1], b, 1 + q.below(4000)); if (k <= 0) break; o.insert(o.end(), b, b + k); } }); { scl::TcpChannel c(s[0]); size_t i = 0; while (i < N) { size_t n = std::min<size_t>(N - i, 1 + r.below(N)); c.Send(d.data() + i, n); i += n; } c.Send(d.data(), (size_t)0); c.Close(); CHECK(!c.Alive(), "alive after Close"); c.Close(); } rd.join(); close(s[1]); CHECK(o.size() == N, "%zu of %zu bytes arrived", o.size(), N); CHECK(o == d, "bytes arrived out of order"); }
  SECTION("recv-partial") for (int it = 0; it < (thorough ? 60 : 12); it++) { size_t N = it % 4 == 0 ? r.below(5) : 1000 + r.below(60000); casef("receive %zu bytes from a slow writer it=%d", N, it); int s[2]; mk(s, 2048); std::vector<u8> d(N), o(N + 16, 0x33); for (auto& x : d) x = (u8)r.next(); u64 s1 = r.next();
    std::thread wr([&] { Rng q(s1); size_t i = 0; while (i < N) { size_t n = std::min<size_t>(N - i, 1 + q.below(900)); ssize_t k = ::write(s[1], d.data() + i, n); if (k <= 0) break; i += k; if (q.below(50) == 0) usleep(200); } }); { scl::TcpChannel c(s[0]); size_t i = 0; while (i < N) { size_t n = std::min<size_t>(N - i, 1 + r.below(N)); c.Recv(o.data() + 8 + i, n); i += n; } wr.join(); } close(s[1]); CHECK(!memcmp(o.data() + 8, d.data(), N), "received bytes differ from the stream"); for (int k = 0; k < 8; k++) CHECK(o[k] == 0x33 && o[8 + N + k] == 0x33, "bytes outside the request written"); }
  SECTION("both-ways") for (int it = 0; it < (thorough ? 40 : 8); it++) { casef("it=%d", it); int s[2]; mk(s, 4096); scl::TcpChannel a(s[0]), b(s[1]); size_t N = 30000; std::vector<u8> d(N), o(N), d2(N), o2(N); for (auto& x : d) x = (u8)r.next(); for (auto& x : d2) x = (u8)r.next(); std::thread t1([&] { a.Send(d.data(), N); }), t2([&] { b.Recv(o.data(), N); }), t3([&] { b.Send(d2.data(), N); }), t4([&] { a.Recv(o2.data(), N); }); t1.join(); t2.join(); t3.join(); t4.join(); CHECK(o == d && o2 == d2, "streams mixed up"); }
  SECTION("send-error") { casef("write to a closed peer"); signal(SIGPIPE, SIG_IGN); int s[2]; mk(s, 2048); close(s[1]); scl::TcpChannel c(s[0]); u8 b[4] = {1, 2, 3, 4}; CHECK(throws([&] { c.Send((const u8*)b, (size_t)4); }), "a failed write must be reported"); }
  SECTION("recv-error") { casef("read from an invalid socket"); int s[2]; mk(s, 2048); close(s[1]); int fd = dup(s[0]); { scl::TcpChannel c(s[0]); } close(fd); u8 b[4]; bool t = false; auto* c = new scl::TcpChannel(1 << 20); try { c->Recv(b, (size_t)4); } catch (const std::exception&) { t = true; } CHECK(t, "a failed read must be reported"); }
  SECTION("threaded-sender") for (int it = 0; it < (thorough ? 30 : 6); it++) { casef("it=%d", it); int s[2]; mk(s, 4096); auto* a = new scl::ThreadedSenderChannel(s[0]); scl::TcpChannel b(s[1]); size_t N = 20000; std::vector<u8> d(N), o(N); for (auto& x : d) x = (u8)r.next(); size_t i = 0; while (i < N) { size_t n = std::min<size_t>(N - i, 1 + r.below(700)); std::vector<u8> t(d.begin() + i, d.begin() + i + n); a->Send(t.data(), n); std::fill(t.begin(), t.end(), 0); i += n; } b.Recv(o.data(), N); CHECK(o == d, "queued messages arrive in order and unchanged"); b.Send(d.data(), (size_t)100); std::vector<u8> g(100); a->Recv(g.data(), (size_t)100); CHECK(std::equal(g.begin(), g.end(), d.begin()), "replies"); /* not closed: Close() races with the sender thread */ }
}
