// Downloading: what is on disk afterwards and what is returned, against a
// server on the loopback interface that answers as generated.
#include <arpa/inet.h>
#include <atomic>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <netinet/in.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include "cweb.hpp"
#include "vpbt.hpp"
using namespace vp;
namespace {
struct Server {
  int fd = -1, port = 0;
  std::vector<std::string> out; // what is sent, piece by piece
  std::string request;
  std::atomic<int> served{0};
  std::thread th;
  Server() {
    fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t l = sizeof a;
    if (bind(fd, (sockaddr *)&a, sizeof a) || listen(fd, 4) || getsockname(fd, (sockaddr *)&a, &l))
      fail("no loopback socket");
    port = ntohs(a.sin_port);
  }
  void start() {
    th = std::thread([this] {
      for (;;) {
        const int c = accept(fd, nullptr, nullptr);
        if (c < 0)
          return;
        char b[4096];
        request.clear();
        while (request.find("\r\n\r\n") == std::string::npos) {
          const ssize_t n = read(c, b, sizeof b);
          if (n <= 0)
            break;
          request.append(b, n);
        }
        if (request.find("\r\nRange:") != std::string::npos && !out.empty()) // no such part
          out = {"HTTP/1.1 206 Part\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"};
        if (!request.empty()) {
          served++;
          for (auto &p : out)
            if (send(c, p.data(), p.size(), MSG_NOSIGNAL) != (ssize_t)p.size())
              break;
        }
        close(c);
      }
    });
  }
  void stop() {
    shutdown(fd, SHUT_RDWR);
    if (th.joinable())
      th.join();
    if (fd >= 0)
      close(fd);
    fd = -1;
  }
  ~Server() { stop(); }
};
std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
bool exists(const std::string &p) {
  struct stat st;
  return !lstat(p.c_str(), &st);
}
} // namespace
VP_PROP(download, 4000, 60000, "a failing transfer, an existing target, or a body over 1 kB") {
  for (const char *v : {"http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY"})
    unsetenv(v);
  signal(SIGPIPE, SIG_IGN);
  signal(SIGXFSZ, SIG_IGN);
  const std::string dir = scratch_file("web");
  const std::string sub = dir + "/" + g.pick<const char *>({"f", "data.txt", "a b", "x.tar.gz"});
  mkdir(dir.c_str(), 0755);
  struct Cleanup {
    std::string d, s;
    ~Cleanup() {
      unlink(s.c_str());
      rmdir(s.c_str());
      rmdir((d + "/dir").c_str());
      rmdir(d.c_str());
    }
  } cleanup{dir, sub};

  // the answer
  std::string body;
  const int bk = g.weighted({1, 4, 3, 2});
  const size_t len = bk == 0 ? 0 : bk == 1 ? (size_t)g.integer(1, 300) : bk == 2 ? (size_t)g.integer(300, 20000) : (size_t)g.integer(20000, g.boolean(0.05) ? 3000000 : 400000);
  uint64_t w = g.word();
  body.reserve(len);
  while (body.size() < len) {
    w = mix64(w);
    body.append((const char *)&w, std::min<size_t>(8, len - body.size()));
  }
  const int status = g.weighted({7, 2}) == 0 ? 200 : g.pick({400, 401, 403, 404, 410, 429, 500, 502, 503});
  const int framing = g.weighted({4, 2, 2}); // length, chunked, until the connection closes
  const bool cut = len > 0 && framing != 2 && g.boolean(0.2);
  std::string head = fmt("HTTP/1.1 %d Answer\r\nContent-Type: %s\r\n", status, g.pick<const char *>({"text/plain", "application/octet-stream"}));
  if (g.boolean(0.3))
    head += "Server: generated\r\nX-Note: content-length: 3\r\n";
  std::string pay;
  const size_t keep = cut ? (size_t)g.integer(0, len - 1) : len;
  if (framing == 0) {
    head += fmt("Content-Length: %zu\r\n", len);
    pay = body.substr(0, keep);
  } else if (framing == 1) {
    head += "Transfer-Encoding: chunked\r\n";
    size_t p = 0;
    while (p < keep) {
      const size_t c = std::min<size_t>(keep - p, (size_t)g.integer(1, 30000));
      pay += fmt("%zx\r\n", c) + body.substr(p, c) + "\r\n";
      p += c;
    }
    if (!cut)
      pay += "0\r\n\r\n";
  }  else
    pay = body;
  head += "Connection: close\r\n\r\n";
  Server srv;
  const std::string all = head + pay;
  if (g.boolean(0.5))
    srv.out = {all};
  else {
    size_t p = (size_t)g.integer(1, all.size());
    srv.out = {all.substr(0, p), all.substr(p)};
  }
  const int reach = g.weighted({12, 1, 1, 1}); // a server, none, no such scheme, a silent one
  if (reach == 3)
    srv.out = {std::string()};
  std::string url = fmt("http://127.0.0.1:%d/%s", srv.port, g.pick<const char *>({"", "a.txt", "pub/x%20y.gz", "q?a=1&b=2"}));
  if (reach == 2)
    url = g.pick<const char *>({"nosuch://127.0.0.1/", "http://", "", "http://127.0.0.1:99999/"});
  // the target
  const int target = g.weighted({5, 4, 1, 1, 1}); // absent, a file, a directory, in a directory that is not there, a link to a directory
  const bool force = g.choose(2);
  std::string local = sub, old;
  if (target == 1) {
    old = std::string((size_t)g.pick({g.integer(0, 3000), g.integer(0, 1)}), 'o');
    write_file(local, old);
  } else if (target == 2)
    mkdir(local.c_str(), 0755);
  else if (target == 3)
    local = dir + "/none/f";
  else if (target == 4) {
    mkdir((dir + "/dir").c_str(), 0755);
    if (symlink((dir + "/dir").c_str(), local.c_str()))
      fail("symlink");
  }
  const bool full = target < 2 && len > 0 && g.boolean(0.1); // no room for all of it
  const size_t room = full ? (size_t)g.integer(0, len - 1) : 0;
  g.note("%s, %s, status %d, %zu bytes %s%s, target %s, %s", reach == 0 ? "served" : reach == 1 ? "nobody there" : reach == 2 ? "bad address" : "closed without an answer", url.substr(0, 4).c_str(), status, len,
         framing == 0 ? "with length" : framing == 1 ? "chunked" : "until close", cut ? fmt(", cut at %zu", keep).c_str() : "",
         target == 0 ? "absent" : target == 1 ? "exists" : target == 2 ? "a directory" : target == 3 ? "nowhere" : "a link to a directory", force ? "forced" : "not forced");
  if (full)
    g.note("room for %zu bytes", room);
  if (reach == 1) {
    shutdown(srv.fd, SHUT_RDWR);
    close(srv.fd);
    srv.fd = -1;
  } else
    srv.start();
  struct rlimit lim, was;
  getrlimit(RLIMIT_FSIZE, &was);
  if (full) {
    lim = was;
    lim.rlim_cur = room;
    setrlimit(RLIMIT_FSIZE, &lim);
  }
  int r;
  if (!force && g.boolean(0.3))
    r = dso::http_get(url.c_str(), local.c_str());
  else
    r = dso::http_get(url.c_str(), local.c_str(), force);
  if (full)
    setrlimit(RLIMIT_FSIZE, &was);
  srv.stop();
  const bool good = reach == 0 && status == 200 && !cut && !full;
  g.nontrivial(!good || target || len > 1024);
  if (target == 1 && !force) {
    VP_CHECK(r < 0, "the file exists and was not to be overwritten; returned %d", r);
    VP_CHECK(srv.served == 0, "the server was asked although the file exists");
    VP_CHECK(slurp(local) == old, "the existing file was changed");
    g.label("kept");
    return;
  }
  if (target >= 2) {
    VP_CHECK(r > 0, "the target cannot be written and the call returned %d", r);
    VP_CHECK(target == 3 || exists(local), "the target could not be opened, and was removed");
    g.label("target not writable");
    return;
  }
  if (good) {
    VP_CHECK(r == 0, "a good transfer returned %d", r);
    VP_CHECK(srv.served == 1, "%d requests", (int)srv.served);
    VP_CHECK(srv.request.compare(0, 4, "GET ") == 0, "request: %s", srv.request.substr(0, 20).c_str());
    VP_CHECK(slurp(local) == body, "the file holds %zu bytes, not the %zu served", slurp(local).size(), body.size());
    g.label("downloaded");
  } else {
    VP_CHECK(r > 0, "a failed transfer returned %d", r);
    VP_CHECK(!exists(local), "a failed transfer left a file of %zu bytes", slurp(local).size());
    g.label(full ? "disk full" : cut ? "cut" : status != 200 ? "http error" : "no server");
  }
}
