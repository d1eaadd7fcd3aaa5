// A client that writes bytes to a server, a server in this process, an independent SHA-256.
#pragma once
#include "ops.h"
#include "joedb/journal/File.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include <atomic>
#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Robust_Connection.h"
#include "joedb/concurrency/Server_File.h"
#include "joedb/concurrency/Local_Connector.h"
#include "joedb/concurrency/Local_Channel.h"
#include "joedb/concurrency/File_Connection.h"
#include "joedb/concurrency/Readonly_Client.h"
#include "joedb/concurrency/protocol_version.h"
#include "joedb/journal/File_Hasher.h"
#include "joedb/error/Logger.h"
#include "joedb/journal/SHA_256.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <poll.h>

namespace raw
{
 using namespace joedb;
 using namespace vf;

 // everything that is logged is read, nothing is kept
 struct Counting_Logger: Logger
 {
  std::atomic<uint64_t> n{0};
  void log(beman::cstring_view m) noexcept override
  {
   n += std::strlen(m.c_str());
   if (getenv("DBG")) fprintf(stderr, "%s\n", m.c_str());
  }
 };

 inline std::string i64(int64_t v) {return std::string((const char *)&v, 8);}
 inline int64_t get64(const std::string &s, size_t at) {int64_t v; std::memcpy(&v, s.data() + at, 8); return v;}

 // a client that writes bytes
 struct Socket
 {
  int fd = -1;
  bool eof = false;
  std::string in; // received and not used yet
  bool open_at(const std::string &path)
  {
   fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
   sockaddr_un a{};
   a.sun_family = AF_UNIX;
   std::snprintf(a.sun_path, sizeof(a.sun_path), "%s", path.c_str());
   if (connect(fd, (sockaddr *)&a, sizeof(a))) {::close(fd); fd = -1; return false;}
   return true;
  }
  bool send(const std::string &s, int ms = 20000)
  {
   size_t done = 0;
   while (done < s.size())
   {
    pollfd p{fd, POLLOUT, 0};
    if (poll(&p, 1, ms) <= 0) return false;
    const ssize_t n = ::send(fd, s.data() + done, s.size() - done, MSG_NOSIGNAL | MSG_DONTWAIT);
    if (n <= 0) {if (errno == EAGAIN) continue; return false;}
    done += size_t(n);
   }
   return true;
  }
  void receive(int ms)
  {
   if (fd < 0 || eof) return;
   pollfd p{fd, POLLIN, 0};
   if (poll(&p, 1, ms) <= 0) return;
   char b[65536];
   const ssize_t n = ::recv(fd, b, sizeof(b), MSG_DONTWAIT);
   if (n == 0 || (n < 0 && errno != EAGAIN)) eof = true;
   else if (n > 0) in.append(b, size_t(n));
  }
  bool wait_for(size_t n, int ms = 20000)
  {
   const int64_t end = now() + int64_t(ms) * 1000000;
   while (in.size() < n && !eof && now() < end) receive(int((end - now()) / 1000000) + 1);
   return in.size() >= n;
  }
  bool wait_for_eof(int ms = 20000)
  {
   const int64_t end = now() + int64_t(ms) * 1000000;
   while (!eof && now() < end) receive(int((end - now()) / 1000000) + 1);
   return eof;
  }
  std::string take(size_t n) {std::string r = in.substr(0, n); in.erase(0, n); return r;}
  void shut() {if (fd >= 0) ::close(fd); fd = -1; eof = false; in.clear();}
  ~Socket() {shut();}
  Socket() = default;
  Socket(const Socket &) = delete;
  Socket &operator=(const Socket &) = delete;
 };

 inline SHA_256::Hash sha(const std::string &s)
 {
  // independent of the code under test: a plain SHA-256
  static const uint32_t k[64] = {
   0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
   0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
   0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
   0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
  uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
  std::string m = s;
  m += char(0x80);
  while (m.size() % 64 != 56) m += char(0);
  for (int i = 7; i >= 0; i--) m += char((uint64_t(s.size()) * 8) >> (8 * i));
  auto rot = [](uint32_t x, int n) {return (x >> n) | (x << (32 - n));};
  for (size_t o = 0; o < m.size(); o += 64)
  {
   uint32_t w[64];
   for (int i = 0; i < 16; i++) w[i] = uint32_t(uint8_t(m[o + 4 * i])) << 24 | uint32_t(uint8_t(m[o + 4 * i + 1])) << 16 | uint32_t(uint8_t(m[o + 4 * i + 2])) << 8 | uint8_t(m[o + 4 * i + 3]);
   for (int i = 16; i < 64; i++) w[i] = w[i - 16] + (rot(w[i - 15], 7) ^ rot(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (rot(w[i - 2], 17) ^ rot(w[i - 2], 19) ^ (w[i - 2] >> 10));
   uint32_t v[8];
   std::memcpy(v, h, sizeof(h));
   for (int i = 0; i < 64; i++)
   {
    const uint32_t t1 = v[7] + (rot(v[4], 6) ^ rot(v[4], 11) ^ rot(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
    const uint32_t t2 = (rot(v[0], 2) ^ rot(v[0], 13) ^ rot(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
   }
   for (int i = 0; i < 8; i++) h[i] += v[i];
  }
  SHA_256::Hash r;
  static_assert(sizeof(r) == 32);
  std::memcpy(&r, h, 32);
  return r;
 }
 inline std::string hash_bytes_of(const std::string &s) {const SHA_256::Hash h = sha(s); return std::string((const char *)&h, 32);}

 // a server in this process
 struct Local_Server
 {
  Counting_Logger logger;
  std::unique_ptr<Abstract_File> file;
  std::unique_ptr<Client> client;
  std::unique_ptr<Server> server;
  std::string endpoint;
  void start(std::unique_ptr<Abstract_File> f, bool pullonly, const std::string &path, int timeout_ms, int log_level, Connection *upstream = nullptr)
  {
   file = std::move(f);
   endpoint = path;
   unlink(path.c_str());
   if (pullonly) client.reset(new Readonly_Client(*file));
   else client.reset(new Writable_Journal_Client(*file, upstream ? *upstream : Connection::dummy, Content_Check::fast, Recovery::overwrite));
   server.reset(new Server(logger, log_level, 1, path, *client, std::chrono::milliseconds(timeout_ms)));
  }
  void stop()
  {
   if (server && !server->is_joined()) server->stop();
   server.reset();
   client.reset();
  }
  ~Local_Server() {try {stop();} catch (...) {}}
 };

 inline std::string some_ops(Rng &g, size_t max)
 {
  // valid operations: comments
  std::string r;
  const size_t n = 1 + g.below(3);
  for (size_t i = 0; i < n; i++)
  {
   Memory_File f;
   Writable_Journal j(f);
   j.comment(g.bytes(g.below(max)));
   j.soft_checkpoint();
   r.append(f.get_data().begin() + 41, f.get_data().begin() + j.get_checkpoint());
  }
  return r;
 }

 inline std::string committed_bytes(const Abstract_File &f, int64_t cp)
 {
  std::string r(size_t(cp - 41), 0);
  size_t done = 0;
  while (done < r.size())
  {
   const size_t n = f.pread(&r[done], r.size() - done, 41 + int64_t(done));
   if (!n) fail("server-file-truncated");
   done += n;
  }
  return r;
 }

}
