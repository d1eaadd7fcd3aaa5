// C04: what threads share: connections with keep-alive threads, remote files, servers, remote procedures, loggers. Built with ThreadSanitizer.
#include "rpc_common.h"
#include "conc/Client.h"
#include "joedb/error/Stream_Logger.h"
#include "joedb/error/Multi_Logger.h"
#include "joedb/error/File_Logger.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/Thread_Safe.h"
#include "joedb/ui/get_time_string.h"
#include <fstream>
#include <sstream>

namespace
{
 struct Problems
 {
  std::mutex m;
  std::string first;
  void add(const std::string &s) {std::lock_guard<std::mutex> l(m); if (first.empty()) first = s;}
  bool any() {std::lock_guard<std::mutex> l(m); return !first.empty();}
 };

 // a channel that takes its time, may fail, and notices that two threads use it or that it is used after its end
 class Slow_Channel: public Channel
 {
  std::unique_ptr<Channel> c;
  Problems &problems;
  std::atomic<uint64_t> random;
  std::atomic<int> users{0};
  std::atomic<bool> alive{true};
  const int fault;
  std::atomic<uint64_t> &uses;
  struct User
  {
   Slow_Channel &s;
   User(Slow_Channel &s): s(s)
   {
    s.uses++;
    if (!s.alive) s.problems.add("channel used after its end");
    if (s.users++ != 0) s.problems.add("channel used by two threads at once");
   }
   ~User() {s.users--;}
  };
  void wait()
  {
   const uint64_t r = mix(random++, 77);
   if (r % 8 == 0) usleep(useconds_t(r / 8 % 300));
   else if (r % 3 == 0) sched_yield();
   if (fault && r / 4096 % uint64_t(fault) == 0) throw Exception("injected");
  }
 public:
  Slow_Channel(const std::string &path, uint64_t seed, Problems &p, std::atomic<uint64_t> &uses, int fault = 0): c(new Local_Channel(path)), problems(p), random(seed), fault(fault), uses(uses) {}
  ~Slow_Channel() {alive = false; if (users) problems.add("channel destroyed while it was used");}
  size_t write_some(const char *d, size_t n) override
  {
   User u(*this);
   wait();
   return c->write_some(d, n > 3 && random % 4 == 0 ? n / 2 : n);
  }
  size_t read_some(char *d, size_t n) override
  {
   User u(*this);
   wait();
   return c->read_some(d, n);
  }
 };

 struct Slow_Connector: Connector
 {
  std::string path;
  Problems &problems;
  mutable std::atomic<uint64_t> seed;
  std::atomic<uint64_t> &uses;
  Slow_Connector(const std::string &path, uint64_t seed, Problems &p, std::atomic<uint64_t> &uses): path(path), problems(p), seed(seed), uses(uses) {}
  std::unique_ptr<Channel> new_channel() const override {return std::make_unique<Slow_Channel>(path, mix(seed++, 3), problems, uses);}
 };

 std::string entry_text(int owner, int seq) {return std::string(size_t(mix(uint64_t(owner), uint64_t(seq)) % 60), char('a' + (owner + seq) % 26));}

 void connections(Ctx &c, Rng &g)
 {
  raw::Local_Server server;
  const std::string path = c.scratch("t.sock");
  server.start(std::make_unique<Memory_File>(), false, path, g.chance(1, 2) ? 0 : 2000, int(g.below(5)));
  const int threads = 1 + int(g.below(4)), rounds = 1 + int(g.below(4));
  Problems problems;
  std::atomic<uint64_t> uses{0}, transactions{0}, pings{0}, lives{0}, broken{0}, reads{0};
  raw::Counting_Logger logger;
  std::vector<int> committed(static_cast<size_t>(threads));
  const uint64_t seed = g.next();
  uint64_t sig = uint64_t(threads);
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; t++)
  {
   Rng plan(mix(seed, uint64_t(t)));
   for (int i = 0; i < rounds; i++) sig = mix(sig, plan.next());
   ts.emplace_back([&, t]
   {
    Rng r(mix(seed, uint64_t(t)));
    std::string trace;
    try
    {
     for (int i = 0; i < rounds && !problems.any(); i++)
     {
      const auto interval = std::chrono::milliseconds(r.below(4));
      const int kind = int(r.below(8));
      trace += " " + std::to_string(kind);
      auto nap = [&] {if (r.chance(1, 3)) usleep(useconds_t(r.below(4000)));};
      auto work = [&](conc::Client &client)
      {
       const int n = int(r.below(5));
       for (int k = 0; k < n; k++)
       {
        const int seq = committed[size_t(t)];
        nap();
        client.transaction([&](conc::Writable_Database &db)
        {
         const auto e = db.new_entry();
         db.set_owner(e, t);
         db.set_seq(e, seq);
         db.set_text(e, entry_text(t, seq));
        });
        committed[size_t(t)]++;
        transactions++;
        if (r.chance(1, 3)) {nap(); client.pull();}
       }
       int own = 0;
       for (const auto e: client.get_database().get_entry_table()) if (client.get_database().get_owner(e) == t) own++;
       if (n > 0 && own != committed[size_t(t)]) problems.add("own entries: " + std::to_string(own) + " instead of " + std::to_string(committed[size_t(t)]));
      };
      if (kind == 0)
      {
       // short lives
       for (int k = 0; k < 5; k++)
       {
        Slow_Channel channel(path, r.next(), problems, uses);
        Server_Connection connection(channel, logger, interval);
        nap();
        lives++;
       }
      }
      else if (kind == 1 || kind == 2)
      {
       Slow_Channel channel(path, r.next(), problems, uses);
       Server_Connection connection(channel, logger, interval);
       Memory_File file;
       conc::Client client(file, connection);
       work(client);
      }
      else if (kind == 3)
      {
       Slow_Connector connector(path, r.next(), problems, uses);
       connector.set_keep_alive_interval(interval);
       Robust_Connection connection(connector, logger);
       Memory_File file;
       conc::Client client(file, connection);
       work(client);
      }
      else if (kind == 4)
      {
       Slow_Connector connector(path, r.next(), problems, uses);
       connector.set_keep_alive_interval(interval);
       Server_File file(connector, logger);
       conc::Client client(file, file, Content_Check::none);
       work(client);
       // two remote reads give the same bytes
       const int64_t size = file.get_size();
       for (int k = 0; k < 4; k++)
       {
        const int64_t from = 41 + int64_t(r.below(uint64_t(size - 40)));
        std::string a(size_t(std::min<int64_t>(size - from, int64_t(r.below(3000)))), 0), b = a;
        if (a.empty()) continue;
        const size_t na = file.pread(&a[0], a.size(), from);
        const size_t nb = file.pread(&b[0], b.size(), from);
        if (na == nb && a != b) problems.add("two reads of the same bytes differ");
        reads++;
       }
      }
      else if (kind == 5)
      {
       // another thread pings
       Slow_Channel channel(path, r.next(), problems, uses);
       Server_Connection connection(channel, logger, interval);
       std::atomic<bool> stop{false};
       std::string error;
       std::thread pinger([&]
       {
        try {while (!stop) {connection.ping(); pings++; sched_yield();}}
        catch (const std::exception &e) {error = e.what();}
       });
       try
       {
        Memory_File file;
        conc::Client client(file, connection);
        work(client);
        for (int k = 0; k < 3; k++) {Memory_File f2; Writable_Journal_Client other(f2, connection, Content_Check::full); other.pull();}
        std::string data(100, 0);
        for (int k = 0; k < 20; k++) connection.pread(&data[0], 100, 41);
       }
       catch (...) {stop = true; pinger.join(); throw;}
       stop = true;
       pinger.join();
       if (!error.empty()) problems.add("ping: " + error);
      }
      else
      {
       // the channel fails: at any time, in any thread
       try
       {
        Slow_Channel channel(path, r.next(), problems, uses, 2 + int(r.below(30)));
        Server_Connection connection(channel, logger, interval);
        Memory_File file;
        Writable_Journal_Client client(file, connection);
        for (int k = 0; k < 5; k++) {nap(); client.pull();}
       }
       catch (const std::exception &) {broken++;}
      }
     }
    }
    catch (const std::exception &e) {problems.add(exception_name(e) + ", rounds" + trace);}
   });
  }
  for (auto &t: ts) t.join();
  if (problems.any()) fail("connection", problems.first);
  server.server->stop();
  // everything that was committed is there, once
  {
   Memory_File copy;
   copy.get_data() = static_cast<Memory_File &>(*server.file).get_data();
   conc::Client client(copy, Connection::dummy);
   std::vector<int> found(static_cast<size_t>(threads));
   for (const auto e: client.get_database().get_entry_table())
   {
    const int o = client.get_database().get_owner(e), q = client.get_database().get_seq(e);
    if (o < 0 || o >= threads || q < 0 || q >= committed[size_t(o)] || client.get_database().get_text(e) != entry_text(o, q)) fail("entry-differs");
    found[size_t(o)]++;
   }
   for (int t = 0; t < threads; t++) if (found[size_t(t)] != committed[size_t(t)]) fail("entries-lost", std::to_string(found[size_t(t)]) + " of " + std::to_string(committed[size_t(t)]));
  }
  c.count("channel_uses", uses);
  c.count("transactions", transactions);
  c.count("pings", pings);
  c.count("short_lives", lives);
  c.count("broken_channels", broken);
  c.count("remote_reads", reads);
  c.sig(sig);
 }

 // servers that end while their clients are there
 void endings(Ctx &c, Rng &g)
 {
  Problems problems;
  std::atomic<uint64_t> uses{0}, calls{0}, errors{0};
  const std::string path = c.scratch("t.sock");
  const bool procedures = g.chance(1, 2);
  std::unique_ptr<raw::Local_Server> server;
  std::unique_ptr<Remote> remote;
  if (procedures) remote = std::make_unique<Remote>(path, 1 + int(g.below(4)), int(g.below(5)));
  else
  {
   server = std::make_unique<raw::Local_Server>();
   server->start(std::make_unique<Memory_File>(), false, path, int(g.below(3)) * 5, int(g.below(5)));
  }
  std::atomic<bool> stop{false};
  const int threads = 1 + int(g.below(4));
  const uint64_t seed = g.next();
  raw::Counting_Logger logger;
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; t++)
   ts.emplace_back([&, t]
   {
    Rng r(mix(seed, uint64_t(t)));
    while (!stop)
    {
     try
     {
      const auto interval = std::chrono::milliseconds(r.below(3));
      Slow_Channel channel(path, r.next(), problems, uses, r.chance(1, 2) ? 0 : 10 + int(r.below(50)));
      if (procedures)
      {
       svc::rpc::Client client(channel, interval);
       for (int k = int(r.below(5)); k-- > 0;)
       {
        svc::rpc::amount::Memory_Database m;
        m.set_name("a");
        m.set_amount(int64_t(r.below(5)));
        client.add(m);
        calls++;
        if (r.chance(1, 3)) usleep(useconds_t(r.below(3000)));
       }
      }
      else
      {
       Server_Connection connection(channel, logger, interval);
       Memory_File file;
       conc::Client client(file, connection);
       for (int k = int(r.below(5)); k-- > 0;)
       {
        client.transaction([&](conc::Writable_Database &db) {db.new_entry();});
        calls++;
        if (r.chance(1, 3)) client.pull(std::chrono::milliseconds(r.below(20)));
       }
      }
     }
     catch (const std::exception &) {errors++;}
    }
   });
  usleep(useconds_t(g.below(12000)));
  if (remote) remote->stop(); else server->stop();
  usleep(useconds_t(g.below(500)));
  stop = true;
  // what waits for the server must be told by its end
  remote.reset();
  server.reset();
  for (auto &t: ts) t.join();
  if (problems.any()) fail("ending", problems.first);
  c.count("calls_before_the_end", calls);
  c.count("errors_at_the_end", errors);
  c.count("channel_uses", uses);
  c.sig(mix(mix(uses, calls), errors));
 }

 struct Lines: Logger
 {
  std::mutex m;
  uint64_t n = 0;
  void log(beman::cstring_view) noexcept override {std::lock_guard<std::mutex> l(m); n++;}
 };

 void loggers(Ctx &c, Rng &g)
 {
  const int threads = 2 + int(g.below(4)), n = 10 + int(g.below(60));
  std::ostringstream out;
  const std::string tag = g.chance(1, 2) ? "tag" : "";
  const std::string path = c.scratch("log.txt");
  Lines lines;
  Thread_Safe<std::vector<int>> shared;
  {
   Stream_Logger stream(out, tag);
   Multi_Logger multi;
   multi.add(std::make_unique<File_Logger>(path));
   multi.add(std::make_unique<Stream_Logger>(out, tag)); // not used at the same time as the other one
   Multi_Logger only_file;
   const bool both = g.chance(1, 2);
   only_file.add(std::make_unique<File_Logger>(path + "2"));
   const uint64_t seed = g.next();
   std::atomic<bool> stop{false};
   Destructor_Logger::set_logger(&lines);
   std::thread setter([&] {while (!stop) {Destructor_Logger::set_logger(&lines); sched_yield(); Destructor_Logger::remove_logger(); sched_yield();}});
   std::vector<std::thread> ts;
   std::string error;
   for (int t = 0; t < threads; t++)
    ts.emplace_back([&, t]
    {
     Rng r(mix(seed, uint64_t(t)));
     for (int k = 0; k < n; k++)
     {
      const std::string m = "m" + std::to_string(t) + "." + std::to_string(k) + std::string(size_t(r.below(100)), '-') + "#";
      if (both) {Logger &l = multi; l.log(m);} else {stream.log(m); Logger &l = only_file; l.log(m);}
      Destructor_Logger::warning(m);
      {Lock<std::vector<int>> lock(shared); lock->push_back(t);}
      if (get_time_string(0) != "1970-01-01 00:00:00 GMT") Destructor_Logger::set_logger();
      if (r.chance(1, 5)) sched_yield();
     }
    });
   for (auto &t: ts) t.join();
   stop = true;
   setter.join();
   Destructor_Logger::set_logger();
  }
  // every message is there, in one piece, and those of a thread in order
  auto check = [&](std::istream &in, const std::string &what, size_t expected)
  {
   std::string l;
   size_t total = 0;
   std::map<int, int> last;
   while (std::getline(in, l))
   {
    int t = -1, k = -1;
    const size_t at = l.find(" m");
    if (at == l.npos || sscanf(l.c_str() + at, " m%d.%d", &t, &k) != 2 || l.back() != '#' || std::count(l.begin(), l.end(), '#') != 1) fail("torn-message", what + ": " + l);
    if (last.count(t) && last[t] >= k) fail("message-order", what + ": " + l);
    last[t] = k;
    total++;
   }
   if (total && total != expected) fail("messages-lost", what + ": " + std::to_string(total) + " of " + std::to_string(expected));
   c.count("messages", total);
   return total;
  };
  std::istringstream in(out.str());
  if (!check(in, "stream", size_t(threads * n))) fail("messages-lost", "all");
  for (auto *p: {"", "2"}) {std::ifstream f(path + p); check(f, "file", size_t(threads * n)); unlink((path + p).c_str());}
  Lock<std::vector<int>> lock(shared);
  if (lock->size() != size_t(threads * n)) fail("thread-safe-lost");
  c.sig(mix(hash_bytes(std::string((const char *)lock->data(), lock->size() * 4)), uint64_t(n)));
 }

 void procedures(Ctx &c, Rng &g) {concurrent(c, g);}
}

int main(int argc, char **argv)
{
 (void)calls;
 return main_loop(argc, argv, {{"connections", connections}, {"endings", endings}, {"procedures", procedures}, {"loggers", loggers}});
}
