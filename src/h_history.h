// C02: clients and servers in several processes, their history checked for one linear order.
#pragma once
#include "history.h"
#include "h_server.h"
#include <csignal>
#include <sys/resource.h>

namespace hist
{
 using namespace joedb;
 using namespace vf;

 // breaks after some bytes, and passes bytes in pieces
 struct Faulty_Channel: Channel
 {
  std::unique_ptr<Channel> c;
  Rng g;
  int64_t read_budget, write_budget;
  bool pieces, broken = false, silently;
  // silently: the server finds out later. It keeps the lock until then, so this is not for threads that wait for each other with a common file
  Faulty_Channel(std::unique_ptr<Channel> c, uint64_t seed, bool faulty, bool silently): c(std::move(c)), g(seed), silently(silently)
  {
   auto budget = [&]() -> int64_t {return g.chance(1, 2) ? int64_t(g.below(120)) : g.chance(1, 2) ? int64_t(g.below(2000)) : int64_t(g.below(40000));};
   read_budget = faulty && g.chance(1, 2) ? budget() : INT64_MAX;
   write_budget = faulty && g.chance(1, 2) ? budget() : INT64_MAX;
   pieces = g.chance(1, 3);
  }
  void check(int64_t budget)
  {
   if (!broken && budget > 0) return;
   if (!broken && (!silently || g.chance(1, 2))) c.reset(); // the server is told immediately, or later
   broken = true;
   throw std::runtime_error("injected: connection lost");
  }
  size_t limit(size_t size, int64_t budget)
  {
   size_t n = size_t(std::min(int64_t(size), budget));
   if (pieces && n > 1) n = 1 + g.below(n);
   return n;
  }
  size_t write_some(const char *data, size_t size) override
  {
   check(write_budget);
   const size_t n = c->write_some(data, limit(size, write_budget));
   if (write_budget != INT64_MAX) write_budget -= int64_t(n);
   return n;
  }
  size_t read_some(char *data, size_t size) override
  {
   check(read_budget);
   const size_t n = c->read_some(data, limit(size, read_budget));
   if (read_budget != INT64_MAX) read_budget -= int64_t(n);
   return n;
  }
 };
 struct Faulty_Connector: Connector
 {
  const std::string path;
  mutable Rng g;
  const bool *faulty, silently;
  Faulty_Connector(const std::string &path, uint64_t seed, const bool *faulty, bool silently): path(path), g(seed), faulty(faulty), silently(silently) {}
  std::unique_ptr<Channel> new_channel() const override
  {
   if (*faulty && g.chance(1, 8)) throw std::runtime_error("injected: unreachable");
   return std::make_unique<Faulty_Channel>(std::make_unique<Local_Channel>(path), g.next(), *faulty && g.chance(3, 4), silently);
  }
 };

 struct Server_Options
 {
  std::string path, sock, upstream;
  bool shared = false, robust = false;
  int log_level = 0, timeout_ms = 0;
  int descriptors = 0; // limit
 };

 struct Remote_Site: Site
 {
  raw::Counting_Logger log;
  std::unique_ptr<Abstract_File> f;
  std::unique_ptr<Connector> connector;
  std::unique_ptr<Channel> channel;
  std::unique_ptr<Connection> connection;
  Abstract_File &get_file() override {return *f;}
  Connection &get_connection() override {return *connection;}
  void connect(const std::string &sock, bool robust, const bool *faulty = nullptr, uint64_t seed = 0, bool silently = false)
  {
   if (faulty) connector = std::make_unique<Faulty_Connector>(sock, seed, faulty, silently);
   else connector = std::make_unique<Local_Connector>(sock);
   if (robust) connection = std::make_unique<Robust_Connection>(*connector, log);
   else
   {
    channel = connector->new_channel();
    connection = std::make_unique<Server_Connection>(*channel, log);
   }
  }
 };

 // the process of a server, until SIGTERM
 [[noreturn]] inline void serve(const Server_Options &o, int chance, uint64_t seed)
 {
  try
  {
   pause_chance = chance;
   if (o.descriptors)
   {
    descriptor_limit = o.descriptors;
    for (int fd = 3; fd < 200; fd++) close(fd);
   }
   Rng g(seed);
   raw::Counting_Logger log;
   unlink(o.sock.c_str());
   File f(o.path, o.shared ? Open_Mode::shared_write : g.chance(1, 2) ? Open_Mode::write_lock : Open_Mode::write_existing_or_create_new);
   Remote_Site up;
   Connection *connection = &Connection::dummy;
   if (!o.upstream.empty()) {up.connect(o.upstream, o.robust); connection = up.connection.get();}
   Writable_Journal_Client client(f, *connection, Content_Check::fast, Recovery::overwrite);
   Server server(log, o.log_level, 1, o.sock, client, std::chrono::milliseconds(o.timeout_ms));
   server.join();
  }
  catch (const std::exception &e) {fprintf(stderr, "server: %s\n", e.what()); _exit(3);}
  _exit(0);
 }

 struct Servers
 {
  std::vector<pid_t> pids;
  std::vector<Server_Options> options;
  void add(const Server_Options &o, int chance, uint64_t seed)
  {
   fflush(nullptr);
   const pid_t pid = fork();
   if (pid < 0) throw Inconclusive{"fork"};
   if (pid == 0) serve(o, chance, seed);
   pids.push_back(pid);
   options.push_back(o);
   wait_for(pids.size() - 1);
  }
  void wait_for(size_t i)
  {
   const int64_t t0 = now();
   raw::Socket s;
   while (!s.open_at(options[i].sock))
   {
    int st;
    if (waitpid(pids[i], &st, WNOHANG) == pids[i]) {pids[i] = -1; fail("server-died", "status " + std::to_string(st) + " when starting");}
    if (now() - t0 > 30000000000LL) fail("server-stuck", "does not accept connections for 30 s");
    usleep(500);
   }
  }
  void check()
  {
   for (size_t i = 0; i < pids.size(); i++)
   {
    int st;
    if (pids[i] > 0 && waitpid(pids[i], &st, WNOHANG) == pids[i]) {pids[i] = -1; fail("server-died", "status " + std::to_string(st));}
   }
  }
  void stop_one(size_t i, int signal = SIGTERM)
  {
   if (pids[i] <= 0) return;
   kill(pids[i], signal);
   int st = -1;
   const int64_t t0 = now();
   while (waitpid(pids[i], &st, WNOHANG) != pids[i])
   {
    if (now() - t0 > 30000000000LL) {kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); pids[i] = -1; fail("server-stuck", "does not end for 30 s after SIGTERM");}
    usleep(300);
   }
   pids[i] = -1;
   if (signal == SIGTERM && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGTERM) && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fail("server-died", "status " + std::to_string(st) + " at the end");
  }
  void stop() {for (size_t i = pids.size(); i-- > 0;) stop_one(i);}
  void start_again(size_t i, int chance, uint64_t seed)
  {
   fflush(nullptr);
   pids[i] = fork();
   if (pids[i] < 0) throw Inconclusive{"fork"};
   if (pids[i] == 0) serve(options[i], chance, seed);
   wait_for(i);
  }
  ~Servers() {for (pid_t p: pids) if (p > 0) {kill(p, SIGKILL); int st; waitpid(p, &st, 0);}}
 };

 // the processes of the clients
 struct Group
 {
  std::vector<pid_t> pids;
  std::vector<int> status;
  std::vector<int> killed; // clients
  template<typename F> void add(F f)
  {
   fflush(nullptr);
   const pid_t pid = fork();
   if (pid < 0) throw Inconclusive{"fork"};
   if (pid == 0)
   {
    try {f();} catch (const std::exception &e) {fprintf(stderr, "client process: %s\n", e.what()); _exit(4);}
    _exit(0);
   }
   pids.push_back(pid);
   status.push_back(-1);
  }
  size_t left() const {return size_t(std::count(status.begin(), status.end(), -1));}
  void kill_one(Shared &s, size_t i, const std::vector<int> &clients)
  {
   if (status[i] != -1) return;
   ::kill(pids[i], SIGKILL);
   waitpid(pids[i], &status[i], 0);
   for (int k: clients) {killed.push_back(k); if (!s.slots[k].finished) s.writers_left--;}
   status[i] = 0;
  }
  // supervises until all have ended
  template<typename F> void wait(Ctx &c, Shared &s, int clients, F every, int64_t limit = 25000000000LL)
  {
   int64_t last_progress = -1, last_time = now();
   while (left())
   {
    for (size_t i = 0; i < pids.size(); i++)
     if (status[i] == -1)
     {
      int st;
      if (waitpid(pids[i], &st, WNOHANG) == pids[i]) status[i] = st;
     }
    const int64_t p = s.progress;
    if (p != last_progress) {last_progress = p; last_time = now(); c.step();}
    else if (now() - last_time > limit)
    {
     report(s, clients);
     fail("stuck", "no process made progress for " + std::to_string(limit / 1000000000) + " s");
    }
    every(p);
    usleep(300);
   }
   report(s, clients);
   for (size_t i = 0; i < pids.size(); i++)
    if (!(WIFEXITED(status[i]) && WEXITSTATUS(status[i]) == 0)) fail("process-died", "status " + std::to_string(status[i]));
  }
  void report(Shared &s, int clients)
  {
   for (int i = 0; i < clients; i++)
    if (s.slots[i].error_key[0]) fail(s.slots[i].error_key, "client " + std::to_string(i) + ": " + s.slots[i].error);
  }
  ~Group() {for (size_t i = 0; i < pids.size(); i++) if (status[i] == -1) {::kill(pids[i], SIGKILL); int st; waitpid(pids[i], &st, 0);}}
 };

 inline Shared &shared_memory()
 {
  static Shared *shared = nullptr;
  if (!shared) shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::memset((void *)shared, 0, sizeof(Shared));
  return *shared;
 }

 inline void history(Ctx &c, Rng &g)
 {
  Shared &s = shared_memory();
  Config cfg;
  cfg.path = c.scratch("server.joedb");
  unlink(cfg.path.c_str());
  cfg.sometimes_exclusive = false;
  cfg.observe_own = true;
  cfg.transactions = 3 + int(g.below(9));
  cfg.throw_chance = g.chance(1, 2) ? 12 : 0;
  cfg.big = g.chance(1, 2);
  cfg.recovery = Recovery::overwrite;
  const int chance = int(g.pick(std::vector<int>{0, 20, 100, 300}));
  const int processes = 2 + int(g.below(3)), threads = 1 + int(g.below(2));
  const bool shared_file = g.chance(1, 2);
  const bool direct = shared_file && g.chance(1, 3);     // one process writes to the file of the server
  const bool relay = g.chance(1, 3);
  const bool kill_one = g.chance(1, 4);
  const int timeout = !relay && g.chance(1, 6) ? 1 + int(g.below(20)) : 0;
  const bool robust = !timeout && g.chance(1, 4);
  const int writers = processes * threads;
  const int readers = int(g.below(3));
  const int pre = int(g.below(3));
  s.writers_left = writers;
  if (getenv("DBG"))
   fprintf(stderr, "processes=%d threads=%d readers=%d chance=%d shared=%d direct=%d relay=%d kill=%d robust=%d timeout=%d\n", processes, threads, readers, chance, shared_file, direct, relay, kill_one, robust, timeout);
  if (pre)
  {
   File f(cfg.path, Open_Mode::create_new);
   if (pre == 1) {conc::Writable_Database db(f); s.schema_ready = 1; db.soft_checkpoint();}
   else Writable_Journal{f};
  }
  Servers servers;
  servers.add({cfg.path, c.scratch("a.sock"), "", shared_file, false, int(g.below(5)), timeout}, chance, g.next());
  std::vector<std::string> socks{c.scratch("a.sock")};
  if (relay)
  {
   unlink(c.scratch("relay.joedb").c_str());
   servers.add({c.scratch("relay.joedb"), c.scratch("b.sock"), c.scratch("a.sock"), true, g.chance(1, 3), int(g.below(5)), 0}, chance, g.next());
   socks.push_back(c.scratch("b.sock"));
  }
  const uint64_t seed = g.next();
  const int64_t t_begin = now();
  std::atomic<int> *gate = (std::atomic<int> *)&s.slots[23].n_obs;
  Group group;
  std::vector<std::string> local;
  for (int p = 0; p < processes; p++)
  {
   // the replica: in memory, a file of its own, a file shared by the threads
   const int replica = timeout ? 0 : int(g.below(3));
   const bool is_direct = direct && p == 0;
   const std::string sock = g.pick(socks);
   const int kinds = int(g.below(4));
   for (int t = 0; t < threads; t++) {local.push_back(c.scratch("own" + std::to_string(p * threads + t))); unlink(local.back().c_str());}
   local.push_back(c.scratch("common" + std::to_string(p)));
   unlink(local.back().c_str());
   group.add([&]
   {
    pause_chance = chance;
    while (!gate->load()) sched_yield();
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; t++)
    {
     const int id = p * threads + t;
     ts.emplace_back([&, id]
     {
      Rng r(mix(seed, uint64_t(id)));
      Config k = cfg;
      k.push_kept_work = !is_direct;
      k.site = [&, id](Rng &q) -> std::unique_ptr<Site>
      {
       if (is_direct) return std::make_unique<File_Site>(cfg.path, Open_Mode::shared_write);
       auto site = std::make_unique<Remote_Site>();
       if (replica == 0) site->f = std::make_unique<Memory_File>(q.chance(1, 2) ? Open_Mode::shared_write : Open_Mode::write_existing_or_create_new);
       else if (replica == 1) site->f = std::make_unique<File>(c.scratch("own" + std::to_string(id)), q.chance(1, 2) ? Open_Mode::write_existing_or_create_new : Open_Mode::shared_write);
       else site->f = std::make_unique<File>(c.scratch("common" + std::to_string(p)), Open_Mode::shared_write);
       site->check = q.pick(std::vector<Content_Check>{Content_Check::none, Content_Check::fast, Content_Check::full});
       site->connect(sock, robust);
       return site;
      };
      if (timeout)
       k.tolerate = [](const std::exception &e, Tx *t)
       {
        const std::string w = e.what();
        // closed: somebody else holds the lock now
        const bool timed_out = w == "push error: time out" || w == "push error: conflict" || w.find("Connection reset") != w.npos || w.find("Broken pipe") != w.npos || w.find("End of file") != w.npos;
        if (t && timed_out) t->state = rejected;
        return timed_out;
       };
      Writer(s, id, r.next(), k).work(kinds < 3 ? kinds : -1);
     });
    }
    for (auto &t: ts) t.join();
   });
  }
  for (int r = 0; r < readers; r++)
  {
   // readers of the server's file, or of its socket
   const std::string sock = g.pick(socks);
   const bool of_file = g.chance(1, 4);
   group.add([&]
   {
    pause_chance = chance;
    while (!gate->load()) sched_yield();
    if (of_file) {reader(s, writers + r, mix(seed, uint64_t(100 + r)), cfg.path); return;}
    const int id = writers + r;
    Rng q(mix(seed, uint64_t(100 + r)));
    Writer w(s, id, q.next(), cfg);
    try
    {
     bool last = false;
     while (!last)
     {
      Remote_Site site;
      site.f = std::make_unique<Memory_File>();
      site.connect(sock, robust);
      int n = 1 + int(q.below(12));
      const bool waits = q.chance(1, 2);
      auto loop = [&](auto &client, auto look)
      {
       while (n-- > 0 && !last)
       {
        last = s.writers_left == 0;
        const int64_t t0 = now();
        client.pull(std::chrono::milliseconds(waits ? 1 + q.below(40) : 0));
        look(t0);
        s.progress++;
        if (q.chance(1, 2)) usleep(useconds_t(q.below(1000)));
       }
      };
      if (q.chance(1, 2))
      {
       Writable_Journal_Client client(*site.f, *site.connection);
       loop(client, [&](int64_t t0) {w.observe(t0, *site.f, client.get_journal_checkpoint());});
      }
      else
      {
       Writable_Database_Client client(*site.f, *site.connection);
       loop(client, [&](int64_t t0)
       {
        Recorder rec;
        const Body b = body_of(client.get_database(), rec);
        w.observe(t0, *site.f, client.get_journal_checkpoint(), b.counter(), b.entries(), true);
       });
      }
     }
    }
    catch (const Violation &v) {Writer::note(s.slots[id], "reader-" + v.key, v.msg);}
    catch (const std::exception &e) {Writer::note(s.slots[id], "reader-error", exception_name(e));}
   });
  }
  *gate = 1;
  const size_t victim = size_t(g.below(uint64_t(processes)));
  const int64_t kill_at = int64_t(g.below(uint64_t(writers * cfg.transactions)));
  const int64_t kill_delay = int64_t(g.below(3000000));
  int64_t seen_at = 0;
  group.wait(c, s, writers + readers, [&](int64_t p)
  {
   servers.check();
   if (kill_one && group.killed.empty() && p >= kill_at)
   {
    if (!seen_at) seen_at = now();
    if (now() - seen_at >= kill_delay && group.status[victim] == -1)
    {
     std::vector<int> v;
     for (int t = 0; t < threads; t++) v.push_back(int(victim) * threads + t);
     group.kill_one(s, victim, v);
     c.count("killed_processes");
    }
   }
  });
  servers.stop();
  c.count("processes", group.pids.size());
  c.count("sessions", uint64_t(s.reopened));
  c.count("case_ms", uint64_t((now() - t_begin) / 1000000));
  if (relay) c.count("relays");
  if (direct) c.count("direct_writers");
  for (int i = 0; i < writers; i++) for (int k = 0; k < s.slots[i].n_tx; k++) if (s.slots[i].tx[k].state == rejected) c.count("rejected");
  verify(c, s, writers, readers, cfg.path, !group.killed.empty(), group.killed);
  // a replica that was kept is a prefix of the history
  std::string all;
  {
   File f(cfg.path, Open_Mode::read_existing);
   Readonly_Journal j(f);
   all = raw::committed_bytes(f, j.get_checkpoint());
  }
  if (relay) local.push_back(c.scratch("relay.joedb"));
  for (auto &l: local)
  {
   struct stat st;
   if (stat(l.c_str(), &st) == 0)
   {
    if (st.st_size >= 41 && group.killed.empty())
    {
     File f(l, Open_Mode::read_existing);
     Readonly_Journal j(f);
     const std::string own = raw::committed_bytes(f, j.get_checkpoint());
     if (own.size() > all.size() || all.compare(0, own.size(), own)) fail("replica-diverged", l + " is not a prefix of the history");
     c.count("replicas");
    }
    unlink(l.c_str());
   }
  }
  unlink(cfg.path.c_str());
 }

 // ------------------------------------------------------------------------ C05: connections that break
 struct Marked {int owner, k; int64_t start, end; bool complete;};
 inline std::vector<Marked> marks_of(const std::string &path, std::string &bytes, const std::string &what)
 {
  std::vector<Marked> r;
  try
  {
   File f(path, Open_Mode::read_existing);
   Readonly_Journal j(f);
   bytes = raw::committed_bytes(f, j.get_checkpoint());
   Recorder rec;
   j.replay_with_checkpoint_comments(rec);
   int64_t pos = 41;
   for (size_t i = 0; i + 1 < rec.ops.size(); i += 2)
   {
    const Op &o = rec.ops[i];
    const int64_t before = pos;
    pos = std::stoll(rec.ops[i + 1].s);
    int a, b;
    if (o.k != K::comment || sscanf(o.s.c_str() + 1, " %d %d", &a, &b) != 2) continue;
    if (o.s[0] == 'B') r.push_back({a, b, before, 0, false});
    if (o.s[0] == 'E' && !r.empty() && r.back().owner == a && r.back().k == b) {r.back().end = pos; r.back().complete = true;}
   }
   if (pos != j.get_checkpoint()) fail("replica-corrupt", what + ": replay ended at " + std::to_string(pos));
  }
  catch (const Violation &) {throw;}
  catch (const std::exception &e) {fail("replica-corrupt", what + ": " + e.what());}
  return r;
 }

 inline void broken_scene(Ctx &c, Rng &g, std::string &config)
 {
  Shared &s = shared_memory();
  Config cfg;
  cfg.path = c.scratch("server.joedb");
  unlink(cfg.path.c_str());
  cfg.sometimes_exclusive = false;
  cfg.observe_own = true;
  cfg.transactions = 3 + int(g.below(9));
  cfg.throw_chance = g.chance(1, 3) ? 12 : 0;
  cfg.big = g.chance(1, 2);
  cfg.recovery = Recovery::overwrite;
  cfg.push_kept_work = true;
  const int chance = int(g.pick(std::vector<int>{0, 0, 50, 300}));
  const int processes = 1 + int(g.below(3)), threads = 1 + int(g.below(2));
  const bool shared_file = g.chance(1, 3);
  const bool robust = g.chance(2, 3);
  cfg.go_on_after_errors = robust; // the lock of a connection that has broken silently is kept until it is closed
  const int restarts = g.chance(1, 2) ? 1 + int(g.below(3)) : 0;
  const int writers = processes * threads;
  const bool faulty_at_first = g.chance(3, 4) || !restarts;
  s.writers_left = writers;
  if (g.chance(1, 2))
  {
   File f(cfg.path, Open_Mode::create_new);
   conc::Writable_Database db(f);
   s.schema_ready = 1;
   db.soft_checkpoint();
  }
  config = "processes " + std::to_string(processes) + ", threads " + std::to_string(threads) + ", pauses " + std::to_string(chance) + ", shared server file " + std::to_string(shared_file) +
   ", robust " + std::to_string(robust) + ", restarts " + std::to_string(restarts) + ", faulty " + std::to_string(faulty_at_first);
  Servers servers;
  servers.add({cfg.path, c.scratch("a.sock"), "", shared_file, false, int(g.below(5)), 0}, chance, g.next());
  const std::string sock = c.scratch("a.sock");
  const uint64_t seed = g.next();
  std::atomic<int> *gate = (std::atomic<int> *)&s.slots[23].n_obs;
  struct Replica {std::string path; std::vector<int> owners;};
  std::vector<Replica> local;
  {
   Group group;
   for (int p = 0; p < processes; p++)
   {
    const int replica = int(g.below(3));
    const int kinds = int(g.below(4));
    config += "; process " + std::to_string(p) + ": replica " + std::to_string(replica) + ", kind " + std::to_string(kinds);
    Replica common{c.scratch("common" + std::to_string(p)), {}};
    for (int t = 0; t < threads; t++)
    {
     const int id = p * threads + t;
     local.push_back({c.scratch("own" + std::to_string(id)), {id}});
     common.owners.push_back(id);
    }
    local.push_back(common);
    for (auto &l: local) unlink(l.path.c_str());
    group.add([&]
    {
     pause_chance = chance;
     shorten_sleeps = true;
     while (!gate->load()) sched_yield();
     std::vector<std::thread> ts;
     for (int t = 0; t < threads; t++)
     {
      const int id = p * threads + t;
      ts.emplace_back([&, id]
      {
       Rng r(mix(seed, uint64_t(id)));
       Config k = cfg;
       std::string path;
       if (replica == 1) path = c.scratch("own" + std::to_string(id));
       if (replica == 2) path = c.scratch("common" + std::to_string(p));
       bool faulty = faulty_at_first;
       k.site = [&, path](Rng &q) -> std::unique_ptr<Site>
       {
        auto site = std::make_unique<Remote_Site>();
        if (replica == 0) site->f = std::make_unique<Memory_File>(q.chance(1, 2) ? Open_Mode::shared_write : Open_Mode::write_existing_or_create_new);
        else site->f = std::make_unique<File>(path, replica == 2 || q.chance(1, 2) ? Open_Mode::shared_write : Open_Mode::write_existing_or_create_new);
        site->check = q.pick(std::vector<Content_Check>{Content_Check::fast, Content_Check::full});
        site->connect(sock, robust, &faulty, q.next(), replica != 2);
        return site;
       };
       int errors = 0;
       k.tolerate = [&, path](const std::exception &e, Tx *t)
       {
        s.refused++;
        s.progress++;
        const std::string w = e.what();
        // these do not depend on the connection
        const bool conflict = w == "push error: conflict" || w.find("Content mismatch") != w.npos;
        if (!path.empty() && (w.find("Content mismatch") != w.npos || (conflict && r.chance(1, 2)))) unlink(path.c_str());
        if (++errors > 60) faulty = false;
        if (errors > 10000) fail("too-many-errors", w);
        if (w.find("connect: ") == 0) usleep(1000);
        if (t && t->state == body_done) s.unknown++;
        return true;
       };
       Writer(s, id, r.next(), k).work(kinds < 3 ? kinds : -1);
      });
     }
     for (auto &t: ts) t.join();
    });
   }
   *gate = 1;
   std::vector<int64_t> restart_at;
   for (int i = 0; i < restarts; i++) restart_at.push_back(int64_t(g.below(uint64_t(writers * cfg.transactions))));
   std::sort(restart_at.begin(), restart_at.end());
   group.wait(c, s, writers, [&](int64_t p)
   {
    servers.check();
    if (!restart_at.empty() && p >= restart_at.front())
    {
     usleep(useconds_t(g.below(3000)));
     const bool killed = g.chance(2, 3);
     servers.stop_one(0, killed ? SIGKILL : SIGTERM);
     c.count(killed ? "server_kills" : "server_restarts");
     if (g.chance(1, 2)) usleep(useconds_t(g.below(5000)));
     servers.start_again(0, chance, g.next());
     restart_at.erase(restart_at.begin());
    }
   }, 60000000000LL);
  }
  c.count("errors", uint64_t(s.refused));
  c.count("unknown_outcomes", uint64_t(s.unknown));
  // every replica that was kept: a prefix of the history and then only work of its own clients
  std::string all;
  const std::vector<Marked> history = marks_of(cfg.path, all, "server");
  std::set<std::pair<int, int>> in_history;
  for (auto &m: history) in_history.insert({m.owner, m.k});
  Config last = cfg;
  last.tolerate = nullptr;
  last.transactions = max_tx;
  last.throw_chance = 0;
  Writer final_writer(s, writers, g.next(), last);
  for (auto &l: local)
  {
   struct stat st;
   if (stat(l.path.c_str(), &st) || st.st_size < 41) {unlink(l.path.c_str()); continue;}
   std::string own, now_all;
   const std::vector<Marked> marks = marks_of(l.path, own, l.path);
   marks_of(cfg.path, now_all, "server");
   size_t common = 0;
   while (common < own.size() && common < now_all.size() && own[common] == now_all[common]) common++;
   const bool compatible = common == own.size() || common == now_all.size();
   for (auto &m: marks)
    if (m.end > int64_t(common) + 41 || !m.complete)
    {
     const std::string name = l.path + ": transaction " + std::to_string(m.k) + " of client " + std::to_string(m.owner);
     if (!m.complete) fail("replica-partial-transaction", name);
     if (std::find(l.owners.begin(), l.owners.end(), m.owner) == l.owners.end()) fail("replica-diverged", name + " follows work that is not in the history");
     if (s.slots[m.owner].tx[m.k].state == committed) fail("replica-diverged", name + " had been acknowledged");
     c.count("unpushed_transactions");
    }
   // without faults, it goes on, or is refused if it has diverged
   Remote_Site site;
   site.f = std::make_unique<File>(l.path, Open_Mode::write_existing);
   try
   {
    site.connect(sock, false);
    Writable_Journal_Client client(*site.f, *site.connection, Content_Check::full, Recovery::overwrite);
    if (!compatible) fail("diverged-accepted", l.path + " is accepted although it has diverged from the history");
    if (g.chance(2, 3)) client.push_if_ahead();
    Tx &t = final_writer.begin();
    client.transaction([&](Writable_Journal &j) {Body b = body_of(j); final_writer.run(t, b, j);});
    t.end = client.get_journal_checkpoint();
    final_writer.end(t);
    c.count("replicas_going_on");
   }
   catch (const Violation &) {throw;}
   catch (const std::exception &e)
   {
    if (compatible) fail("replica-refused", l.path + ": " + e.what());
    c.count("replicas_refused");
   }
   unlink(l.path.c_str());
  }
  servers.stop();
  c.count("sessions", uint64_t(s.reopened));
  verify(c, s, writers + 1, 0, cfg.path, false, {}, true);
  unlink(cfg.path.c_str());
 }

 inline void broken(Ctx &c, Rng &g)
 {
  std::string config;
  try {broken_scene(c, g, config);}
  catch (const Violation &v) {fail(v.key, v.msg + " (" + config + ")");}
 }
}
