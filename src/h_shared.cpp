// C01, J04, J06: several processes and threads around one file.
#include "history.h"

namespace
{
 void scene(Ctx &c, Rng &g, bool reader_case)
 {
  static Shared *shared = nullptr;
  if (!shared) shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Shared &s = *shared;
  std::memset((void *)shared, 0, sizeof(Shared));
  Config cfg;
  cfg.path = c.scratch("file.joedb");
  unlink(cfg.path.c_str());
  const int processes = 2 + int(g.below(3));
  const int threads = 1 + int(g.below(2));
  const int writers = processes * threads;
  const int readers = reader_case ? 2 + int(g.below(2)) : int(g.below(2));
  const bool kill_one = g.chance(1, 4);
  cfg.transactions = reader_case ? 4 + int(g.below(10)) : 3 + int(g.below(12));
  cfg.throw_chance = g.chance(1, 2) ? 15 : 0;
  cfg.big = g.chance(1, 2);
  cfg.site = [&cfg](Rng &) -> std::unique_ptr<Site> {return std::make_unique<File_Site>(cfg.path, Open_Mode::shared_write);};
  if (kill_one || cfg.throw_chance) cfg.recovery = Recovery::overwrite;
  const int chance = int(g.pick(std::vector<int>{0, 20, 100, 300, 600}));
  const int kinds_mode = int(g.below(3));
  s.writers_left = writers;
  if (getenv("DBG")) fprintf(stderr, "processes=%d threads=%d readers=%d kill=%d throw=%d big=%d chance=%d kinds=%d\n", processes, threads, readers, kill_one, cfg.throw_chance, cfg.big, chance, kinds_mode);
  const int pre = int(g.below(4));
  if (pre == 0) // an existing database
  {
   File f(cfg.path, Open_Mode::create_new);
   conc::Writable_Database db(f);
   s.schema_ready = 1;
   db.soft_checkpoint();
  }
  else if (pre == 1) // an empty journal
  {
   File f(cfg.path, Open_Mode::create_new);
   Writable_Journal j(f);
  }
  std::vector<pid_t> pids;
  const uint64_t seed = g.next();
  const int64_t t_begin = now();
  std::atomic<int> *gate = (std::atomic<int> *)&s.slots[23].n_obs;
  fflush(nullptr);
  for (int p = 0; p < processes; p++)
  {
   const pid_t pid = fork();
   if (pid < 0) throw Inconclusive{"fork"};
   if (pid == 0)
   {
    pause_chance = chance;
    while (!gate->load()) sched_yield();
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; t++)
    {
     const int id = p * threads + t;
     ts.emplace_back([&, id]
     {
      Rng r(mix(seed, uint64_t(id)));
      const int kind = kinds_mode == 0 ? 0 : kinds_mode == 1 ? int(r.below(4)) : reader_case ? (r.chance(2, 3) ? 3 : 0) : int(r.below(3));
      Writer(s, id, r.next(), cfg).work(kind);
     });
    }
    for (auto &t: ts) t.join();
    _exit(0);
   }
   pids.push_back(pid);
  }
  for (int r = 0; r < readers; r++)
  {
   const pid_t pid = fork();
   if (pid < 0) throw Inconclusive{"fork"};
   if (pid == 0)
   {
    pause_chance = chance;
    while (!gate->load()) sched_yield();
    reader(s, writers + r, mix(seed, uint64_t(100 + r)), cfg.path);
    _exit(0);
   }
   pids.push_back(pid);
  }
  *gate = 1;
  std::vector<int> killed;
  const int victim = int(g.below(uint64_t(processes)));
  const int64_t kill_at = int64_t(g.below(uint64_t(writers * cfg.transactions)));
  const int64_t kill_delay = int64_t(g.below(3000000));
  int64_t seen_at = 0;
  int64_t last_progress = -1, last_time = now();
  std::vector<int> status(pids.size(), -1);
  size_t left = pids.size();
  bool stuck = false;
  while (left)
  {
   for (size_t i = 0; i < pids.size(); i++)
    if (status[i] == -1)
    {
     int st;
     if (waitpid(pids[i], &st, WNOHANG) == pids[i]) {status[i] = st; left--;}
    }
   const int64_t p = s.progress;
   if (p != last_progress) {last_progress = p; last_time = now(); c.step();}
   else if (now() - last_time > 25000000000LL)
   {
    stuck = true;
    for (size_t i = 0; i < pids.size(); i++) if (status[i] == -1) {::kill(pids[i], SIGKILL); waitpid(pids[i], nullptr, 0);}
    break;
   }
   if (kill_one && killed.empty() && p >= kill_at && status[size_t(victim)] == -1)
   {
    if (!seen_at) seen_at = now();
    if (now() - seen_at >= kill_delay)
    {
     ::kill(pids[size_t(victim)], SIGKILL);
     for (int t = 0; t < threads; t++)
     {
      killed.push_back(victim * threads + t);
     }
     int st;
     waitpid(pids[size_t(victim)], &st, 0);
     status[size_t(victim)] = st;
     left--;
     for (int k: killed) if (!s.slots[k].finished) s.writers_left--;
     c.count("killed_processes");
    }
   }
   usleep(300);
  }
  for (int i = 0; i < writers + readers; i++)
   if (s.slots[i].error_key[0]) fail(s.slots[i].error_key, std::string(i < writers ? "writer " : "reader ") + std::to_string(i) + ": " + s.slots[i].error);
  if (stuck) fail("stuck", "no process made progress for 25 s");
  for (size_t i = 0; i < pids.size(); i++)
  {
   const int st = status[i];
   const bool victim_died = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !killed.empty() && int(i) == victim;
   if (!victim_died && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fail("process-died", "status " + std::to_string(st));
  }
  c.count("processes", pids.size());
  c.count("refused_openings", uint64_t(s.refused));
  c.count("sessions", uint64_t(s.reopened));
  c.count("case_ms", uint64_t((now() - t_begin) / 1000000));
  verify(c, s, writers, readers, cfg.path, !killed.empty(), killed);
  unlink(cfg.path.c_str());
 }

 void transactions(Ctx &c, Rng &g) {scene(c, g, false);}
 void readers(Ctx &c, Rng &g) {scene(c, g, true);}
}

#include "h_locks.h"

int main(int argc, char **argv)
{
 return main_loop(argc, argv, {{"transactions", transactions}, {"readers", readers}, {"locks", locks::locks}, {"open_modes", locks::open_modes}});
}
