// A recorded history of transactions by several processes and threads, and its verification (C01, C02, C05, J04, R02).
#pragma once
#include <sys/socket.h>
#include "ops.h"
#include "conc/Client.h"
#include "conc/Readonly_Client.h"
#include "conc/Readonly_Database.h"
#include "joedb/journal/File.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Readonly_Database_Client.h"
#include "joedb/interpreted/Database.h"
#include "joedb/Freedom_Keeper.h"
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <thread>
#include <atomic>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <dirent.h>

using namespace vf;

namespace
{
 // random pauses before file operations, so that other threads and processes come in between
 std::atomic<int> pause_chance{0}; // of 1000
 thread_local uint64_t pause_seed = 0;
 void perturb()
 {
  const int chance = pause_chance.load(std::memory_order_relaxed);
  if (!chance) return;
  if (!pause_seed) pause_seed = uint64_t(syscall(SYS_gettid)) * 0x9e3779b97f4a7c15ULL + uint64_t(clock());
  pause_seed = mix(pause_seed, 77);
  if (int(pause_seed % 1000) < chance)
  {
   const uint64_t us = (pause_seed >> 20) % 4 ? (pause_seed >> 24) % 60 : (pause_seed >> 24) % 1500;
   usleep(useconds_t(us));
  }
 }
}

std::atomic<bool> shorten_sleeps{false};
std::atomic<int> descriptor_limit{0}; // of accept: a real limit would disturb the sanitizers

extern "C"
{
 // Robust_Connection waits 5 seconds before it connects again
 int nanosleep(const timespec *t, timespec *r)
 {
  timespec u = *t;
  if (shorten_sleeps && t->tv_sec > 0) u = {0, 1000000 + (t->tv_nsec / 1000) % 2000000};
  return int(syscall(SYS_nanosleep, &u, r));
 }
 int clock_nanosleep(clockid_t k, int flags, const timespec *t, timespec *r)
 {
  timespec u = *t;
  if (shorten_sleeps && !flags && t->tv_sec > 0) u = {0, 1000000 + (t->tv_nsec / 1000) % 2000000};
  return int(-syscall(SYS_clock_nanosleep, k, flags, &u, r)) ? errno : 0;
 }
 ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {perturb(); return syscall(SYS_pwrite64, fd, b, n, o);}
 ssize_t pread(int fd, void *b, size_t n, off_t o) {perturb(); return syscall(SYS_pread64, fd, b, n, o);}
 int accept(int fd, sockaddr *a, socklen_t *n)
 {
  if (descriptor_limit)
  {
   const int lowest = int(syscall(SYS_dup, fd));
   if (lowest >= 0) close(lowest);
   if (lowest >= descriptor_limit || lowest < 0) {errno = EMFILE; return -1;}
  }
  return int(syscall(SYS_accept, fd, a, n));
 }
 int fcntl(int fd, int cmd, ...)
 {
  va_list a;
  va_start(a, cmd);
  void *arg = va_arg(a, void *);
  va_end(a);
  perturb();
  return int(syscall(SYS_fcntl, fd, cmd, arg));
 }
}

namespace
{
 constexpr uint64_t fnv0 = 1469598103934665603ULL;
 uint64_t fnv(uint64_t h, const char *d, size_t n) {for (size_t i = 0; i < n; i++) {h ^= uint8_t(d[i]); h *= 1099511628211ULL;} return h;}

 uint64_t prefix_hash(const Abstract_File &f, int64_t cp)
 {
  uint64_t h = fnv0;
  char b[4096];
  for (int64_t p = 41; p < cp;)
  {
   const size_t n = f.pread(b, size_t(std::min<int64_t>(sizeof(b), cp - p)), p);
   if (!n) return 0;
   h = fnv(h, b, n);
   p += int64_t(n);
  }
  return h;
 }

 enum State {unused, started, body_done, committed, thrown, rejected};
 struct Tx
 {
  int64_t t0, t1, start, end, counter, entries;
  uint64_t hash;
  int state, increments, new_entries;
 };
 struct Obs {int64_t t0, t1, cp, counter, entries; uint64_t hash; int replayed;};
 constexpr int max_tx = 40, max_obs = 2000;
 struct Slot
 {
  Tx tx[max_tx];
  int n_tx;
  int n_obs;
  int finished;
  char error[600];
  char error_key[60];
 };
 struct Shared
 {
  std::atomic<int64_t> progress;
  std::atomic<int> schema_ready;
  std::atomic<int> writers_left;
  std::atomic<int> refused;
  std::atomic<int> reopened;
  std::atomic<int> unknown;
  Slot slots[24];
  Obs obs[24][max_obs];
 };

 struct Injected: std::runtime_error {Injected(): std::runtime_error("injected") {}};

 // what a transaction can do, whatever the kind of client
 struct Body
 {
  std::function<void(const std::string &)> comment;
  std::function<void(const std::string &)> blob;
  std::function<bool()> has_schema;
  std::function<int64_t()> counter;            // -1: unknown
  std::function<int64_t()> entries;
  std::function<void()> increment;
  std::function<void(int, int, const std::string &)> entry;
  std::function<bool(int, int)> find;          // by index
 };

 Body body_of(conc::Writable_Database &db)
 {
  Body b;
  auto *d = &db;
  b.comment = [d](const std::string &s) {d->write_comment(s);};
  b.blob = [d](const std::string &s) {d->write_blob(s);};
  b.has_schema = [] {return true;};
  b.counter = [d]() -> int64_t {return d->get_counter_table().get_size() ? d->get_value(d->get_counter_table().first()) : 0;};
  b.entries = [d]() -> int64_t {return int64_t(d->get_entry_table().get_size());};
  b.increment = [d]
  {
   if (!d->get_counter_table().get_size()) d->set_value(d->new_counter(), 1);
   else {const auto c = d->get_counter_table().first(); d->set_value(c, d->get_value(c) + 1);}
  };
  b.entry = [d](int o, int s, const std::string &t) {d->new_entry(o, s, t);};
  b.find = [d](int o, int s) {return d->find_entry_by_key(o, s).is_not_null();};
  return b;
 }
 Body body_of(const Readable &r, Writable &w)
 {
  Body b;
  const Readable *db = &r;
  Writable *p = &w;
  b.comment = [p](const std::string &s) {p->comment(s);};
  b.blob = [p](const std::string &s) {p->write_blob(s);};
  const Table_Id ct{1}, et{2};
  b.has_schema = [db] {return db->get_tables().size() == 2 && db->get_fields(Table_Id{2}).size() == 3;};
  b.counter = [db, b, ct]() -> int64_t {return b.has_schema() && db->get_freedom(ct).get_used_count() > Record_Id{0} ? db->get_int64(ct, Record_Id{0}, Field_Id{1}) : 0;};
  b.entries = [db, b, et]() -> int64_t {return b.has_schema() ? to_underlying(db->get_freedom(et).get_used_count()) : 0;};
  b.increment = [db, p, ct]
  {
   if (db->get_freedom(ct).get_used_count() == Record_Id{0}) {p->insert_into(ct, Record_Id{0}); p->update_int64(ct, Record_Id{0}, Field_Id{1}, 1);}
   else p->update_int64(ct, Record_Id{0}, Field_Id{1}, db->get_int64(ct, Record_Id{0}, Field_Id{1}) + 1);
  };
  b.entry = [db, p, et](int o, int s, const std::string &t)
  {
   const Record_Id id = db->get_freedom(et).get_used_count();
   p->insert_into(et, id);
   p->update_int32(et, id, Field_Id{1}, o);
   p->update_int32(et, id, Field_Id{2}, s);
   p->update_string(et, id, Field_Id{3}, t);
  };
  b.find = [](int, int) {return true;};
  return b;
 }
 Body body_of(Writable &w)
 {
  Body b;
  Writable *p = &w;
  b.comment = [p](const std::string &s) {p->comment(s);};
  b.blob = [p](const std::string &s) {p->write_blob(s);};
  b.has_schema = [] {return false;};
  b.counter = [] {return int64_t(-1);};
  b.entries = [] {return int64_t(-1);};
  b.find = [](int, int) {return true;};
  return b;
 }

 // a file and the connection a client uses with it
 struct Site
 {
  Content_Check check = Content_Check::fast;
  virtual Abstract_File &get_file() = 0;
  virtual Connection &get_connection() {return Connection::dummy;}
  virtual ~Site() = default;
 };
 struct File_Site: Site
 {
  File f;
  File_Site(const std::string &path, Open_Mode mode): f(path, mode) {}
  Abstract_File &get_file() override {return f;}
 };

 struct Config
 {
  std::string path;
  int transactions = 8, throw_chance = 0, big = 0;
  Recovery recovery = Recovery::none;
  bool sometimes_exclusive = true;   // opens the file without sharing from time to time
  bool observe_own = false;          // record what writers see between their transactions
  bool go_on_after_errors = false;   // with the same client
  bool push_kept_work = false;       // local work may be ahead of the connection
  std::function<std::unique_ptr<Site>(Rng &)> site;
  // true when this error may happen here; changes the state of the transaction, if any
  std::function<bool(const std::exception &, Tx *)> tolerate;
 };

 struct Writer
 {
  Shared &s;
  const int id;
  Slot &slot;
  Rng g;
  Config cfg;
  std::vector<std::pair<int, int>> mine; // committed keys
  int seq = 0;

  Writer(Shared &s, int id, uint64_t seed, const Config &cfg): s(s), id(id), slot(s.slots[id]), g(seed), cfg(cfg) {}

  Tx &begin()
  {
   Tx &t = slot.tx[slot.n_tx];
   t = Tx{};
   t.counter = t.entries = -1;
   t.t0 = now();
   t.state = started;
   return t;
  }
  void run(Tx &t, Body &b, const Readonly_Journal &j, bool journal_position_is_checkpoint = true)
  {
   if (journal_position_is_checkpoint && j.get_position() != j.get_checkpoint())
    fail("transaction-not-at-checkpoint", "a transaction starts at " + std::to_string(j.get_position()) + ", the checkpoint is " + std::to_string(j.get_checkpoint()));
   t.start = j.get_position();
   t.hash = prefix_hash(j.get_file(), t.start);
   t.counter = b.counter();
   t.entries = b.entries();
   for (auto &m: mine)
    if (!b.find(m.first, m.second))
     fail("own-commit-lost", "entry " + std::to_string(m.first) + "," + std::to_string(m.second) + " is not found any more");
   b.comment("B " + std::to_string(id) + " " + std::to_string(slot.n_tx));
   std::vector<std::pair<int, int>> added;
   if (b.has_schema())
   {
    if (g.chance(3, 4)) {b.increment(); t.increments = 1;}
    const int n = int(g.below(4));
    for (int i = 0; i < n; i++)
    {
     b.entry(id, seq, g.bytes(cfg.big && g.chance(1, 4) ? g.below(12000) : g.below(40)));
     added.push_back({id, seq++});
     t.new_entries++;
     if (g.chance(1, 6)) usleep(useconds_t(g.below(600)));
    }
   }
   if (g.chance(1, 3)) b.blob(g.bytes(g.chance(1, 3) ? g.below(9000) : g.below(50)));
   if (g.chance(1, 4)) b.comment(std::string(g.below(5000), 'x'));
   if (int(g.below(100)) < cfg.throw_chance)
   {
    t.state = thrown;
    throw Injected();
   }
   b.comment("E " + std::to_string(id) + " " + std::to_string(slot.n_tx));
   t.state = body_done;
   added_now = added;
  }
  std::vector<std::pair<int, int>> added_now;
  void end(Tx &t)
  {
   t.t1 = now();
   t.state = committed;
   for (auto &a: added_now) mine.push_back(a);
   slot.n_tx++;
   s.progress++;
  }
  void aborted(Tx &t)
  {
   t.t1 = now();
   slot.n_tx++;
   s.progress++;
  }
  bool more() const {return slot.n_tx < cfg.transactions;}

  // what a client sees is recorded too
  void observe(int64_t t0, const Abstract_File &f, int64_t cp, int64_t counter = 0, int64_t entries = 0, bool replayed = false)
  {
   if (slot.n_obs >= max_obs) return;
   Obs &o = s.obs[id][slot.n_obs];
   o = {t0, now(), cp, counter, entries, prefix_hash(f, cp), replayed};
   slot.n_obs++;
  }
  // what follows the checkpoint of the connection is local work
  void observe_client(int64_t t0, const Client &c, int64_t counter, int64_t entries, bool replayed)
  {
   const bool ahead = c.get_journal_checkpoint() > c.get_connection_checkpoint();
   observe(t0, c.get_journal().get_file(), ahead ? c.get_connection_checkpoint() : c.get_journal_checkpoint(), counter, entries, replayed && !ahead);
  }
  // a session: transactions and pulls until it is closed or broken
  template<typename C, typename T, typename L, typename B> void session(C &c, T transact, L locked_transaction, B look)
  {
   const bool lock_object = g.chance(1, 4);
   int n = int(g.below(6)) + 1;
   while (more() && n-- > 0)
   {
    if (g.chance(1, 4))
    {
     const int64_t t0 = now();
     try
     {
      c.pull(std::chrono::milliseconds(g.chance(1, 6) ? g.below(30) : 0));
     }
     catch (const std::exception &e)
     {
      if (!cfg.tolerate || !cfg.tolerate(e, nullptr)) throw;
      if (!cfg.go_on_after_errors || g.chance(1, 2)) return;
      continue;
     }
     look(t0);
    }
    Tx &t = begin();
    try
    {
     if (lock_object) locked_transaction(t); else transact(t);
     t.end = c.get_journal_checkpoint();
     end(t);
    }
    catch (const Injected &) {aborted(t); return;}
    catch (const std::exception &e)
    {
     if (!cfg.tolerate || !cfg.tolerate(e, &t)) throw;
     aborted(t);
     if (!cfg.go_on_after_errors || t.state != body_done || g.chance(1, 2)) return;
     continue;
    }
    if (cfg.observe_own && g.chance(1, 2)) observe(now() - 3600000000000LL, c.get_journal().get_file(), c.get_connection_checkpoint());
   }
  }

  void gen_client()
  {
   const auto site = cfg.site(g);
   conc::Client c(site->get_file(), site->get_connection(), site->check, cfg.recovery);
   s.schema_ready = 1;
   if (g.chance(1, 4)) c.set_valid_data(true);
   if (g.chance(1, 4)) c.set_timestamp(true);
   if (g.chance(1, 6)) c.set_hard_checkpoint(true);
   session(c,
    [&](Tx &t) {c.transaction([&](conc::Writable_Database &db) {Body b = body_of(db); run(t, b, c.get_journal());});},
    [&](Tx &t)
    {
     conc::Client_Lock l(c);
     Body b = body_of(l.get_database());
     try {run(t, b, c.get_journal());} catch (...) {l.unlock(); throw;}
     l.checkpoint_and_push_unlock();
    },
    [&](int64_t t0)
    {
     examine(c.get_database());
     auto &d = c.get_database();
     if (cfg.observe_own)
      observe_client(t0, c, d.get_counter_table().get_size() ? d.get_value(d.get_counter_table().first()) : 0, int64_t(d.get_entry_table().get_size()), true);
    });
  }
  void examine(const conc::Database &db)
  {
   // an index must agree with its table
   size_t n = 0;
   for (auto e: db.get_entry_table())
   {
    n++;
    if (db.find_entry_by_key(db.get_owner(e), db.get_seq(e)) != e) fail("index-differs", "an entry is not found by its key after a pull");
   }
  }
  void interpreted_client()
  {
   const auto site = cfg.site(g);
   Writable_Database_Client c(site->get_file(), site->get_connection(), site->check, Record_Id::null, cfg.recovery);
   if (cfg.push_kept_work) c.push_if_ahead();
   session(c,
    [&](Tx &t) {c.transaction([&](const Readable &r, Writable &w) {Body b = body_of(r, w); run(t, b, c.get_journal());});},
    [&](Tx &t)
    {
     Writable_Database_Client_Lock l(c);
     Body b = body_of(l.get_readable(), l.get_writable());
     try {run(t, b, c.get_journal());} catch (...) {l.unlock(); throw;}
     l.checkpoint_and_push_unlock();
    },
    [&](int64_t t0)
    {
     Recorder w;
     const Body b = body_of(c.get_database(), w);
     if (cfg.observe_own) observe_client(t0, c, b.counter(), b.entries(), true);
    });
  }
  void journal_client()
  {
   const auto site = cfg.site(g);
   Writable_Journal_Client c(site->get_file(), site->get_connection(), site->check, cfg.recovery);
   if (cfg.push_kept_work) c.push_if_ahead();
   session(c,
    [&](Tx &t) {c.transaction([&](Writable_Journal &j) {Body b = body_of(j); run(t, b, j);});},
    [&](Tx &t)
    {
     Writable_Journal_Client_Lock l(c);
     Body b = body_of(l.get_journal());
     try {run(t, b, c.get_journal());} catch (...) {l.unlock(); throw;}
     l.checkpoint_and_push_unlock();
    },
    [&](int64_t t0) {if (cfg.observe_own) observe_client(t0, c, 0, 0, false);});
  }
  // holds the file for several checkpoints
  bool exclusive()
  {
   const Open_Mode m = g.chance(1, 2) ? Open_Mode::write_lock : g.chance(1, 2) ? Open_Mode::write_existing_or_create_new : Open_Mode::write_existing;
   std::unique_ptr<File> f;
   try {f.reset(new File(cfg.path, m));}
   catch (const joedb::Exception &e)
   {
    if (m == Open_Mode::write_lock) throw;
    s.refused++;
    usleep(useconds_t(g.below(3000)));
    return false;
   }
   conc::Writable_Database db(*f, cfg.recovery);
   s.schema_ready = 1;
   int n = int(g.below(6)) + 1;
   while (more() && n-- > 0)
   {
    Tx &t = begin();
    try
    {
     Body b = body_of(db);
     run(t, b, db.get_journal());
     if (g.chance(1, 3)) db.hard_checkpoint(); else db.soft_checkpoint();
     t.end = db.get_journal().get_checkpoint();
     end(t);
     if (g.chance(1, 4)) usleep(useconds_t(g.below(2000)));
    }
    catch (const Injected &) {aborted(t); return true;}
   }
   return true;
  }
  void work(int kind)
  {
   try
   {
    while (more())
    {
     const int k = kind >= 0 && g.chance(9, 10) ? kind : int(g.below(cfg.sometimes_exclusive ? 4 : 3));
     try
     {
      switch (k)
      {
       case 0: gen_client(); break;
       case 1: interpreted_client(); break;
       case 2: journal_client(); break;
       default: exclusive(); break;
      }
     }
     catch (const Violation &) {throw;}
     catch (const std::exception &e) {if (!cfg.tolerate || !cfg.tolerate(e, nullptr)) throw;}
     s.reopened++;
     if (g.chance(1, 3)) usleep(useconds_t(g.below(1500)));
    }
   }
   catch (const Violation &v) {note(slot, v.key, v.msg);}
   catch (const std::exception &e) {note(slot, "unexpected-error", exception_name(e));}
   slot.finished = 1;
   s.writers_left--;
  }
  static void note(Slot &slot, const std::string &key, const std::string &msg)
  {
   snprintf(slot.error, sizeof(slot.error), "%s", msg.c_str());
   snprintf(slot.error_key, sizeof(slot.error_key), "%s", key.c_str());
  }
 };

 // what a recorded journal says
 struct Summary {int64_t counter = 0, entries = 0; bool broken = false; std::string why;};
 Summary summary(const Ops &ops, size_t from, Summary r)
 {
  for (size_t i = from; i < ops.size(); i++)
  {
   const Op &o = ops[i];
   if (o.k == K::update && o.t == 1) r.counter = Dec<int64_t>::get(o.s);
   if (o.k == K::insert && o.t == 2) r.entries++;
   if (o.k == K::insert_vec && o.t == 2) r.entries += o.n;
  }
  return r;
 }

 void reader(Shared &s, int id, uint64_t seed, const std::string &path)
 {
  Rng g(seed);
  Slot &slot = s.slots[id];
  Obs *obs = s.obs[id];
  auto observe = [&](int64_t t0, const Abstract_File &f, int64_t cp, int64_t counter, int64_t entries, int replayed)
  {
   if (slot.n_obs < max_obs)
   {
    Obs &o = obs[slot.n_obs];
    o.t0 = t0;
    o.t1 = now();
    o.cp = cp;
    o.counter = counter;
    o.entries = entries;
    o.replayed = replayed;
    o.hash = prefix_hash(f, cp);
    slot.n_obs++;
   }
   s.progress++;
  };
  try
  {
   bool last = false;
   while (!last)
   {
    const int kind = int(g.below(4));
    int n = 1 + int(g.below(30));
    std::unique_ptr<File> f;
    struct stat st;
    if (stat(path.c_str(), &st) || st.st_size < 41) // created in another process
    {
     if (s.writers_left == 0) break;
     usleep(200);
     continue;
    }
    f.reset(new File(path, Open_Mode::read_existing));
    int64_t previous = 0;
    auto monotone = [&](int64_t cp)
    {
     if (cp < previous) fail("checkpoint-decreased", "from " + std::to_string(previous) + " to " + std::to_string(cp));
     previous = cp;
    };
    // the file can be seen between the creation of its name and of its header
    auto loop = [&](auto &r, auto pull, auto state)
    {
     while (n-- > 0 && !last)
     {
      last = s.writers_left == 0;
      const int64_t t0 = now();
      pull();
      auto [cp, counter, entries, replayed] = state();
      monotone(cp);
      observe(t0, *f, cp, counter, entries, replayed);
      if (g.chance(1, 2)) usleep(useconds_t(g.below(2000)));
     }
    };
    using T4 = std::tuple<int64_t, int64_t, int64_t, int>;
    if (kind == 0)
    {
     Readonly_Journal j(*f);
     Recorder rec;
     Summary sum;
     size_t done = 0;
     loop(j, [&] {j.pull(); j.play_until_checkpoint(rec);},
      [&] {sum = summary(rec.ops, done, sum); done = rec.ops.size(); return T4(j.get_checkpoint(), sum.counter, sum.entries, 1);});
    }
    else if (kind == 1)
    {
     Readonly_Database_Client c(*f);
     loop(c, [&] {c.pull();}, [&]
     {
      const Body b = [&] {Recorder w; return body_of(c.get_database(), w);} ();
      return T4(c.get_journal_checkpoint(), b.counter(), b.entries(), 1);
     });
    }
    else if (kind == 2 && s.schema_ready)
    {
     conc::Readonly_Client c(*f);
     loop(c, [&] {c.pull();}, [&]
     {
      auto &d = c.get_database();
      return T4(c.get_journal_checkpoint(), d.get_counter_table().get_size() ? d.get_value(d.get_counter_table().first()) : 0, int64_t(d.get_entry_table().get_size()), 1);
     });
    }
    else
    {
     // opened again each time
     Readonly_Journal j(*f);
     Recorder rec;
     const int64_t t0 = now() - 1000000000; // no freshness is claimed: the checkpoint was read above
     last = s.writers_left == 0;
     j.play_until_checkpoint(rec);
     const Summary sum = summary(rec.ops, 0, {});
     observe(t0, *f, j.get_checkpoint(), sum.counter, sum.entries, 1);
    }
   }
  }
  catch (const Violation &v) {Writer::note(slot, "reader-" + v.key, v.msg);}
  catch (const std::exception &e) {Writer::note(slot, "reader-error", exception_name(e));}
  slot.finished = 1;
 }

 struct Block {int owner, k; int64_t start, end; size_t first, last; const Tx *tx;};

 void verify(Ctx &c, Shared &s, int writers, int readers, const std::string &path, bool killed_some, const std::vector<int> &killed, bool unknown_outcomes = false)
 {
  for (int i = 0; i < writers + readers; i++)
   if (s.slots[i].error_key[0]) fail(s.slots[i].error_key, (i < writers ? "writer " : "reader ") + std::to_string(i) + ": " + s.slots[i].error);

  struct stat st;
  if (stat(path.c_str(), &st)) {if (killed_some) return; fail("file-missing");}
  std::string bytes;
  {
   const int fd = open(path.c_str(), O_RDONLY);
   bytes.resize(size_t(st.st_size));
   if (::read(fd, bytes.data(), bytes.size()) != st.st_size) throw Inconclusive{"read"};
   close(fd);
  }
  if (bytes.size() < 41) {if (killed_some) return; fail("file-too-short");}
  // every operation with the position after it
  Recorder rec;
  int64_t checkpoint;
  {
   File f(path, Open_Mode::read_existing);
   Readonly_Journal j(f);
   checkpoint = j.get_checkpoint();
   j.replay_with_checkpoint_comments(rec);
  }
  std::vector<uint64_t> h(bytes.size() + 1, fnv0);
  for (size_t i = 41; i < bytes.size(); i++) h[i + 1] = fnv(h[i], &bytes[i], 1);
  std::vector<Block> blocks;
  std::vector<std::pair<int64_t, Summary>> states; // after each operation
  Summary sum;
  states.push_back({41, sum});
  int64_t pos = 41;
  bool inside = false;
  Ops one;
  auto same = [&](const std::string &t, int &o, int &k) {return sscanf(t.c_str() + 2, "%d %d", &o, &k) == 2;};
  for (size_t i = 0; i < rec.ops.size(); i++)
  {
   const Op &o = rec.ops[i];
   if (i + 1 == rec.ops.size()) fail("log-shape");
   const Op &p = rec.ops[i + 1];
   if (p.k != K::comment) fail("log-shape", o.str());
   const int64_t before = pos;
   pos = std::stoll(p.s);
   i++;
   one.assign(1, o);
   sum = summary(one, 0, sum);
   states.push_back({pos, sum});
   int owner, k;
   if (o.k == K::comment && o.s.compare(0, 2, "B ") == 0)
   {
    if (!same(o.s, owner, k)) fail("log-shape", o.s);
    if (inside) fail("interleaved-transactions", o.s + " inside the transaction of " + std::to_string(blocks.back().owner));
    inside = true;
    blocks.push_back({owner, k, before, 0, i - 1, 0, nullptr});
    if (owner < 0 || owner >= writers || k < 0 || k >= max_tx) fail("log-shape", o.s);
    blocks.back().tx = &s.slots[owner].tx[k];
   }
   else if (o.k == K::comment && o.s.compare(0, 2, "E ") == 0)
   {
    if (!same(o.s, owner, k) || !inside || blocks.back().owner != owner || blocks.back().k != k) fail("interleaved-transactions", o.s);
    inside = false;
    blocks.back().end = pos;
   }
   else if (!inside)
   {
    const bool allowed = o.k == K::valid_data || o.k == K::timestamp || o.k == K::create_table || o.k == K::add_field || o.k == K::comment;
    if (!allowed) fail("operation-outside-transactions", o.str());
   }
  }
  if (inside) fail("partial-transaction", "the last transaction is incomplete");
  if (pos != checkpoint) fail("log-shape", "replay ended at " + std::to_string(pos));
  auto state_at = [&](int64_t p) -> const Summary *
  {
   auto it = std::lower_bound(states.begin(), states.end(), p, [](auto &a, int64_t v) {return a.first < v;});
   return it != states.end() && it->first == p ? &it->second : nullptr;
  };

  // exactly the committed transactions
  std::set<std::pair<int, int>> seen;
  uint64_t order = 0;
  for (auto &b: blocks)
  {
   const std::string name = "transaction " + std::to_string(b.k) + " of client " + std::to_string(b.owner);
   order = mix(order, uint64_t(b.owner));
   if (!seen.insert({b.owner, b.k}).second) fail("transaction-repeated", name);
   const Tx &t = *b.tx;
   if (t.state == thrown) fail("aborted-transaction-visible", name);
   if (t.state == rejected) fail("rejected-transaction-visible", name);
   const bool was_killed = std::find(killed.begin(), killed.end(), b.owner) != killed.end();
   if (t.state == body_done && !was_killed && !unknown_outcomes) fail("internal-state", name);
   if (t.start != b.start) fail("started-elsewhere", name + " started at " + std::to_string(t.start) + ", found at " + std::to_string(b.start));
   if (t.hash != h[size_t(b.start)]) fail("saw-other-bytes", name + " saw other bytes before its start than the file has");
   const Summary *before = state_at(b.start);
   if (t.counter >= 0 && (t.counter != before->counter || t.entries != before->entries))
    fail("saw-other-state", name + " saw counter " + std::to_string(t.counter) + " and " + std::to_string(t.entries) + " entries, the transactions before give " +
     std::to_string(before->counter) + " and " + std::to_string(before->entries));
   const Summary *after = state_at(b.end);
   if (after->counter != before->counter + t.increments || after->entries != before->entries + t.new_entries)
    fail("lost-update", name + ": counter " + std::to_string(before->counter) + " -> " + std::to_string(after->counter) + ", entries " + std::to_string(before->entries) + " -> " + std::to_string(after->entries));
   c.count("transactions");
  }
  int total = 0;
  for (int i = 0; i < writers; i++)
   for (int k = 0; k < s.slots[i].n_tx; k++)
   {
    const Tx &t = s.slots[i].tx[k];
    if (t.state == committed)
    {
     total++;
     if (!seen.count({i, k})) fail("committed-transaction-lost", "transaction " + std::to_string(k) + " of client " + std::to_string(i) + " (start " + std::to_string(t.start) + ", end " + std::to_string(t.end) + "), final checkpoint " + std::to_string(checkpoint));
    }
    if (t.state == thrown) c.count("aborted");
   }
  // real time: nothing that ended before another began comes after it
  int64_t earliest_end = INT64_MAX;
  for (size_t i = blocks.size(); i-- > 0;)
  {
   const Tx &t = *blocks[i].tx;
   if (earliest_end < t.t0) fail("real-time-order", "a transaction is ordered before one that had committed when it began");
   if (t.state == committed) earliest_end = std::min(earliest_end, t.t1);
  }
  c.sig(mix(order, uint64_t(blocks.size())));
  // how often the owner changes
  for (size_t i = 1; i < blocks.size(); i++) if (blocks[i].owner != blocks[i - 1].owner) c.count("owner_changes");

  for (int r = 0; r < writers + readers; r++)
  {
   const Slot &slot = s.slots[r];
   for (int i = 0; i < slot.n_obs; i++)
   {
    const Obs &o = s.obs[r][i];
    c.count("observations");
    const std::string name = std::string(r < writers ? "writer " : "reader ") + std::to_string(r) + " at checkpoint " + std::to_string(o.cp);
    if (o.cp < 41 || o.cp > checkpoint) fail("reader-beyond-checkpoint", name + ", final checkpoint " + std::to_string(checkpoint));
    if (o.hash != h[size_t(o.cp)]) fail("reader-other-bytes", name + " read bytes which were never committed there");
    const Summary *st2 = state_at(o.cp);
    if (!st2) fail("reader-inside-operation", name);
    if (o.replayed && (o.counter != st2->counter || o.entries != st2->entries))
     fail("reader-other-state", name + " has counter " + std::to_string(o.counter) + " and " + std::to_string(o.entries) + " entries, expected " + std::to_string(st2->counter) + " and " + std::to_string(st2->entries));
    // the last block that starts before the checkpoint
    auto it = std::upper_bound(blocks.begin(), blocks.end(), o.cp, [](int64_t v, const Block &b) {return v <= b.start;});
    if (it != blocks.begin())
    {
     const Block &b = *std::prev(it);
     if (o.cp < b.end) fail("reader-inside-transaction", name + " is inside a transaction");
     if (b.tx->t0 > o.t1) fail("reader-before-writer", name + " sees a transaction that began later");
    }
    // the first block it does not see
    for (; it != blocks.end(); ++it)
     if (it->tx->state == committed && it->tx->t1 < o.t0) fail("reader-stale", name + " does not see a transaction that had been committed before the pull");
    if (st2->counter || st2->entries) c.count("nonempty_observations");
   }
  }
  if (c.samples.size() < 2)
  {
   std::string o;
   for (auto &b: blocks) o += std::to_string(b.owner) + " ";
   c.sample(std::to_string(writers) + " writers, " + std::to_string(readers) + " readers, order of commits: " + o);
  }
 }

}
