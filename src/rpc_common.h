// The server of procedures and its clients.
#pragma once
#include "raw.h"
#include "svc/Client.h"
#include "svc/Memory_Database.h"
#include "svc/rpc/Procedures.h"
#include "svc/rpc/Signatures.h"
#include "svc/rpc/Client.h"
#include "svc/rpc/amount/Memory_Database.h"
#include "svc/rpc/batch/Memory_Database.h"
#include "joedb/rpc/Server.h"
#include "joedb/journal/Memory_File.h"
#include <thread>

namespace
{
 using namespace joedb;
 using namespace vf;
 using raw::Socket;
 using raw::i64;

 // the service and its database
 struct Side
 {
  Memory_File file;
  svc::Client client{file, Connection::dummy};
  svc::rpc::Service service{client};
 };
 struct Remote: Side
 {
  raw::Counting_Logger logger;
  svc::rpc::Procedures procedures{service};
  std::vector<rpc::Signature> signatures = svc::rpc::get_signatures();
  std::string endpoint;
  std::unique_ptr<rpc::Server> server;
  Remote(const std::string &path, int threads, int log_level): endpoint(path)
  {
   unlink(path.c_str());
   server = std::make_unique<rpc::Server>(logger, log_level, threads, path, signatures, procedures.procedures);
  }
  void stop() {if (server && !server->is_joined()) server->stop();}
  ~Remote() {stop();}
 };

 template<typename D> std::string content(const D &m);
 template<typename T> void put(std::string &r, const T &v) {const std::string e = enc(v); r += std::to_string(e.size()) + ":" + e + ";";}
 std::string num(int64_t v) {return std::to_string(v) + ",";}
 template<typename D> std::string amount_content(const D &m) {std::string r; put(r, m.get_name()); return r + num(m.get_amount()) + num(m.get_total());}
 template<typename D> std::string batch_content(const D &m)
 {
  std::string r;
  for (const auto p: m.get_person_table()) r += "p" + num(int64_t(p.get_id()));
  for (const auto i: m.get_item_table())
  {
   r += "i" + num(int64_t(i.get_id()));
   put(r, m.get_name(i));
   r += num(m.get_value(i));
   const double d = m.get_real(i);
   r.append((const char *)&d, 8);
   r += num(m.get_small(i)) + num(m.get_flag(i)) + num(int64_t(m.get_next(i).get_id())) + num(int64_t(m.get_who(i).get_id()));
  }
  for (const auto x: m.get_result_table()) {r += "r" + num(int64_t(x.get_id())) + num(int64_t(m.get_item(x).get_id())); put(r, m.get_text(x));}
  for (const auto i: m.get_item_table())
  {
   r += "x";
   for (const auto x: m.find_result_by_item(i)) r += num(int64_t(x.get_id()));
  }
  return r;
 }
 template<typename D> std::string people_content(const D &m)
 {
  std::string r;
  for (const auto p: m.get_person_table()) {r += num(int64_t(p.get_id())); put(r, m.get_name(p)); r += num(m.get_score(p));}
  return r;
 }

 // the same edition of two equal messages
 template<typename D> void edit_batch(D &m, Rng g)
 {
  const int n = int(g.below(8));
  for (int k = 0; k < n; k++)
  {
   std::vector<svc::rpc::batch::id_of_item> items;
   for (const auto i: m.get_item_table()) items.push_back(i);
   switch (g.below(8))
   {
    case 0: case 1: case 2:
    {
     const auto i = m.new_item();
     m.set_name(i, random_string(g, g.chance(1, 10) ? 30000 : 40));
     m.set_value(i, g.chance(1, 12) ? 666 : boundary(g, 62));
    }
    break;
    case 3: if (!items.empty()) m.set_flag(g.pick(items), g.chance(1, 2)); break;
    case 4: if (!items.empty()) {m.set_real(g.pick(items), double(int64_t(g.next())) / 3); m.set_small(g.pick(items), int8_t(g.next()));} break;
    case 5: if (!items.empty()) m.set_next(g.pick(items), g.pick(items)); break;
    case 6: if (!items.empty()) {const auto i = g.pick(items); m.delete_item(i); for (const auto j: items) if (j != i && m.get_next(j) == i) m.set_next(j, svc::rpc::batch::id_of_item(Record_Id::null));} break;
    default: {const auto p = m.new_person(); if (!items.empty()) m.set_who(g.pick(items), p);} break;
   }
  }
 }

 struct Messages
 {
  std::unique_ptr<svc::rpc::amount::Memory_Database> amount{new svc::rpc::amount::Memory_Database};
  std::unique_ptr<svc::rpc::batch::Memory_Database> batch{new svc::rpc::batch::Memory_Database};
  std::unique_ptr<svc::Memory_Database> people{new svc::Memory_Database};
 };

 void calls(Ctx &c, Rng &g)
 {
  const int threads = g.chance(1, 2) ? 1 : 2 + int(g.below(3));
  Remote remote(c.scratch("r.sock"), threads, int(g.below(5)));
  Side local;
  struct One
  {
   std::unique_ptr<Local_Channel> channel;
   std::unique_ptr<svc::rpc::Client> client;
   Messages far, near;
  };
  std::vector<One> clients(1 + g.below(3));
  std::string trace;
  uint64_t sig = uint64_t(threads);
  auto bad = [&](const std::string &key, const std::string &msg) {fail(key, msg + ": " + trace);};
  const int n = 5 + int(g.below(30));
  for (int k = 0; k < n; k++)
  {
   c.step();
   const size_t who = g.below(clients.size());
   One &x = clients[who];
   if (!x.client || g.chance(1, 20))
   {
    x.client.reset();
    x.channel.reset(new Local_Channel(remote.endpoint));
    x.client.reset(new svc::rpc::Client(*x.channel, std::chrono::milliseconds(g.chance(1, 4) ? 1 + g.below(3) : 0)));
    trace += " connect(" + std::to_string(who) + ")";
    c.count("connections");
   }
   std::string near_error, far_error;
   bool near_failed = false, far_failed = false;
   auto guard = [&](auto f, bool &failed, std::string &error)
   {
    try {f();} catch (const Violation &) {throw;} catch (const std::exception &e) {failed = true; error = e.what();}
   };
   const int what = int(g.below(6));
   sig = mix(sig, uint64_t(what) * 8 + who);
   if (g.chance(1, 12)) {x.far = Messages(); x.near = Messages();}
   auto check = [&](const std::string &name, const std::string &before, const std::string &far, const std::string &near)
   {
    trace += " " + name + "(" + std::to_string(who) + ")";
    c.count("calls");
    if (near_failed != far_failed) bad("failure-differs", name + ": locally " + (near_failed ? "fails: " + near_error : "succeeds") + ", remotely " + (far_failed ? "fails: " + far_error : "succeeds"));
    if (near_failed)
    {
     c.count("failed_calls");
     // a message that is too long may be cut
     if (far_error != near_error && !(near_error.size() > 8000 && far_error.size() > 8000 && near_error.compare(0, far_error.size(), far_error) == 0))
      bad("error-differs", "locally \"" + near_error.substr(0, 200) + "\", remotely \"" + far_error.substr(0, 200) + "\"");
     if (far != before) bad("message-changed", name + " failed, but the message is not what was sent");
     return;
    }
    if (far != near) bad("result-differs", name + ": the message is not what the local call gives (" + std::to_string(far.size()) + ", " + std::to_string(near.size()) + ")");
   };
   if (what == 0 || what == 1)
   {
    const std::string name = g.chance(1, 3) ? random_string(g, 100) : "n" + std::to_string(g.below(5));
    const int64_t amount = g.chance(1, 10) ? -1 : int64_t(g.below(100));
    for (auto *m: {x.far.amount.get(), x.near.amount.get()}) {m->set_name(name); m->set_amount(amount);}
    const std::string before = amount_content(*x.far.amount);
    guard([&] {x.client->add(*x.far.amount);}, far_failed, far_error);
    if (amount == -1) {near_failed = true; near_error = "refused: " + name; near_error = near_error.c_str();}
    else guard([&] {svc::rpc::amount::Writable_Database &w = *x.near.amount; local.service.add(w);}, near_failed, near_error);
    check("add", before, amount_content(*x.far.amount), amount_content(*x.near.amount));
   }
   else if (what < 5)
   {
    const Rng h(g.next());
    edit_batch(*x.far.batch, h);
    edit_batch(*x.near.batch, h);
    const std::string before = batch_content(*x.far.batch);
    if (before != batch_content(*x.near.batch)) bad("harness", "messages differ before the call");
    const int p = what == 2 || what == 3 ? 0 : int(g.below(2)) + 1;
    // the local call works on a copy: it is thrown away if it fails
    Memory_File copy;
    x.near.batch->soft_checkpoint();
    if (p == 0)
    {
     guard([&] {x.client->transform(*x.far.batch);}, far_failed, far_error);
     bool fails = false;
     for (const auto i: x.near.batch->get_item_table()) if (x.near.batch->get_value(i) == 666) {fails = true; near_error = ("bad item: " + x.near.batch->get_name(i)).c_str(); break;}
     if (fails) near_failed = true;
     else guard([&] {svc::rpc::batch::Writable_Database &w = *x.near.batch; local.service.transform(w);}, near_failed, near_error);
    }
    else if (p == 1)
    {
     guard([&] {x.client->fail(*x.far.batch);}, far_failed, far_error);
     guard([&] {svc::rpc::batch::Writable_Database &w = *x.near.batch; local.service.fail(w);}, near_failed, near_error);
    }
    else
    {
     guard([&] {x.client->nothing(*x.far.batch);}, far_failed, far_error);
     guard([&] {svc::rpc::batch::Writable_Database &w = *x.near.batch; local.service.nothing(w);}, near_failed, near_error);
    }
    const std::string far = batch_content(*x.far.batch), near = batch_content(*x.near.batch);
    check(p == 0 ? "transform" : p == 1 ? "fail" : "nothing", before, far, near);
    if (near_failed)
     for (auto *m: {x.far.batch.get(), x.near.batch.get()}) for (const auto i: m->get_item_table()) if (m->get_value(i) == 666) m->set_value(i, 1);
   }
   else
   {
    if (g.chance(1, 2))
     for (auto *m: {x.far.people.get(), x.near.people.get()})
     {
      const std::string name = "q" + std::to_string(k);
      m->set_name(m->new_person(), name);
     }
    const std::string before = people_content(*x.far.people);
    guard([&] {x.client->copy_people(*x.far.people);}, far_failed, far_error);
    guard([&] {svc::Writable_Database &w = *x.near.people; local.service.copy_people(w);}, near_failed, near_error);
    check("copy_people", before, people_content(*x.far.people), people_content(*x.near.people));
   }
  }
  for (auto &x: clients) x.client.reset();
  remote.stop();
  if (people_content(remote.client.get_database()) != people_content(local.client.get_database())) bad("database-differs", "the databases of the services");
  c.sig(sig);
  c.sample(trace);
 }

 // several clients at the same time
 void concurrent(Ctx &c, Rng &g)
 {
  const int threads = 1 + int(g.below(4));
  Remote remote(c.scratch("r.sock"), threads, int(g.below(4)));
  const int n = 2 + int(g.below(4)), k = 5 + int(g.below(30));
  std::vector<std::thread> ts;
  std::vector<std::string> errors(static_cast<size_t>(n));
  std::vector<std::map<std::string, int64_t>> sums(static_cast<size_t>(n));
  std::atomic<int64_t> last_total{0}, done{0};
  const uint64_t seed = g.next();
  for (int t = 0; t < n; t++)
   ts.emplace_back([&, t]
   {
    auto &error = errors[size_t(t)];
    try
    {
     Rng r(mix(seed, uint64_t(t)));
     std::unique_ptr<Local_Channel> channel;
     std::unique_ptr<svc::rpc::Client> client;
     for (int i = 0; i < k && error.empty(); i++)
     {
      if (!client || r.chance(1, 8))
      {
       client.reset();
       channel.reset(new Local_Channel(remote.endpoint));
       client.reset(new svc::rpc::Client(*channel, std::chrono::milliseconds(r.chance(1, 2) ? 1 : 0)));
      }
      if (r.chance(1, 2))
      {
       svc::rpc::amount::Memory_Database m;
       const std::string name = "n" + std::to_string(r.below(3));
       const bool bad = r.chance(1, 8);
       const int64_t amount = bad ? -1 : int64_t(r.below(100));
       m.set_name(name);
       m.set_amount(amount);
       try
       {
        client->add(m);
        if (bad) error = "accepted";
        if (m.get_total() < amount || m.get_name() != name || m.get_amount() != amount) error = "wrong result";
        sums[size_t(t)][name] += amount;
       }
       catch (const Exception &e) {if (!bad || std::string(e.what()) != "refused: " + name) error = e.what();}
      }
      else
      {
       svc::rpc::batch::Memory_Database m;
       const Rng h(r.next());
       edit_batch(m, h);
       for (const auto x: m.get_item_table()) if (m.get_value(x) == 666) m.set_value(x, 7);
       svc::rpc::batch::Memory_Database same;
       edit_batch(same, h);
       for (const auto x: same.get_item_table()) if (same.get_value(x) == 666) same.set_value(x, 7);
       Memory_File f;
       svc::Client nobody(f, Connection::dummy);
       svc::rpc::Service s(nobody);
       client->transform(m);
       s.transform(same);
       if (batch_content(m) != batch_content(same)) error = "wrong result of transform";
      }
      done++;
     }
    }
    catch (const std::exception &e) {error = exception_name(e);}
   });
  for (auto &t: ts) t.join();
  remote.stop();
  for (auto &e: errors) if (!e.empty()) fail("concurrent-call", e);
  std::map<std::string, int64_t> total;
  for (auto &s: sums) for (auto &[name, v]: s) total[name] += v;
  const auto &db = remote.client.get_database();
  for (auto &[name, v]: total)
  {
   const auto p = db.find_person_by_name(name);
   if (p.is_null() || db.get_score(p) != v) fail("database-differs", name + ": the sum of the calls is " + std::to_string(v));
  }
  c.count("concurrent_calls", uint64_t(done));
  c.sig(mix(uint64_t(threads), mix(uint64_t(n), uint64_t(k))));
 }

}
