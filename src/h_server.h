// C02: the server against a model of it, request by request.
#pragma once
#include "history.h"
#include "raw.h"

namespace raw
{
 // ------------------------------------------------------------------------ C02: request by request
 void protocol(Ctx &c, Rng &g)
 {
  Local_Server server;
  const bool memory = g.chance(1, 2);
  const bool shared = g.chance(1, 3);
  const bool pullonly = g.chance(1, 12);
  const std::string path = c.scratch("server.joedb");
  unlink(path.c_str());
  std::string S; // committed bytes, from position 41
  {
   std::unique_ptr<Abstract_File> f;
   if (memory) f.reset(new Memory_File(shared ? Open_Mode::shared_write : Open_Mode::write_existing_or_create_new));
   else f.reset(new File(path, shared ? Open_Mode::shared_write : Open_Mode::write_existing_or_create_new));
   {
    Writable_Journal j(*f);
    if (g.chance(1, 2)) j.comment(g.bytes(g.below(g.chance(1, 10) ? 30000 : 300)));
    j.soft_checkpoint();
    S = committed_bytes(*f, j.get_checkpoint());
   }
   server.start(std::move(f), pullonly, c.scratch("s.sock"), 0, int(g.below(5)));
  }
  enum {nobody = -1};
  struct Session
  {
   Socket s;
   bool connected = false;
   int waiting = 0;        // 0: idle, 'P': for data, 'L': for the lock
   char code = 0;
   int64_t checkpoint = 0; // of the waiting pull
  };
  std::vector<Session> ss(2 + g.below(4));
  int owner = nobody;
  bool asynchronous = false; // somebody disconnected without waiting for the server
  Socket probe;
  std::string trace;
  uint64_t sig = 0;
  auto cp = [&] {return int64_t(S.size()) + 41;};
  auto bad = [&](const std::string &key, const std::string &msg) {fail(key, msg + ": " + (trace.size() > 1500 ? trace.substr(trace.size() - 1500) : trace));};
  // the reply to a pull
  auto expect_pull = [&](int i)
  {
   Session &x = ss[size_t(i)];
   const bool data = x.code & 2;
   const int64_t from = data ? std::min(x.checkpoint, cp()) : cp();
   const size_t n = 9 + size_t(cp() - from);
   if (!x.s.wait_for(n)) bad("no-reply", std::string("to ") + x.code + " from " + std::to_string(i) + " after " + std::to_string(x.s.in.size()) + " of " + std::to_string(n) + " bytes, end " + std::to_string(x.s.eof));
   const std::string r = x.s.take(n);
   const char code = pullonly && (x.code & 1) ? 'R' : x.code;
   if (r[0] != code) bad("reply-code", std::string(1, r[0]) + " instead of " + code);
   if (get64(r, 1) != cp()) bad("reply-checkpoint", std::to_string(get64(r, 1)) + " instead of " + std::to_string(cp()));
   if (r.compare(9, std::string::npos, S, size_t(from - 41), std::string::npos)) bad("reply-data", "other bytes than the history from " + std::to_string(from));
   c.count("pulled_bytes", n - 9);
  };
  auto nothing_unexpected = [&](int ms)
  {
   for (size_t i = 0; i < ss.size(); i++)
    if (ss[i].connected)
    {
     ss[i].s.receive(ms);
     if (!ss[i].s.in.empty() || ss[i].s.eof)
      bad(ss[i].waiting == 'L' ? "lock-not-exclusive" : "unexpected-reply", "session " + std::to_string(i) + (ss[i].s.eof ? " was closed" : " got " + std::string(1, ss[i].s.in[0])) + " while waiting for " + std::to_string(ss[i].waiting));
    }
  };
  // the lock is free: one of those waiting gets it
  auto pass_lock = [&]
  {
   while (owner == nobody)
   {
    std::vector<pollfd> p;
    std::vector<int> who;
    for (size_t i = 0; i < ss.size(); i++)
     if (ss[i].connected && ss[i].waiting == 'L') {p.push_back({ss[i].s.fd, POLLIN, 0}); who.push_back(int(i));}
    if (p.empty())
    {
     // those who disconnected may hold the lock for an instant, until the server finds out
     if (asynchronous)
     {
      if (probe.fd < 0)
      {
       if (!probe.open_at(server.endpoint) || !probe.send("joedb" + i64(protocol_version)) || !probe.wait_for(30)) bad("connect-refused", "probe");
       probe.take(30);
      }
      probe.send("E" + i64(0) + i64(0));
      if (!probe.wait_for(9)) bad("lock-not-released", "a new client does not get the lock 20 s after its holder disconnected");
      probe.take(9);
      probe.send("M");
      if (!probe.wait_for(1)) bad("no-reply", "to M");
      probe.take(1);
      c.count("lock_probes");
     }
     break;
    }
    if (poll(p.data(), p.size(), 20000) <= 0) bad("lock-not-passed", "nobody got the lock for 20 s after its release");
    for (size_t k = 0; k < p.size(); k++)
     if (p[k].revents)
     {
      if (owner != nobody) bad("lock-not-exclusive", "two sessions got the lock");
      owner = who[k];
      expect_pull(owner);
      ss[size_t(owner)].waiting = 0;
      c.count("locks_after_waiting");
     }
   }
  };
  auto wake_pulls = [&]
  {
   for (size_t i = 0; i < ss.size(); i++)
    if (ss[i].connected && ss[i].waiting == 'P')
    {
     if (ss[i].code & 1) ss[i].waiting = 'L';
     else
     {
      expect_pull(int(i)); // promptly: the wait was for a minute
      ss[i].waiting = 0;
      c.count("woken_pulls");
     }
    }
  };
  const int n = 15 + int(g.below(60));
  for (int step = 0; step < n; step++)
  {
   c.step();
   const int i = int(g.below(ss.size()));
   Session &x = ss[size_t(i)];
   const std::string who = std::to_string(i);
   if (!x.connected)
   {
    trace += " connect(" + who + ")";
    if (!x.s.open_at(server.endpoint)) bad("connect-refused", who);
    const int64_t version = g.chance(1, 10) ? int64_t(g.below(40)) : g.chance(1, 10) ? protocol_version + 1 + int64_t(g.below(5)) : protocol_version;
    x.s.send("joedb" + i64(version));
    if (!x.s.wait_for(30)) bad("no-handshake-reply", who);
    const std::string r = x.s.take(30);
    if (r.substr(0, 5) != "joedb" || get64(r, 5) != (version < protocol_version ? 0 : protocol_version) || get64(r, 21) != cp() || r[29] != (pullonly ? 'R' : 'W'))
     bad("handshake-reply", who);
    x.connected = true;
    c.count("connections");
    sig = mix(sig, 1);
    continue;
   }
   if (x.waiting)
   {
    if (g.chance(1, 4))
    {
     trace += " vanish(" + who + ")";
     x.s.shut(); // the server finds out when it replies
     x.connected = false;
     x.waiting = 0;
     asynchronous = true;
     c.count("vanished_waiters");
     sig = mix(sig, 2);
    }
    continue;
   }
   switch (g.below(12))
   {
    case 0: // closed, politely or not
    {
     const int how = int(g.below(4));
     trace += " close" + std::to_string(how) + "(" + who + ")";
     if (how == 0) x.s.send("Q");
     if (how == 1) x.s.send(std::string(1, char(g.pick(std::vector<int>{0, 'A', 'L', 'z', 255}))));
     if (how == 2) x.s.send(std::string("DEFGNOHIr").substr(g.below(9), 1) + g.bytes(g.below(15))); // half a request
     if (how < 2 && !x.s.wait_for_eof()) bad("not-closed", "20 s after Q or an unknown request");
     x.s.shut();
     x.connected = false;
     sig = mix(sig, 3 + uint64_t(owner == i));
     asynchronous = true;
     if (owner == i) {owner = nobody; pass_lock();}
    }
    break;
    case 1: case 2: case 3: case 4: // pull
    {
     x.code = "DEFG"[g.below(4)];
     const bool lock = x.code & 1;
     const bool wait = g.chance(1, 4);
     x.checkpoint = g.chance(1, 2) ? cp() : g.chance(1, 8) ? cp() + int64_t(g.below(100)) : 41 + int64_t(g.below(uint64_t(S.size() + 1)));
     const bool waits = wait && x.checkpoint == cp() && owner != i;
     if (wait && x.checkpoint == cp() && owner == i) break; // would keep the lock for a minute
     if (waits && !g.chance(1, 3)) break;
     trace += std::string(" ") + x.code + "(" + who + (waits ? ",wait" : "") + "," + std::to_string(x.checkpoint) + ")";
     sig = mix(sig, 10 + uint64_t(x.code) * 8 + uint64_t(waits) * 4 + uint64_t(owner == i) * 2 + uint64_t(owner == nobody));
     // sometimes in pieces
     const std::string m = x.code + i64(wait ? 60000 : g.chance(1, 3) ? -int64_t(g.below(100)) : 0) + i64(x.checkpoint);
     const size_t cut = g.chance(1, 4) ? 1 + g.below(m.size() - 1) : m.size();
     x.s.send(m.substr(0, cut));
     if (cut < m.size()) {if (g.chance(1, 2)) usleep(300); x.s.send(m.substr(cut));}
     if (waits) {x.waiting = 'P'; c.count("waiting_pulls"); break;}
     if (lock && owner == i) // an error
     {
      if (!x.s.wait_for_eof()) bad("second-lock-accepted", who);
      x.s.shut();
      x.connected = false;
      owner = nobody;
      pass_lock();
      c.count("second_locks");
      break;
     }
     if (lock && owner != nobody) {x.waiting = 'L'; c.count("waiting_locks"); break;}
     if (lock) {owner = i; c.count("locks");}
     expect_pull(i);
    }
    break;
    case 5: // unlock
     trace += " M(" + who + ")";
     x.s.send("M");
     if (!x.s.wait_for(1) || x.s.take(1) != "M") bad("no-reply", "to M");
     sig = mix(sig, 5 + uint64_t(owner == i) * 2);
     if (owner == i) {owner = nobody; pass_lock();}
     c.count("unlocks");
    break;
    case 6: case 7: case 8: // push
    {
     x.code = g.chance(1, 2) ? 'N' : 'O';
     if (owner != i && owner != nobody && !g.chance(1, 4)) break;
     int64_t from = cp();
     if (g.chance(1, 4)) from = g.chance(1, 2) ? 41 + int64_t(g.below(uint64_t(S.size() + 1))) : cp() + 1 + int64_t(g.below(50));
     std::string data = g.chance(1, 10) ? "" : some_ops(g, g.chance(1, 8) ? 20000 : 60);
     for (auto &y: ss)
      if (y.connected && y.waiting == 'P') // whether a push without new data wakes them depends on the order of arrival
      {
       from = cp();
       if (data.empty()) data = some_ops(g, 30);
      }
     const int64_t until = from + int64_t(data.size()) - (data.empty() && g.chance(1, 3) ? int64_t(g.below(10)) : 0);
     const bool broken = g.chance(1, 8);
     trace += std::string(" ") + x.code + "(" + who + "," + std::to_string(from) + "," + std::to_string(until) + (broken ? ",broken" : "") + ")";
     const bool other = owner != i && owner != nobody;
     const bool conflict = from != cp();
     sig = mix(sig, 100 + uint64_t(x.code) * 8 + uint64_t(other) * 4 + uint64_t(conflict) * 2 + uint64_t(broken));
     std::string m = x.code + i64(from) + i64(until) + data;
     if (broken)
     {
      // disconnected in the middle: nothing changes
      m.resize(g.below(m.size()));
      x.s.send(m);
      if (g.chance(1, 2)) usleep(useconds_t(g.below(1000)));
      x.s.shut();
      x.connected = false;
      asynchronous = true;
      if (owner == i) owner = nobody;
      if (owner == nobody) pass_lock();
      c.count("broken_pushes");
      break;
     }
     x.s.send(m);
     if (other)
     {
      if (!x.s.wait_for_eof()) bad("push-accepted", "although " + std::to_string(owner) + " holds the lock");
      x.s.shut();
      x.connected = false;
      c.count("pushes_beside_a_lock");
      break;
     }
     owner = i;
     if (!x.s.wait_for(1)) bad("no-reply", "to a push, end " + std::to_string(x.s.eof));
     const std::string r = x.s.take(1);
     const char expected = pullonly ? 'R' : conflict ? 'C' : x.code;
     if (r[0] != expected) bad("push-reply", std::string(1, r[0]) + " instead of " + expected);
     if (expected == x.code) S += data;
     if (x.code == 'O') owner = nobody;
     wake_pulls();
     if (owner == nobody) pass_lock();
     c.count(conflict ? "conflicts" : "pushes");
     if (!conflict) c.count("pushed_bytes", data.size());
    }
    break;
    case 9: case 10: // read a range
    {
     int64_t from = 41 + int64_t(g.below(uint64_t(S.size() + 20))), until = from + int64_t(g.below(g.chance(1, 4) ? 20000 : 100));
     if (g.chance(1, 10)) std::swap(from, until);
     trace += " r(" + who + "," + std::to_string(from) + "," + std::to_string(until) + ")";
     x.s.send("r" + i64(from) + i64(until));
     const int64_t u = std::min(until, cp()), f = std::min(from, u);
     const size_t k = 9 + size_t(u - f);
     if (!x.s.wait_for(k)) bad("no-reply", "to r");
     const std::string r = x.s.take(k);
     if (r[0] != 'r' || get64(r, 1) != u || r.compare(9, std::string::npos, u > 41 ? S.substr(size_t(f - 41), size_t(u - f)) : "")) bad("read-reply", "other bytes");
     sig = mix(sig, 7);
     c.count("reads");
    }
    break;
    default: // compare hashes
    {
     const int64_t k = 41 + int64_t(g.below(uint64_t(S.size() + 10)));
     std::string content = S.substr(0, size_t(std::min(k - 41, int64_t(S.size()))));
     const bool same = k <= cp() && !g.chance(1, 3);
     if (!same && k <= cp()) {if (content.empty()) break; content[g.below(content.size())] ^= char(1 + g.below(255));}
     const char code = g.chance(1, 2) ? 'H' : 'I';
     trace += std::string(" ") + code + "(" + who + "," + std::to_string(k) + "," + (same ? "same" : "other") + ")";
     x.s.send(code + i64(k) + hash_bytes_of(content));
     if (!x.s.wait_for(1)) bad("no-reply", "to H");
     const char r = x.s.take(1)[0];
     if (r != (same ? code : 'h')) bad("hash-reply", std::string(1, r));
     sig = mix(sig, 8 + uint64_t(same));
     c.count(same ? "same_hashes" : "other_hashes");
    }
    break;
   }
   if (g.chance(1, 6)) nothing_unexpected(g.chance(1, 4) ? 2 : 0);
  }
  nothing_unexpected(1);
  // the committed bytes in the server's own journal
  server.server->stop();
  if (server.client->get_journal_checkpoint() != cp()) bad("server-checkpoint", std::to_string(server.client->get_journal_checkpoint()) + " instead of " + std::to_string(cp()));
  if (committed_bytes(*server.file, cp()) != S) bad("server-content", "the server's journal has other bytes than the accepted pushes");
  for (auto &x: ss) x.s.shut();
  server.stop();
  if (!memory)
  {
   server.file.reset();
   File f(path, Open_Mode::read_existing);
   Readonly_Journal j(f);
   if (j.get_checkpoint() != cp() || committed_bytes(f, cp()) != S) bad("file-content", "the server's file has other bytes than the accepted pushes");
   Recorder rec;
   j.replay_log(rec);
   unlink(path.c_str());
  }
  c.sig(sig);
  c.sample(trace);
  c.count("requests", uint64_t(n));
 }
}
