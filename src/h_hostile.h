// C03: clients that send anything, and disconnect or fall silent at any time.
#pragma once
#include "h_history.h"
#include <sys/resource.h>

namespace hostile
{
 using namespace joedb;
 using namespace vf;
 using raw::Socket;
 using raw::i64;
 using raw::get64;

 // a connection to an upstream server that may be lost at any time
 struct Lost_Connection: Connection
 {
  bool *lost;
  bool locked = false;
  Lost_Connection(bool *lost): lost(lost) {}
  void check() {if (*lost) throw std::runtime_error("injected: upstream lost");}
  int64_t handshake(const Readonly_Journal &j, Content_Check) override {check(); return j.get_checkpoint();}
  int64_t pull(Lock_Action, Data_Transfer, Writable_Journal &j, std::chrono::milliseconds) override {check(); return j.get_checkpoint();}
  int64_t push(const Readonly_Journal &, int64_t, int64_t until, Unlock_Action) override {check(); return until;}
  void unlock() override {check();}
 };

 // what the bytes of one client mean, after a handshake
 struct State
 {
  std::string S;        // committed bytes of the server
  bool mine = false;    // this session holds the lock
  bool open = true;
  bool operator==(const State &o) const {return S == o.S && mine == o.mine && open == o.open;}
 };
 struct Meaning
 {
  std::vector<State> states;   // at the end, any of these
  std::vector<std::string> contents; // the server's content at any time in between
  bool endless = false;        // the server waits for the lock or for data
  bool certain = true;
  size_t pushes = 0, commits = 0, requests = 0;
 };
 inline void add_state(std::vector<State> &v, const State &s) {if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s);}

 // reference parser, written from the documented protocol
 inline Meaning meaning(const std::string &bytes, const std::string &S, bool pullonly, bool lock_taken_by_other, bool uncertain)
 {
  Meaning m;
  m.certain = !uncertain;
  std::vector<State> now{{S, false, true}};
  m.contents.push_back(S);
  size_t p = 0;
  auto maybe_closed = [&] {m.certain = false; for (State s: std::vector<State>(now)) {s.mine = false; add_state(now, s); s.open = false; add_state(now, s);}};
  if (bytes.size() < 13 || bytes.compare(0, 5, "joedb")) {m.states = now; return m;}
  p = 13;
  while (p < bytes.size())
  {
   const char code = bytes[p++];
   const size_t left = bytes.size() - p;
   if (uncertain) maybe_closed();
   size_t args = 0;
   switch (code)
   {
    case 'H': case 'I': args = 40; break;
    case 'r': case 'D': case 'E': case 'F': case 'G': case 'N': case 'O': args = 16; break;
    case 'M': break;
    default: m.states = now; return m; // the end
   }
   if (left < args) break;
   const int64_t a = args >= 16 ? get64(bytes, p) : 0, b = args >= 16 ? get64(bytes, p + 8) : 0;
   p += args;
   m.requests++;
   std::vector<State> next;
   bool stop = false;
   int64_t size = 0;
   bool strange = false; // sizes that make no sense: the server may close the connection
   if (code == 'N' || code == 'O')
   {
    m.pushes++;
    __int128 wide = __int128(b) - __int128(a);
    if (a < 41 || b < a) strange = true;
    if (wide > 0 && wide > __int128(bytes.size() - p)) stop = true; // the data does not arrive
    else if (wide > 0) size = int64_t(wide);
   }
   if (code == 'r' && (a < 41 || b < 41)) strange = true;
   if ((code == 'H' || code == 'I') && get64(bytes, p - 40) < 41) strange = true;
   if (code >= 'D' && code <= 'G' && b < 41) strange = true;
   const std::string data = stop ? std::string() : bytes.substr(p, size_t(size));
   if (!stop) p += size_t(size);
   for (const State &s: now)
   {
    State n = s;
    if (!s.open) {add_state(next, s); continue;}
    if (strange) {State closed = s; closed.open = false; closed.mine = false; add_state(next, closed);}
    switch (code)
    {
     case 'D': case 'E': case 'F': case 'G':
      if (a > 0 && b == int64_t(s.S.size()) + 41) {m.endless = true; uncertain = true; m.certain = false;} // waits
      if (code & 1)
      {
       if (s.mine) {n.open = false; n.mine = false;}
       else if (lock_taken_by_other) {m.endless = true; uncertain = true; m.certain = false;}
       else n.mine = true;
      }
      add_state(next, n);
     break;
     case 'M': n.mine = false; add_state(next, n); break;
     case 'N': case 'O':
      if (lock_taken_by_other && !s.mine) {n.open = false; add_state(next, n); break;}
      n.mine = true;
      if (stop) {add_state(next, n); break;}
      if (!pullonly && a == int64_t(s.S.size()) + 41 && b > a)
      {
       n.S += data;
       m.commits++;
       if (uncertain)
       {
        State refused = s;
        refused.mine = code == 'N';
        add_state(next, refused);
       }
      }
      if (code == 'O') n.mine = false;
      add_state(next, n);
     break;
     default: add_state(next, n); break;
    }
   }
   if (strange) m.certain = false;
   now = next;
   for (auto &s: now) if (std::find(m.contents.begin(), m.contents.end(), s.S) == m.contents.end()) m.contents.push_back(s.S);
   if (stop) break;
   if (now.size() > 300) throw Inconclusive{"too many possibilities"};
  }
  m.states = now;
  return m;
 }

 inline int64_t strange_number(Rng &g, int64_t cp)
 {
  switch (g.below(12))
  {
   case 0: return cp;
   case 1: return cp + int64_t(g.below(100));
   case 2: return int64_t(g.below(uint64_t(cp)));
   case 3: return -1 - int64_t(g.below(100));
   case 4: return INT64_MIN + int64_t(g.below(3));
   case 5: return INT64_MAX - int64_t(g.below(3));
   case 6: return int64_t(1) << g.below(63);
   case 7: return -(int64_t(1) << g.below(63));
   case 8: return int64_t(g.next());
   case 9: return 41 + int64_t(g.below(3));
   case 10: return 0;
   default: return 41 + int64_t(g.below(uint64_t(cp) - 40));
  }
 }

 // a stream of requests, mostly well-formed; cp: the committed size if all is accepted
 inline std::string stream(Rng &g, const std::string &S, bool may_push, bool hold, std::string &trace)
 {
  std::string r, T = S;
  auto cp = [&] {return int64_t(T.size()) + 41;};
  const bool strange = g.chance(1, 2);
  auto number = [&](int64_t good) {return strange && g.chance(1, 4) ? strange_number(g, cp()) : good;};
  switch (g.below(10))
  {
   case 0: r = g.bytes(13 + g.below(30)); trace += " noise"; return r;
   case 1: r = "joedb"; r.resize(g.below(13)); trace += " short-handshake"; return r;
   case 2: r = "joedb" + i64(strange_number(g, cp())); break;
   default: r = "joedb" + i64(protocol_version); break;
  }
  bool mine = false;
  const int n = 1 + int(g.below(10));
  for (int i = 0; i < n; i++)
  {
   switch (g.below(12))
   {
    case 0: case 1:
    {
     const char code = "DEFG"[g.below(4)];
     if ((code & 1) && mine && !g.chance(1, 4)) break;
     const int64_t wait = g.chance(1, 8) ? g.pick(std::vector<int64_t>{1, 5, 50, 100000, INT64_MAX, INT64_MAX / 1000, INT64_MAX / 1000000, INT64_MAX / 1000000 + 1, 1LL << 40, 1LL << 53}) : number(0);
     const int64_t checkpoint = number(g.chance(1, 2) ? cp() : 41 + int64_t(g.below(T.size() + 1)));
     r += code + i64(wait) + i64(checkpoint);
     trace += std::string(" ") + code + "(" + std::to_string(wait) + "," + std::to_string(checkpoint) + ")";
     if (code & 1) mine = true;
    }
    break;
    case 2: r += 'M'; mine = false; trace += " M"; break;
    case 3: case 4:
    {
     const int64_t a = number(41 + int64_t(g.below(T.size() + 20))), b = number(a < 1000000000 ? a + int64_t(g.below(30000)) : a);
     r += 'r' + i64(a) + i64(b);
     trace += " r(" + std::to_string(a) + "," + std::to_string(b) + ")";
    }
    break;
    case 5:
    {
     const int64_t k = number(41 + int64_t(g.below(T.size() + 10)));
     r += (g.chance(1, 2) ? 'H' : 'I') + i64(k) + g.bytes(32);
     trace += " H(" + std::to_string(k) + ")";
    }
    break;
    case 6: case 7: case 8:
    {
     std::string data = raw::some_ops(g, g.chance(1, 8) ? 20000 : 50);
     if (g.chance(1, 4)) data = g.bytes(g.below(60));
     // a session that may not push asks for something that cannot be one
     int64_t from = may_push ? number(g.chance(2, 3) ? cp() : 41 + int64_t(g.below(T.size() + 1))) : cp() + 1000000 + int64_t(g.below(10));
     if (from > cp() && from < cp() + 1000000) from += 1000000; // not what it will be after the pushes of others
     int64_t until = from < (1LL << 62) ? from + int64_t(data.size()) : from;
     if (strange && g.chance(1, 4)) until = strange_number(g, cp());
     const char code = g.chance(1, 2) ? 'N' : 'O';
     r += code + i64(from) + i64(until) + data;
     trace += std::string(" ") + code + "(" + std::to_string(from) + "," + std::to_string(until) + ")+" + std::to_string(data.size());
     if (may_push && from == cp() && until == from + int64_t(data.size())) T += data;
     mine = code == 'N';
    }
    break;
    case 9: if (strange) {r += g.bytes(1 + g.below(20)); trace += " bytes";} break;
    case 10: if (g.chance(1, 3)) {r += 'Q'; trace += " Q";} break;
    default: if (hold && !mine) {r += 'E' + i64(0) + i64(0); mine = true; trace += " E";} break;
   }
  }
  if (g.chance(1, 3)) {r.resize(g.below(r.size() + 1)); trace += " cut" + std::to_string(r.size());}
  return r;
 }

 inline void exhaustion(Ctx &c, Rng &g)
 {
  // more connections than the server has descriptors; then they are closed
  const std::string path = c.scratch("server.joedb");
  unlink(path.c_str());
  hist::Servers servers;
  hist::Server_Options o{path, c.scratch("x.sock"), "", g.chance(1, 2), false, int(g.below(5)), 0};
  o.descriptors = 24 + int(g.below(16));
  servers.add(o, 0, g.next());
  std::string S;
  const int rounds = 1 + int(g.below(3));
  for (int round = 0; round < rounds; round++)
  {
   c.step();
   const int n = o.descriptors + int(g.below(60));
   std::vector<std::unique_ptr<Socket>> many;
   for (int i = 0; i < n; i++)
   {
    many.push_back(std::make_unique<Socket>());
    if (!many.back()->open_at(o.sock)) {many.pop_back(); break;} // the queue is full
    if (g.chance(1, 2)) many.back()->send("joedb" + i64(protocol_version));
   }
   usleep(useconds_t(g.below(20000)));
   c.count("connections_beyond_the_limit", uint64_t(n));
   while (!many.empty()) {many.erase(many.begin() + int64_t(g.below(many.size()))); if (g.chance(1, 10)) usleep(200);}
   servers.check();
   Socket s;
   if (!s.open_at(o.sock)) fail("connect-refused", "after " + std::to_string(n) + " connections were closed");
   s.send("joedb" + i64(protocol_version));
   if (!s.wait_for(30)) fail("not-serving", "no handshake for 20 s after " + std::to_string(n) + " connections were closed, limit " + std::to_string(o.descriptors));
   s.take(30);
   const std::string data = raw::some_ops(g, 50);
   s.send('O' + i64(int64_t(S.size()) + 41) + i64(int64_t(S.size() + data.size()) + 41) + data);
   if (!s.wait_for(1) || s.take(1) != "O") fail("not-serving", "push refused");
   S += data;
  }
  servers.stop();
  File f(path, Open_Mode::read_existing);
  Readonly_Journal j(f);
  if (raw::committed_bytes(f, j.get_checkpoint()) != S) fail("file-content", "other bytes than the accepted pushes");
  c.count("exhaustions");
  c.sig(mix(uint64_t(o.descriptors), uint64_t(rounds)));
 }

 inline void clients(Ctx &c, Rng &g)
 {
  if (g.chance(1, 40)) {exhaustion(c, g); return;}
  bool upstream_lost = false;
  Lost_Connection upstream(&upstream_lost);
  raw::Local_Server server;
  const bool memory = g.chance(1, 2);
  const bool shared = g.chance(1, 3);
  const bool pullonly = g.chance(1, 12);
  const bool relay = !pullonly && g.chance(1, 6);
  const int timeout = g.chance(1, 3) ? 2 + int(g.below(30)) : 0;
  const std::string path = c.scratch("server.joedb");
  unlink(path.c_str());
  std::string S; // committed bytes, from position 41
  {
   std::unique_ptr<Abstract_File> f;
   if (memory) f.reset(new Memory_File(shared ? Open_Mode::shared_write : Open_Mode::write_existing_or_create_new));
   else f.reset(new File(path, shared ? Open_Mode::shared_write : Open_Mode::write_existing_or_create_new));
   {
    Writable_Journal j(*f);
    if (g.chance(1, 2)) j.comment(g.bytes(g.below(g.chance(1, 10) ? 200000 : 300)));
    j.soft_checkpoint();
    S = raw::committed_bytes(*f, j.get_checkpoint());
   }
   server.start(std::move(f), pullonly, c.scratch("s.sock"), timeout, int(g.below(5)), relay ? &upstream : nullptr);
  }
  std::string trace = std::string(memory ? "memory" : "file") + (shared ? " shared" : "") + (pullonly ? " pull-only" : "") + (relay ? " relay" : "") + " timeout " + std::to_string(timeout) + ":";
  auto bad = [&](const std::string &key, const std::string &msg) {fail(key, msg + ": " + (trace.size() > 1800 ? trace.substr(0, 60) + " ... " + trace.substr(trace.size() - 1700) : trace));};
  auto join = [&](Socket &s)
  {
   if (!s.open_at(server.endpoint)) bad("connect-refused", "");
   s.send("joedb" + i64(protocol_version));
   if (!s.wait_for(30)) bad("not-serving", "no handshake for 20 s");
   const std::string r = s.take(30);
   if (r.substr(0, 5) != "joedb" || get64(r, 5) != protocol_version || r[29] != (pullonly ? 'R' : 'W')) bad("handshake-reply", "");
  };
  Socket idle;
  join(idle);
  uint64_t sig = mix(uint64_t(memory) * 2 + shared, uint64_t(timeout));
  const int rounds = 2 + int(g.below(8));
  for (int round = 0; round < rounds; round++)
  {
   c.step();
   const int n = g.chance(2, 3) ? 1 : 2 + int(g.below(3));
   trace += " |";
   if (relay) upstream_lost = g.chance(1, 3);
   if (upstream_lost) trace += " upstream-lost";
   std::vector<std::unique_ptr<Socket>> hs;
   std::vector<std::string> bytes;
   // a client that behaves and holds the lock meanwhile
   Socket holder;
   const bool held = !timeout && !relay && g.chance(1, 5);
   if (held)
   {
    join(holder);
    holder.send('E' + i64(0) + i64(0));
    if (!holder.wait_for(9)) bad("lock-not-released", "a client does not get the lock for 20 s");
    holder.take(9);
    trace += " held";
   }
   const int how = int(g.below(5)); // 0: until the server closes; 1: closed at once; 2: closed after a while; 3: with unread replies; 4: silent beside the others
   for (int i = 0; i < n; i++)
   {
    hs.push_back(std::make_unique<Socket>());
    trace += " <" + std::to_string(i);
    bytes.push_back(stream(g, S, i == 0, timeout != 0, trace));
    trace += ">";
    if (!hs.back()->open_at(server.endpoint)) bad("connect-refused", "");
   }
   Meaning m = meaning(bytes[0], S, pullonly, held, n > 1 || timeout || how != 0 || relay);
   c.count("hostile_requests", m.requests);
   sig = mix(sig, uint64_t(how) * 16 + uint64_t(held) * 8 + m.requests + uint64_t(m.endless) * 100 + uint64_t(m.commits) * 1000);
   trace += " how " + std::to_string(how);
   // the pieces of all of them, interleaved
   std::vector<size_t> done(hs.size(), 0);
   for (bool more = true; more;)
   {
    more = false;
    for (size_t i = 0; i < hs.size(); i++)
    {
     if (done[i] == bytes[i].size()) continue;
     size_t k = g.chance(1, 2) ? bytes[i].size() - done[i] : 1 + g.below(std::min<size_t>(bytes[i].size() - done[i], 40));
     const std::string piece = bytes[i].substr(done[i], k);
     ssize_t w = ::send(hs[i]->fd, piece.data(), piece.size(), MSG_NOSIGNAL | MSG_DONTWAIT);
     if (w < 0 && errno == EAGAIN) // the server does not read while its replies are not read
     {
      if (how == 0) hs[i]->receive(10); else {usleep(100); w = ssize_t(piece.size()); m.certain = false;}
     }
     else if (w < 0) w = ssize_t(bytes[i].size() - done[i]); // closed by the server
     if (w > 0) done[i] += std::min(size_t(w), bytes[i].size() - done[i]);
     if (done[i] < bytes[i].size()) more = true;
     if (g.chance(1, 4)) usleep(useconds_t(g.below(100)));
     if (timeout && g.chance(1, 30)) usleep(useconds_t(timeout) * 1000);
     if (how == 0 && g.chance(1, 2)) hs[i]->receive(0);
    }
   }
   c.count("hostile_streams", hs.size());
   std::vector<std::string> allowed = m.contents;
   if (how == 0)
    for (size_t i = 0; i < hs.size(); i++)
    {
     ::shutdown(hs[i]->fd, SHUT_WR);
     const bool may_wait = m.endless || n > 1;
     if (!hs[i]->wait_for_eof(may_wait ? 5 : 20000))
     {
      if (!may_wait) bad("not-closed", "20 s after the end of what client " + std::to_string(i) + " sent");
      m.certain = false;
     }
    }
   if (how == 0 && m.certain)
   {
    allowed.clear();
    for (auto &s: m.states) allowed.push_back(s.S);
    c.count("certain_outcomes");
   }
   else c.count("uncertain_outcomes");
   if (how == 2) usleep(useconds_t(g.below(2000)));
   const bool silent = how == 4 && timeout;
   if (!silent && !(how == 3 && timeout)) for (auto &h: hs) h->shut();
   if (held)
   {
    // nothing was committed
    holder.send('D' + i64(0) + i64(0));
    if (!holder.wait_for(9)) bad("not-serving", "no reply to the holder of the lock for 20 s");
    if (get64(holder.take(9), 1) != int64_t(S.size()) + 41) bad("content-changed", "while another client held the lock");
    holder.send("M");
    if (!holder.wait_for(1) || holder.take(1) != "M") bad("not-serving", "no reply to M");
    holder.shut();
    allowed = m.contents; // now the others may get the lock
    c.count("held");
   }
   if (upstream_lost)
   {
    // clients that want the lock are disconnected, the others are served
    Socket s;
    join(s);
    s.send('r' + i64(41) + i64(int64_t(S.size()) + 41));
    if (!s.wait_for(9 + S.size())) bad("not-serving", "no reply to a read for 20 s");
    if (s.take(9 + S.size()).substr(9) != S) bad("content-changed", "data below the committed checkpoint");
    c.count("lost_upstreams");
    upstream_lost = false;
   }
   // a new client gets the lock, sees what may be there, and pushes
   Socket honest;
   join(honest);
   for (int attempt = 0;; attempt++)
   {
    honest.send('G' + i64(0) + i64(41));
    if (!honest.wait_for(9)) bad(honest.eof ? "not-serving" : "lock-not-released", std::string("a new client does not get the lock for 20 s") + (honest.eof ? ", closed" : ""));
    const std::string r = honest.take(9);
    const int64_t cp = get64(r, 1);
    if (r[0] != (pullonly ? 'R' : 'G') || cp < 41) bad("reply", std::string(1, r[0]) + " " + std::to_string(cp));
    if (!honest.wait_for(size_t(cp - 41))) bad("reply", "incomplete");
    const std::string now_S = honest.take(size_t(cp - 41));
    if (now_S.compare(0, S.size(), S)) bad("content-changed", "data below the committed checkpoint");
    if (std::find(allowed.begin(), allowed.end(), now_S) == allowed.end())
     bad("content-unexpected", "committed " + std::to_string(S.size()) + " -> " + std::to_string(now_S.size()) + " bytes, which is not an outcome of what was sent (" + std::to_string(allowed.size()) + " outcomes)");
    if (now_S.size() > S.size()) c.count("hostile_commits");
    const std::string data = raw::some_ops(g, 50);
    honest.send('O' + i64(cp) + i64(cp + int64_t(data.size())) + data);
    if (!honest.wait_for(1)) bad(honest.eof ? "not-serving" : "lock-not-released", "no reply to a push for 20 s");
    const std::string reply = honest.take(1);
    if (pullonly)
    {
     if (reply != "R") bad("reply", reply);
     S = now_S;
     break;
    }
    if (reply == "O") {S = now_S + data; break;}
    // it was too slow
    if (!timeout || (reply != "t" && reply != "C") || attempt > 100) bad("reply", reply);
    if (silent || how == 3) allowed = m.contents;
   }
   for (auto &h: hs) h->shut();
   if (silent || how == 3 || upstream_lost) c.count("silent_clients");
   // the idle one is still there
   idle.send("r" + i64(41) + i64(int64_t(S.size()) + 41));
   if (!idle.wait_for(9 + S.size())) bad("not-serving", "an idle client");
   if (idle.take(9 + S.size()).substr(9) != S) bad("content-changed", "as seen by an idle client");
   c.count("rounds");
  }
  idle.shut();
  if (relay) upstream_lost = g.chance(1, 2);
  server.server->stop();
  if (raw::committed_bytes(*server.file, server.client->get_journal_checkpoint()) != S) bad("server-content", "the server's journal has other bytes than the accepted pushes");
  server.stop();
  if (!memory)
  {
   server.file.reset();
   File f(path, Open_Mode::read_existing);
   Readonly_Journal j(f);
   if (raw::committed_bytes(f, j.get_checkpoint()) != S) bad("file-content", "the server's file has other bytes than the accepted pushes");
   unlink(path.c_str());
  }
  c.sig(sig);
  c.sample(trace);
 }
}
