// C06: what is accepted, and which bytes go from one side to the other.
#pragma once
#include "history.h"
#include "raw.h"

namespace content
{
 using namespace joedb;
 using raw::committed_bytes;

 using Texts = std::vector<std::string>;

 // the operations of a history: comments
 void write_texts(Abstract_File &f, const Texts &t, size_t from = 0)
 {
  Writable_Journal j(f);
  j.skip_directly_to(j.get_checkpoint());
  for (size_t i = from; i < t.size(); i++)
  {
   j.comment(t[i]);
   if (i % 3 == 0) j.soft_checkpoint();
  }
  j.soft_checkpoint();
 }

 std::string bytes_of(const Texts &t)
 {
  Memory_File f;
  write_texts(f, t);
  return committed_bytes(f, Readonly_Journal(f).get_checkpoint());
 }

 // what is committed in the file of one side: read from its own checkpoint, with nothing of the code under test but the reading of a header
 std::string committed(const Abstract_File &f, const std::string &side)
 {
  int64_t cp[4] = {0, 0, 0, 0};
  std::string head(41, 0);
  if (f.pread(&head[0], 41, 0) != 41) return "";
  std::memcpy(cp, head.data(), 32);
  int64_t best = 41;
  for (int i = 0; i < 4; i += 2) if (cp[i] == cp[i + 1]) best = std::max(best, cp[i]);
  for (int i = 0; i < 4; i++) if (cp[i] < 0) best = std::max(best, -cp[i]);
  std::string r(size_t(best - 41), 0);
  size_t done = 0;
  while (done < r.size())
  {
   const size_t n = f.pread(&r[done], r.size() - done, 41 + int64_t(done));
   if (!n) fail(side + "-truncated");
   done += n;
  }
  return r;
 }

 std::string differ(const std::string &a, const std::string &b)
 {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return "sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + ", first difference at " + std::to_string(i);
 }

 Texts some_texts(Rng &g, size_t n)
 {
  Texts r;
  for (size_t i = 0; i < n; i++) r.push_back(g.bytes(size_t(g.chance(1, 12) ? g.below(9000) : g.chance(1, 3) ? g.below(900) : g.below(60))));
  return r;
 }

 // a Connection that counts what it carries
 enum class Link {file, readonly_file, server, pullonly_server, robust};
 const char *link_names[] = {"file", "readonly_file", "server", "pullonly_server", "robust"};
 enum class Kind {journal, database, readonly};
 const char *kind_names[] = {"journal", "database", "readonly"};

 struct Scene
 {
  Ctx &c;
  Rng &g;
  Link link;
  std::string C, S; // what is committed on both sides, from position 41
  std::unique_ptr<Abstract_File> client_file, own_server_file;
  Abstract_File *server_file = nullptr;
  raw::Local_Server server;
  raw::Counting_Logger logger;
  std::unique_ptr<Writable_Journal> server_journal;
  std::unique_ptr<Readonly_Journal> readonly_server_journal;
  std::unique_ptr<Connection> file_connection;
  std::string trace;

  bool pullonly() const {return link == Link::readonly_file || link == Link::pullonly_server;}
  bool through_server() const {return link >= Link::server;}

  std::unique_ptr<Abstract_File> new_file(const char *name)
  {
   if (g.chance(1, 2)) return std::make_unique<Memory_File>();
   const std::string p = c.scratch(name);
   unlink(p.c_str());
   return std::make_unique<File>(p, Open_Mode::write_existing_or_create_new);
  }

  void compare(const std::string &when)
  {
   const std::string s = committed(*server_file, "server"), k = committed(*client_file, "client");
   if (s != S) fail("server-bytes", when + ": " + differ(s, S) + "; " + trace);
   if (k != C) fail("client-bytes", when + ": " + differ(k, C) + "; " + trace);
   c.count("comparisons");
  }

  void start_server(const Texts &t)
  {
   std::unique_ptr<Abstract_File> f = new_file("server.joedb");
   write_texts(*f, t);
   if (through_server())
   {
    server.start(std::move(f), link == Link::pullonly_server, c.scratch("s.sock"), 0, int(g.below(5)));
    server_file = server.file.get();
   }
   else
   {
    own_server_file = std::move(f);
    server_file = own_server_file.get();
    if (link == Link::readonly_file)
    {
     readonly_server_journal.reset(new Readonly_Journal(*server_file));
     file_connection.reset(new Pullonly_Journal_Connection(*readonly_server_journal));
    }
    else if (g.chance(1, 2)) file_connection.reset(new File_Connection(*server_file));
    else
    {
     server_journal.reset(new Writable_Journal(*server_file));
     file_connection.reset(new Journal_Connection(*server_journal));
    }
   }
  }

  // a connection for one client
  struct Line
  {
   std::unique_ptr<Local_Channel> channel;
   std::unique_ptr<Local_Connector> connector;
   std::unique_ptr<Connection> own;
   Connection *use = nullptr;
  };
  std::unique_ptr<Line> new_line()
  {
   auto l = std::make_unique<Line>();
   if (!through_server()) l->use = file_connection.get();
   else if (link == Link::robust)
   {
    l->connector.reset(new Local_Connector(server.endpoint));
    l->own.reset(new Robust_Connection(*l->connector, logger));
   }
   else
   {
    l->channel.reset(new Local_Channel(server.endpoint));
    l->own.reset(new Server_Connection(*l->channel, logger));
   }
   if (l->own) l->use = l->own.get();
   return l;
  }

  // another client, with nothing of its own, adds to the server
  void other_client_writes()
  {
   Memory_File f;
   auto line = new_line();
   Writable_Journal_Client other(f, *line->use);
   Texts t = some_texts(g, 1 + g.below(3));
   other.transaction([&](Writable_Journal &j) {for (const auto &x: t) j.comment(x);});
   const std::string all = committed(f, "other");
   if (all.compare(0, S.size(), S) != 0) fail("other-pulled", differ(all, S) + "; " + trace);
   S = all;
   trace += " other";
   c.count("others_writing");
  }

  // the client alone, without its connection, adds to its file
  void client_writes_alone(const Texts &t)
  {
   {
    Writable_Journal j(*client_file);
    j.skip_directly_to(j.get_checkpoint());
    for (const auto &x: t) j.comment(x);
    j.soft_checkpoint();
   }
   C = committed(*client_file, "client");
   trace += " alone";
  }
 };

 bool prefix(const std::string &a, const std::string &b) {return a.size() <= b.size() && b.compare(0, a.size(), a) == 0;}

 // what is certain of a check: 1 it must accept, -1 it must refuse, 0 the difference may escape a check by sampling
 int verdict(const std::string &a, const std::string &b, Content_Check check, bool through_server)
 {
  if (check == Content_Check::none || prefix(a, b) || prefix(b, a)) return 1;
  if (check == Content_Check::full) return -1;
  const size_t m = std::min(a.size(), b.size());
  if (m <= 2048 || (through_server && m < 65536)) return -1;
  if (a.compare(0, 512, b, 0, 512) != 0 || a.compare(m - 512, 512, b, m - 512, 512) != 0) return -1;
  return 0;
 }

 void meetings(Ctx &c, Rng &g)
 {
  shorten_sleeps = true;
  Scene s{c, g, Link(g.below(5))};
  s.trace = link_names[int(s.link)];

  // two histories
  Texts a = some_texts(g, g.below(10)), b = a;
  const bool big = g.chance(1, 120);
  if (big) {a.push_back(g.bytes(size_t(4 << 20) + g.below(1 << 20))); b = a; c.count("big_histories");}
  const int relation = int(g.below(6));
  if (relation == 1 || relation == 5) for (auto &x: some_texts(g, 1 + g.below(6))) a.push_back(x);
  if (relation == 2 || relation == 5) for (auto &x: some_texts(g, 1 + g.below(6))) b.push_back(x);
  if (relation >= 3 && relation != 5 && !a.empty())
  {
   // one byte of one comment is another
   const size_t i = g.chance(1, 2) ? g.below(a.size()) : g.chance(1, 2) ? 0 : a.size() - 1;
   if (!b[i].empty()) {b[i][g.chance(1, 2) ? g.below(b[i].size()) : g.chance(1, 2) ? 0 : b[i].size() - 1] ^= char(1 << g.below(8));}
   if (relation == 4) for (auto &x: some_texts(g, 1 + g.below(4))) (g.chance(1, 2) ? a : b).push_back(x);
  }
  s.client_file = s.new_file("client.joedb");
  write_texts(*s.client_file, a);
  s.C = bytes_of(a);
  s.S = bytes_of(b);
  s.start_server(b);
  s.compare("at the beginning");
  uint64_t sig = mix(uint64_t(s.link), uint64_t(relation));

  const int lives = 1 + int(g.below(4));
  for (int life = 0; life < lives; life++)
  {
   c.step();
   const Content_Check check = Content_Check(g.below(3));
   const Kind kind = Kind(g.below(3));
   const std::string what = std::string(kind_names[int(kind)]) + (check == Content_Check::none ? "/none" : check == Content_Check::fast ? "/fast" : "/full");
   s.trace += " [" + what;
   sig = mix(sig, uint64_t(check) * 3 + uint64_t(kind));
   const bool related = prefix(s.C, s.S) || prefix(s.S, s.C);
   const int v = verdict(s.C, s.S, check, s.through_server());
   std::unique_ptr<Scene::Line> line = s.new_line();
   std::unique_ptr<Client> client;
   Writable_Journal_Client *jc = nullptr;
   Writable_Database_Client *dc = nullptr;
   std::string error;
   try
   {
    if (kind == Kind::journal) client.reset(jc = new Writable_Journal_Client(*s.client_file, *line->use, check));
    else if (kind == Kind::database) client.reset(dc = new Writable_Database_Client(*s.client_file, *line->use, check));
    else client.reset(new Readonly_Client(*s.client_file, *line->use, check));
   }
   catch (const Exception &e) {error = e.what();}
   // a read-only client takes the lock of the other side in order to push to it
   if (kind == Kind::readonly && s.pullonly())
   {
    if (error.empty()) fail("readonly-to-pullonly", s.trace);
    c.count("refused_pullonly");
    s.compare("after a read-only client met a pull-only side");
    s.trace += "]";
    continue;
   }
   if (v == 1 && !error.empty()) fail("refused-related", error + "; " + differ(s.C, s.S) + "; " + s.trace);
   if (v == -1 && error.empty()) fail("accepted-unrelated", differ(s.C, s.S) + "; " + s.trace);
   s.compare("after a handshake");
   if (!error.empty())
   {
    c.count("refused " + what.substr(what.size() - 4));
    s.trace += " refused]";
    line.reset();
    if (!s.pullonly() && g.chance(1, 2)) s.other_client_writes();
    s.compare("after a refusal");
    continue;
   }
   c.count("accepted " + what.substr(what.size() - 4));
   if (!related) {c.count(v == 0 ? "escaped" : "unchecked"); s.trace += " unrelated]"; break;}
   if (client->get_connection_checkpoint() != int64_t(s.S.size()) + 41)
    fail("connection-checkpoint", std::to_string(client->get_connection_checkpoint()) + " instead of " + std::to_string(s.S.size() + 41) + "; " + s.trace);

   // what follows
   const int steps = int(g.below(6));
   bool usable = true;
   for (int i = 0; i < steps && usable; i++)
   {
    const int action = int(g.below(5));
    sig = mix(sig, uint64_t(action));
    try
    {
     if (action == 0 && kind != Kind::readonly)
     {
      s.trace += " pull";
      if (s.S.size() > s.C.size()) {s.C = s.S; c.count("pulled");}
      client->pull();
     }
     else if (action == 1 && kind != Kind::readonly)
     {
      const Texts t = some_texts(g, g.below(4));
      s.trace += " transaction";
      if (s.pullonly())
      {
       bool refused = false;
       try
       {
        if (jc) jc->transaction([&](Writable_Journal &j) {for (const auto &x: t) j.comment(x);});
        else dc->transaction([&](const Database &, Writable &w) {for (const auto &x: t) w.comment(x);});
       }
       catch (const Exception &) {refused = true;}
       if (!refused) fail("transaction-to-pullonly", s.trace);
       c.count("refused_transactions");
       usable = false;
      }
      else
      {
       if (s.S.size() > s.C.size()) s.C = s.S;
       if (jc) jc->transaction([&](Writable_Journal &j) {for (const auto &x: t) j.comment(x);});
       else dc->transaction([&](const Database &, Writable &w) {for (const auto &x: t) w.comment(x);});
       const std::string after = committed(*s.client_file, "client");
       if (!prefix(s.C, after)) fail("transaction-changed-the-past", differ(s.C, after) + "; " + s.trace);
       s.C = after;
       s.S = after;
       c.count("transactions");
      }
     }
     else if (action == 2)
     {
      const int64_t until = g.chance(1, 3) ? int64_t(s.C.size()) + 41 : g.range(0, int64_t(std::max(s.C.size(), s.S.size())) + 60);
      s.trace += " push " + std::to_string(until);
      const int64_t known = client->get_connection_checkpoint();
      const bool ahead = int64_t(s.C.size()) + 41 > known;
      if (s.pullonly() && ahead)
      {
       bool refused = false;
       try {client->push_if_ahead(until);} catch (const Exception &) {refused = true;}
       if (!refused) fail("push-to-pullonly", s.trace);
       c.count("refused_pushes");
       usable = false;
      }
      else
      {
       if (ahead && until > int64_t(s.S.size()) + 41) {s.S = s.C.substr(0, size_t(std::min<int64_t>(until - 41, int64_t(s.C.size())))); c.count(s.S == s.C ? "pushed" : "partly_pushed");}
       client->push_if_ahead(until);
       const int64_t expected = ahead ? int64_t(s.S.size()) + 41 : known;
       if (client->get_connection_checkpoint() != expected)
        fail("checkpoint-after-push", std::to_string(client->get_connection_checkpoint()) + " instead of " + std::to_string(expected) + "; " + s.trace);
      }
     }
     else if (action == 3 && kind != Kind::readonly && !s.pullonly())
     {
      s.other_client_writes();
      if (!prefix(s.C, s.S))
      {
       // both sides went on: whatever the client does is refused
       s.trace += " diverged";
       for (int k = 0; k < 2; k++)
       {
        bool refused = false;
        try
        {
         const int how = int(g.below(3));
         s.trace += std::to_string(how);
         if (how == 0) client->push_if_ahead();
         else if (how == 1) client->pull();
         else if (jc) jc->transaction([&](Writable_Journal &j) {j.comment("x");});
         else dc->transaction([&](const Database &, Writable &w) {w.comment("x");});
        }
        catch (const Exception &) {refused = true;}
        if (!refused) fail("diverged-accepted", differ(s.C, s.S) + "; " + s.trace);
        s.compare("after a divergence");
        c.count("divergences");
        if (g.chance(1, 2)) break;
       }
       usable = false;
      }
     }
     else if (action == 4 && kind == Kind::readonly && s.client_file->get_size() > 41 && dynamic_cast<Memory_File *>(s.client_file.get()))
     {
      // the file that is only read here grows: another connection brings it what it lacks, and adds to it
      s.trace += " grow";
      {
       Writable_Journal j(*s.client_file);
       Memory_File copy;
       if (s.S.size() > s.C.size())
       {
        Writable_Journal all(copy);
        copy.pwrite(s.S.data(), s.S.size(), 41);
        all.soft_checkpoint_at(int64_t(s.S.size()) + 41);
        j.pull_from(all, all.get_checkpoint());
       }
       j.skip_directly_to(j.get_checkpoint());
       for (const auto &x: some_texts(g, g.below(3))) j.comment(x);
       j.soft_checkpoint();
      }
      s.C = committed(*s.client_file, "client");
      c.count("grown");
     }
     else continue;
    }
    catch (const Exception &e) {fail("unexpected-error", std::string(e.what()) + "; " + s.trace);}
    s.compare("after a step");
   }
   client.reset();
   line.reset();
   s.trace += "]";
   s.compare("after a client ended");
   if (g.chance(1, 2)) s.client_writes_alone(some_texts(g, 1 + g.below(4)));
   else if (!s.pullonly() && g.chance(1, 2)) s.other_client_writes();
   if (big) break;
  }
  c.sample(s.trace);
  c.sig(sig);
 }
}
