// R02: a database read and written through a server or a URL, without a copy.
#pragma once
#include "h_content.h"
#include "joedb/journal/File_Hasher.h"
#include "joedb/journal/CURL_File.h"
#include <netinet/in.h>
#include <mutex>
#include <fstream>

namespace remote
{
 using namespace joedb;
 using content::committed;
 using content::differ;
 using content::prefix;

 // what the database must contain: the texts of the entries, in the order of their ids, and blobs
 struct Entry {int owner, seq; std::string text;};
 struct State
 {
  std::vector<Entry> entries;
  std::vector<std::pair<Blob, std::string>> blobs;
  bool operator==(const State &s) const
  {
   if (entries.size() != s.entries.size()) return false;
   for (size_t i = 0; i < entries.size(); i++) if (entries[i].owner != s.entries[i].owner || entries[i].seq != s.entries[i].seq || entries[i].text != s.entries[i].text) return false;
   return true;
  }
 };

 template<typename DB> void compare_entries(const DB &db, const State &st, const std::string &where, const std::string &trace)
 {
  size_t i = 0;
  for (const auto e: db.get_entry_table())
  {
   if (i >= st.entries.size()) fail(where + "-more-entries", trace);
   const Entry &m = st.entries[i++];
   if (db.get_owner(e) != m.owner || db.get_seq(e) != m.seq || db.get_text(e) != m.text) fail(where + "-entry", std::to_string(i) + "; " + trace);
   if (db.find_entry_by_key(m.owner, m.seq) != e) fail(where + "-index", std::to_string(i) + "; " + trace);
  }
  if (i != st.entries.size()) fail(where + "-fewer-entries", std::to_string(i) + " of " + std::to_string(st.entries.size()) + "; " + trace);
 }

 std::string some_text(Rng &g)
 {
  return g.bytes(size_t(g.chance(1, 60) ? g.below(300000) : g.chance(1, 8) ? g.below(20000) : g.below(80)));
 }

 // writes in a transaction of a compiled client
 template<typename DB> void write_some(DB &db, Rng &g, State &st, int owner, int &seq)
 {
  const int n = int(g.below(5));
  for (int i = 0; i < n; i++)
  {
   if (g.chance(1, 4) )
   {
    const std::string x = some_text(g);
    st.blobs.push_back({db.write_blob(x), x});
   }
   else if (!st.entries.empty() && g.chance(1, 4))
   {
    size_t k = g.below(st.entries.size());
    Entry &m = st.entries[k];
    m.text = some_text(g);
    db.set_text(db.find_entry_by_key(m.owner, m.seq), m.text);
   }
   else
   {
    Entry m{owner, seq++, some_text(g)};
    const auto e = db.new_entry();
    db.set_owner(e, m.owner);
    db.set_seq(e, m.seq);
    db.set_text(e, m.text);
    st.entries.push_back(m);
   }
  }
 }

 void check_blobs(const Abstract_File &f, const State &st, Rng &g, Ctx &c, const std::string &where, const std::string &trace)
 {
  for (int i = 0; i < 3 && !st.blobs.empty(); i++)
  {
   const auto &b = g.pick(st.blobs);
   if (f.read_blob(b.first) != b.second) fail(where + "-blob", trace);
   c.count("blobs_read");
  }
 }

 struct Body_Error: std::runtime_error {using std::runtime_error::runtime_error;};

 void files(Ctx &c, Rng &g)
 {
  shorten_sleeps = true;
  raw::Local_Server server;
  raw::Counting_Logger logger;
  const std::string sock = c.scratch("s.sock");
  State st;
  int seq = 0;
  std::string trace;
  const bool pullonly = g.chance(1, 8);
  {
   auto f = std::make_unique<Memory_File>();
   {Writable_Journal empty(*f);}
   if (!pullonly || g.chance(3, 4))
   {
    conc::Client k(*f, Connection::dummy);
    const int n = int(g.below(4));
    for (int i = 0; i < n; i++) k.transaction([&](conc::Writable_Database &db) {write_some(db, g, st, 0, seq);});
   }
   server.start(std::move(f), pullonly, sock, 0, int(g.below(5)));
  }
  std::string S = committed(*server.file, "server");
  const Local_Connector connector(sock);
  // another client, with a copy of its own
  Memory_File other_file;
  std::unique_ptr<Local_Channel> other_channel;
  std::unique_ptr<Server_Connection> other_connection;
  std::unique_ptr<conc::Client> other;
  int other_seq = 0;
  auto other_writes = [&]
  {
   if (!other)
   {
    other_channel.reset(new Local_Channel(sock));
    other_connection.reset(new Server_Connection(*other_channel, logger));
    other.reset(new conc::Client(other_file, *other_connection));
   }
   other->transaction([&](conc::Writable_Database &db) {write_some(db, g, st, 1, other_seq);});
   const std::string now = committed(*server.file, "server");
   if (!prefix(S, now)) fail("other-changed-the-past", trace);
   S = now;
   trace += " other";
   c.count("others_writing");
  };
  uint64_t sig = 1;
  const int lives = 1 + int(g.below(3));
  for (int life = 0; life < lives; life++)
  {
   c.step();
   trace += " [";
   Server_File sf(connector, logger);
   std::string K = S; // what this file knows of
   // ranges of bytes
   auto ranges = [&]
   {
    const int n = int(g.below(6));
    for (int i = 0; i < n; i++)
    {
     const size_t size = g.chance(1, 30) ? size_t(g.below(2000000)) : size_t(g.below(g.chance(1, 2) ? 100 : 9000));
     const int64_t end = int64_t(K.size()) + 41;
     const int64_t at = g.chance(1, 6) ? g.range(0, 45) : g.chance(1, 5) ? end + g.range(-20, 20) : g.range(0, end);
     if (at < 0) continue;
     std::unique_ptr<char[]> b(new char[size]);
     const size_t r = sf.pread(b.get(), size, at);
     c.count("ranges");
     if (r > size) fail("range-too-long", trace);
     if (at < 41) {if (size && !r) fail("empty-head", trace); continue;}
     if (at >= end) {if (r) fail("range-past-the-end", std::to_string(at) + " of " + std::to_string(end) + "; " + trace); continue;}
     if (size && !r) fail("empty-range", std::to_string(at) + " of " + std::to_string(end) + "; " + trace);
     if (at - 41 + int64_t(r) > int64_t(S.size())) fail("range-longer-than-the-server", trace);
     if (std::memcmp(b.get(), S.data() + at - 41, r) != 0) fail("range-bytes", std::to_string(at) + "+" + std::to_string(size) + " of " + std::to_string(end) + "; " + trace);
     c.count("range_bytes", r);
    }
    if (g.chance(1, 3))
    {
     if (File_Hasher::get_hash(sf, 41, int64_t(K.size())) != raw::sha(K)) fail("remote-hash", trace);
     Memory_File copy;
     sf.copy_to(copy, 0, int64_t(K.size()) + 41);
     if (committed(copy, "copy") != K) fail("remote-copy", trace);
     c.count("copies");
    }
   };
   if (sf.get_size() != int64_t(K.size()) + 41) fail("remote-size", std::to_string(sf.get_size()) + "; " + trace);
   ranges();
   const int how = int(g.below(6));
   sig = mix(sig, uint64_t(how));
   trace += std::to_string(how);
   if (how == 0)
   {
    // only read
    if (K.empty()) {trace += "]"; continue;}
    try
    {
     conc::Readonly_Database db(sf);
     compare_entries(db, st, "readonly", trace);
     c.count("readonly_openings");
    }
    catch (const Exception &e) {fail("readonly-error", std::string(e.what()) + "; " + trace);}
    check_blobs(sf, st, g, c, "readonly", trace);
    if (!pullonly && g.chance(1, 2)) {other_writes(); ranges();}
   }
   else if (how == 1)
   {
    // every operation, as a journal
    Memory_File f;
    f.pwrite(std::string(41, 0).data(), 41, 0);
    sf.copy_to(f, 0, int64_t(K.size()) + 41);
    Recorder a, b;
    Readonly_Journal(sf).replay_log(a);
    Readonly_Journal(f).replay_log(b);
    compare_ops(b.ops, a.ops, "remote-journal");
    c.count("journals");
   }
   else if (how == 2)
   {
    // interpreted
    Writable_Database_Client k(sf, sf, Content_Check(g.below(3)));
    const int n = int(g.below(4));
    bool alive = true;
    for (int i = 0; i < n && alive; i++)
    {
     const std::string x = some_text(g);
     try
     {
      k.transaction([&](const Database &, Writable &w) {w.comment(x); if (g.chance(1, 8)) throw Body_Error("x");});
      if (pullonly) fail("interpreted-pullonly", trace);
     }
     catch (const Body_Error &) {alive = false; c.count("aborted"); if (committed(*server.file, "server") != S) fail("aborted-written", trace); break;}
     catch (const Exception &e) {if (!pullonly) fail("interpreted-error", std::string(e.what()) + "; " + trace); alive = false; break;}
     const std::string now = committed(*server.file, "server");
     if (!prefix(S, now) || now.find(x, S.size()) == std::string::npos) fail("interpreted-transaction", trace);
     K = S = now;
     c.count("transactions");
     ranges();
     if (g.chance(1, 3)) other_writes();
    }
   }
   else
   {
    std::unique_ptr<conc::Client> k;
    try {k.reset(new conc::Client(sf, sf, Content_Check(g.below(3))));}
    catch (const Exception &e)
    {
     if (pullonly) {trace += " refused]"; c.count("refused_transactions"); continue;}
     fail("client-error", std::string(e.what()) + "; " + trace);
    }
    {const std::string now = committed(*server.file, "server"); if (!prefix(S, now)) fail("opening-changed-the-past", trace); K = S = now;}
    compare_entries(k->get_database(), st, "client", trace);
    State seen = st;
    const int n = int(g.below(8));
    for (int i = 0; i < n; i++)
    {
     const int action = int(g.below(6));
     sig = mix(sig, uint64_t(action));
     trace += " " + std::to_string(action);
     if (action == 0)
     {
      k->pull();
      K = S;
      seen = st;
      compare_entries(k->get_database(), st, "pulled", trace);
      check_blobs(sf, st, g, c, "pulled", trace);
      c.count("pulls");
     }
     else if (action == 1 && !pullonly) other_writes();
     else if (action == 5 && g.chance(1, 3))
     {
      // the server ends and starts again
      trace += " restart";
      other.reset();
      other_connection.reset();
      other_channel.reset();
      std::unique_ptr<Abstract_File> f = std::move(server.file);
      server.stop();
      server.start(std::move(f), pullonly, sock, 0, int(g.below(5)));
      c.count("restarts");
     }
     else if (action == 2) {compare_entries(k->get_database(), seen, "unchanged", trace); ranges(); check_blobs(sf, seen, g, c, "remote", trace);}
     else if (action == 3 && g.chance(1, 3) && !pullonly)
     {
      // a transaction that fails: nothing is written, the lock is free again, this client has ended
      const State before = st;
      bool thrown = false;
      try {k->transaction([&](conc::Writable_Database &db) {State junk = st; int s = 100000; write_some(db, g, junk, 2, s); throw Body_Error("x");});}
      catch (const Body_Error &) {thrown = true;}
      if (!thrown) fail("abort-not-thrown", trace);
      if (committed(*server.file, "server") != S) fail("aborted-written", trace);
      c.count("aborted");
      other_writes();
      break;
     }
     else if (pullonly)
     {
      bool refused = false;
      try {k->transaction([&](conc::Writable_Database &db) {State junk = st; int s = 100000; write_some(db, g, junk, 2, s);});}
      catch (const Exception &) {refused = true;}
      if (!refused) fail("pullonly-transaction", trace);
      if (committed(*server.file, "server") != S) fail("pullonly-written", trace);
      c.count("refused_transactions");
      break;
     }
     else
     {
      try
      {
       k->transaction([&](conc::Writable_Database &db)
       {
        compare_entries(db, st, "transaction", trace);
        const size_t blobs = st.blobs.size();
        write_some(db, g, st, 0, seq);
        compare_entries(db, st, "writing", trace);
        for (size_t b = blobs; b < st.blobs.size(); b++) {db.flush(); if (sf.read_blob(st.blobs[b].first) != st.blobs[b].second) fail("written-blob", trace); c.count("own_blobs");}
       });
      }
      catch (const Exception &e) {fail("transaction-error", std::string(e.what()) + "; " + trace);}
      const std::string now = committed(*server.file, "server");
      if (!prefix(S, now)) fail("transaction-changed-the-past", trace);
      K = S = now;
      seen = st;
      if (sf.get_size() != int64_t(K.size()) + 41) fail("size-after-transaction", std::to_string(sf.get_size()) + "; " + trace);
      compare_entries(k->get_database(), st, "after", trace);
      c.count("transactions");
      ranges();
     }
    }
   }
   // what was committed cannot be written over
   if (!K.empty() && g.chance(1, 4))
   {
    bool refused = false;
    const std::string x = g.bytes(1 + g.below(60));
    try {sf.pwrite(x.data(), x.size(), g.range(std::max<int64_t>(0, 42 - int64_t(x.size())), int64_t(K.size()) + 40));} catch (const Exception &) {refused = true;}
    if (!refused) fail("body-written", trace);
    if (committed(*server.file, "server") != S) fail("body-changed", trace);
    c.count("refused_writes");
   }
   trace += "]";
  }
  // the server has, in the end, exactly this
  if (!S.empty())
  {
   Memory_File f;
   server.file->copy_to(f, 0, int64_t(S.size()) + 41);
   conc::Readonly_Database db(f);
   compare_entries(db, st, "server", trace);
   check_blobs(f, st, g, c, "server", trace);
  }
  other.reset();
  c.sample(trace);
  c.sig(sig);
 }

 // ------------------------------------------------------------------------ URLs
 // a web server for one file, that knows ranges
 struct Web
 {
  int listener = -1, port = 0;
  std::string body;
  std::atomic<bool> stop{false};
  std::atomic<uint64_t> requests{0};
  std::thread t;
  int manner = 0; // 0 good, 1 without ranges, 2 not found, 3 short answers
  explicit Web(const std::string &b): body(b)
  {
   listener = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
   sockaddr_in a{};
   a.sin_family = AF_INET;
   a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
   if (bind(listener, (sockaddr *)&a, sizeof(a)) || listen(listener, 16)) throw Inconclusive{"no port"};
   socklen_t n = sizeof(a);
   getsockname(listener, (sockaddr *)&a, &n);
   port = ntohs(a.sin_port);
   t = std::thread([this] {serve();});
  }
  void serve()
  {
   while (!stop)
   {
    pollfd p{listener, POLLIN, 0};
    if (poll(&p, 1, 20) <= 0) continue;
    const int fd = accept4(listener, nullptr, nullptr, SOCK_CLOEXEC);
    if (fd < 0) continue;
    std::string in;
    while (!stop)
    {
     const size_t e = in.find("\r\n\r\n");
     if (e == std::string::npos)
     {
      pollfd q{fd, POLLIN, 0};
      if (poll(&q, 1, 20) <= 0) continue;
      char b[4096];
      const ssize_t n = ::recv(fd, b, sizeof(b), 0);
      if (n <= 0) break;
      in.append(b, size_t(n));
      continue;
     }
     const std::string head = in.substr(0, e);
     in.erase(0, e + 4);
     requests++;
     size_t from = 0, to = body.size() - 1;
     const size_t r = head.find("Range: bytes=");
     bool partial = false;
     if (r != std::string::npos && manner != 1) partial = std::sscanf(head.c_str() + r, "Range: bytes=%zu-%zu", &from, &to) >= 1 && to >= from;
     std::string answer, content;
     if (manner == 2) {content = "<html>not found</html>"; answer = "HTTP/1.1 404 Not Found\r\n";}
     else if (partial && from >= body.size()) {content = "<html>range</html>"; answer = "HTTP/1.1 416 Range Not Satisfiable\r\nContent-Range: bytes */" + std::to_string(body.size()) + "\r\n";}
     else if (partial)
     {
      to = std::min(to, body.size() - 1);
      if (manner == 3) to = std::min(to, from + 99);
      content = body.substr(from, to - from + 1);
      answer = "HTTP/1.1 206 Partial Content\r\nContent-Range: bytes " + std::to_string(from) + "-" + std::to_string(to) + "/" + std::to_string(body.size()) + "\r\n";
     }
     else {content = body; answer = "HTTP/1.1 200 OK\r\n";}
     answer += "Content-Length: " + std::to_string(content.size()) + "\r\n\r\n" + content;
     size_t done = 0;
     while (done < answer.size() && !stop)
     {
      const ssize_t n = ::send(fd, answer.data() + done, answer.size() - done, MSG_NOSIGNAL);
      if (n <= 0) break;
      done += size_t(n);
     }
    }
    ::close(fd);
   }
  }
  ~Web() {stop = true; t.join(); ::close(listener);}
 };

 void urls(Ctx &c, Rng &g)
 {
  State st;
  int seq = 0;
  Memory_File f;
  {
   conc::Client k(f, Connection::dummy);
   const int n = int(g.below(5));
   for (int i = 0; i < n; i++) k.transaction([&](conc::Writable_Database &db) {write_some(db, g, st, 0, seq);});
  }
  const std::string S = committed(f, "file");
  std::string all(size_t(f.get_size()), 0);
  f.pread(&all[0], all.size(), 0);
  std::unique_ptr<Web> web;
  std::string url;
  const bool http = g.chance(2, 3);
  uint64_t sig = http;
  if (http)
  {
   web.reset(new Web(all));
   web->manner = g.chance(2, 3) ? 0 : 1 + int(g.below(3));
   url = "http://127.0.0.1:" + std::to_string(web->port) + "/f.joedb";
   sig = mix(sig, uint64_t(web->manner));
  }
  else
  {
   const std::string p = c.scratch("u.joedb");
   std::ofstream(p, std::ios::binary).write(all.data(), std::streamsize(all.size()));
   url = "file://" + p;
  }
  const int manner = web ? web->manner : 0;
  const std::string trace = url + " " + std::to_string(manner) + " " + std::to_string(all.size());
  CURL_File curl(url.c_str(), false);
  Abstract_File &u = curl;
  const int n = int(g.below(8));
  const int64_t end = int64_t(all.size());
  for (int i = 0; i < n; i++)
  {
   const size_t size = size_t(g.below(g.chance(1, 2) ? 100 : g.chance(1, 10) ? 500000 : 9000));
   const int64_t at = g.chance(1, 5) ? std::max<int64_t>(0, end + g.range(-20, 20)) : g.range(0, end);
   sig = mix(sig, (size == 0) + 2 * (at >= end));
   std::unique_ptr<char[]> b(new char[size]);
   try
   {
    const size_t r = u.pread(b.get(), size, at);
    if (manner == 2 && size) fail("url-not-found-read", trace);
    if (r > size) fail("url-too-long", trace);
    if (at >= end) {if (r) fail("url-past-the-end", trace); continue;}
    if (size && !r) fail("url-empty", std::to_string(at) + "+" + std::to_string(size) + "; " + trace);
    if (at + int64_t(r) > end || std::memcmp(b.get(), all.data() + at, r) != 0) fail("url-bytes", std::to_string(at) + "+" + std::to_string(size) + "; " + trace);
    c.count(http ? "http_ranges" : "file_url_ranges");
   }
   catch (const Exception &e)
   {
    if (manner == 0 && at + int64_t(size) <= end) fail("url-error", std::string(e.what()) + " " + std::to_string(at) + "+" + std::to_string(size) + "; " + trace);
    c.count("url_refused");
   }
  }
  bool opened = false;
  std::string error;
  try
  {
   conc::Readonly_Database db(u);
   compare_entries(db, st, "url", trace);
   check_blobs(u, st, g, c, "url", trace);
   {
    Memory_File copy;
    const bool whole = g.chance(1, 4);
    u.copy_to(copy, 0, whole ? -1 : int64_t(S.size()) + 41);
    if (!(whole && manner == 3) && committed(copy, "copy") != S) fail("url-copy", trace);
    const int64_t at = g.range(0, end), size = g.range(0, end - at);
    Memory_File part;
    u.copy_to(part, at, size);
    if (size && (part.get_size() != at + size || part.get_data().compare(size_t(at), size_t(size), all, size_t(at), size_t(size)) != 0)) fail("url-part", std::to_string(at) + "+" + std::to_string(size) + "; " + trace);
   }
   c.count("url_copies");
   if (g.chance(1, 2))
   {
    Memory_File pulled;
    Writable_Journal pj(pulled);
    Readonly_Journal uj(u);
    uj.pull();
    pj.pull_from(uj, uj.get_checkpoint());
    if (committed(pulled, "pulled") != S) fail("url-pulled", trace);
    c.count("url_pulls");
   }
   opened = true;
  }
  catch (const Exception &e) {error = e.what();}
  if (opened && manner == 2) fail("url-not-found-opened", trace);
  if (!opened && manner == 0) fail("url-open-error", error + "; " + trace);
  c.count(opened ? "url_openings" : "url_refusals");
  c.sample(trace);
  c.sig(sig);
 }
}
