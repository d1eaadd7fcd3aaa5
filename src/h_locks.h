// J06: file locking against a model of who may hold a file, and open modes.
#pragma once
#include <sys/socket.h>
#include <poll.h>
#include "joedb/journal/Portable_File.h"

namespace locks
{
 using namespace joedb;
 using namespace vf;

 struct Command {int op, slot, arg;};
 struct Reply {int ok; char what[200];};
 enum {c_open, c_journal, c_lock, c_unlock, c_close, c_write, c_read, c_quit};

 const char *mode_name(Open_Mode m)
 {
  static const char *n[] = {"read_existing", "write_existing", "create_new", "write_existing_or_create_new", "shared_write", "write_lock"};
  return n[int(m)];
 }

 // one process that opens and locks when it is told to
 void child(int fd, const std::string &path)
 {
  struct Handle
  {
   std::unique_ptr<File> file;
   std::unique_ptr<Writable_Journal> journal;
   std::unique_ptr<Tail_Exclusive_Lock> lock;
  } h[3];
  Command c;
  while (::read(fd, &c, sizeof(c)) == ssize_t(sizeof(c)))
  {
   Reply r{1, ""};
   Handle &x = h[c.slot];
   try
   {
    switch (c.op)
    {
     case c_open: x.file.reset(new File(path, Open_Mode(c.arg))); break;
     case c_journal: x.journal.reset(new Writable_Journal(Journal_Construction_Lock(*x.file, Recovery::overwrite))); break;
     case c_lock: x.lock.reset(new Tail_Exclusive_Lock(*x.journal)); break;
     case c_unlock: x.lock.reset(); break;
     case c_write:
      x.journal->skip_directly_to(x.journal->get_checkpoint());
      x.journal->comment("w" + std::to_string(c.arg));
      x.journal->soft_checkpoint();
     break;
     case c_read: {Readonly_Journal j(*x.file); Recorder rec; j.play_until_checkpoint(rec); r.ok = 1000 + int(rec.ops.size());} break;
     case c_close: x.lock.reset(); x.journal.reset(); x.file.reset(); break;
     default: _exit(0);
    }
   }
   catch (const std::exception &e) {r.ok = 0; snprintf(r.what, sizeof(r.what), "%s", e.what());}
   if (::write(fd, &r, sizeof(r)) != ssize_t(sizeof(r))) break;
  }
  _exit(0);
 }

 struct Process {pid_t pid = -1; int fd = -1;};
 void spawn(Process &p, const std::string &path, const std::vector<int> &others)
 {
  int s[2];
  if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s)) throw Inconclusive{"socketpair"};
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid < 0) throw Inconclusive{"fork"};
  if (pid == 0)
  {
   close(s[0]);
   for (int f: others) close(f); // a copy of the other ends would keep them open
   child(s[1], path);
  }
  close(s[1]);
  p.pid = pid;
  p.fd = s[0];
 }

 struct M // model of a handle
 {
  bool open = false, exclusive = false, shared = false, journal = false, readonly = false, locked = false;
  bool pending = false; // waiting for an answer
  bool passing = false; // a construction that may have been granted at a release, before the new owner
  int pending_op = 0;
  Open_Mode mode = Open_Mode::read_existing;
 };

 void locks(Ctx &c, Rng &g)
 {
  const std::string path = c.scratch("locked.joedb");
  unlink(path.c_str());
  const int P = 3, H = 2;
  std::vector<Process> ps(P);
  struct Cleanup
  {
   std::vector<Process> &ps;
   ~Cleanup() {for (auto &p: ps) {if (p.pid > 0) {::kill(p.pid, SIGKILL); waitpid(p.pid, nullptr, 0);} if (p.fd >= 0) close(p.fd);}}
  } cleanup{ps};
  auto other_fds = [&](int me) {std::vector<int> r; for (int i = 0; i < P; i++) if (i != me && ps[size_t(i)].fd >= 0) r.push_back(ps[size_t(i)].fd); return r;};
  for (int i = 0; i < P; i++) spawn(ps[size_t(i)], path, other_fds(i));
  std::vector<M> m(size_t(P * H));
  std::vector<int> waiting(size_t(P), -1); // handle for which the process waits
  int owner = -1;                           // handle that holds the file
  bool exists = false;
  int writes = 0;
  std::string trace;
  uint64_t sig = 0;

  auto send = [&](int h, int op, int arg)
  {
   Command k{op, h % H, arg};
   if (::write(ps[size_t(h / H)].fd, &k, sizeof(k)) != ssize_t(sizeof(k))) fail("process-died", trace);
  };
  auto poll_reply = [&](int p, int ms, Reply &r) -> bool
  {
   pollfd f{ps[size_t(p)].fd, POLLIN, 0};
   if (poll(&f, 1, ms) <= 0) return false;
   if (::read(ps[size_t(p)].fd, &r, sizeof(r)) != ssize_t(sizeof(r))) fail("process-died", trace);
   return true;
  };
  auto must_reply = [&](int p) -> Reply
  {
   Reply r;
   if (!poll_reply(p, 20000, r)) fail("blocked", "no answer for 20 s although nothing holds the file: " + trace);
   return r;
  };
  auto check_waiting = [&](int ms)
  {
   // nobody who waits may get through while the file is held
   for (int p = 0; p < P; p++)
    if (waiting[size_t(p)] >= 0)
    {
     Reply r;
     if (!poll_reply(p, ms, r)) c.count("still_waiting");
     else if (m[size_t(waiting[size_t(p)])].passing)
     {
      M &x = m[size_t(waiting[size_t(p)])];
      if (!r.ok) fail("waiting-failed", std::string(r.what) + ": " + trace);
      x.pending = x.passing = false;
      x.journal = true;
      waiting[size_t(p)] = -1;
      c.count("granted_after_waiting");
     }
     else fail("lock-not-exclusive", "handle " + std::to_string(waiting[size_t(p)]) + " got through (" + r.what + ") while handle " + std::to_string(owner) + " holds the file: " + trace);
    }
  };
  // a granted request: what the model says afterwards
  auto granted = [&](int h)
  {
   M &x = m[size_t(h)];
   x.pending = x.passing = false;
   waiting[size_t(h / H)] = -1;
   switch (x.pending_op)
   {
    case c_open: x.open = true; x.exclusive = true; owner = h; break;
    case c_journal: x.journal = true; break; // lock released at the end of construction
    case c_lock: x.locked = true; owner = h; break;
   }
   c.count("granted_after_waiting");
  };
  auto release = [&]
  {
   owner = -1;
   while (owner < 0)
   {
    std::vector<pollfd> fds;
    std::vector<int> who;
    for (int p = 0; p < P; p++)
     if (waiting[size_t(p)] >= 0) {fds.push_back({ps[size_t(p)].fd, POLLIN, 0}); who.push_back(p);}
    if (fds.empty()) return;
    if (poll(fds.data(), fds.size(), 20000) <= 0) fail("blocked", "nobody got the file for 20 s after its release: " + trace);
    for (size_t i = 0; i < fds.size(); i++)
     if (fds[i].revents)
     {
      Reply r;
      if (::read(fds[i].fd, &r, sizeof(r)) != ssize_t(sizeof(r))) fail("process-died", trace);
      const int h = waiting[size_t(who[i])];
      if (!r.ok) fail("waiting-failed", std::string(r.what) + ": " + trace);
      if (owner >= 0 && m[size_t(h)].pending_op != c_journal) fail("lock-not-exclusive", "two handles got the file at its release: " + trace);
      if (owner >= 0) // a journal constructed before the lock was granted: both may have answered by now
      {
       const int o = owner;
       granted(h);
       owner = o;
      }
      else granted(h);
     }
   }
   // the constructions which were faster than the new owner may still be answering
   for (int p = 0; p < P; p++)
    if (waiting[size_t(p)] >= 0)
    {
     M &x = m[size_t(waiting[size_t(p)])];
     if (x.pending_op == c_journal) x.passing = true;
    }
  };

  const int n = 20 + int(g.below(50));
  for (int i = 0; i < n; i++)
  {
   c.step();
   const int h = int(g.below(uint64_t(P * H)));
   const int p = h / H;
   M &x = m[size_t(h)];
   if (g.chance(1, 30))
   {
    // kill the process: everything it holds is released
    trace += " kill(" + std::to_string(p) + ")";
    ::kill(ps[size_t(p)].pid, SIGKILL);
    waitpid(ps[size_t(p)].pid, nullptr, 0);
    close(ps[size_t(p)].fd);
    ps[size_t(p)] = Process();
    bool held = false;
    for (int k = 0; k < H; k++)
    {
     if (owner == p * H + k) held = true;
     m[size_t(p * H + k)] = M();
    }
    // a request that was waiting may have been granted just before
    waiting[size_t(p)] = -1;
    spawn(ps[size_t(p)], path, other_fds(p));
    if (held) release();
    c.count("kills");
    sig = mix(sig, 99);
    continue;
   }
   if (waiting[size_t(p)] >= 0) continue; // busy
   if (!x.open)
   {
    const Open_Mode mode = g.chance(1, 2) ? Open_Mode::shared_write : Open_Mode(g.below(6));
    trace += " open(" + std::to_string(h) + "," + mode_name(mode) + ")";
    sig = mix(sig, uint64_t(mode) + 10 * uint64_t(owner >= 0));
    const bool tail = mode != Open_Mode::read_existing && mode != Open_Mode::shared_write;
    const bool must_exist = mode == Open_Mode::read_existing || mode == Open_Mode::write_existing;
    bool ok = true, blocks = false;
    if (must_exist && !exists) ok = false;
    else if (mode == Open_Mode::create_new && exists) ok = false;
    else if (tail && owner >= 0) {if (mode == Open_Mode::write_lock) blocks = true; else ok = false;}
    send(h, c_open, int(mode));
    x.mode = mode;
    x.pending_op = c_open;
    if (blocks)
    {
     x.pending = true;
     waiting[size_t(p)] = h;
     c.count("waits");
     check_waiting(g.chance(1, 3) ? 5 : 0);
     continue;
    }
    const Reply r = must_reply(p);
    if (bool(r.ok) != ok)
     fail(ok ? "open-refused" : "open-accepted", std::string(mode_name(mode)) + ": " + r.what + ": " + trace);
    if (r.ok)
    {
     x.open = true;
     x.exclusive = tail;
     x.shared = mode == Open_Mode::shared_write;
     x.readonly = mode == Open_Mode::read_existing;
     if (tail) owner = h;
     exists = true;
     c.count(std::string("opened_") + mode_name(mode));
    }
    else c.count(std::string("refused_") + mode_name(mode));
   }
   else switch (x.shared && !x.journal && g.chance(2, 3) ? 1 : x.shared && g.chance(1, 2) ? 2 : g.below(5))
   {
    case 0:
    {
     trace += " close(" + std::to_string(h) + ")";
     send(h, c_close, 0);
     must_reply(p);
     const bool held = owner == h;
     x = M();
     if (held) release();
     sig = mix(sig, 1);
    }
    break;
    case 1:
     if (x.readonly || x.journal) break;
     trace += " journal(" + std::to_string(h) + ")";
     sig = mix(sig, 2 + uint64_t(owner >= 0));
     send(h, c_journal, 0);
     x.pending_op = c_journal;
     if (x.shared && owner >= 0)
     {
      x.pending = true;
      waiting[size_t(p)] = h;
      c.count("waits");
      check_waiting(g.chance(1, 3) ? 5 : 0);
      break;
     }
     {
      const Reply r = must_reply(p);
      if (!r.ok) fail("journal-refused", std::string(r.what) + ": " + trace);
      x.journal = true;
     }
    break;
    case 2: case 3:
     if (!x.journal) break;
     if (x.shared && !x.locked)
     {
      trace += " lock(" + std::to_string(h) + ")";
      sig = mix(sig, 5 + uint64_t(owner >= 0));
      send(h, c_lock, 0);
      x.pending_op = c_lock;
      if (owner >= 0)
      {
       x.pending = true;
       waiting[size_t(p)] = h;
       c.count("waits");
       check_waiting(g.chance(1, 3) ? 5 : 0);
       break;
      }
      const Reply r = must_reply(p);
      if (!r.ok) fail("lock-refused", std::string(r.what) + ": " + trace);
      x.locked = true;
      owner = h;
      c.count("locked");
     }
     else if (x.locked && g.chance(1, 2))
     {
      trace += " unlock(" + std::to_string(h) + ")";
      send(h, c_unlock, 0);
      must_reply(p);
      x.locked = false;
      release();
      sig = mix(sig, 7);
     }
     else if (owner == h)
     {
      trace += " write(" + std::to_string(h) + ")";
      send(h, c_write, writes++);
      const Reply r = must_reply(p);
      if (!r.ok) fail("write-failed", std::string(r.what) + ": " + trace);
      c.count("writes");
     }
    break;
    default:
     if (!x.readonly || !writes) break;
     trace += " read(" + std::to_string(h) + ")";
     send(h, c_read, 0);
     {
      const Reply r = must_reply(p); // never waits for a writer
      if (r.ok < 1000) fail("read-failed", std::string(r.what) + ": " + trace);
      if (r.ok != 1000 + writes) fail("read-other", std::to_string(r.ok - 1000) + " of " + std::to_string(writes) + " writes are seen: " + trace);
      c.count("reads_beside_writers");
     }
    break;
   }
   // from outside: the file can be opened for writing exactly when nobody holds it
   if (exists && g.chance(1, 2))
   {
    bool ok = true;
    std::string what;
    try {File probe(path, g.chance(1, 2) ? Open_Mode::write_existing : Open_Mode::write_existing_or_create_new);}
    catch (const joedb::Exception &e) {ok = false; what = e.what();}
    if (ok != (owner < 0)) fail(ok ? "lock-not-exclusive" : "lock-left-behind", "holder: " + std::to_string(owner) + " " + what + ": " + trace);
    c.count("probes");
   }
   if (owner >= 0) check_waiting(0);
  }
  c.sig(sig);
  c.sample(trace);
  unlink(path.c_str());
 }

 struct Stat {bool exists; std::string data; ino_t ino; timespec m; mode_t mode;};
 Stat look(const std::string &path)
 {
  Stat r{};
  struct stat st;
  if (lstat(path.c_str(), &st)) return r;
  r.exists = true;
  r.ino = st.st_ino;
  r.m = st.st_mtim;
  r.mode = st.st_mode;
  if (S_ISREG(st.st_mode))
  {
   const int fd = open(path.c_str(), O_RDONLY);
   r.data.resize(size_t(st.st_size));
   if (::read(fd, r.data.data(), r.data.size()) < 0) {}
   close(fd);
  }
  return r;
 }

 // descriptors of this process for the files under test
 int open_below(const std::string &dir)
 {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (dirent *e = readdir(d))
  {
   char b[4096];
   const ssize_t k = readlinkat(dirfd(d), e->d_name, b, sizeof(b));
   if (k > 0)
   {
    const std::string p(b, size_t(k));
    if (p == dir || p.find("f.joedb") != std::string::npos || p.find("other.joedb") != std::string::npos) n++;
   }
  }
  closedir(d);
  return n;
 }

 template<typename F> void try_mode(Ctx &c, Rng &g, const std::string &dir, Open_Mode mode, const char *kind)
 {
  const std::string path = dir + "/f.joedb";
  unlink(path.c_str());
  enum {missing, empty, journal, garbage, link, missing_dir, directory, kinds};
  const int k = int(g.below(kinds));
  std::string target = path;
  const std::string other = dir + "/other.joedb";
  unlink(other.c_str());
  auto put = [&](const std::string &p, const std::string &d) {FILE *f = fopen(p.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f);};
  std::string journal_bytes;
  {
   Memory_File mf;
   Writable_Journal j(mf);
   for (uint64_t i = g.below(20); i--;) j.comment(random_string(g));
   j.hard_checkpoint();
   journal_bytes.assign(mf.get_data().begin(), mf.get_data().end());
  }
  switch (k)
  {
   case empty: put(path, ""); break;
   case journal: put(path, journal_bytes); break;
   case garbage: put(path, g.bytes(g.below(300))); break;
   case link: put(other, journal_bytes); if (symlink(other.c_str(), path.c_str())) throw Inconclusive{"symlink"}; break;
   case missing_dir: target = dir + "/no/such/dir/f.joedb"; break;
   case directory: target = dir; break;
  }
  const Stat before = look(target);
  const Stat other_before = look(other);
  const bool is_file = k == empty || k == journal || k == garbage || k == link;
  bool expected;
  switch (mode)
  {
   case Open_Mode::read_existing: expected = is_file || k == directory; break;
   case Open_Mode::write_existing: expected = is_file; break;
   case Open_Mode::create_new: expected = k == missing; break;
   default: expected = is_file || k == missing; break;
  }
  const std::string name = std::string(kind) + " " + mode_name(mode) + " state " + std::to_string(k);
  c.sig(mix(hash_bytes(name), 0));
  bool ok = true;
  std::string what;
  const int fds_before = open_below(dir);
  try
  {
   F f(target.c_str(), mode);
   if (mode == Open_Mode::read_existing != f.is_readonly()) fail("open-mode-flag", name);
   if (expected && k != directory && mode == Open_Mode::read_existing)
   {
    // a reader changes nothing
    try {Writable_Journal j(f); fail("writable-journal-on-readonly-file", name);} catch (const joedb::Exception &) {}
    try {Readonly_Journal j(f); Recorder rec; j.replay_log(rec);} catch (const joedb::Exception &) {}
   }
   if (expected && k == journal && mode != Open_Mode::read_existing)
   {
    // existing data is kept
    Writable_Journal j(f);
    Recorder rec;
    j.replay_log(rec);
    if (j.get_checkpoint() != int64_t(journal_bytes.size())) fail("existing-content-lost", name);
   }
   if (expected && (k == missing || k == empty) && mode != Open_Mode::read_existing && g.chance(1, 2))
   {
    Writable_Journal j(f);
    j.comment("x");
    j.soft_checkpoint();
   }
  }
  catch (const joedb::Exception &e) {ok = false; what = e.what();}
  const int fds_after = open_below(dir);
  if (k != directory && ok != expected) fail(ok ? "open-accepted" : "open-refused", name + ": " + what);
  if (fds_after != fds_before) fail("descriptor-leaked", name + ": " + std::to_string(fds_before) + " -> " + std::to_string(fds_after));
  const Stat after = look(target);
  if (!ok || mode == Open_Mode::read_existing)
  {
   if (after.exists != before.exists) fail(after.exists ? "refused-open-created-a-file" : "refused-open-removed-a-file", name);
   if (after.exists && is_file && (after.data != before.data || after.ino != before.ino || after.m.tv_nsec != before.m.tv_nsec || after.m.tv_sec != before.m.tv_sec))
    fail("refused-open-changed-the-file", name);
   c.count("unchanged");
  }
  else
  {
   if (!after.exists) fail("open-created-nothing", name);
   if (before.exists && after.ino != before.ino) fail("open-replaced-the-file", name);
   if ((k == garbage) && after.data != before.data) fail("open-changed-the-file", name);
   if (k == journal && after.data != before.data) fail("open-changed-the-file", name);
  }
  const Stat other_after = look(other);
  if (mode == Open_Mode::create_new && k == link && (other_after.data != other_before.data)) fail("create-new-followed-a-link", name);
  // a refused or closed file is not locked
  if (is_file && std::is_same_v<F, File>)
  {
   try {File again(target, Open_Mode::write_existing);}
   catch (const joedb::Exception &e) {fail("lock-left-behind", name + ": " + e.what());}
  }
  c.count(ok ? "accepted" : "refused");
  unlink(path.c_str());
  unlink(other.c_str());
 }

 void open_modes(Ctx &c, Rng &g)
 {
  const Open_Mode mode = Open_Mode(g.below(6));
  if (g.chance(3, 4)) try_mode<File>(c, g, c.dir, mode, "File");
  else if (mode != Open_Mode::shared_write && mode != Open_Mode::write_lock) try_mode<Portable_File>(c, g, c.dir, mode, "Portable_File");
 }
}
