// J02, J03: what a journal holds after a power failure, a killed process or a failed write.
#include "ops.h"
#include "joedb/journal/Posix_File.h"
#include <sys/stat.h>
#include <cerrno>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/uio.h>

using namespace vf;

namespace
{
 struct Event {enum T {write, sync, datasync, mark} t; int64_t offset; std::string data; int mark_id = 0;};

 struct Log
 {
  std::vector<Event> events;
  // fault injection: countdown of file events; 0 means fail now
  int64_t fail_at = -1;
  size_t fail_partial = 0;   // bytes written by the failing write
  bool failed = false;
  bool tick() {if (fail_at < 0) return false; if (fail_at-- == 0) {failed = true; return true;} return false;}
 };
 Log *posix_log = nullptr;
 int posix_fd = -1;

 class Log_File: public Memory_File
 {
  public:
   Log &log;
   explicit Log_File(Log &log): log(log) {}
   void pwrite(const char *d, size_t n, int64_t o) override
   {
    if (log.tick())
    {
     const size_t k = o < 41 ? 0 : std::min(n, log.fail_partial); // the kernel does not tear an aligned header word
     if (k) {log.events.push_back({Event::write, o, std::string(d, k)}); Memory_File::pwrite(d, k, o);}
     throw std::runtime_error("injected write failure");
    }
    log.events.push_back({Event::write, o, std::string(d, n)});
    Memory_File::pwrite(d, n, o);
   }
   void sync() override
   {
    if (log.tick()) throw std::runtime_error("injected sync failure");
    log.events.push_back({Event::sync, 0, ""});
   }
   void datasync() override
   {
    if (log.tick()) throw std::runtime_error("injected sync failure");
    log.events.push_back({Event::datasync, 0, ""});
   }
 };
}

// system calls of the process are seen here
extern "C"
{
 static ssize_t log_pwrite(int fd, const void *b, size_t n, off_t o)
 {
  if (posix_log && fd == posix_fd)
  {
   if (posix_log->tick())
   {
    const size_t k = o < 41 ? 0 : std::min(n, posix_log->fail_partial);
    if (k && k < n)
    {
     // a short write, then the error
     const ssize_t r = syscall(SYS_pwrite64, fd, b, k, o);
     if (r > 0) posix_log->events.push_back({Event::write, o, std::string((const char *)b, size_t(r))});
     posix_log->fail_at = 0;
     posix_log->fail_partial = 0;
     posix_log->failed = false;
     return r;
    }
    errno = ENOSPC;
    return -1;
   }
   posix_log->events.push_back({Event::write, o, std::string((const char *)b, n)});
  }
  return syscall(SYS_pwrite64, fd, b, n, o);
 }
 ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {return log_pwrite(fd, b, n, o);}
 int fsync(int fd)
 {
  if (posix_log && fd == posix_fd)
  {
   if (posix_log->tick()) {errno = EIO; return -1;}
   posix_log->events.push_back({Event::sync, 0, ""});
   return 0;
  }
  return int(syscall(SYS_fsync, fd));
 }
 int fdatasync(int fd)
 {
  if (posix_log && fd == posix_fd)
  {
   if (posix_log->tick()) {errno = EIO; return -1;}
   posix_log->events.push_back({Event::datasync, 0, ""});
   return 0;
  }
  return int(syscall(SYS_fdatasync, fd));
 }
}

namespace
{
 void apply(std::string &image, int64_t offset, const char *d, size_t n)
 {
  if (size_t(offset) + n > image.size()) image.resize(size_t(offset) + n, 0);
  std::memcpy(&image[size_t(offset)], d, n);
 }

 // The durable part after the first 'upto' events: everything before the last sync; what a
 // datasync adds is durable only inside the file size of the last sync.
 struct Durable
 {
  std::string image;                       // durable for sure
  std::vector<Event> pending;              // may or may not reach the disk
 };
 Durable durable(const std::string &base, const std::vector<Event> &ev, size_t upto)
 {
  Durable d;
  d.image = base;
  for (size_t i = 0; i < upto; i++)
  {
   const Event &e = ev[i];
   if (e.t == Event::write) d.pending.push_back(e);
   else if (e.t == Event::sync)
   {
    for (auto &p: d.pending) apply(d.image, p.offset, p.data.data(), p.data.size());
    d.pending.clear();
   }
   else if (e.t == Event::datasync)
   {
    const size_t size = d.image.size();
    std::vector<Event> rest;
    for (auto &p: d.pending)
    {
     if (size_t(p.offset) < size)
     {
      const size_t k = std::min(p.data.size(), size - size_t(p.offset));
      apply(d.image, p.offset, p.data.data(), k);
      if (k < p.data.size()) rest.push_back({Event::write, p.offset + int64_t(k), p.data.substr(k)});
     }
     else rest.push_back(p);
    }
    d.pending = rest;
   }
  }
  return d;
 }

 // a disk state after power failure
 std::string power_image(Rng &g, const Durable &d, const Event *in_progress, int strategy)
 {
  std::string image = d.image;
  std::vector<const Event *> p;
  for (auto &e: d.pending) p.push_back(&e);
  if (in_progress) p.push_back(in_progress);
  // ordering on disk is free: later overlapping writes may land before earlier ones only if the
  // earlier one is then lost; so apply in order, choosing a subset
  for (auto *e: p)
  {
   bool keep = false, tear = false;
   switch (strategy)
   {
    case 0: keep = false; break;
    case 1: keep = true; break;
    case 2: keep = g.chance(1, 2); tear = g.chance(1, 4); break;
    case 3: keep = e->offset < 41; break;         // header only
    case 4: keep = e->offset >= 41; break;        // data only
    case 5: keep = g.chance(1, 8); break;
    case 6: keep = g.chance(7, 8); tear = g.chance(1, 8); break;
   }
   if (!keep) continue;
   if (!tear) apply(image, e->offset, e->data.data(), e->data.size());
   else
   {
    const size_t n = e->data.size();
    if (g.chance(1, 2)) // prefix
     apply(image, e->offset, e->data.data(), g.below(n + 1));
    else                // random sectors or bytes
    {
     const size_t unit = g.chance(1, 2) ? 512 : 1 + g.below(8);
     for (size_t i = 0; i < n; i += unit)
      if (g.chance(1, 2)) apply(image, e->offset + int64_t(i), e->data.data() + i, std::min(unit, n - i));
    }
   }
  }
  return image;
 }

 // One life of a journal: operations, checkpoints and what each call promised.
 struct Mark {int64_t soft, hard; bool in_hard; size_t event;};

 struct History
 {
  Ops ops;                        // operations in the file
  std::vector<int64_t> pos;       // end position of each
  std::set<int64_t> requested{41}, requested_hard{41};
  int64_t soft = 41, hard = 41;   // last completed
 };

 Op small_op(Rng &g, uint64_t &unique)
 {
  Op o;
  switch (g.below(6))
  {
   case 0: o.k = K::comment; o.s = "c" + std::to_string(unique++) + std::string(g.below(60), '.'); break;
   case 1: o.k = K::comment; o.s = std::to_string(unique++) + g.bytes(g.chance(1, 5) ? 3000 + g.below(6000) : g.below(100)); break;
   case 2: o.k = K::timestamp; o.n = int64_t(unique++); break;
   case 3: o.k = K::insert; o.t = uint16_t(1 + g.below(3)); o.r = int64_t(g.below(5)); break;
   case 4: o.k = K::update; o.t = uint16_t(1 + g.below(2)); o.r = int64_t(g.below(4)); o.f = 1; o.type = TId::int64; o.s = enc(int64_t(unique++)); break;
   default: o.k = K::blob; o.s = std::to_string(unique++) + g.bytes(g.below(200)); break;
  }
  return o;
 }

 // The file content up to a position that was a position of the journal
 void check_content(const std::string &image, int64_t upto, const History &h, const std::string &key)
 {
  if (int64_t(image.size()) < upto) fail(key + "-truncated", "file of " + std::to_string(image.size()) + " bytes for checkpoint " + std::to_string(upto));
  Memory_File m;
  m.get_data() = image.substr(0, size_t(upto));
  // give the bytes a header of their own: only the content matters here
  {
   Memory_File fresh; {Writable_Journal w(fresh);}
   std::memcpy(&m.get_data()[0], fresh.get_data().data(), 41);
   for (int i = 0; i < 4; i++) std::memcpy(&m.get_data()[size_t(i) * 8], &upto, 8);
  }
  Readonly_Journal j(m);
  Recorder rec;
  try {j.replay_log(rec);}
  catch (const std::exception &e) {fail(key + "-content", std::string("replay: ") + e.what());}
  size_t n = 0;
  while (n < h.pos.size() && h.pos[n] <= upto) n++;
  if (upto != (n ? h.pos[n - 1] : 41)) fail(key + "-boundary", "checkpoint " + std::to_string(upto) + " is not the end of an operation");
  compare_ops(expected_replay(h.ops, n), rec.ops, key + "-content");
 }

 // Drive one journal over a file until the end of the script or a crash decision.
 struct Session
 {
  Ctx &c;
  Rng &g;
  History &h;
  Log &log;
  uint64_t &unique;
  std::vector<Mark> marks;     // state after each completed call
  bool go_on = false;      // use the journal again after an operation threw
  bool op_failed = false;
  Ops after_failure;       // the operation that failed and those emitted after it

  void mark(bool in_hard)
  {
   marks.push_back({h.soft, h.hard, in_hard, log.events.size()});
  }

  void script(Writable_Journal &j, Abstract_File &file, int steps, bool retry)
  {
   mark(false);
   for (int i = 0; i < steps; i++)
   {
    const uint64_t a = g.below(10);
    if (a < 6)
    {
     const Op o = small_op(g, unique);
     try
     {
      emit(o, j);
      if (op_failed) after_failure.push_back(o);
      else {h.ops.push_back(o); h.pos.push_back(j.get_position());}
     }
     catch (const std::exception &)
     {
      if (!go_on || !(log.failed || op_failed)) throw;
      log.failed = false;
      op_failed = true;
      after_failure.push_back(o);
      c.count("operations_failed");
     }
    }
    else if (a < 7)
    {
     try {j.flush();}
     catch (const std::exception &) {if (!go_on || !(log.failed || op_failed)) throw; log.failed = false;}
    }
    else if (op_failed)
    {
     // an operation was left incomplete: it must not become visible with this checkpoint or a later one
     try {if (g.chance(1, 2)) j.hard_checkpoint(); else j.soft_checkpoint();} catch (const std::exception &) {c.count("refused_checkpoints"); continue;}
     // accepted: then the failed operation must be absent or complete
     Readonly_Journal r(file);
     Recorder rec;
     try {r.replay_log(rec);}
     catch (const std::exception &e) {fail("incomplete-operation-checkpointed", e.what());}
     const Ops sure = expected_replay(h.ops), may = expected_replay(after_failure);
     if (rec.ops.size() < sure.size() || !std::equal(sure.begin(), sure.end(), rec.ops.begin())) fail("incomplete-operation-checkpointed", "earlier operations differ");
     size_t k = 0;
     for (size_t x = sure.size(); x < rec.ops.size(); x++)
     {
      while (k < may.size() && !(may[k] == rec.ops[x])) k++;
      if (k == may.size()) fail("incomplete-operation-checkpointed", rec.ops[x].str());
      k++;
     }
     return;    }
    else
    {
     const bool hard = g.chance(1, 3);
     const int64_t p = j.get_position();
     h.requested.insert(p);
     if (hard) h.requested_hard.insert(p);
     mark(hard);
     for (int attempt = 0;; attempt++)
     {
      try
      {
       if (hard) j.hard_checkpoint(); else j.soft_checkpoint();
       break;
      }
      catch (const std::exception &)
      {
       if (!log.failed || !retry || attempt > 2) throw;
       log.failed = false;
       c.count("retried_checkpoints");
      }
     }
     if (log.failed) fail("failure-not-reported", "a file operation failed during a checkpoint that returned normally");
     h.soft = std::max(h.soft, p);
     if (hard) h.hard = std::max(h.hard, p);
     if (j.get_checkpoint() < h.soft || j.get_hard_checkpoint() < h.hard) fail("checkpoint-value");
     c.count(hard ? "hard_checkpoints" : "soft_checkpoints");
    }
    if (log.failed) fail("failure-not-reported", "a file operation failed during a call that returned normally");
    mark(false);
   }
  }
  const Mark &state_at(size_t event) const
  {
   // last mark made when at most 'event' events had happened
   size_t i = 0;
   while (i + 1 < marks.size() && marks[i + 1].event <= event) i++;
   return marks[i];
  }
 };

 struct Backend
 {
  Log log;
  std::unique_ptr<Log_File> mem;
  std::unique_ptr<Posix_File> posix;
  std::string path;
  bool real;
  Backend(Ctx &c, bool real, const std::string &initial): real(real)
  {
   if (real)
   {
    path = c.scratch("crash.joedb");
    unlink(path.c_str());
    if (!initial.empty())
    {
     FILE *f = fopen(path.c_str(), "wb"); fwrite(initial.data(), 1, initial.size(), f); fclose(f);
    }
    posix_log = &log;
    posix.reset(new Posix_File(path.c_str(), initial.empty() ? Open_Mode::create_new : Open_Mode::write_existing));
    posix_fd = -1;
    // find the descriptor of the file
    struct stat st; stat(path.c_str(), &st);
    for (int fd = 3; fd < 256; fd++)
    {
     struct stat s2;
     if (fstat(fd, &s2) == 0 && s2.st_ino == st.st_ino && s2.st_dev == st.st_dev) posix_fd = fd;
    }
    if (posix_fd < 0) throw Inconclusive{"descriptor not found"};
   }
   else
   {
    mem.reset(new Log_File(log));
    mem->get_data() = initial;
   }
  }
  ~Backend() {posix_log = nullptr; posix_fd = -1;}
  Abstract_File &file() {return real ? (Abstract_File &)*posix : (Abstract_File &)*mem;}
  std::string content()
  {
   if (!real) return mem->get_data();
   std::string s(size_t(posix->get_size()), 0);
   for (size_t o = 0; o < s.size();) {const ssize_t k = ::pread(posix_fd, &s[o], s.size() - o, off_t(o)); if (k <= 0) break; o += size_t(k);}
   return s;
  }
 };

 // --------------------------------------------------------------- J02
 void power(Ctx &c, Rng &g)
 {
  History h;
  std::string base;
  uint64_t unique = 1, shape = 1;
  const int lives = 1 + int(g.below(4));
  std::string trace;
  for (int life = 0; life < lives; life++)
  {
   Backend b(c, g.chance(1, 4), base);
   std::vector<Mark> marks;
   const History before = h;
   Session s{c, g, h, b.log, unique};
   {
    std::unique_ptr<Writable_Journal> j;
    try
    {
     j.reset(new Writable_Journal(Journal_Construction_Lock(b.file(), life ? Recovery::overwrite : Recovery::none)));
     if (life)
     {
      if (!h.requested.count(j->get_checkpoint())) throw Inconclusive{""};
      Recorder rec;
      j->play_until_checkpoint(rec);
     }
    }
    catch (const Inconclusive &) {c.count("stale_soft_checkpoints"); break;}
    s.script(*j, b.file(), 4 + int(g.below(40)), false);
    j.reset(); // what the destructor writes is after the last mark
   }
   const auto &ev = b.log.events;
   c.count("lives"); c.count("events", ev.size());
   auto examine = [&](const std::string &image, const Mark &m, const std::string &where)
   {
    c.count("images");
    Memory_File f;
    f.get_data() = image;
    if (m.hard == 41)
    {
     // nothing was promised; but whatever is found must be memory-safe
     try {Readonly_Journal r(f);} catch (const Exception &) {}
     return;
    }
    int64_t hard = 0, soft = 0;
    try
    {
     Readonly_Journal r(f);
     hard = r.get_hard_checkpoint();
     soft = r.get_checkpoint();
    }
    catch (const std::exception &e) {fail("unreadable", where + ": " + e.what());}
    if (hard < m.hard) fail("hard-lost", where + ": found " + std::to_string(hard) + " promised " + std::to_string(m.hard));
    if (soft < hard) fail("soft-before-hard", where);
    if (!h.requested_hard.count(hard)) fail("hard-invented", where + ": " + std::to_string(hard));
    check_content(image, hard, h, "hard");
    c.count("hard_recoveries");
   };
   for (size_t k = 0; k <= ev.size(); k++)
   {
    const Durable d = durable(base, ev, k);
    const Mark &m = s.state_at(k);
    const Event *next = k < ev.size() && ev[k].t == Event::write ? &ev[k] : nullptr;
    for (int strategy = 0; strategy < 7; strategy++)
    {
     const int repeats = (strategy == 2 || strategy == 5 || strategy == 6) && d.pending.size() > 1 ? 2 : 1;
     for (int r = 0; r < repeats; r++)
     {
      const Event *ip = next && g.chance(1, 2) ? next : nullptr;
      const std::string where = "event " + std::to_string(k) + "/" + std::to_string(ev.size()) + " strategy " + std::to_string(strategy);
      examine(power_image(g, d, ip, strategy), m, where);
     }
     c.step();
    }
    shape = mix(shape, k < ev.size() ? uint64_t(ev[k].t) * 3 + (ev[k].offset < 41) : 0);
   }
   // continue from one of the images
   const size_t k = g.below(ev.size() + 1);
   const Mark &m = s.state_at(k);
   const Durable d = durable(base, ev, k);
   const std::string image = power_image(g, d, nullptr, int(g.below(7)));
   if (m.hard == 41) break;
   Memory_File f; f.get_data() = image;
   int64_t found = 0, found_hard = 0;
   {Readonly_Journal r(f); found = r.get_checkpoint(); found_hard = r.get_hard_checkpoint();}
   if (!h.requested.count(found)) {c.count("torn_soft_checkpoints"); break;}
   try {check_content(image, found, h, "soft");} catch (const Violation &) {c.count("lost_soft_data"); break;}
   // operations after the recovered checkpoint are gone
   size_t n = 0;
   while (n < h.pos.size() && h.pos[n] <= found) n++;
   h.ops.resize(n); h.pos.resize(n);
   std::set<int64_t> keep;
   for (int64_t p: h.requested) if (p <= found) keep.insert(p);
   h.requested = keep; keep.clear();
   for (int64_t p: h.requested_hard) if (p <= found) keep.insert(p);
   h.requested_hard = keep;
   h.hard = found_hard; h.soft = found;
   base = image;
   if (trace.size() < 300) trace += "life " + std::to_string(life) + ": " + std::to_string(ev.size()) + " file events, crash at " + std::to_string(k) + ", recovered " + std::to_string(found_hard) + "/" + std::to_string(found) + "; ";
  }
  c.sig(shape);
  c.sample(trace);
 }

 // --------------------------------------------------------------- J03
 void examine_kill(Ctx &c, Rng &g, const std::string &image, const Mark &m, const History &h, const std::string &where, bool clean)
 {
  c.count("kill_images");
  Memory_File f;
  f.get_data() = image;
  if (image.size() < 41)
  {
   // killed while creating the file
   if (image.empty()) {Writable_Journal w(f);}
   else {try {Readonly_Journal r(f);} catch (const Exception &) {}}
   c.count("killed_creations");
   return;
  }
  int64_t found = 0;
  try {Readonly_Journal r(f); found = r.get_checkpoint();}
  catch (const std::exception &e) {fail("unreadable", where + ": " + e.what());}
  if (found < m.hard) fail("hard-lost", where + ": found " + std::to_string(found) + " promised " + std::to_string(m.hard));
  if (found < m.soft) fail("soft-lost", where + ": found " + std::to_string(found) + " promised " + std::to_string(m.soft));
  if (!h.requested.count(found)) fail("invented", where + ": " + std::to_string(found));
  check_content(image, found, h, "kill");
  if (f.get_data() != image) fail("reader-wrote", where);

  // recovery modes
  const int mode = int(g.below(clean ? 3 : 2)); // the whole file is meaningful only if no earlier life left a tail in it
  size_t n = 0;
  while (n < h.pos.size() && h.pos[n] <= found) n++;
  if (mode == 0)
  {
   bool refused = false;
   {
    Memory_File w; w.get_data() = image;
    try {Writable_Journal j(w);} catch (const Exception &) {refused = true;}
    if (refused != (int64_t(image.size()) > found))
     fail(refused ? "wrongly-refused" : "wrongly-accepted", where + ": size " + std::to_string(image.size()) + " checkpoint " + std::to_string(found));
    if (refused && w.get_data() != image) fail("refusal-wrote", where);
    if (w.get_data().size() != image.size()) fail("open-changed-size", where);
   }
   c.count(refused ? "refused" : "accepted");
   if (refused) return;
  }
  const Recovery recovery = mode == 0 ? Recovery::none : mode == 1 ? Recovery::overwrite : Recovery::ignore_header;
  Memory_File w; w.get_data() = image;
  if (mode == 2)
  {
   // the whole file is kept (a torn last operation is the caller's business: only complete ones are compared)
   Readonly_Journal j(Journal_Construction_Lock(w, recovery));
   const int64_t whole = std::max<int64_t>(41, int64_t(image.size()));
   if (j.get_checkpoint() != whole) fail("ignore_header-checkpoint", where);
   Recorder rec;
   size_t k = 0;
   while (k < h.pos.size() && h.pos[k] <= whole) k++;
   j.rewind();
   for (size_t i = 0; i < k; i++) j.one_step(rec);
   compare_ops(expected_replay(h.ops, k), rec.ops, "ignore_header-content");
   if (whole == (k ? h.pos[k - 1] : 41))
   {
    // the whole file is made of complete operations: open it for writing and go on
    Writable_Journal wj{Journal_Construction_Lock(w, recovery)};
    Recorder rec2;
    wj.play_until_checkpoint(rec2);
    compare_ops(expected_replay(h.ops, k), rec2.ops, "ignore_header-write");
    Op o; o.k = K::comment; o.s = "after recovery";
    emit(o, wj);
    wj.soft_checkpoint();
    if (g.chance(1, 2)) wj.hard_checkpoint();
    Readonly_Journal r(w);
    Recorder rec3;
    r.replay_log(rec3);
    Ops e = expected_replay(h.ops, k); e.push_back(o);
    compare_ops(e, rec3.ops, "ignore_header-continued");
    c.count("ignore_header_continued");
   }
   c.count("ignore_header");
   return;
  }
  {
   Writable_Journal j{Journal_Construction_Lock(w, recovery)};
   if (j.get_checkpoint() != found) fail("writer-checkpoint", where + ": " + std::to_string(j.get_checkpoint()) + " instead of " + std::to_string(found));
   Recorder rec;
   j.play_until_checkpoint(rec);
   compare_ops(expected_replay(h.ops, n), rec.ops, "writer-content");
   Ops more;
   uint64_t u = 1000000;
   const size_t extra = 1 + g.below(4);
   for (size_t i = 0; i < extra; i++)
   {
    const Op o = small_op(g, u);
    emit(o, j); more.push_back(o);
   }
   const bool hard = g.chance(1, 2);
   if (hard) j.hard_checkpoint(); else j.soft_checkpoint();
   Readonly_Journal r(w);
   if (r.get_checkpoint() != j.get_checkpoint()) fail("continued-checkpoint", where + ": " + std::to_string(r.get_checkpoint()) + " instead of " + std::to_string(j.get_checkpoint()));
   Recorder rec2;
   r.replay_log(rec2);
   Ops e = expected_replay(h.ops, n);
   e.insert(e.end(), more.begin(), more.end());
   compare_ops(e, rec2.ops, "continued-content");
  }
  c.count(mode == 0 ? "continued" : "overwritten");
 }

 void kill_points(Ctx &c, Rng &g)
 {
  History h;
  uint64_t unique = 1, shape = 3;
  std::string base;
  const int lives = 1 + int(g.below(3));
  bool clean = true;
  for (int life = 0; life < lives; life++)
  {
   Backend b(c, g.chance(1, 4), base);
   Session s{c, g, h, b.log, unique};
   {
    Writable_Journal j{Journal_Construction_Lock(b.file(), life ? Recovery::overwrite : Recovery::none)};
    if (life) {Recorder rec; j.play_until_checkpoint(rec);}
    s.script(j, b.file(), 3 + int(g.below(40)), false);
   }
   const auto &ev = b.log.events;
   c.count("events", ev.size());
   std::string image = base;
   std::string next_base;
   size_t chosen = g.below(ev.size() + 1);
   Mark chosen_mark{};
   for (size_t k = 0; k <= ev.size(); k++)
   {
    const Mark &m = s.state_at(k);
    examine_kill(c, g, image, m, h, "event " + std::to_string(k) + "/" + std::to_string(ev.size()), clean);
    if (k == chosen) {next_base = image; chosen_mark = m;}
    if (k == ev.size()) break;
    if (ev[k].t == Event::write)
    {
     if (ev[k].data.size() > 41)
     {
      std::string torn = image;
      apply(torn, ev[k].offset, ev[k].data.data(), g.below(ev[k].data.size()));
      examine_kill(c, g, torn, m, h, "inside event " + std::to_string(k), clean);
     }
     apply(image, ev[k].offset, ev[k].data.data(), ev[k].data.size());
     shape = mix(shape, ev[k].offset < 41 ? uint64_t(ev[k].offset) : 50 + (ev[k].data.size() > 100));
    }
    else shape = mix(shape, 99);
    c.step();
   }
   if (next_base.size() < 41) break;
   Memory_File f; f.get_data() = next_base;
   int64_t found; {Readonly_Journal r(f); found = r.get_checkpoint(); h.hard = r.get_hard_checkpoint();}
   size_t n = 0;
   while (n < h.pos.size() && h.pos[n] <= found) n++;
   h.ops.resize(n); h.pos.resize(n);
   std::set<int64_t> keep;
   for (int64_t p: h.requested) if (p <= found) keep.insert(p);
   h.requested = keep;
   h.soft = found;
   base = next_base;
   if (int64_t(base.size()) > found) clean = false;
   if (c.samples.size() < 3) c.sample("life of " + std::to_string(ev.size()) + " file events; killed after event " + std::to_string(chosen) + "; recovered checkpoint " + std::to_string(found) + " of " + std::to_string(next_base.size()) + " bytes");
  }
  c.sig(shape);
 }

 // a file operation fails; the caller hears of it, and may try the checkpoint again
 void faults(Ctx &c, Rng &g)
 {
  History h;
  uint64_t unique = 1;
  Backend b(c, g.chance(1, 3), "");
  const bool retry = g.chance(1, 2);
  Session s{c, g, h, b.log, unique};
  s.go_on = g.chance(1, 2);
  b.log.fail_at = int64_t(g.below(40));
  b.log.fail_partial = g.below(100);
  const int64_t at = b.log.fail_at;
  bool thrown = false;
  std::unique_ptr<Writable_Journal> j;
  try
  {
   j.reset(new Writable_Journal(b.file()));
   s.script(*j, b.file(), 5 + int(g.below(60)), retry);
  }
  catch (const Violation &) {throw;}
  catch (const std::exception &) {thrown = true;}
  if (b.log.failed && !thrown) fail("failure-not-reported");
  const std::string image = b.content();
  c.count(thrown ? "faults_reported" : "fault_free_runs");
  // as if the process ended here
  const bool in_hard = !s.marks.empty() && s.marks.back().in_hard;
  Mark m{h.soft, h.hard, in_hard, 0};
  examine_kill(c, g, image, m, h, "after failure at " + std::to_string(at), true);
  c.sig(mix(uint64_t(at) * 131 + b.log.fail_partial, h.ops.size() * 2 + retry));
  b.log.fail_at = -1;
  // what the destructor may still write (a buffer) must not harm checkpointed data
  j.reset();
  examine_kill(c, g, b.content(), m, h, "after destruction", true);
 }

 // a real process is killed, or meets the file-size limit
 struct Shared {volatile int64_t n_ops, soft, hard, in_hard, n_requested; int64_t requested[4000]; volatile int64_t error;};

 void processes(Ctx &c, Rng &g)
 {
  const std::string path = c.scratch("kill.joedb");
  unlink(path.c_str());
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->soft = sh->hard = 41;
  const uint64_t script_seed = g.next();
  const bool limit = g.chance(1, 2);
  const rlim_t size_limit = 100 + g.below(20000);
  const bool shared_mode = g.chance(1, 3);
  auto run = [&](Abstract_File &file, Shared *s, History *h, int steps)
  {
   Rng r(script_seed);
   uint64_t unique = 1;
   Writable_Journal j(file);
   for (int i = 0; i < steps; i++)
   {
    const uint64_t a = r.below(10);
    if (a < 7)
    {
     const Op o = small_op(r, unique);
     emit(o, j);
     if (h) {h->ops.push_back(o); h->pos.push_back(j.get_position());}
    }
    else
    {
     const bool hard = r.chance(1, 3);
     if (s) {s->requested[s->n_requested] = j.get_position(); s->n_requested = s->n_requested + 1; if (hard) s->in_hard = 1;}
     if (hard) j.hard_checkpoint(); else j.soft_checkpoint();
     if (s) {s->soft = j.get_checkpoint(); if (hard) {s->hard = j.get_position(); s->in_hard = 0;}}
    }
   }
  };
  const int steps = limit ? 300 : 3000;
  const pid_t pid = fork();
  if (pid == 0)
  {
   int rc = 0;
   try
   {
    if (limit)
    {
     signal(SIGXFSZ, SIG_IGN);
     rlimit l{size_limit, size_limit};
     setrlimit(RLIMIT_FSIZE, &l);
    }
    Posix_File file(path.c_str(), shared_mode ? Open_Mode::shared_write : Open_Mode::write_existing_or_create_new);
    run(file, sh, nullptr, steps);
   }
   catch (const std::exception &e) {sh->error = 1; rc = 3;}
   _exit(rc);
  }
  if (!limit)
  {
   // kill after a number of checkpoints, so that the moment does not depend on the speed of the machine
   const int64_t target = int64_t(g.below(300));
   while (sh->n_requested < target)
   {
    int st; if (waitpid(pid, &st, WNOHANG) == pid) goto ended;
    if (g.chance(1, 4)) usleep(50);
   }
   if (g.chance(1, 2)) usleep(useconds_t(g.below(300)));
   kill(pid, SIGKILL);
  }
  {int st; waitpid(pid, &st, 0);}
  ended:
  History h;
  {Memory_File m; try {run(m, nullptr, &h, steps);} catch (...) {}}
  for (int64_t i = 0; i < sh->n_requested; i++) h.requested.insert(sh->requested[i]);
  std::string image;
  {
   FILE *f = fopen(path.c_str(), "rb");
   if (f) {char buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) image.append(buf, k); fclose(f);}
  }
  Mark m{sh->soft, sh->hard, sh->in_hard != 0, 0};
  const bool error = sh->error;
  const int64_t requested = sh->n_requested;
  const int64_t total = h.pos.empty() ? 0 : h.pos.back();
  munmap(sh, sizeof(Shared));
  if (limit && total > int64_t(size_limit) + 5000 && !error) fail("limit-not-reported", "file-size limit " + std::to_string(size_limit) + " was not reported");
  examine_kill(c, g, image, m, h, limit ? "file-size limit" : "SIGKILL", true);
  c.count(limit ? "size_limits" : "kills");
  c.sig(mix(uint64_t(image.size()), uint64_t(requested)));
 }
}

int main(int argc, char **argv)
{
 return main_loop(argc, argv, {{"power", power}, {"kill_points", kill_points}, {"faults", faults}, {"processes", processes}});
}
