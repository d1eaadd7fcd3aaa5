// J07, J08, J09, D06: files against a plain array of bytes; stream buffers against standard ones;
// hashes against another SHA-256; blobs against what was written.
#include "ops.h"
#include "limit_new.h"
#include "joedb/journal/Stream_File.h"
#include "joedb/journal/Posix_File.h"
#include "joedb/journal/Portable_File.h"
#include "joedb/journal/File_Slice.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/Upgradable_File.h"
#include "joedb/journal/Encoded_File.h"
#include "joedb/journal/Identity_Codec.h"
#include "joedb/journal/Brotli_File.h"
#include "joedb/journal/Readonly_Brotli_File.h"
#include "joedb/journal/Async_Reader.h"
#include "joedb/journal/Async_Writer.h"
#include "joedb/journal/File_Hasher.h"
#include "joedb/journal/filebuf.h"
#include "joedb/journal/fstream.h"
#include "joedb/journal/iostream.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/concurrency/File_Connection.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include <sstream>
#include <cmath>
#include <array>

using namespace vf;

namespace
{
 class Short_File: public Memory_File
 {
  public:
   mutable Rng g{1};
   size_t max = 1;
   size_t pread(char *b, size_t n, int64_t o) const override
   {
    if (n > 41) n = 42 + g.below(std::min(n - 41, max));
    return Memory_File::pread(b, n, o);
   }
 };

 enum Kind {memory, stringstream_, portable, posix, encoded, brotli, short_, kinds};
 const char *kind_names[] = {"memory", "stream", "portable", "posix", "encoded", "brotli", "short"};

 struct Holder
 {
  Kind kind;
  std::string path;
  std::unique_ptr<Memory_File> under;         // for encoded
  std::unique_ptr<std::stringbuf> sb;
  std::unique_ptr<Identity_Codec> codec;
  std::unique_ptr<db::encoded_file::Writable_Database> edb;
  std::unique_ptr<Abstract_File> f;
  Abstract_File &operator*() {return *f;}
  Abstract_File *operator->() {return f.get();}
  Holder(Kind k, const std::string &p, Rng &g): kind(k), path(p)
  {
   unlink(path.c_str());
   switch (kind)
   {
    case memory: f.reset(new Memory_File); break;
    case short_: {auto *s = new Short_File; s->g = Rng(g.next()); s->max = 1 + g.below(3000); f.reset(s);} break;
    case stringstream_: sb.reset(new std::stringbuf(std::ios::in | std::ios::out | std::ios::binary)); f.reset(new Stream_File(*sb, Open_Mode::create_new)); break;
    case portable: f.reset(new Portable_File(path, Open_Mode::create_new)); break;
    case posix: f.reset(new Posix_File(path, Open_Mode::create_new)); break;
    case encoded: under.reset(new Memory_File); codec.reset(new Identity_Codec); open_encoded(); break;
    case brotli: f.reset(new Brotli_File(path.c_str())); break;
    default: break;
   }
  }
  void open_encoded()
  {
   edb.reset(new db::encoded_file::Writable_Database(*under));
   f.reset(new Encoded_File(*codec, *edb));
  }
  void reopen()
  {
   switch (kind)
   {
    case portable: f.reset(); f.reset(new Portable_File(path, Open_Mode::write_existing)); break;
    case posix: f.reset(); f.reset(new Posix_File(path, Open_Mode::write_existing)); break;
    case encoded: f.reset(); edb.reset(); open_encoded(); break;
    case brotli: f.reset(); f.reset(new Brotli_File(path.c_str())); break;
    case stringstream_: f.reset(); f.reset(new Stream_File(*sb, Open_Mode::write_existing)); break;
    default: break;
   }
  }
  bool holes() const {return kind != stringstream_;}
  ~Holder() {f.reset(); edb.reset(); if (!path.empty()) unlink(path.c_str());}
 };

 // everything readable from offset, at most n bytes, through as many reads as needed
 std::string read_range(const Abstract_File &f, int64_t offset, size_t n, const std::string &what)
 {
  std::string r;
  while (r.size() < n)
  {
   const size_t want = n - r.size();
   std::vector<char> buf(want + 16, char(0x5a));
   const size_t k = f.pread(buf.data(), want, offset + int64_t(r.size()));
   if (k > want) fail("read-count", what + ": pread of " + std::to_string(want) + " at " + std::to_string(offset + int64_t(r.size())) + " returned " + std::to_string(int64_t(k)));
   for (int i = 0; i < 16; i++) if (buf[want + size_t(i)] != 0x5a) fail("read-beyond-buffer", what);
   if (k == 0) break;
   r.append(buf.data(), k);
  }
  return r;
 }

 void expect_range(const Abstract_File &f, const std::string &model, int64_t offset, size_t n, const std::string &what)
 {
  const std::string got = read_range(f, offset, n, what);
  const std::string want = size_t(offset) < model.size() ? model.substr(size_t(offset), n) : "";
  if (got != want)
  {
   size_t i = 0;
   while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
   fail("read-content", what + ": range " + std::to_string(offset) + "+" + std::to_string(n) + " of " + std::to_string(model.size()) + ": got " + std::to_string(got.size()) +
    " bytes, expected " + std::to_string(want.size()) + ", first difference at " + std::to_string(i));
  }
 }

 void put(std::string &m, int64_t o, const std::string &d)
 {
  if (m.size() < size_t(o) + d.size()) m.resize(size_t(o) + d.size(), 0);
  std::memcpy(&m[size_t(o)], d.data(), d.size());
 }

 std::string content(Rng &g, size_t n)
 {
  if (g.chance(1, 3)) return g.bytes(n);
  std::string s(n, char('a' + g.below(20)));
  for (int i = 0; i < 5 && n; i++) s[g.below(n)] = char(g.next());
  return s;
 }

 size_t io_size(Rng &g)
 {
  switch (g.below(8))
  {
   case 0: return g.below(5);
   case 1: case 2: case 3: return g.below(200);
   case 4: return size_t(g.range(4090, 4102));
   case 5: return size_t(g.range(8185, 8200));
   case 6: return g.below(40000);
   default: return g.chance(1, 12) ? size_t((1 << 20) + g.range(-3, 200)) : g.below(3000);
  }
 }

 int64_t some_offset(Rng &g, size_t size, bool past)
 {
  switch (g.below(5))
  {
   case 0: return 0;
   case 1: return int64_t(size);
   case 2: return past ? int64_t(size + g.below(10000)) : int64_t(size);
   default: return int64_t(g.below(size + 1));
  }
 }

 void array(Ctx &c, Rng &g)
 {
  struct Item {std::unique_ptr<Holder> h; std::string m; std::string name;};
  std::vector<Item> items;
  const int n_items = 2;
  for (int i = 0; i < n_items; i++)
  {
   Kind k = Kind((uint64_t(c.case_index) / 8 + uint64_t(i) * (1 + uint64_t(c.case_index) / 56)) % kinds);
   if (k == brotli && g.chance(1, 2)) k = encoded;
   items.push_back({std::make_unique<Holder>(k, c.scratch("f" + std::to_string(i)), g), "", kind_names[k]});
  }
  uint64_t shape = items[0].h->kind * 8 + items[1].h->kind;
  std::string trace = items[0].name + "," + items[1].name + ":";
  const int steps = 5 + int(g.below(40));
  for (int s = 0; s < steps; s++)
  {
   c.step();
   Item &it = items[g.below(items.size())];
   Item &other = &it == &items[0] ? items[1] : items[0];
   Holder &h = *it.h;
   const uint64_t what = g.below(16);
   shape = mix(shape, what);
   if (what < 5)
   {
    size_t n = io_size(g);
    if (h.kind == brotli && n > 100000) n = g.chance(1, 4) ? n : 1000;
    const int64_t o = some_offset(g, it.m.size(), h.holes());
    if (n == 0 && size_t(o) > it.m.size()) continue;
    const std::string d = content(g, n);
    std::vector<char> exact(d.begin(), d.end());
    if (g.chance(1, 4)) {Async_Writer w(*h, o); const size_t cut = g.below(n + 1); w.write(exact.data(), cut); w.write(exact.data() + cut, n - cut); if (w.get_position() != o + int64_t(n)) fail("writer-position");}
    else h->pwrite(exact.data(), n, o);
    put(it.m, o, d);
    c.count("writes");
    trace += " w" + std::to_string(o) + "+" + std::to_string(n);
   }
   else if (what < 9)
   {
    const int64_t o = some_offset(g, it.m.size(), h.holes());
    const size_t n = io_size(g);
    if (g.chance(1, 3))
    {
     const int64_t end = o + int64_t(n);
     Async_Reader r(*h, o, end);
     std::string got;
     while (r.get_remaining() > 0)
     {
      std::vector<char> b(1 + g.below(5000));
      const size_t k = r.read(b.data(), b.size());
      got.append(b.data(), k);
      if (k > b.size()) fail("async-count");
      if (r.is_end_of_file()) break;
      if (k == 0) fail("async-stuck");
     }
     const std::string want = size_t(o) < it.m.size() ? it.m.substr(size_t(o), n) : "";
     if (got != want) fail("async-content", it.name);
     if (r.is_end_of_file() != (want.size() < n)) fail("async-eof", it.name);
    }
    else expect_range(*h, it.m, o, n, it.name);
    c.count("reads");
   }
   else if (what == 9)
   {
    const int64_t size = h->get_size();
    if (size != int64_t(it.m.size())) fail("size", it.name + ": " + std::to_string(size) + " instead of " + std::to_string(it.m.size()));
    c.count("sizes");
   }
   else if (what == 10)
   {
    if (g.chance(1, 2)) h->sync(); else h->datasync();
    if (g.chance(1, 2)) {h.reopen(); c.count("reopens"); trace += " reopen";}
   }
   else if (what < 13)
   {
    // copy a range of the other file into this one, at the same place
    const size_t os = other.m.size();
    if (g.chance(1, 4) && os)
    {
     other.h->f->copy_to(*h);
     put(it.m, 0, other.m);
    }
    else
    {
     const int64_t start = int64_t(g.below(os + 1));
     if (!h.holes() && size_t(start) > it.m.size()) continue;
     int64_t size = int64_t(g.below(os - size_t(start) + 1));
     if (g.chance(1, 8)) size += int64_t(g.below(5000));
     if (g.chance(1, 8)) size = -1;
     const bool past = size >= 0 && size_t(start + size) > os;
     const std::string src = other.m.substr(size_t(start), size < 0 ? std::string::npos : size_t(size));
     bool thrown = false;
     try {other.h->f->copy_to(*h, start, size);} catch (const Exception &) {thrown = true;}
     if (thrown != past) fail(past ? "copy-past-end-accepted" : "copy-failed", other.name + " to " + it.name);
     std::string full = it.m;
     if (!src.empty()) put(full, start, src);
     if (thrown)
     {
      const std::string now = read_range(*h, 0, full.size() + 10, it.name);
      for (size_t i = 0; i < now.size(); i++)
       if (i >= full.size() || (now[i] != full[i] && !(i < it.m.size() && now[i] == it.m[i]) && !(i >= it.m.size() && now[i] == 0)))
        fail("copy-partial", other.name + " to " + it.name);
      if (now.size() < it.m.size()) fail("copy-shrunk");
      it.m = now;
     }
     else it.m = full;
    }
    c.count("copies");
    trace += " copy";
   }
   else if (what == 13)
   {
    // compare ranges, often after making the two files nearly equal
    const int64_t until = int64_t(g.below(std::max(it.m.size(), other.m.size()) + 2));
    const int64_t from = int64_t(g.below(uint64_t(until) + 1));
    if (g.chance(2, 3) && size_t(from) <= it.m.size() && size_t(until) <= other.m.size() && from < until)
    {
     std::string d = other.m.substr(size_t(from), size_t(until - from));
     if (g.chance(1, 2)) d[g.below(d.size())] ^= char(1 << g.below(8));
     h->pwrite(d.data(), d.size(), from);
     put(it.m, from, d);
    }
    int result = 2;
    try {result = h->equal_to(*other.h->f, from, until);} catch (const Exception &) {}
    if (size_t(until) <= it.m.size() && size_t(until) <= other.m.size())
    {
     const int want = it.m.compare(size_t(from), size_t(until - from), other.m, size_t(from), size_t(until - from)) == 0;
     if (result != want) fail("compare", it.name + " with " + other.name + " from " + std::to_string(from) + " until " + std::to_string(until) + ": " + std::to_string(result));
    }
    else if (result == 1 && from < until) fail("compare-past-end", it.name + " with " + other.name);
    c.count("comparisons");
   }
   else if (what == 14)
   {
    // hashes do not depend on the kind of file
    const int64_t start = int64_t(g.below(it.m.size() + 1));
    const int64_t size = int64_t(g.below(it.m.size() - size_t(start) + 1));
    if (File_Hasher::get_hash(*h, start, size) != File_Hasher::get_hash(std::string_view(it.m).substr(size_t(start), size_t(size)))) fail("hash", it.name);
    c.count("hashes");
   }
   else
   {
    const int64_t p = int64_t(g.below(it.m.size() + 2)), n = int64_t(g.below(it.m.size() + 10));
    std::string got;
    bool thrown = false;
    try {got = h->read_blob(Blob(p, n));} catch (const Exception &) {thrown = true;}
    const bool in = size_t(p + n) <= it.m.size();
    if (thrown == in && !(n == 0)) fail("read_blob-range", it.name);
    if (!thrown && got != (size_t(p) <= it.m.size() ? it.m.substr(size_t(p), size_t(n)) : "")) fail("read_blob-content", it.name);
    c.count("blob_reads");
   }
  }
  for (auto &it: items)
  {
   expect_range(*it.h->f, it.m, 0, it.m.size() + 100, it.name + " at the end");
   if (it.h->f->get_size() != int64_t(it.m.size())) fail("size", it.name + " at the end");
   it.h->f->sync();
   it.h->reopen();
   expect_range(*it.h->f, it.m, 0, it.m.size() + 100, it.name + " reopened");
   c.count(std::string("kind_") + it.name);
   // read-only views of the same bytes
   auto views = [&](const Abstract_File &v, const std::string &name, bool sized)
   {
    if (!v.is_readonly() && name != "upgradable") fail("view-mode", name);
    if (sized && v.get_size() != int64_t(it.m.size())) fail("size", name);
    for (int k = 0; k < 4; k++) expect_range(v, it.m, some_offset(g, it.m.size(), true), io_size(g), name);
    expect_range(v, it.m, 0, it.m.size() + 100, name);
    Memory_File copy;
    v.copy_to(copy);
    if (copy.get_data() != it.m) fail("copy-content", name);
    if (!it.m.empty() && !v.equal_to(copy, 0, int64_t(it.m.size()))) fail("compare", name);
    c.count("views");
   };
   std::vector<char> heap(it.m.begin(), it.m.end());
   views(Readonly_Memory_File(heap), "readonly_memory", true);
   {
    Upgradable_File<Readonly_Memory_File> u(heap);
    Abstract_File &a = u;
    if (a.is_readonly()) fail("upgradable-mode");
    a.pwrite("x", 1, 0);
    views(a, "upgradable", false);
   }
   if (it.h->kind == posix || it.h->kind == portable)
   {
    it.h->f.reset();
    views(Posix_File(it.h->path, Open_Mode::read_existing), "posix-read", true);
    views(Portable_File(it.h->path, Open_Mode::read_existing), "portable-read", true);
    if (!it.m.empty())
    {
     const size_t a = g.below(it.m.size()), n = 1 + g.below(it.m.size() - a);
     const int fd = open(it.h->path.c_str(), O_RDONLY);
     const std::string part = it.m.substr(a, n);
     {
      File_Slice s(fd, a, n);
      if (s.get_size() != int64_t(n)) fail("size", "slice");
      for (int k = 0; k < 4; k++) expect_range(s, part, some_offset(g, n, true), io_size(g), "slice");
      expect_range(s, part, 0, n + 100, "slice");
     }
     close(fd);
     c.count("slices");
    }
   }
   if (it.h->kind == brotli)
   {
    it.h->f.reset();
    views(Readonly_Brotli_File(it.h->path.c_str()), "readonly_brotli", true);
   }
  }
  c.sig(shape);
  if (g.chance(1, 20)) c.sample(trace);
 }

 // ------------------------------------------------------------------ J08
 struct Stream_Model
 {
  std::string d;
  int64_t in = 0, out = 0;
 };

 void streambuf_(Ctx &c, Rng &g)
 {
  const Kind kind = Kind(uint64_t(c.case_index) % kinds);
  const bool by_path = kind == posix && g.chance(1, 2);
  const bool in_range = kind == stringstream_ || g.chance(1, 2);   // then a std::stringbuf follows too
  Holder h(kind, c.scratch("s"), g);
  Stream_Model m;
  m.d = content(g, g.chance(1, 4) ? 0 : io_size(g) % 50000);
  if (!m.d.empty()) h->pwrite(m.d.data(), m.d.size(), 0);
  std::stringbuf ref(m.d, std::ios::in | std::ios::out | std::ios::binary);
  std::unique_ptr<joedb::filebuf> own;
  std::unique_ptr<joedb::fstream> fs;
  if (by_path) {h.f.reset(); fs.reset(new joedb::fstream(h.path, Open_Mode::write_existing));}
  else own.reset(new joedb::filebuf(*h));
  std::streambuf &b = fs ? *fs->rdbuf() : (std::streambuf &)*own;
  int last = 0; // 1 reading, 2 writing
  uint64_t shape = kind;
  std::string trace = std::string(kind_names[kind]) + " " + std::to_string(m.d.size()) + " bytes:";
  const int steps = 5 + int(g.below(60));
  auto need = [&](int dir)
  {
   if (last && last != dir)
   {
    // a change of direction needs a synchronization or a seek, as for any file stream
    if (g.chance(1, 2)) {if (b.pubsync() == -1) fail("sync-failed");}
    else if (int64_t(off_t(b.pubseekoff(0, std::ios::cur, dir == 1 ? std::ios::in : std::ios::out))) != (dir == 1 ? m.in : m.out)) fail("tell", trace);
    c.count("turns");
   }
   last = dir;
  };
  auto eof = std::char_traits<char>::eof();
  auto avail = [&]{return m.in < int64_t(m.d.size()) ? size_t(int64_t(m.d.size()) - m.in) : 0;};
  for (int s = 0; s < steps; s++)
  {
   c.step();
   const uint64_t what = g.below(16);
   shape = mix(shape, what);
   switch (what)
   {
    case 0: case 1:
    {
     need(1);
     const int got = what ? b.sbumpc() : b.sgetc();
     const int want = avail() ? (unsigned char)m.d[size_t(m.in)] : eof;
     if (got != want) fail("get", trace + ": got " + std::to_string(got) + " expected " + std::to_string(want));
     if (in_range) {const int r = what ? ref.sbumpc() : ref.sgetc(); if (r != want) throw Inconclusive{"model of get"};}
     if (what && avail()) m.in++;
     c.count("gets");
    }
    break;
    case 2: case 3: case 4:
    {
     need(1);
     const size_t n = io_size(g);
     std::vector<char> buf(n + 1);
     const size_t got = size_t(b.sgetn(buf.data(), std::streamsize(n)));
     const size_t want = std::min(n, avail());
     if (got != want) fail("getn-count", trace + ": got " + std::to_string(got) + " expected " + std::to_string(want) + " of " + std::to_string(n));
     if (std::memcmp(buf.data(), m.d.data() + (want ? m.in : 0), want)) fail("getn-content", trace);
     if (in_range) {std::vector<char> rb(n + 1); if (size_t(ref.sgetn(rb.data(), std::streamsize(n))) != want) throw Inconclusive{"model of getn"};}
     m.in += int64_t(want);
     trace += " r" + std::to_string(n);
     c.count("gets");
    }
    break;
    case 5: case 6:
    {
     need(1);
     if (m.in > int64_t(m.d.size())) break;
     const bool back = what == 6;
     const char ch = back && m.in > 0 && g.chance(1, 2) ? m.d[size_t(m.in - 1)] : char(g.next());
     const int got = back ? b.sputbackc(ch) : b.sungetc();
     const int want = m.in > 0 ? (back ? (unsigned char)ch : (unsigned char)m.d[size_t(m.in - 1)]) : eof;
     if (got != want) fail(back ? "putback" : "unget", trace + ": got " + std::to_string(got) + " expected " + std::to_string(want));
     if (in_range) {const int r = back ? ref.sputbackc(ch) : ref.sungetc(); if (r != want) throw Inconclusive{"model of unget"};}
     if (m.in > 0) {m.in--; if (back) m.d[size_t(m.in)] = ch;}
     trace += back ? " putback" : " unget";
     c.count("ungets");
    }
    break;
    case 7:
    {
     need(2);
     const char ch = char(g.next());
     const int n = g.chance(1, 20) ? 9000 : 1 + int(g.below(4));
     for (int i = 0; i < n; i++)
     {
      const int got = b.sputc(ch);
      if (got != (unsigned char)ch) fail("put", trace);
      if (in_range) ref.sputc(ch);
      put(m.d, m.out++, std::string(1, ch));
     }
     trace += " p" + std::to_string(n);
     c.count("puts");
    }
    break;
    case 8: case 9: case 10:
    {
     need(2);
     const size_t n = io_size(g);
     const std::string d = content(g, n);
     const size_t got = size_t(b.sputn(d.data(), std::streamsize(n)));
     if (got != n) fail("putn-count", trace);
     if (in_range) ref.sputn(d.data(), std::streamsize(n));
     if (n) put(m.d, m.out, d);
     m.out += int64_t(n);
     trace += " w" + std::to_string(n);
     c.count("puts");
    }
    break;
    case 11: case 12: case 13:
    {
     const auto which = g.chance(1, 2) ? std::ios::in : std::ios::out;
     int64_t &pos = which == std::ios::in ? m.in : m.out;
     const int dir = int(g.below(3));
     int64_t target = g.chance(1, 8) ? -int64_t(1 + g.below(100)) : some_offset(g, m.d.size(), !in_range);
     const int64_t base = dir == 0 ? 0 : dir == 1 ? pos : int64_t(m.d.size());
     const auto d = dir == 0 ? std::ios::beg : dir == 1 ? std::ios::cur : std::ios::end;
     const int64_t want = target < 0 ? -1 : target;
     const int64_t got = int64_t(off_t(dir == 0 && g.chance(1, 2) ? b.pubseekpos(target, which) : b.pubseekoff(target - base, d, which)));
     if (got != want) fail(want < 0 ? "seek-before-start" : "seek", trace + ": seek " + (which == std::ios::in ? "in" : "out") + " dir " + std::to_string(dir) + " to " + std::to_string(target) + " returned " + std::to_string(got));
     if (in_range) {const int64_t r = int64_t(off_t(ref.pubseekoff(target - base, d, which))); if (r != want) throw Inconclusive{"model of seek"};}
     if (want >= 0) {pos = want; last = 0;}
     trace += " seek" + std::to_string(target);
     c.count("seeks");
    }
    break;
    case 14:
    {
     const int64_t a = int64_t(off_t(b.pubseekoff(0, std::ios::cur, std::ios::in))), o = int64_t(off_t(b.pubseekoff(0, std::ios::cur, std::ios::out)));
     if (a != m.in || o != m.out) fail("tell", trace + ": " + std::to_string(a) + "," + std::to_string(o) + " expected " + std::to_string(m.in) + "," + std::to_string(m.out));
     last = 0;
     c.count("tells");
    }
    break;
    case 15:
     if (b.pubsync() == -1) fail("sync-failed");
     last = 0;
     if (!by_path) expect_range(*h, m.d, 0, m.d.size() + 10, trace + " after sync");
     c.count("syncs");
    break;
   }
  }
  if (in_range && ref.str() != m.d) throw Inconclusive{"model of content"};
  own.reset(); fs.reset();
  if (by_path) h.f.reset(new Posix_File(h.path, Open_Mode::write_existing));
  expect_range(*h, m.d, 0, m.d.size() + 10, trace + " closed");
  c.sig(shape);
  if (g.chance(1, 30)) c.sample(trace);
 }

 // formatted input and output through std::iostream, and the null stream
 void iostream_(Ctx &c, Rng &g)
 {
  Holder h(Kind(uint64_t(c.case_index) % kinds), c.scratch("i"), g);
  std::stringstream ref(std::ios::in | std::ios::out | std::ios::binary);
  std::vector<std::string> lines;
  {
   joedb::iostream io(*h);
   const int n = 1 + int(g.below(200));
   for (int i = 0; i < n; i++)
   {
    std::string l = random_string(g, 300);
    for (auto &ch: l) if (ch == '\n') ch = ' ';
    const int64_t x = int64_t(g.next());
    if (g.chance(1, 2)) {io << x << ' ' << l << '\n'; ref << x << ' ' << l << '\n';}
    else {io << l << std::endl; ref << l << std::endl;}
   }
   io.flush();
   const std::string all = ref.str();
   if (int64_t(io.tellp()) != int64_t(all.size())) fail("tellp");
   io.seekg(0);
   std::string a, b;
   while (true)
   {
    const bool x = bool(std::getline(io, a)), y = bool(std::getline(ref, b));
    if (x != y || io.eof() != ref.eof() || io.rdstate() != ref.rdstate()) fail("getline-state", std::to_string(io.rdstate()) + " " + std::to_string(ref.rdstate()));
    if (!x) break;
    if (a != b) fail("getline-content");
    c.count("lines");
    if (g.chance(1, 10) && !a.empty() )
    {
     const int64_t p = int64_t(g.below(all.size()));
     io.seekg(p); ref.seekg(p);
     if (io.tellg() != ref.tellg()) fail("tellg");
     if (g.chance(1, 2)) {io.unget(); ref.unget(); if (io.rdstate() != ref.rdstate()) fail("unget-state", std::to_string(io.rdstate()) + " " + std::to_string(ref.rdstate())); io.clear(); ref.clear();}
     if (g.chance(1, 2)) {int64_t u = 0, v = 0; io >> u; ref >> v; if (u != v || io.rdstate() != ref.rdstate()) fail("number"); if (io.rdstate()) {io.clear(); ref.clear(); std::getline(io, a); std::getline(ref, b); io.clear(); ref.clear();}}
     if (c.counters["lines"] % 400 == 0) break;
    }
    if (lines.size() > 3000) break;
    lines.push_back("");
   }
  }
  expect_range(*h, ref.str(), 0, ref.str().size() + 10, "iostream closed");
  joedb::null_iostream null;
  null << ref.str() << std::flush;
  int x; if (null >> x) fail("null-read");
  c.sig(mix(h.kind, ref.str().size()));
 }

 // ------------------------------------------------------------------ J09
 // straightforward SHA-256 of a whole message (FIPS 180-4)
 std::array<uint32_t, 8> reference_sha(std::string m)
 {
  static uint32_t K[64]; static uint32_t H0[8]; static bool ready = false;
  if (!ready)
  {
   // fractional parts of the roots of the first primes
   int n = 0;
   for (int p = 2; n < 64; p++)
   {
    bool prime = true;
    for (int q = 2; q * q <= p; q++) if (p % q == 0) prime = false;
    if (!prime) continue;
    const long double r3 = cbrtl((long double)p), r2 = sqrtl((long double)p);
    K[n] = uint32_t((unsigned long long)((r3 - floorl(r3)) * 4294967296.0L));
    if (n < 8) H0[n] = uint32_t((unsigned long long)((r2 - floorl(r2)) * 4294967296.0L));
    n++;
   }
   ready = true;
  }
  const uint64_t bits = uint64_t(m.size()) * 8;
  m += char(0x80);
  while (m.size() % 64 != 56) m += char(0);
  for (int i = 7; i >= 0; i--) m += char(bits >> (8 * i));
  std::array<uint32_t, 8> h;
  std::copy(H0, H0 + 8, h.begin());
  auto rr = [](uint32_t x, int n) {return x >> n | x << (32 - n);};
  for (size_t o = 0; o < m.size(); o += 64)
  {
   uint32_t w[64];
   for (int i = 0; i < 16; i++)
   {
    uint32_t v = 0;
    for (int j = 0; j < 4; j++) v = v << 8 | (unsigned char)m[o + size_t(4 * i + j)];
    w[i] = v;
   }
   for (int i = 16; i < 64; i++) w[i] = (rr(w[i-2], 17) ^ rr(w[i-2], 19) ^ w[i-2] >> 10) + w[i-7] + (rr(w[i-15], 7) ^ rr(w[i-15], 18) ^ w[i-15] >> 3) + w[i-16];
   uint32_t a=h[0],b=h[1],cc=h[2],d=h[3],e=h[4],f=h[5],gg=h[6],hh=h[7];
   for (int i = 0; i < 64; i++)
   {
    const uint32_t t1 = hh + (rr(e,6)^rr(e,11)^rr(e,25)) + ((e&f)^(~e&gg)) + K[i] + w[i];
    const uint32_t t2 = (rr(a,2)^rr(a,13)^rr(a,22)) + ((a&b)^(a&cc)^(b&cc));
    hh=gg; gg=f; f=e; e=d+t1; d=cc; cc=b; b=a; a=t1+t2;
   }
   h[0]+=a;h[1]+=b;h[2]+=cc;h[3]+=d;h[4]+=e;h[5]+=f;h[6]+=gg;h[7]+=hh;
  }
  return h;
 }

 void hash(Ctx &c, Rng &g)
 {
  const bool big = c.case_index % 60 == 7;       // beyond the threshold of the sampled hash
  size_t n;
  if (big) n = 4 * 4096 * 256 + size_t(g.range(-3, 300000));
  else switch (g.below(6))
  {
   case 0: n = size_t(c.case_index % 200); break;
   case 1: n = g.below(200); break;
   case 2: n = size_t(64 * 2048 + g.range(-70, 70)); break;
   case 3: n = size_t(2 * 64 * 2048 + g.range(-70, 70)); break;
   default: n = g.below(70000);
  }
  const std::string s = big ? std::string() : content(g, n);
  if (!big)
  {
   const auto want = reference_sha(s);
   if (File_Hasher::get_hash(s) != want) fail("digest", "length " + std::to_string(n));
   if (n < 64) {SHA_256 sha; sha.process_final_chunk(s.data(), n); if (sha.get_hash() != want) fail("digest-direct");}
   c.count("digests");
   // a range of a longer file, read in pieces, with other data around it
   const std::string before = g.bytes(g.below(100)), after = g.bytes(g.below(300));
   Short_File f;
   f.g = Rng(g.next());
   f.max = 1 + g.below(g.chance(1, 2) ? 100 : 200000);
   f.get_data() = before + s + after;
   if (File_Hasher::get_hash(f, int64_t(before.size()), int64_t(n)) != want) fail("digest-range", "length " + std::to_string(n) + ", short reads");
   if (File_Hasher::get_fast_hash(f, int64_t(before.size()), int64_t(n)) != want) fail("digest-fast-small", "length " + std::to_string(n));
   f.get_data() = s;
   if (File_Hasher::get_hash(f) != want) fail("digest-file", "length " + std::to_string(n) + ", short reads");
   c.count("short_read_digests");
  }
  // journals: equal up to a position, or not
  {
   Memory_File a;
   {Writable_Journal j(a);}
   a.get_data() += big ? g.bytes(n) : s;
   Short_File b;
   b.g = Rng(g.next()); b.max = 1 + g.below(10000);
   b.get_data() = a.get_data();
   // headers may differ
   b.get_data()[0] ^= 0x33;
   Readonly_Journal ja(Journal_Construction_Lock(a, Recovery::ignore_header)), jb(Journal_Construction_Lock(b, Recovery::ignore_header));
   const int64_t cp = int64_t(41 + (big ? n : g.below(n + 1)));
   a.get_data() += g.bytes(50); b.get_data() += g.bytes(70);
   auto full_a = Journal_Hasher::get_full_hash(ja, cp), full_b = Journal_Hasher::get_full_hash(jb, cp);
   if (full_a != full_b) fail("journal-equal-full", std::to_string(cp));
   if (Journal_Hasher::get_fast_hash(ja, cp) != Journal_Hasher::get_fast_hash(jb, cp)) fail("journal-equal-fast", std::to_string(cp));
   if (!a.equal_to(b, 41, cp)) fail("journal-equal-bytes");
   if (!big && full_a != reference_sha(a.get_data().substr(41, size_t(cp - 41)))) fail("journal-digest");
   if (cp > 41)
   {
    const size_t p = size_t(g.chance(1, 3) ? (g.chance(1, 2) ? 41 : cp - 1) : 41 + int64_t(g.below(uint64_t(cp - 41))));
    b.get_data()[p] ^= char(1 << g.below(8));
    if (Journal_Hasher::get_full_hash(ja, cp) == Journal_Hasher::get_full_hash(jb, cp)) fail("journal-difference-missed", "byte " + std::to_string(p) + " of " + std::to_string(cp));
    if (a.equal_to(b, 41, cp)) fail("journal-difference-missed-bytes");
    if (cp < 41 + 4 * 4096 * 256 && Journal_Hasher::get_fast_hash(ja, cp) == Journal_Hasher::get_fast_hash(jb, cp)) fail("journal-difference-missed-fast");
    if (big)
    {
     // the first and the last blocks always belong to the sample
     for (int64_t q: {int64_t(41) + int64_t(g.below(4096)), cp - 1 - int64_t(g.below(4096))})
     {
      b.get_data() = a.get_data();
      b.get_data()[size_t(q)] ^= 1;
      if (Journal_Hasher::get_fast_hash(ja, cp) == Journal_Hasher::get_fast_hash(jb, cp)) fail("journal-sample-missed", std::to_string(q));
     }
     c.count("sampled_hashes");
    }
    c.count("differences");
   }
  }
  c.sig(mix(n, big));
 }

 // ------------------------------------------------------------------ D06
 void blobs(Ctx &c, Rng &g)
 {
  const Kind kind = Kind(uint64_t(c.case_index) % kinds);
  Holder h(kind, c.scratch("b"), g);
  struct Item {Blob b; std::string d;};
  std::vector<Item> items;
  std::unique_ptr<Writable_Journal> j(new Writable_Journal(*h));
  Memory_File replica_file;
  std::unique_ptr<Writable_Journal> replica;
  int64_t unflushed = 0; // blobs are complete in the file once the journal was flushed
  const int steps = 5 + int(g.below(40));
  uint64_t shape = kind;
  auto check = [&](const Abstract_File &f, const Item &i, const std::string &key)
  {
   if (f.read_blob(i.b) != i.d) fail(key, std::string(kind_names[kind]) + " blob of " + std::to_string(i.d.size()) + " bytes at " + std::to_string(i.b.get_position()));
   Async_Reader r(f, i.b.get_position(), i.b.get_end());
   std::string got;
   std::vector<char> buf(1 + g.below(i.d.size() + 5));
   while (r.get_remaining() > 0) {const size_t k = r.read(buf.data(), buf.size()); if (!k) break; got.append(buf.data(), k);}
   if (got != i.d) fail(key + "-async");
   c.count("blob_reads");
  };
  for (int s = 0; s < steps; s++)
  {
   c.step();
   const uint64_t what = g.below(10);
   shape = mix(shape, what);
   if (what < 4)
   {
    size_t n = io_size(g);
    if (kind == brotli && n > 50000) n = 50000;
    const std::string d = content(g, n);
    const Blob b = j->write_blob(d);
    if (b.get_size() != int64_t(d.size())) fail("blob-size");
    items.push_back({b, d});
    c.count("blobs");
   }
   else if (what < 6)
   {
    uint64_t u = g.next();
    Op o; o.k = K::comment; o.s = std::to_string(u) + std::string(g.below(5000), 'x');
    emit(o, *j);
   }
   else if (what == 6) {if (g.chance(1, 2)) j->soft_checkpoint(); else j->hard_checkpoint();}
   else if (what == 7)
   {
    j->soft_checkpoint();
    j.reset();
    h.reopen();
    j.reset(new Writable_Journal(*h));
    Recorder rec;
    rec.blob_data = g.chance(1, 2);
    j->replay_log(rec);
    if (rec.blob_data)
    {
     std::vector<std::string> got;
     for (auto &o: rec.ops) if (o.k == K::blob) got.push_back(o.s);
     if (got.size() != items.size()) fail("replay-blob-count");
     for (size_t i = 0; i < got.size(); i++) if (got[i] != items[i].d) fail("replay-blob-data");
    }
    else
    {
     if (rec.blobs.size() != items.size()) fail("replay-blob-count");
     for (size_t i = 0; i < items.size(); i++) if (rec.blobs[i].get_position() != items[i].b.get_position() || rec.blobs[i].get_size() != items[i].b.get_size()) fail("replay-blob-reference");
    }
    c.count("replays");
   }
   else if (what == 8)
   {
    // replicate to another file
    j->soft_checkpoint();
    if (!replica) replica.reset(new Writable_Journal(replica_file));
    replica->pull_from(*j, j->get_checkpoint());
    for (auto &i: items) check(replica_file, i, "replica-blob");
    c.count("replications");
   }
   if (!items.empty() && g.chance(2, 3))
   {
    // a blob is in the file as soon as write_blob has returned
    check(*h, g.pick(items), "blob");
    if (g.chance(1, 2)) check(*h, items.back(), "blob-last");
   }
   // references that make no sense
   if (g.chance(1, 3))
   {
    const Blob b(g.chance(1, 6) ? -1 - boundary(g, 62) : boundary(g, 62), g.chance(1, 6) ? -1 - boundary(g, 62) : boundary(g, 62));
    const int64_t size = h->get_size();
    bool thrown = false;
    std::string got;
    const int64_t max = g.chance(1, 2) ? -1 : int64_t(g.below(100000));
    try {got = h->read_blob(b, max);} catch (const std::exception &) {thrown = true;}
    const bool inside = b.get_position() >= 0 && b.get_size() >= 0 && b.get_position() <= size && b.get_size() <= size - b.get_position();
    if (!thrown && !inside && b.get_size() > 0) fail("bad-reference-accepted", std::to_string(b.get_position()) + "+" + std::to_string(b.get_size()) + " in " + std::to_string(size));
    if (!thrown && max >= 0 && b.get_size() >= max && b.get_size() > 0) fail("maximum-ignored");
    c.count("bad_references");
   }
  }
  j->soft_checkpoint();
  for (auto &i: items) check(*h, i, "blob-final");
  c.sig(shape);
 }
}

int main(int argc, char **argv)
{
 return main_loop(argc, argv, {{"array", array}, {"streambuf", streambuf_}, {"iostream", iostream_}, {"hash", hash}, {"blobs", blobs}});
}
