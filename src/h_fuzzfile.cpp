// J05: any sequence of bytes as a journal, through every way of replaying it, in a release build with sanitizers.
#include <atomic>
#include <new>
#include <cstdlib>
// every allocation goes through here: the largest one is known, and absurd ones are refused
inline size_t largest_allocation = 0, allocation_limit = size_t(1) << 30;
void *operator new(size_t n)
{
 if (n > largest_allocation) largest_allocation = n;
 if (n > allocation_limit) throw std::bad_alloc();
 void *p = std::malloc(n ? n : 1);
 if (!p) throw std::bad_alloc();
 return p;
}
void *operator new[](size_t n) {return operator new(n);}
void operator delete(void *p) noexcept {std::free(p);}
void operator delete[](void *p) noexcept {std::free(p);}
void operator delete(void *p, size_t) noexcept {std::free(p);}
void operator delete[](void *p, size_t) noexcept {std::free(p);}

#include "h_text.h"
#include "glue_alpha.h"
#include "glue_beta.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/journal/File_Hasher.h"
#include "joedb/ui/Interpreter.h"
#include "joedb/journal/Encoded_File.h"
#include "joedb/journal/Readonly_Encoded_File.h"
#include "joedb/journal/Brotli_Codec.h"
#include "joedb/journal/Identity_Codec.h"
#include "joedb/db/encoded_file/Writable_Database.h"
#include "joedb/db/encoded_file/Readonly_Database.h"
#include "joedb/ui/Interpreter_Dump_Writable.h"
#include "joedb/ui/SQL_Dump_Writable.h"
#include "joedb/ui/Raw_Dump_Writable.h"
#include "joedb/ui/Readable_Command_Processor.h"
#include "joedb/ui/json.h"
#include "joedb/ui/dump.h"
#include "joedb/ui/merge.h"
#include "joedb/ui/diagnostics.h"
#include "joedb/Multiplexer.h"
#include "joedb/Selective_Writable.h"
#include "joedb/Writable.h"

using namespace vf;

// a text in proportion to the vectors that the journal declares: it is cut
struct Cut_Output: std::ostringstream
{
 struct Buf: std::stringbuf
 {
  size_t n = 0;
  void more(size_t k) {n += k; if (n > (size_t(1) << 22)) throw std::length_error("enough text");}
  int overflow(int c) override {more(1); return c;}
  std::streamsize xsputn(const char *, std::streamsize k) override {more(size_t(k)); return k;}
 } buf;
 Cut_Output() {std::ostream::rdbuf(&buf); exceptions(std::ios::badbit);}
};

static constexpr int64_t record_limit = 2000;
static constexpr size_t unlimited = size_t(1) << 26; // what a caller who gives no limit can be made to allocate at once

static std::string bytes_of(const Memory_File &f) {const auto &d = f.get_data(); return std::string(d.data(), d.size());}

// a journal that contains these operations, whatever they are
static std::string journal_of(const Ops &ops, size_t split = size_t(-1))
{
 Memory_File f;
 for (size_t i = 0; i < ops.size() || i == 0;)
 {
  Writable_Journal j(f);
  const size_t end = std::min(ops.size(), split == size_t(-1) ? ops.size() : i + split + 1);
  for (; i < end; i++) emit(ops[i], j);
  j.hard_checkpoint();
  if (ops.empty()) break;
 }
 return bytes_of(f);
}

static void whole_file(std::string &s) {const int64_t n = int64_t(s.size()); if (n >= 41) for (int k = 0; k < 4; k++) std::memcpy(&s[size_t(k) * 8], &n, 8);}

static int64_t wild(Rng &g)
{
 static const int64_t v[] = {0, 1, -1, 2, 3, -2, -3, 31, 32, 33, 127, 128, 255, 256, 1999, 2000, 2001, 4095, 65535, 65536, 0x7fffffff, int64_t(0x80000000), -int64_t(0x80000000), 0xffffffff, 0x7fffffffffffffff,
  int64_t(0x8000000000000000), 0x1fffffff, 0x20000000, 0x3fffffffffffffff, 0x4000000000000000};
 switch (g.below(3))
 {
  case 0: return v[g.below(sizeof(v) / sizeof(*v))];
  case 1: return int64_t(uint64_t(v[g.below(sizeof(v) / sizeof(*v))]) + uint64_t(g.range(-2, 2)));
  default: return g.range(0, 70);
 }
}

static void make_wild(Rng &g, Op &o)
{
 switch (g.below(8))
 {
  case 0: o.t = uint16_t(wild(g)); break;
  case 1: o.f = uint16_t(wild(g)); break;
  case 2: case 3: o.r = std::max<int64_t>(-1, wild(g) & 0x1ffffffffffffffe); break;
  case 4: o.n = wild(g) & 0x1fffffffffffffff; break;
  case 5: {const auto types = all_types(); o.type = g.chance(1, 8) ? TId(wild(g)) : types[g.below(types.size())]; if (o.k == K::update_vec || o.k == K::update) {o.s = random_value(g, o.type, 40); for (auto &x: o.v) x = random_value(g, o.type, 20);}} break;
  case 6: if (o.k == K::update_vec) {o.v.resize(size_t(g.below(80))); for (auto &x: o.v) if (x.empty()) x = random_value(g, o.type, 20);} else o.s = g.bytes(g.below(60)); break;
  default: o.ref = uint16_t(wild(g)); break;
 }
}

template<typename G> Ops schema_ops()
{
 static const Ops r = []
 {
  const std::string s = G::schema();
  Readonly_Memory_File f(s.data(), s.size());
  Readonly_Journal j(f);
  Recorder rec;
  j.replay_log(rec);
  return rec.ops;
 }();
 return r;
}

struct Input {std::string bytes; const char *schema; std::string how;};

static Input make_input(Ctx &c, Rng &g)
{
 Input in;
 History h;
 History_Options opt;
 const int base = int(g.below(3));
 in.schema = base == 0 ? "none" : base == 1 ? "alpha" : "beta";
 if (base)
 {
  opt.schema = false;
  for (auto &o: base == 1 ? schema_ops<Glue_alpha>() : schema_ops<Glue_beta>()) h.add(o);
 }
 const size_t fixed = h.ops.size();
 for (int64_t n = g.range(0, 60); n > 0; n--)
 {
  Op o;
  if (one_more(g, h, opt, o)) h.add(o);
 }
 Ops ops = h.ops;
 // operations changed, repeated, moved, removed
 if (g.chance(1, 2))
 {
  for (int64_t n = g.range(1, 3); n > 0 && !ops.empty(); n--)
  {
   // the schema of a compiled database is left alone most of the time
   const size_t from = g.chance(5, 6) && fixed < ops.size() ? fixed : 0;
   const size_t i = from + g.below(ops.size() - from);
   switch (g.below(6))
   {
    case 0: {const Op o = ops[i]; ops.insert(ops.begin() + int64_t(from + g.below(ops.size() - from + 1)), o);} break;
    case 1: ops.erase(ops.begin() + int64_t(i)); break;
    case 2: std::swap(ops[i], ops[from + g.below(ops.size() - from)]); break;
    default: make_wild(g, ops[i]); break;
   }
  }
  in.how += "o";
 }
 in.bytes = journal_of(ops, g.chance(1, 3) ? g.below(20) : size_t(-1));
 std::string &b = in.bytes;
 if (g.chance(2, 5))
 {
  for (int64_t n = g.range(1, 3); n > 0 && b.size() > 41; n--)
  {
   const size_t i = 41 + g.below(b.size() - 41);
   switch (g.below(8))
   {
    case 0: b[i] = char(b[i] ^ (1 << g.below(8))); break;
    case 1: b[i] = char(g.next()); break;
    case 2: b.erase(i, g.range(1, 8)); break;
    case 3: b.insert(i, g.bytes(size_t(g.range(1, 8)))); break;
    case 4: b.insert(i, b.substr(41 + g.below(b.size() - 41), size_t(g.range(1, 40)))); break;
    case 5: {const int64_t v = wild(g); b.replace(i, 8, std::string((const char *)&v, 8));} break;
    case 6: b[i] = char(0xff); break;
    default: b.resize(i); break;
   }
  }
  whole_file(b);
  in.how += "b";
 }
 if (g.chance(1, 25)) {b.resize(41); b += g.bytes(g.below(400)); whole_file(b); in.how += "n";}
 if (g.chance(1, 25)) {const size_t z = g.below(200); b.resize(41); for (size_t k = 0; k < z; k++) b += char(g.below(0x60)); whole_file(b); in.how += "p";}
 if (g.chance(1, 7))
 {
  for (int64_t n = g.range(1, 4); n > 0; n--)
  {
   const int64_t size = int64_t(b.size());
   const int64_t v[] = {wild(g), size, -size, size - 1, 1 - size, size + 1, -size - 1, 41, -41, 40, g.range(41, size), -g.range(41, size), int64_t(g.next())};
   const int64_t x = v[g.below(sizeof(v) / sizeof(*v))];
   const size_t k = g.below(4);
   if (b.size() < 41) b.resize(41);
   std::memcpy(&b[k * 8], &x, 8);
   if (g.chance(1, 2)) std::memcpy(&b[(k ^ 1) * 8], &x, 8);
  }
  in.how += "h";
 }
 if (g.chance(1, 30)) {b.resize(g.below(60)); in.how += "t";}
 if (b.size() > 40 && g.chance(1, 40)) {b[32 + g.below(std::min<size_t>(9, b.size() - 33))] = char(g.next()); in.how += "s";}
 if (b.empty() && g.chance(1, 2)) b = "x";
 if (in.how.empty()) c.count("inputs unchanged");
 for (char x: in.how) c.count(std::string("inputs ") + (x == 'o' ? "operations" : x == 'b' ? "bytes" : x == 'n' || x == 'p' ? "noise" : x == 'h' ? "checkpoints" : x == 't' ? "truncated" : "signature"));
 return in;
}

// reads all there is
static uint64_t walk(const Readable &db, const Abstract_File *file, Ctx &c)
{
 uint64_t h = 0;
 size_t values = 0, blobs = 0;
 for (auto &[t, tname]: db.get_tables())
 {
  const Freedom_Keeper &fk = db.get_freedom(t);
  for (Record_Id r = fk.get_first_used(); r != Freedom_Keeper::used_list; r = fk.get_next(r))
   for (auto &[f, fname]: db.get_fields(t))
   {
    if (++values > 200000) return h;
    switch (db.get_field_type(t, f).get_type_id())
    {
     case TId::null: break;
     #define TYPE_MACRO(type, rt, type_id, R, W) case TId::type_id: \
     {\
      const std::string v = enc(db.get_##type_id(t, r, f));\
      for (char x: v) h = h * 31 + uint8_t(x);\
     } break;
     #include "joedb/TYPE_MACRO.h"
    }
    if (file && db.get_field_type(t, f).get_type_id() == TId::blob && ++blobs < 30)
    {
     const Blob b = db.get_blob(t, r, f);
     try {h += file->read_blob(b, 1 << 20).size(); c.count("blobs_read");} catch (const std::exception &) {c.count("blobs_refused");}
    }
   }
 }
 c.count("values", values);
 return h;
}

static void print_all(const Readable &db)
{
 std::ostringstream out;
 write_json(out, db, false);
 write_json(out, db, true);
 std::string commands;
 for (auto &[t, name]: db.get_tables())
  for (const char *width: {"", " 3", " 0"}) commands += "table " + name + width + "\n";
 std::istringstream in(commands + "dump\nsql\nschema\n");
 Readable_Interpreter interpreter(db);
 interpreter.set_echo(false);
 interpreter.main_loop(in, out);
}

// one way of replaying the input: whatever happens must be an exception, and memory in proportion
static void target(Ctx &c, const char *name, const Input &in, bool limited, std::function<void()> f)
{
 c.count("replays");
 allocation_limit = limited ? size_t(1) << 30 : unlimited;
 largest_allocation = 0;
 try {f(); c.count(std::string("accepted ") + name);}
 catch (const Violation &) {allocation_limit = size_t(1) << 30; throw;}
 catch (const std::exception &e) {c.count(std::string("refused ") + name);}
 const size_t largest = largest_allocation;
 allocation_limit = size_t(1) << 30;
 const size_t bound = (size_t(1) << 20) + 300 * (in.bytes.size() + size_t(record_limit));
 if (limited && largest > bound) fail("memory", std::string(name) + ": allocated " + std::to_string(largest) + " bytes at once for a file of " + std::to_string(in.bytes.size()) + " bytes");
}

template<typename G> void compiled(Ctx &c, Rng &g, const Input &in)
{
 auto exercise = [&](typename G::Db &db, const Abstract_File *file)
 {
  const typename G::Readable r(db);
  walk(r, file, c);
  print_all(r);
  for (size_t i = 0; i < G::indexes().size(); i++)
  {
   const Index_Content content = G::index_content(db, i);
   for (size_t k = 0; k < content.size() && k < 5; k++)
   {
    G::find(db, i, content[g.below(content.size())].first);
    G::index_next(db, i, content[g.below(content.size())].second);
    G::index_previous(db, i, content[g.below(content.size())].second);
   }
   c.count("index_entries", content.size());
  }
 };
 target(c, (std::string("readonly ") + G::name).c_str(), in, true, [&]
 {
  Readonly_Memory_File f(in.bytes.data(), in.bytes.size());
  typename G::Readonly_Database db(f);
  exercise(db, &f);
 });
 target(c, (std::string("writable ") + G::name).c_str(), in, true, [&]
 {
  Memory_File f;
  f.get_data() = in.bytes;
  typename G::Wdb db(f);
  exercise(db, &f);
  const typename G::Readable r(db);
  std::vector<uint16_t> tables;
  for (auto &[t, name]: r.get_tables()) tables.push_back(to_underlying(t));
  for (int i = 0; i < 10; i++)
  {
   const uint16_t t = g.pick(tables);
   try
   {
    switch (g.below(4))
    {
     case 0: G::create(db, t); break;
     case 1: G::create_vector(db, t, g.below(5)); break;
     case 2:
     {
      const Record_Id first = r.get_freedom(Table_Id{t}).get_first_used();
      if (first != Freedom_Keeper::used_list) G::erase(db, t, to_underlying(first));
     } break;
     default: G::clear(db, t); break;
    }
    c.count("writes_after");
   }
   catch (const Exception &) {}
  }
  exercise(db, &f);
  db.hard_checkpoint();
 });
}

static void replay_mode(Ctx &c, Rng &g)
{
 const Input in = make_input(c, g);
 const bool ignore_header = g.chance(1, 4);
 const Recovery recovery = ignore_header ? Recovery::ignore_header : Recovery::none;
 c.sample(hex(in.bytes, 2000));
 auto with_journal = [&](std::function<void(Readonly_Journal &, Abstract_File &)> f)
 {
  Readonly_Memory_File file(in.bytes.data(), in.bytes.size());
  Readonly_Journal j(Journal_Construction_Lock(file, recovery));
  f(j, file);
 };
 target(c, "interpreted", in, true, [&]
 {
  with_journal([&](Readonly_Journal &j, Abstract_File &file)
  {
   Database db(Record_Id{record_limit});
   // what was loaded before an error can still be looked at
   try {j.replay_log(db);}
   catch (const std::exception &) {walk(db, &file, c); throw;}
   walk(db, &file, c);
   print_all(db);
  });
 });
 target(c, "no_limit", in, false, [&]
 {
  with_journal([&](Readonly_Journal &j, Abstract_File &)
  {
   Database db;
   j.replay_log(db);
   walk(db, nullptr, c);
  });
 });
 target(c, "client", in, true, [&]
 {
  Memory_File file;
  file.get_data() = in.bytes;
  Writable_Database_Client client(file, Connection::dummy, Content_Check::fast, Record_Id{record_limit}, recovery);
  walk(client.get_database(), &file, c);
  client.transaction([&](const Readable &r, Writable &w)
  {
   if (r.get_tables().empty()) return;
   const Table_Id t = r.get_tables().begin()->first;
   const Record_Id n = r.get_size(t);
   if (to_underlying(n) < record_limit - 1) w.insert_into(t, n);
  });
  walk(client.get_database(), &file, c);
 });
 target(c, "text", in, true, [&]
 {
  with_journal([&](Readonly_Journal &j, Abstract_File &) {Cut_Output out; Interpreter_Dump_Writable w(out, false); j.replay_log(w);});
 });
 target(c, "text_dump", in, true, [&]
 {
  with_journal([&](Readonly_Journal &j, Abstract_File &) {Cut_Output out; Interpreter_Dump_Writable w(out); j.replay_log(w);});
 });
 target(c, "sql", in, true, [&]
 {
  with_journal([&](Readonly_Journal &j, Abstract_File &) {Cut_Output out; SQL_Dump_Writable w(out); j.replay_log(w);});
 });
 target(c, "raw", in, true, [&]
 {
  with_journal([&](Readonly_Journal &j, Abstract_File &) {Cut_Output out; Raw_Dump_Writable w(out); j.replay_log(w);});
 });
 target(c, "schema_text", in, true, [&]
 {
  with_journal([&](Readonly_Journal &j, Abstract_File &) {Cut_Output out; Interpreter_Dump_Writable w(out); Selective_Writable s(w, Selective_Writable::Mode::schema); j.replay_with_checkpoint_comments(s);});
 });
 target(c, "copy", in, true, [&]
 {
  with_journal([&](Readonly_Journal &j, Abstract_File &) {Memory_File out; Writable_Journal w(out); j.raw_play_until_checkpoint(w); w.soft_checkpoint();});
 });
 target(c, "pack", in, false, [&]
 {
  with_journal([&](Readonly_Journal &j, Abstract_File &) {Memory_File out; Writable_Journal w(out); pack(j, w); w.soft_checkpoint();});
 });
 target(c, "merge", in, false, [&]
 {
  with_journal([&](Readonly_Journal &j, Abstract_File &) {Database a, b; Multiplexer m{a, b}; j.raw_play_until_checkpoint(m); merge(a, b); walk(a, nullptr, c);});
 });
 target(c, "header", in, true, [&]
 {
  Readonly_Memory_File file(in.bytes.data(), in.bytes.size());
  std::ostringstream out;
  dump_header(out, file);
  // this program is compiled with uninitialised variables filled with 0xaa
  const std::string unset = "-6148914691236517206";
  if (in.bytes.size() < 41 && out.str().find(unset) != std::string::npos && in.bytes.find("\xaa\xaa\xaa\xaa") == std::string::npos)
   fail("header-uninitialised", out.str());
 });
 target(c, "pull", in, false, [&]
 {
  // the header, then the rest, changes after the journal was opened
  Memory_File file;
  file.get_data() = in.bytes.substr(0, std::max<size_t>(41, g.below(in.bytes.size() + 1)));
  whole_file(file.get_data());
  if (file.get_data().size() > 41)
  {
   const int64_t n = 41;
   for (int k = 0; k < 4; k++) std::memcpy(&file.get_data()[size_t(k) * 8], &n, 8);
  }
  Readonly_Journal j(file);
  Database db(Record_Id{record_limit});
  j.replay_log(db);
  file.get_data() = in.bytes;
  j.pull();
  j.play_until_checkpoint(db);
  walk(db, &file, c);
 });
 target(c, "hash", in, true, [&]
 {
  with_journal([&](Readonly_Journal &j, Abstract_File &file)
  {
   File_Hasher::get_hash(file);
   File_Hasher::get_fast_hash(file, 0, j.get_checkpoint());
   File_Hasher::get_hash(file, 0, j.get_checkpoint());
  });
 });
 if (in.schema == std::string("alpha") || g.chance(1, 6)) compiled<Glue_alpha>(c, g, in);
 if (in.schema == std::string("beta") || g.chance(1, 6)) compiled<Glue_beta>(c, g, in);
 c.sig(mix(std::hash<std::string>()(in.bytes), 1));
}

// files that describe compressed buffers: any position, size and bytes
static void encoded_mode(Ctx &c, Rng &g)
{
 using namespace joedb::db::encoded_file;
 const bool brotli = g.chance(1, 2);
 Input in;
 in.schema = "encoded";
 Memory_File file;
 std::string content;
 {
  Writable_Database db(file);
  Brotli_Codec bc; Identity_Codec ic;
  const int64_t n = g.range(0, 5);
  int64_t offset = 0;
  for (int64_t i = 0; i < n; i++)
  {
   const std::string piece = g.chance(1, 2) ? std::string(size_t(g.below(3000)), char(g.next())) : g.bytes(size_t(g.below(3000)));
   std::string e = brotli ? bc.encode(piece) : ic.encode(piece);
   if (!e.empty() && g.chance(1, 6)) e[g.below(e.size())] = char(g.next());
   if (!e.empty() && g.chance(1, 8)) e.resize(g.below(e.size()));
   Blob blob = db.write_blob(e);
   if (g.chance(1, 8)) blob = Blob(wild(g), wild(g));
   if (g.chance(1, 10)) blob = Blob(blob.get_position(), int64_t(uint64_t(blob.get_size()) + uint64_t(g.range(-3, 3))));
   int64_t size = int64_t(piece.size()), where = offset;
   offset += size;
   if (g.chance(1, 4)) {if (g.chance(1, 3)) size = std::min<int64_t>(wild(g), 1 << 22); else size += g.range(-4, 40);}
   if (g.chance(1, 6)) where = g.chance(1, 2) ? wild(g) : where + g.range(-100, 100);
   // through the untyped interface: the typed one is what a correct writer uses
   if (g.chance(1, 12)) db.new_buffer();
   else db.new_buffer(blob, size, where);
  }
  db.soft_checkpoint();
  content = file.get_data();
 }
 if (g.chance(1, 4)) content[41 + g.below(content.size() - 41)] = char(g.next());
 in.bytes = content;
 c.sample(hex(content, 2000));
 Brotli_Codec bc; Identity_Codec ic;
 Codec &codec = brotli ? static_cast<Codec &>(bc) : static_cast<Codec &>(ic);
 auto read_around = [&](const Abstract_File &f)
 {
  const int64_t size = f.get_size();
  for (int i = 0; i < 8; i++)
  {
   const size_t n = size_t(g.below(4000));
   std::unique_ptr<char[]> buffer(new char[n]);
   const int64_t at = g.chance(1, 2) ? g.range(0, 20000) : g.chance(1, 2) && size > 0 ? g.range(0, size) : std::max<int64_t>(0, wild(g));
   try {const size_t r = f.pread(buffer.get(), n, at); if (r > n) fail("encoded-length", std::to_string(r)); uint64_t h = 0; for (size_t k = 0; k < r; k++) h = h * 31 + uint8_t(buffer[k]); c.count("encoded_reads"); c.count("encoded_bytes", r);}
   catch (const Exception &) {c.count("encoded_refused");}
  }
 };
 target(c, "encoded_readonly", in, false, [&]
 {
  Readonly_Memory_File f(content.data(), content.size());
  Readonly_Database db(f);
  Readonly_Encoded_File e(codec, db, f);
  read_around(e);
 });
 target(c, "encoded_writable", in, false, [&]
 {
  Memory_File f;
  f.get_data() = content;
  Writable_Database db(f);
  Encoded_File e(codec, db);
  read_around(e);
  const std::string x = g.bytes(size_t(g.below(3000)));
  e.pwrite(x.data(), x.size(), g.range(0, 10000));
  read_around(e);
  e.sync();
 });
 target(c, "encoded_journal", in, false, [&]
 {
  Readonly_Memory_File f(content.data(), content.size());
  Readonly_Database db(f);
  Readonly_Encoded_File e(codec, db, f);
  Readonly_Journal j(e);
  joedb::Database d(Record_Id{record_limit});
  j.replay_log(d);
 });
 c.sig(std::hash<std::string>()(content));
}

int main(int argc, char **argv)
{
 return main_loop(argc, argv, {{"replay", replay_mode}, {"encoded", encoded_mode}});
}
