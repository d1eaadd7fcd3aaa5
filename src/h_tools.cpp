#include "h_text.h"
#include "json_sql.h"
#include "joedb/ui/inplace_pack.h"
#include <iostream>
#include <optional>
#include "joedb/journal/Readonly_Journal.h"

using namespace vf;

int joedb_pack_main(int, char **);
int joedb_convert_main(int, char **);
int joedb_merge_main(int, char **);
int joedb_push_main(int, char **);
int joedb_logdump_main(int, char **);
int joedb_to_json_main(int, char **);

struct Run {int rc; std::string out, err;};
static Run run(int (*tool)(int, char **), std::vector<std::string> args)
{
 args.insert(args.begin(), "tool");
 std::vector<char *> argv;
 for (auto &a: args) argv.push_back(a.data());
 argv.push_back(nullptr);
 std::ostringstream out, err;
 struct Redirect
 {
  std::ostream &s; std::streambuf *old;
  Redirect(std::ostream &s, std::ostream &to): s(s), old(s.rdbuf(to.rdbuf())) {}
  ~Redirect() {s.rdbuf(old); s.clear(); s.copyfmt(std::ios(nullptr));}
 };
 Redirect a(std::cout, out), b(std::cerr, err), d(std::clog, err);
 const int rc = tool(int(args.size()), argv.data());
 return {rc, out.str(), err.str()};
}

static std::string bytes_of(const std::string &path)
{
 std::ifstream f(path, std::ios::binary);
 std::stringstream s;
 s << f.rdbuf();
 return s.str();
}
static void put(const std::string &path, const std::string &b) {std::ofstream(path, std::ios::binary) << b;}

// a database file written in one or several sessions, and what it holds
struct Source
{
 std::string path;
 History h;
 std::vector<std::pair<int64_t, size_t>> checkpoints; // position, operations
 std::map<std::string, std::string> blobs; // value to data
 std::map<uint16_t, int64_t> highest; // record ever used in a table
 int64_t checkpoint = 0;
};

static std::string marker(Rng &g) {return "mk" + std::to_string(g.next()) + "!";}

static void note(Source &s, const Op &o)
{
 if (o.k == K::insert) s.highest[o.t] = std::max(s.highest.count(o.t) ? s.highest[o.t] : -1, o.r);
 if (o.k == K::insert_vec && o.n) s.highest[o.t] = std::max(s.highest.count(o.t) ? s.highest[o.t] : -1, o.r + o.n - 1);
}

static void write_source(Ctx &c, Rng &g, Source &s, const Ops &prefix, int64_t n, bool schema, bool blobs, bool markers)
{
 std::filesystem::remove(s.path);
 History_Options opt;
 opt.schema = schema;
 opt.blobs = blobs;
 opt.limit = g.chance(1, 15) ? 1500 : g.range(1, 40);
 std::vector<std::string> values{default_value(TId::blob)};
 s.blobs[values[0]] = "";
 opt.value = [&](uint16_t, uint16_t, TId t)
 {
  if (t == TId::blob && blobs) return g.pick(values);
  if (t == TId::string) return markers ? marker(g) : text_string(g, 300);
  if (t == TId::reference && g.chance(3, 4)) return enc(Record_Id(index_t(g.range(-1, opt.limit))));
  return random_value(g, t, 300);
 };
 const int sessions = int(g.range(1, 3));
 for (int k = 0; k < sessions; k++)
 {
  File file(s.path, Open_Mode::write_existing_or_create_new);
  Writable_Journal journal(file);
  if (k == 0) for (auto &o: prefix) {emit(o, journal); s.h.add(o);}
  if (k) // an exact replay of what is there; the journal needs not be replayed to be extended
  {
   if (g.chance(1, 2)) {Database db; journal.replay_log(db);}
   else journal.skip_directly_to(journal.get_checkpoint());
  }
  for (int64_t i = n / sessions; i > 0; i--)
  {
   Op o;
   if (!one_more(g, s.h, opt, o)) continue;
   const Blob b = emit(o, journal);
   if (o.k == K::blob) {values.push_back(enc(b)); s.blobs[enc(b)] = o.s;}
   s.h.add(o);
   note(s, o);
   if (g.chance(1, 12))
   {
    journal.soft_checkpoint();
    s.checkpoints.emplace_back(journal.get_checkpoint(), s.h.ops.size());
   }
  }
  if (g.chance(1, 2)) journal.hard_checkpoint(); else journal.soft_checkpoint();
  s.checkpoints.emplace_back(journal.get_checkpoint(), s.h.ops.size());
  s.checkpoint = journal.get_checkpoint();
 }
 c.step();
}

static void read_ops(const std::string &path, Ops &ops, Database *db = nullptr)
{
 File file(path, Open_Mode::read_existing);
 Readonly_Journal journal(file);
 Recorder rec;
 journal.replay_log(rec);
 ops = rec.ops;
 if (db) {Readonly_Journal j2(file); j2.replay_log(*db);}
}

static void refuses_existing_output(Ctx &c, Rng &g, int (*tool)(int, char **), const std::vector<std::string> &inputs, const std::string &out)
{
 std::vector<std::string> before;
 for (auto &i: inputs) before.push_back(bytes_of(i));
 const std::string old = g.chance(1, 2) ? g.bytes(g.below(100)) : bytes_of(inputs[0]);
 put(out, old);
 std::vector<std::string> args = inputs;
 args.push_back(out);
 const Run r = run(tool, args);
 if (r.rc == 0) fail("overwrite", "a tool succeeded with an existing output");
 if (bytes_of(out) != old) fail("overwrite", "a tool changed an existing output");
 for (size_t i = 0; i < inputs.size(); i++) if (bytes_of(inputs[i]) != before[i]) fail("source-changed", inputs[i]);
 std::filesystem::remove(out);
 c.count("existing_outputs");
}

static Model sorted(Model m)
{
 for (auto &[i, t]: m.tables) {t.order.clear(); for (auto &[r, v]: t.rec) t.order.push_back(r);}
 return m;
}

static bool is_schema(const Op &o) {return o.k <= K::custom;}

static bool blobs_used(const Model &m) {for (auto &[i, t]: m.tables) for (auto &[f, d]: t.fields) if (d.type == TId::blob) return true; return false;}

static void check_packed(Ctx &c, const Source &s, const std::string &path)
{
 Ops ops;
 Database db;
 read_ops(path, ops, &db);
 compare_readable(db, sorted(s.h.m), "packed");
 Ops schema, want;
 for (auto &o: ops) if (is_schema(o)) schema.push_back(o);
 for (auto &o: s.h.ops) if (is_schema(o)) want.push_back(o);
 compare_ops(want, schema, "packed-schema");
 // what was deleted or replaced is gone
 std::set<std::string> live;
 for (auto &[i, t]: s.h.m.tables) for (auto &[r, v]: t.rec) for (auto &[f, x]: v) if (t.fields.at(f).type == TId::string) live.insert(x);
 const std::string b = bytes_of(path);
 for (size_t i = 0; (i = b.find("mk", i)) != std::string::npos; i++)
 {
  const size_t e = b.find('!', i);
  if (e == std::string::npos) break;
  const std::string m = b.substr(i, e - i + 1);
  if (m.size() > 24 || m.find_first_not_of("0123456789", 2) != m.size() - 1) continue;
  if (!live.count(m)) fail("packed-remains", m + " was deleted and is in the packed file");
  c.count("live_markers");
 }
 c.count("packed");
}

static void pack_mode(Ctx &c, Rng &g)
{
 Source s;
 s.path = c.scratch("s.joedb");
 const std::string out = c.scratch("o.joedb");
 for (const char *x: {"o.joedb", "s.joedb.packed", "s.joedb.unpacked"}) std::filesystem::remove(c.scratch(x));
 const bool blobs = g.chance(1, 5);
 write_source(c, g, s, {}, g.range(5, 120), true, blobs, true);
 bool has_blobs = false;
 for (auto &o: s.h.ops) has_blobs |= o.k == K::blob;
 const std::string before = bytes_of(s.path);
 if (g.chance(1, 4)) refuses_existing_output(c, g, joedb_pack_main, {s.path}, out);
 if (g.chance(1, 3)) // in place
 {
  const bool stale = g.chance(1, 4);
  if (stale) put(s.path + ".packed", "an earlier attempt");
  bool thrown = false;
  try {inplace_pack(s.path);} catch (const Exception &) {thrown = true;}
  if (thrown)
  {
   if (!stale && !has_blobs) fail("inplace", "refused");
   if (bytes_of(s.path) != before) fail("inplace", "refused and changed the file");
   if (stale && bytes_of(s.path + ".packed") != "an earlier attempt") fail("overwrite", "the packed file was overwritten");
   c.count("inplace_refused");
  }
  else
  {
   if (stale) fail("overwrite", "an existing packed file was no obstacle");
   if (has_blobs) fail("packed-blobs", "a file with blobs was packed");
   if (bytes_of(s.path + ".unpacked") != before) fail("inplace", "the file of origin changed");
   if (std::filesystem::exists(s.path + ".packed")) fail("inplace", "packed file left");
   check_packed(c, s, s.path);
   c.count("inplace");
  }
 }
 else
 {
  if (g.chance(1, 5)) // bytes after the checkpoint, as after a crash
  {
   put(s.path, before + g.bytes(g.range(1, 50)));
   c.count("tails");
  }
  const std::string now_bytes = bytes_of(s.path);
  const Run r = run(joedb_pack_main, {s.path, out});
  if (bytes_of(s.path) != now_bytes) fail("source-changed", "by joedb_pack");
  if (has_blobs)
  {
   if (r.rc == 0) fail("packed-blobs", "a file with blobs was packed");
   c.count("packed_blobs_refused");
  }
  else
  {
   if (r.rc) fail("pack", r.err);
   check_packed(c, s, out);
  }
 }
 c.sig(s.h.shape);
}

static void convert_mode(Ctx &c, Rng &g)
{
 Source s;
 s.path = c.scratch("s.joedb");
 const std::string out = c.scratch("o.joedb");
 std::filesystem::remove(out);
 write_source(c, g, s, {}, g.range(5, 120), true, g.chance(1, 2), false);
 if (g.chance(1, 4)) refuses_existing_output(c, g, joedb_convert_main, {s.path}, out);
 std::vector<std::string> args{s.path, out};
 size_t operations = s.h.ops.size();
 const std::string before = bytes_of(s.path);
 switch (g.below(4))
 {
  case 0:
  {
   auto &k = g.pick(s.checkpoints);
   operations = k.second;
   args.insert(args.begin() + (g.chance(1, 2) ? 0 : 2), {"--until", std::to_string(k.first)});
   c.count("until");
  } break;
  case 1:
  {
   // the header is lost: everything in the file counts
   std::string b = before;
   const std::string junk = g.bytes(32);
   b.replace(0, 32, junk);
   put(s.path, b);
   args.insert(args.begin(), "--ignore_header");
   c.count("ignore_header");
  } break;
  default: break;
 }
 const std::string input = bytes_of(s.path);
 const Run r = run(joedb_convert_main, args);
 if (bytes_of(s.path) != input) fail("source-changed", "by joedb_convert");
 if (r.rc && r.err.find("can't convert: blobs would move") != std::string::npos && !s.blobs.empty() && s.checkpoints.size() > 1)
 {
  // documented nowhere, but better than a reference to the wrong bytes
  Ops ops;
  read_ops(out, ops);
  if (!ops.empty()) fail("convert-refused", "the file contains " + std::to_string(ops.size()) + " operations");
  c.count("conversions_refused");
  return;
 }
 if (r.rc) fail("convert", r.err);
 Ops ops;
 read_ops(out, ops);
 Ops want = expected_replay(s.h.ops, operations), got = ops;
 // blobs may move, their references with them
 {
  File file(out, Open_Mode::read_existing);
  if (want.size() != got.size()) compare_ops(want, got, "converted");
  for (size_t i = 0; i < want.size(); i++) if (want[i].type == TId::blob && (want[i].k == K::update || want[i].k == K::update_vec))
  {
   auto one = [&](std::string &w, std::string &x)
   {
    if (!s.blobs.count(w) || x.size() != 16) return;
    const Blob b = Dec<Blob>::get(x);
    if (s.blobs[w].empty() ? b.get_size() != 0 : file.read_blob(b) != s.blobs[w]) fail("converted-blob", "the reference to a blob of " + std::to_string(s.blobs[w].size()) + " bytes reads something else in the converted file");
    c.count("converted_blob_references");
    w = x;
   };
   if (want[i].k == K::update) one(want[i].s, got[i].s);
   else for (size_t k = 0; k < want[i].v.size() && k < got[i].v.size(); k++) one(want[i].v[k], got[i].v[k]);
  }
 }
 compare_ops(want, got, "converted");
 c.count("converted");
 c.sig(s.h.shape);
}

static void push_mode(Ctx &c, Rng &g)
{
 Source s;
 s.path = c.scratch("s.joedb");
 const std::string out = c.scratch("o.joedb");
 std::filesystem::remove(out);
 write_source(c, g, s, {}, g.range(5, 120), true, true, false);
 const std::string input = bytes_of(s.path);
 std::vector<std::string> args{s.path, "file", out};
 int64_t end = s.checkpoint;
 auto body = [](const std::string &b, int64_t e) {return b.substr(41, size_t(e - 41));};
 enum {missing, prefix, equal, other, ahead} state = missing;
 std::string old;
 int64_t old_checkpoint = 0;
 switch (g.below(5))
 {
  case 1:
  {
   auto &k = g.pick(s.checkpoints);
   state = k.first == s.checkpoint ? equal : prefix;
   File f(out, Open_Mode::create_new);
   Writable_Journal j(f);
   File in(s.path, Open_Mode::read_existing);
   Readonly_Journal ij(in);
   j.pull_from(ij, k.first);
   j.soft_checkpoint();
   old_checkpoint = k.first;
  } break;
  case 2: case 3:
  {
   // same length or longer or shorter, with another content
   state = other;
   Source o;
   o.path = out;
   write_source(c, g, o, {}, g.range(5, 60), true, false, false);
   old_checkpoint = o.checkpoint;
   const int64_t common = std::min(o.checkpoint, s.checkpoint);
   if (bytes_of(out).compare(41, size_t(common - 41), input, 41, size_t(common - 41)) == 0) {state = o.checkpoint > s.checkpoint ? ahead : prefix;}
  } break;
  case 4:
  {
   state = ahead;
   put(out, input);
   File f(out, Open_Mode::write_existing);
   Writable_Journal j(f);
   Database db;
   j.replay_log(db);
   for (int64_t n = g.range(1, 4); n > 0; n--) j.comment(text_string(g, 50));
   j.soft_checkpoint();
   old_checkpoint = j.get_checkpoint();
  } break;
  default: break;
 }
 if (state != missing) old = bytes_of(out);
 if (state != ahead && state != other && g.chance(1, 3))
 {
  auto &k = g.pick(s.checkpoints);
  end = std::max(k.first, old_checkpoint);
  args.insert(args.begin(), {"--until", std::to_string(k.first)});
  c.count("push_until");
 }
 if (g.chance(1, 3)) args.insert(args.begin(), {"--check", g.chance(1, 2) ? "full" : "fast"});
 const Run r = run(joedb_push_main, args);
 if (bytes_of(s.path) != input) fail("source-changed", "by joedb_push");
 switch (state)
 {
  case other:
   if (r.rc == 0) fail("push-other", "pushed to a file with another content");
   if (bytes_of(out) != old) fail("push-other", "refused and changed");
   c.count("push_refused");
  break;
  case ahead:
   if (bytes_of(out).substr(41) != old.substr(41)) fail("push-ahead", "changed a longer file");
   c.count("push_ahead");
  break;
  default:
  {
   if (r.rc) fail("push", r.err);
   File f(out, Open_Mode::read_existing);
   Readonly_Journal j(f);
   if (j.get_checkpoint() != end) fail("push-checkpoint", std::to_string(j.get_checkpoint()) + " for " + std::to_string(end));
   if (body(bytes_of(out), end) != body(input, end)) fail("push-bytes", "the copy differs");
   c.count(state == missing ? "push_new" : "push_extended");
  }
 }
 c.sig(s.h.shape);
}

static void merge_mode(Ctx &c, Rng &g)
{
 const std::string out = c.scratch("o.joedb");
 std::filesystem::remove(out);
 // a schema
 Ops schema;
 Model m;
 {
  History h;
  History_Options opt;
  opt.events = false;
  for (int64_t n = g.range(10, 80); n > 0; n--)
  {
   Op o;
   if (!one_more(g, h, opt, o) || !is_schema(o)) continue;
   if (o.k == K::drop_table && g.chance(1, 2)) continue;
   h.add(o);
  }
  schema = h.ops;
  m = h.m;
 }
 const int files = int(g.range(1, 4));
 std::vector<Source> v;
 std::vector<std::string> inputs;
 for (int i = 0; i < files; i++)
 {
  Source s;
  s.path = c.scratch("m" + std::to_string(i) + ".joedb");
  Ops prefix = schema;
  bool foreign = false;
  if (i && g.chance(1, 8)) // another schema
  {
   Op o; o.k = K::create_table; o.s = "another";
   if (!prefix.empty() && g.chance(1, 2)) prefix.pop_back();
   else if (!m.find(o.s)) prefix.push_back(o);
   else prefix.clear();
   foreign = !(prefix == schema);
  }
  const bool blobs = g.chance(1, 10);
  write_source(c, g, s, prefix, g.range(0, 60), false, blobs, false);
  inputs.push_back(s.path);
  v.push_back(std::move(s));
  if (foreign) c.count("foreign_schemas");
 }
 // custom events are part of the schema: the first accepted file decides
 std::vector<const Source *> merged;
 std::optional<Ops> reference;
 auto schema_of = [](const Source &s) {Ops r; for (auto &o: s.h.ops) if (is_schema(o)) r.push_back(o); return r;};
 auto has_blobs = [](const Source &s) {for (auto &o: s.h.ops) if (o.k == K::blob) return true; return false;};
 for (auto &s: v)
 {
  if (has_blobs(s)) continue;
  if (!reference) reference = schema_of(s);
  else if (!(schema_of(s) == *reference)) continue;
  merged.push_back(&s);
 }
 if (g.chance(1, 5)) {inputs.insert(inputs.begin() + int64_t(g.below(inputs.size() + 1)), c.scratch("missing.joedb")); c.count("missing_inputs");}
 if (g.chance(1, 5))
 {
  // a file that breaks in the middle
  std::string b = bytes_of(v[0].path);
  b += std::string(3, '\xee');
  const int64_t size = int64_t(b.size());
  for (int k = 0; k < 4; k++) std::memcpy(&b[size_t(k) * 8], &size, 8);
  put(c.scratch("damaged.joedb"), b);
  inputs.insert(inputs.begin() + int64_t(g.below(inputs.size() + 1)), c.scratch("damaged.joedb"));
  c.count("damaged_inputs");
 }
 std::vector<std::string> before;
 for (auto &s: v) before.push_back(bytes_of(s.path));
 if (g.chance(1, 4)) refuses_existing_output(c, g, joedb_merge_main, {v[0].path}, out);
 std::vector<std::string> args = inputs;
 args.push_back(out);
 const Run r = run(joedb_merge_main, args);
 for (size_t i = 0; i < v.size(); i++) if (bytes_of(v[i].path) != before[i]) fail("source-changed", "by joedb_merge");
 if (merged.empty())
 {
  if (r.rc == 0) fail("merge", "nothing to merge, and success");
  c.count("nothing_to_merge");
  return;
 }
 if (r.rc) fail("merge", r.err);
 const size_t refused = inputs.size() - merged.size();
 if (refused && r.err.find("Number of errors: " + std::to_string(refused) + "\n") == std::string::npos) fail("merge-errors", r.err);
 Ops ops;
 Database db;
 read_ops(out, ops, &db);
 Ops got;
 for (auto &o: ops) if (is_schema(o)) got.push_back(o);
 compare_ops(*reference, got, "merged-schema");
 // rows, in order
 for (auto &[tid, t]: merged[0]->h.m.tables)
 {
  std::vector<int64_t> rows;
  const Record_Id size = db.get_size(Table_Id{tid});
  for (int64_t i = 0; i < to_underlying(size); i++) if (db.is_used(Table_Id{tid}, Record_Id(index_t(i)))) rows.push_back(i);
  size_t total = 0;
  for (auto s: merged) total += s->h.m.tables.at(tid).rec.size();
  if (rows.size() != total) fail("merged-rows", t.name + ": " + std::to_string(rows.size()) + " for " + std::to_string(total) + " " + r.err);
 }
 auto row_of = [&](uint16_t tid, size_t file, int64_t rid) // position in the merged table
 {
  int64_t n = 0;
  for (size_t i = 0; i < file; i++) n += int64_t(merged[i]->h.m.tables.at(tid).rec.size());
  auto &rec = merged[file]->h.m.tables.at(tid).rec;
  return n + std::distance(rec.begin(), rec.find(rid));
 };
 std::map<uint16_t, std::vector<int64_t>> ids;
 for (auto &[tid, t]: merged[0]->h.m.tables)
  for (int64_t i = 0; i < to_underlying(db.get_size(Table_Id{tid})); i++)
   if (db.is_used(Table_Id{tid}, Record_Id(index_t(i)))) ids[tid].push_back(i);
 for (size_t k = 0; k < merged.size(); k++)
  for (auto &[tid, t]: merged[k]->h.m.tables)
   for (auto &[rid, values]: t.rec)
   {
    const int64_t id = ids[tid][size_t(row_of(tid, k, rid))];
    for (auto &[f, d]: t.fields)
    {
     const std::string x = read_value(db, tid, id, f, d.type), &e = values.at(f);
     const std::string where = t.name + "." + d.name + " of record " + std::to_string(rid) + " of file " + std::to_string(k);
     c.count("merged_values");
     if (d.type == TId::reference)
     {
      const int64_t a = Dec<int64_t>::get(e), b = Dec<int64_t>::get(x);
      if (a == -1) {if (b != -1) fail("merged-null", where); continue;}
      auto target = merged[k]->h.m.tables.find(d.ref);
      if (target == merged[k]->h.m.tables.end()) continue; // to a table that was dropped
      if (target->second.used(a))
      {
       if (b != ids[d.ref][size_t(row_of(d.ref, k, a))]) fail("merged-reference", where + ": " + std::to_string(b));
       c.count("merged_references");
      }
      else if (merged[k]->highest.count(d.ref) && a >= 0 && a <= merged[k]->highest.at(d.ref))
      {
       if (db.is_used(Table_Id{d.ref}, Record_Id(index_t(b)))) fail("merged-dangling", where + ": a reference to a deleted record now finds one");
       c.count("merged_dangling");
      }
     }
     else if (!same_value(d.type, x, e)) fail("merged-value", where + ": " + hex(x) + " for " + hex(e));
    }
   }
 c.count("merged");
 c.count("merged_files", merged.size());
 if (refused) c.count("merges_with_refusals");
 c.sig(mix(v[0].h.shape, merged.size()));
}

// joedb_logdump and joedb_to_json as programs
static void programs_mode(Ctx &c, Rng &g)
{
 Source s;
 s.path = c.scratch("s.joedb");
 write_source(c, g, s, {}, g.range(5, 100), true, g.chance(1, 2), false);
 const std::string input = bytes_of(s.path);
 const bool load = g.chance(1, 3), blob = g.chance(1, 3), schema_only = g.chance(1, 4), print = g.chance(1, 3), ignore = g.chance(1, 5);
 std::vector<std::string> args;
 if (load) args.push_back("--load");
 if (blob) args.push_back("--blob");
 if (schema_only) args.push_back("--schema_only");
 if (print) args.push_back("--print_checkpoint");
 if (ignore) args.push_back("--ignore_header");
 args.push_back(s.path);
 const Run r = run(joedb_logdump_main, args);
 if (r.rc) fail("logdump", r.err);
 Reader reader(r.out, true);
 Model m = printed(s.h.m);
 if (schema_only) for (auto &[i, t]: m.tables) {t.rec.clear(); t.order.clear();}
 compare_readable(reader.db, m, "logdump");
 Ops want;
 for (auto &o: one_nan(printed(expected_replay(s.h.ops))))
  if (!(schema_only && !is_schema(o)) && (blob || o.k != K::blob) && !(print && o.k == K::comment)) want.push_back(o);
 Ops got;
 for (auto &o: one_nan(reader.rec.ops)) if (!(print && o.k == K::comment)) got.push_back(o);
 if (!(schema_only && blob)) compare_ops(want, got, "logdump-operations");
 const Run header = run(joedb_logdump_main, {"--header", s.path});
 if (header.rc || header.out.find(std::to_string(s.checkpoint)) == std::string::npos) fail("logdump-header", header.out + header.err);
 const Run raw = run(joedb_logdump_main, {"--raw", s.path});
 if (raw.rc) fail("logdump-raw", raw.err);
 const Run sql = run(joedb_logdump_main, {"--sql", s.path});
 if (sql.rc) fail("logdump-sql", sql.err);
 const bool base64 = g.chance(1, 2);
 const Run json = base64 ? run(joedb_to_json_main, {"--base64", s.path}) : run(joedb_to_json_main, {s.path});
 if (json.rc) fail("to-json", json.err);
 std::ostringstream o;
 Database db;
 for (auto &x: s.h.ops) emit(x, db);
 const int flags = write_json(o, db, base64);
 if (o.str() != json.out) fail("to-json", "not what write_json writes");
 if (!json.err.empty() != (flags != 0)) fail("to-json-warning", json.err);
 Json::parse(json.out);
 if (bytes_of(s.path) != input) fail("source-changed", "by a dump");
 c.count("programs", 5);
 c.sig(s.h.shape);
}

int main(int argc, char **argv)
{
 return main_loop(argc, argv, {{"pack", pack_mode}, {"convert", convert_mode}, {"push", push_mode}, {"merge", merge_mode}, {"programs", programs_mode}});
}
