#include "h_text.h"
#include "json_sql.h"
#include "joedb/journal/Interpreted_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Readonly_Database_Client.h"
#include "joedb/Selective_Writable.h"

using namespace vf;

static std::string dump_journal(Memory_File &file, bool blobs)
{
 std::ostringstream out;
 Readonly_Journal journal(file);
 Interpreter_Dump_Writable writable(out, blobs);
 journal.replay_log(writable);
 return out.str();
}

static void same_text(const std::string &a, const std::string &b, const char *key)
{
 if (a == b) return;
 size_t i = 0;
 while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
 const size_t l = i > 60 ? i - 60 : 0;
 fail(key, "a dump of what the first dump gave is a different text: " + a.substr(l, 120) + " became " + b.substr(l, 120));
}

static void dump_mode(Ctx &c, Rng &g)
{
 History_Options opt;
 opt.limit = g.chance(1, 10) ? 2000 : g.range(1, 80);
 History h = make_history(g, g.range(5, 80), opt);
 if (g.chance(1, 4)) // vectors long enough for many lines
 {
  Model &m = h.m;
  for (auto &[i, t]: m.tables) if (!t.rec.empty() && !t.fields.empty())
  {
   auto f = t.fields.begin();
   Op o; o.k = K::insert_vec; o.t = i; o.r = t.rec.rbegin()->first + 1; o.n = g.range(100, 900);
   Op u; u.k = K::update_vec; u.t = i; u.r = o.r; u.f = f->first; u.type = f->second.type;
   for (int64_t n = 0; n < o.n; n++) u.v.push_back(random_value(g, u.type, 20));
   h.add(o); h.add(u);
   break;
  }
 }

 // ---- a journal replayed as commands
 Memory_File file;
 {
  Writable_Journal journal(file);
  load(h.ops, journal);
  journal.soft_checkpoint();
 }
 const Ops expected = expected_replay(h.ops);
 const bool blobs = g.chance(2, 3);
 const std::string text = dump_journal(file, blobs);
 Reader r(text, true);
 Ops want = one_nan(printed(expected)), got = one_nan(r.rec.ops);
 if (!blobs) want.erase(std::remove_if(want.begin(), want.end(), [](const Op &o) {return o.k == K::blob;}), want.end());
 compare_ops(want, got, "operations");
 const Model after = printed(h.m);
 compare_readable(r.db, after, "log");
 c.count("commands", got.size());
 {
  Memory_File again;
  Writable_Journal journal(again);
  load(r.rec.ops, journal);
  journal.soft_checkpoint();
  same_text(without_blob_positions(text), without_blob_positions(dump_journal(again, blobs)), "fixed-point");
  c.count("fixed_points");
 }

 // ---- tables as commands
 {
  Database db;
  load(h.ops, db);
  std::ostringstream out;
  {
   if (g.chance(1, 2)) {Interpreter_Dump_Writable w(out); dump(db, w);}
   else
   {
    Readable_Interpreter i(db);
    i.set_echo(false);
    std::istringstream in("dump\n");
    i.main_loop(in, out);
   }
  }
  bool dangling;
  const Model m2 = printed(renumbered(h.m, dangling));
  Reader r2(out.str(), !dangling);
  compare_readable(r2.db, m2, "tables", false);
  if (dangling) c.count("dangling_references");
  else
  {
   std::ostringstream out2;
   {Interpreter_Dump_Writable w(out2); dump(r2.db, w);}
   same_text(out.str(), out2.str(), "tables-fixed-point");
   c.count("table_dumps");
  }
  std::ostringstream schema;
  {
   Readable_Interpreter i(db);
   i.set_echo(false);
   std::istringstream in("schema\n");
   i.main_loop(in, schema);
  }
  Reader r3(schema.str(), !dangling);
  Model m3 = m2;
  for (auto &[i, t]: m3.tables) {t.rec.clear(); t.order.clear();}
  compare_readable(r3.db, m3, "schema");
 }
 // ---- schema only, as joedb_logdump does
 {
  Readonly_Journal journal(file);
  std::ostringstream out;
  {
   Interpreter_Dump_Writable w(out, false);
   Selective_Writable s(w, Selective_Writable::Mode::schema);
   journal.replay_log(s);
  }
  Reader r4(out.str(), true);
  Model m4 = after;
  for (auto &[i, t]: m4.tables) {t.rec.clear(); t.order.clear();}
  compare_readable(r4.db, m4, "schema-only");
 }
 c.sig(h.shape);
 c.sample(text.substr(0, 300));
}

// ---------------------------------------------------------------- files of commands
struct Text_File
{
 std::unique_ptr<File> file;
 std::unique_ptr<Abstract_Interpreted_File> text;
 Text_File(const std::string &path, Open_Mode mode): file(new File(path, mode)), text(new Abstract_Interpreted_File(*file)) {}
};

static void text_file_mode(Ctx &c, Rng &g)
{
 const std::string path = c.scratch("t.joedbi");
 std::filesystem::remove(path);
 History h;
 History_Options opt;
 opt.rounded = true;
 opt.limit = g.range(1, 60);
 const bool shared = g.chance(1, 2);
 const int sessions = int(g.range(1, 5));
 if (g.chance(1, 4)) // written by hand
 {
  std::ofstream f(path);
  f << "create_table person\nadd_field person name string\n\n# a remark\ninsert_into person 0 \"x\"\n\n";
  for (auto o: {[] {Op o; o.k = K::create_table; o.s = "person"; return o;}(), [] {Op o; o.k = K::add_field; o.t = 1; o.s = "name"; o.type = TId::string; return o;}(),
    [] {Op o; o.k = K::insert; o.t = 1; o.r = 0; return o;}(), [] {Op o; o.k = K::update; o.t = 1; o.r = 0; o.f = 1; o.type = TId::string; o.s = "x"; return o;}()}) h.add(o);
  c.count("handwritten");
 }
 struct Handle
 {
  Text_File f;
  std::unique_ptr<Writable_Database_Client> client;
 };
 auto check_closed = [&](const char *key)
 {
  {
   Text_File f(path, Open_Mode::read_existing);
   Readonly_Journal journal(*f.text);
   Database db;
   journal.replay_log(db);
   compare_readable(db, h.m, std::string(key));
  }
  // the text itself, read as commands
  std::ifstream in(path, std::ios::binary);
  std::stringstream s; s << in.rdbuf();
  Reader r(s.str(), true);
  compare_readable(r.db, h.m, std::string(key) + "-text");
  c.count("reopened");
 };
 auto extend = [&](Writable &w, int64_t n)
 {
  for (; n > 0; n--)
  {
   Op o;
   if (!one_more(g, h, opt, o)) continue;
   emit(o, w);
   h.add(o);
  }
 };
 for (int s = 0; s < sessions; s++)
 {
  c.step();
  if (shared)
  {
   const int handles = int(g.range(1, 3));
   std::vector<std::unique_ptr<Handle>> v;
   for (int i = 0; i < handles; i++)
   {
    std::unique_ptr<Handle> x(new Handle{Text_File(path, Open_Mode::shared_write), nullptr});
    x->client.reset(new Writable_Database_Client(*x->f.text));
    v.push_back(std::move(x));
   }
   for (int64_t n = g.range(1, 8); n > 0; n--)
   {
    Handle &x = *v[g.below(v.size())];
    const History before = h;
    if (g.chance(1, 8))
    {
     // a transaction that is given up leaves no trace, and its client is not used again
     try
     {
      x.client->transaction([&](const Readable &, Writable &w) {extend(w, g.range(0, 6)); throw 7;});
      fail("abort", "nothing thrown");
     }
     catch (int) {}
     h = before;
     for (size_t k = 0; k < v.size(); k++) if (v[k].get() == &x) {v.erase(v.begin() + long(k)); break;}
     c.count("aborted");
     if (v.empty()) break;
    }
    else
    {
     x.client->transaction([&](const Readable &db, Writable &w)
     {
      compare_readable(db, before.m, "shared");
      extend(w, g.range(0, 10));
      compare_readable(db, h.m, "own");
     });
     c.count("shared_transactions");
    }
    if (!v.empty() && g.chance(1, 3))
    {
     Handle &y = *v[g.below(v.size())];
     y.client->pull();
     compare_readable(y.client->get_database(), h.m, "pull");
     c.count("pulls");
    }
   }
  }
  else
  {
   Text_File f(path, Open_Mode::write_existing_or_create_new);
   if (g.chance(1, 2))
   {
    Writable_Database_Client client(*f.text);
    for (int64_t n = g.range(0, 4); n > 0; n--)
     client.transaction([&](const Readable &db, Writable &w) {extend(w, g.range(0, 12)); compare_readable(db, h.m, "own");});
   }
   else
   {
    Writable_Journal journal(*f.text);
    Database db;
    journal.replay_log(db);
    compare_readable(db, h.m, "journal");
    for (int64_t n = g.range(0, 4); n > 0; n--)
    {
     extend(journal, g.range(0, 12));
     switch (g.below(2)) {case 0: journal.soft_checkpoint(); break; default: journal.hard_checkpoint();}
    }
    if (g.chance(1, 3)) // what no checkpoint covers is lost
    {
     const History before = h;
     extend(journal, g.range(1, 6));
     journal.flush();
     h = before;
     // the journal's destructor writes no checkpoint
     c.count("unfinished");
    }
   }
   c.count("exclusive_sessions");
  }
  check_closed("closed");
 }
 c.sig(h.shape);
}

// ---------------------------------------------------------------- JSON
static std::string valid_utf8_prefix(const std::string &s)
{
 size_t i = 0;
 while (i < s.size())
 {
  const size_t n = utf8_length(s, i);
  if (!n) break;
  i += n;
 }
 return s.substr(0, i);
}

static void check_number(TId type, const std::string &v, const Json &j, bool &infnan, const std::string &where)
{
 if (j.kind != Json::number) fail("json-value", where + ": not a number");
 char b[64];
 if (type == TId::float32 || type == TId::float64)
 {
  const double d = type == TId::float32 ? double(Dec<float>::get(v)) : Dec<double>::get(v);
  if (d != d || d - d != 0) {infnan = true; if (j.text != "0") fail("json-value", where + ": " + j.text + " for " + std::to_string(d)); return;}
  snprintf(b, sizeof b, "%.6g", d);
  if (strtod(b, nullptr) != strtod(j.text.c_str(), nullptr)) fail("json-value", where + ": " + j.text + " for " + b);
  return;
 }
 int64_t n = 0;
 switch (type)
 {
  case TId::int8: n = Dec<int8_t>::get(v); break;
  case TId::int16: n = Dec<int16_t>::get(v); break;
  case TId::int32: n = Dec<int32_t>::get(v); break;
  default: n = Dec<int64_t>::get(v); break;
 }
 if (j.text != std::to_string(n)) fail("json-value", where + ": " + j.text + " for " + std::to_string(n));
}

static void json_mode(Ctx &c, Rng &g)
{
 History_Options opt;
 opt.limit = g.range(1, 40);
 const bool clean = g.chance(1, 2); // only representable values
 if (clean) opt.value = [&](uint16_t, uint16_t, TId t)
 {
  std::string v = t == TId::string ? valid_utf8_prefix(text_string(g, 300)) : t == TId::reference ? enc(Record_Id(index_t(g.range(-2, opt.limit + 3)))) : random_value(g, t, 300);
  double d = 0;
  if (t == TId::float32) d = Dec<float>::get(v);
  if (t == TId::float64) d = Dec<double>::get(v);
  if (d - d != 0) v = default_value(t);
  return v;
 };
 History h = make_history(g, g.range(5, 90), opt);
 Database db;
 load(h.ops, db);
 const bool base64 = g.chance(1, 3);
 std::ostringstream out;
 int result;
 if (g.chance(1, 4))
 {
  Readable_Interpreter i(db);
  i.set_echo(false);
  std::istringstream in(base64 ? "json 1\n" : g.chance(1, 2) ? "json 0\n" : "json\n");
  i.main_loop(in, out);
  result = -1;
 }
 else result = write_json(out, db, base64);
 const std::string text = out.str();
 const Json j = Json::parse(text);
 if (j.kind != Json::object) fail("json-structure", "no object");
 size_t k = 0;
 bool infnan = false, utf8 = false;
 if (j.items.size() != h.m.tables.size()) fail("json-tables", "count");
 for (auto &[tid, t]: h.m.tables)
 {
  const std::string &name = j.keys[k];
  const Json &table = j.items[k++];
  if (name != t.name || table.kind != Json::object || table.keys.empty()) fail("json-tables", name + " for " + t.name);
  if (table.items.size() != t.fields.size() + 1) fail("json-fields", t.name);
  if (table.keys[0] != "__size" || table.items[0].text != std::to_string(t.rec.size())) fail("json-size", t.name + ": " + table.items[0].text);
  size_t q = 1;
  for (auto &[fid, f]: t.fields)
  {
   const std::string &fname = table.keys[q];
   const Json &column = table.items[q++];
   const std::string where = t.name + "." + f.name;
   if (fname != f.name || column.kind != Json::array) fail("json-fields", fname + " for " + where);
   if (column.items.size() != t.rec.size()) fail("json-rows", where + ": " + std::to_string(column.items.size()) + " for " + std::to_string(t.rec.size()));
   size_t row = 0;
   for (auto &[rid, values]: t.rec)
   {
    const std::string &v = values.at(fid);
    const Json &x = column.items[row++];
    switch (f.type)
    {
     case TId::string:
      if (x.kind != Json::string) fail("json-value", where + ": not a string");
      if (base64) {if (decode64(x.text) != v) fail("json-base64", where + ": " + x.text + " for " + hex(v));}
      else
      {
       const std::string p = valid_utf8_prefix(v);
       if (p == v) {if (x.text != v) fail("json-string", where + ": " + hex(x.text) + " for " + hex(v));}
       else
       {
        utf8 = true;
        if (x.text != p + "!!! This string is not utf8 !!!") fail("json-not-utf8", where + ": " + hex(x.text) + " for " + hex(v));
       }
      }
     break;
     case TId::boolean: if (x.kind != Json::boolean || x.text != (Dec<bool>::get(v) ? "true" : "false")) fail("json-value", where); break;
     case TId::blob:
     {
      const Blob b = Dec<Blob>::get(v);
      if (x.kind != Json::array || x.items.size() != 2 || x.items[0].text != std::to_string(b.get_position()) || x.items[1].text != std::to_string(b.get_size())) fail("json-value", where);
     } break;
     case TId::reference:
     {
      const int64_t r = Dec<int64_t>::get(v);
      auto target = h.m.tables.find(f.ref);
      int64_t e = r;
      if (target != h.m.tables.end())
      {
       e = -1;
       if (target->second.used(r)) e = std::distance(target->second.rec.begin(), target->second.rec.find(r));
      }
      else c.count("references_to_no_table");
      if (x.kind != Json::number || x.text != std::to_string(e)) fail("json-reference", where + ": " + x.text + " for " + std::to_string(e));
     } break;
     default: check_number(f.type, v, x, infnan, where);
    }
    c.count("json_values");
   }
  }
 }
 if (result >= 0 && result != ((infnan ? JSON_Error::infnan : 0) | (utf8 ? JSON_Error::utf8 : 0))) fail("json-flags", std::to_string(result));
 if (infnan) c.count("flagged_infnan");
 if (utf8) c.count("flagged_utf8");
 if (base64) c.count("base64");
 c.sig(h.shape);
}

// ---------------------------------------------------------------- SQL
static void compare_sql(Sqlite &db, const Model &m, bool every_value, const std::function<bool(const std::string &, std::string &)> &blob, Ctx &c)
{
 std::set<std::string> names, expected;
 for (auto &r: db.query("SELECT name FROM sqlite_master WHERE type='table'")) names.insert(r[0].bytes);
 for (auto &[i, t]: m.tables) expected.insert(t.name);
 if (names != expected) fail("sql-tables", std::to_string(names.size()) + " tables for " + std::to_string(expected.size()));
 for (auto &[tid, t]: m.tables)
 {
  auto info = db.query("PRAGMA table_info(\"" + t.name + "\")");
  std::vector<std::string> columns;
  for (auto &r: info) columns.push_back(r[1].bytes);
  std::vector<std::string> ex{"__id"};
  for (auto &[f, d]: t.fields) ex.push_back(d.name);
  if (columns != ex) fail("sql-columns", t.name);
  for (size_t i = 0; i < info.size(); i++)
  {
   std::string type = info[i][2].bytes, want = "INTEGER";
   if (i)
   {
    auto f = t.fields.begin();
    std::advance(f, long(i - 1));
    switch (f->second.type)
    {
     case TId::string: want = "TEXT"; break;
     case TId::int64: want = "BIGINT"; break;
     case TId::boolean: case TId::int8: case TId::int16: want = "SMALLINT"; break;
     case TId::float32: case TId::float64: want = "REAL"; break;
     case TId::blob: want = "BLOB"; break;
     default: break;
    }
   }
   if (type != want) fail("sql-type", t.name + "." + columns[i] + ": " + type);
  }
  // references name their tables
  std::map<std::string, std::string> foreign;
  for (auto &r: db.query("PRAGMA foreign_key_list(\"" + t.name + "\")")) foreign[r[3].bytes] = r[2].bytes;
  size_t refs = 0;
  for (auto &[f, d]: t.fields) if (d.type == TId::reference)
  {
   refs++;
   if (!foreign.count(d.name)) fail("sql-reference", t.name + "." + d.name + " refers to nothing");
   if (m.tables.count(d.ref) && foreign[d.name] != m.tables.at(d.ref).name) fail("sql-reference", t.name + "." + d.name + " refers to " + foreign[d.name]);
  }
  if (foreign.size() != refs) fail("sql-reference", t.name);
  auto rows = db.query("SELECT * FROM \"" + t.name + "\" ORDER BY \"__id\"");
  if (rows.size() != t.rec.size()) fail("sql-rows", t.name + ": " + std::to_string(rows.size()) + " for " + std::to_string(t.rec.size()));
  size_t k = 0;
  for (auto &[rid, values]: t.rec)
  {
   auto &row = rows[k++];
   if (row[0].type != 1 || row[0].integer != rid) fail("sql-id", t.name);
   size_t q = 1;
   for (auto &[f, d]: t.fields)
   {
    const Sql_Value &x = row[q++];
    const std::string &v = values.at(f), where = t.name + "." + d.name + " of " + std::to_string(rid);
    c.count("sql_values");
    if (d.type == TId::blob)
    {
     std::string data;
     if (blob(v, data)) {if (x.type == 5 ? v != default_value(d.type) : x.bytes != data) fail("sql-blob", where);}
     else if (x.type != 5) fail("sql-blob", where + " is not null");
     continue;
    }
    if (x.type == 5) // NULL
    {
     const bool not_finite = [&] {const double e = d.type == TId::float32 ? double(Dec<float>::get(v)) : d.type == TId::float64 ? Dec<double>::get(v) : 0; return e - e != 0;}();
     const bool null_reference = d.type == TId::reference && Dec<int64_t>::get(v) == -1;
     if (not_finite) c.count("sql_infnan");
     if (!not_finite && !null_reference && (every_value || v != default_value(d.type))) fail("sql-null", where + " is null for " + hex(v));
     continue;
    }
    switch (d.type)
    {
     case TId::string: if (x.bytes != v) fail("sql-string", where + ": " + hex(x.bytes) + " for " + hex(v)); break;
     case TId::float32: case TId::float64:
     {
      char b[64];
      const double e = d.type == TId::float32 ? double(Dec<float>::get(v)) : Dec<double>::get(v);
      if (e - e != 0) fail("sql-float", where + " is a number for an infinity or no number");
      snprintf(b, sizeof b, "%.6g", e);
      const double y = strtod(b, nullptr);
      if (std::abs(x.real - y) > std::abs(y) * 1e-14) fail("sql-float", where + ": " + std::to_string(x.real) + " for " + b);
     } break;
     default:
     {
      int64_t n = 0;
      switch (d.type)
      {
       case TId::boolean: n = Dec<bool>::get(v); break;
       case TId::int8: n = Dec<int8_t>::get(v); break;
       case TId::int16: n = Dec<int16_t>::get(v); break;
       case TId::int32: n = Dec<int32_t>::get(v); break;
       default: n = Dec<int64_t>::get(v); break;
      }
      if (x.type != 1 || x.integer != n) fail("sql-integer", where + ": " + std::to_string(x.integer) + " for " + std::to_string(n));
     }
    }
   }
  }
 }
}

static void sql_mode(Ctx &c, Rng &g)
{
 History h;
 History_Options opt;
 opt.same_case = true;
 opt.limit = g.range(1, 40);
 std::map<std::string, std::string> blob_data;
 std::vector<std::string> blobs{default_value(TId::blob)};
 blob_data[blobs[0]] = "";
 opt.value = [&](uint16_t, uint16_t, TId t)
 {
  return t == TId::blob ? g.pick(blobs) : t == TId::string ? text_string(g, 300) : t == TId::reference && g.chance(2, 3) ? enc(Record_Id(index_t(g.range(-1, opt.limit)))) : random_value(g, t, 300);
 };
 Memory_File file;
 {
  Writable_Journal journal(file);
  for (int64_t n = g.range(5, 90); n > 0; n--)
  {
   Op o;
   if (!one_more(g, h, opt, o)) continue;
   h.add(o);
   const Blob b = emit(o, journal);
   if (o.k == K::blob) {blobs.push_back(enc(b)); blob_data[enc(b)] = o.s;}
  }
  journal.soft_checkpoint();
 }
 // ---- the journal as SQL
 const bool read_blobs = g.chance(1, 2);
 {
  std::ostringstream out;
  {
   Readonly_Journal journal(file);
   SQL_Dump_Writable w(out, read_blobs ? &file : nullptr);
   if (g.chance(1, 3)) journal.replay_with_checkpoint_comments(w);
   else journal.replay_log(w);
  }
  Sqlite db;
  db.run(out.str(), "sql-rejected");
  compare_sql(db, h.m, false, [&](const std::string &v, std::string &data) {if (!read_blobs) return false; data = blob_data.at(v); return true;}, c);
  c.count("sql_logs");
 }
 // ---- the tables as SQL
 bool dangling;
 const Model m = renumbered(h.m, dangling);
 if (dangling) c.count("dangling_references");
 else
 {
  Database database;
  load(h.ops, database);
  std::ostringstream out;
  if (g.chance(1, 2)) {SQL_Dump_Writable w(out); dump(database, w);}
  else
  {
   Readable_Interpreter i(database);
   i.set_echo(false);
   std::istringstream in("sql\n");
   i.main_loop(in, out);
  }
  Sqlite db;
  db.run(out.str(), "sql-tables-rejected");
  compare_sql(db, m, true, [&](const std::string &, std::string &) {return false;}, c);
  c.count("sql_tables");
 }
 c.sig(h.shape);
}

int main(int argc, char **argv)
{
 return main_loop(argc, argv, {{"dump", dump_mode}, {"text_file", text_file_mode}, {"json", json_mode}, {"sql", sql_mode}});
}
