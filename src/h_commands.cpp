// T04: the command interpreter reads any text; what it rejects changes nothing, and what it accepts does what it says.
#include "limit_new.h"
#include "common.h"
#include "h_text.h"
#include "joedb/ui/Blob_Reader_Command_Processor.h"
#include "joedb/journal/Interpreted_File.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace vf;
using namespace joedb;

namespace
{
 // ---- text of a value
 std::string text_of_string(Rng &g, const std::string &s, bool may_be_bare)
 {
  bool bare = may_be_bare && !s.empty() && g.chance(1, 3);
  std::string r;
  for (size_t i = 0; i < s.size(); i++)
  {
   const unsigned char c = (unsigned char)s[i];
   const bool must = c == '\n' || c == '\\' || c == '"' || (bare && isspace(c));
   if (must || (c < 0x20 && g.chance(7, 8)) || g.chance(1, 40))
   {
    char b[8];
    if ((c == '\\' || c == '"') && g.chance(1, 2)) {r += '\\'; r += char(c);}
    else if (g.chance(1, 2)) {snprintf(b, sizeof b, "\\x%02x", c); r += b;}
    else {snprintf(b, sizeof b, "\\%03o", c); r += b;}
   }
   else r += char(c);
  }
  return bare ? r : "\"" + r + "\"";
 }

 std::string text_of(Rng &g, TId t, const std::string &v)
 {
  char b[400];
  switch (t)
  {
   case TId::string: return text_of_string(g, v, true);
   case TId::boolean: return Dec<bool>::get(v) ? (g.chance(1, 2) ? "true" : "1") : (g.chance(1, 2) ? "false" : "0");
   case TId::blob: return std::to_string(Dec<Blob>::get(v).get_position()) + "," + std::to_string(Dec<Blob>::get(v).get_size());
   case TId::reference: return std::to_string(to_underlying(Dec<Record_Id>::get(v)));
   case TId::int8: return std::to_string(int(Dec<int8_t>::get(v)));
   case TId::int16: return std::to_string(Dec<int16_t>::get(v));
   case TId::int32: return std::to_string(Dec<int32_t>::get(v));
   case TId::int64: return std::to_string(Dec<int64_t>::get(v));
   case TId::float32: {const float x = Dec<float>::get(v); if (x != x) return g.chance(1, 2) ? "nan" : "-nan"; snprintf(b, sizeof b, "%.9g", double(x)); return b;}
   case TId::float64: {const double x = Dec<double>::get(v); if (x != x) return g.chance(1, 2) ? "nan" : "-nan"; snprintf(b, sizeof b, g.chance(1, 8) ? "%.20e" : "%.17g", x); return b;}
   default: return "";
  }
 }

 // text that is not a value of the type
 std::string not_a(Rng &g, TId t)
 {
  static const char *words[] = {"abc", "-", "+", "x1", "--4", "\"5\"", "$", "truefalse", ".", "e5", "99999999999999999999999", "-99999999999999999999999", "one"};
  std::vector<std::string> v;
  switch (t)
  {
   case TId::boolean: v = {"TRUE", "yes", "2", "-1", "true1", "01", "t"}; break;
   case TId::int8: v = {"128", "-129", "300", "4294967296"}; break;
   case TId::int16: v = {"32768", "-32769", "4294967297"}; break;
   case TId::int32: v = {"2147483648", "-2147483649"}; break;
   case TId::int64: case TId::reference: case TId::blob: v = {"9223372036854775808"}; break;
   case TId::float32: case TId::float64: v = {"1.5x", "1e400", "-1e999", "0..1", "1,5", "1e"}; break;
   default: break;
  }
  if (v.empty() || g.chance(1, 2))
  {
   const std::string w = words[g.below(sizeof words / sizeof *words)];
   if ((t == TId::float32 || t == TId::float64) && w.size() > 20) return "abc"; // a large number is one of these
   return w;
  }
  return g.pick(v);
 }

 struct Line
 {
  std::string text;
  Ops expected;
  enum {accepted, rejected, any} verdict = accepted;
 };

 std::string type_name(const Model &m, const Op &o)
 {
  if (o.type == TId::reference) {const MTable *t = m.table(o.ref); return t ? "references " + t->name : "";}
  return tname(o.type);
 }

 bool value_of_blob_ok(TId t, const std::string &v) {return t != TId::blob || (Dec<Blob>::get(v).get_position() >= 0 && Dec<Blob>::get(v).get_size() >= 0);}

 std::string table_name(const Model &m, uint16_t t, Rng &g) {const MTable *x = m.table(t); return x ? x->name : "no_such_table" + std::to_string(g.below(9));}
 std::string field_name(const Model &m, uint16_t t, uint16_t f, Rng &g)
 {
  const MTable *x = m.table(t);
  if (x) {auto i = x->fields.find(f); if (i != x->fields.end()) return i->second.name;}
  return "no_such_field" + std::to_string(g.below(9));
 }

 // words of the command, and the values that follow them
 struct Words
 {
  std::vector<std::string> words;
  std::vector<std::pair<TId, std::string>> values;
  std::string str_plain() const {std::string r; for (auto &x: words) r += x + " "; return r;}
  std::string str(Rng &g) const
  {
   std::string r;
   for (auto &w: words) {if (!r.empty()) r += g.chance(1, 12) ? "\t " : g.chance(1, 12) ? "  " : " "; r += w;}
   for (auto &[t, v]: values) {r += g.chance(1, 10) ? "  " : " "; r += v;}
   return r;
  }
 };

 bool words_of(Rng &g, const Model &m, const Op &o, Words &w)
 {
  const std::string t = table_name(m, o.t, g);
  auto value = [&](TId ty, const std::string &v) {w.values.emplace_back(ty, text_of(g, ty, v));};
  switch (o.k)
  {
   case K::create_table: w.words = {"create_table", o.s}; break;
   case K::drop_table: w.words = {"drop_table", t}; break;
   case K::rename_table: w.words = {"rename_table", t, o.s}; break;
   case K::add_field: {const std::string ty = type_name(m, o); if (ty.empty()) return false; w.words = {"add_field", t, o.s, ty};} break;
   case K::drop_field: w.words = {"drop_field", t, field_name(m, o.t, o.f, g)}; break;
   case K::rename_field: w.words = {"rename_field", t, field_name(m, o.t, o.f, g), o.s}; break;
   case K::insert: w.words = {"insert_into", t, std::to_string(o.r)}; break;
   case K::del: w.words = {"delete_from", t, std::to_string(o.r)}; break;
   case K::insert_vec: w.words = {"insert_vector", t, std::to_string(o.r), std::to_string(o.n)}; break;
   case K::del_vec: w.words = {"delete_vector", t, std::to_string(o.r), std::to_string(o.n)}; break;
   case K::update: w.words = {"update", t, std::to_string(o.r), field_name(m, o.t, o.f, g)}; value(o.type, o.s); break;
   case K::update_vec: w.words = {"update_vector", t, std::to_string(o.r), field_name(m, o.t, o.f, g), std::to_string(o.v.size())}; for (auto &v: o.v) value(o.type, v); break;
   default: return false;
  }
  return true;
 }

 bool has_space(const std::string &s) {for (unsigned char c: s) if (isspace(c)) return true; return false;}

 // a line that must be accepted
 bool good_line(Rng &g, Gen &gen, const Model &m, const Database &db, Line &l, Words &w)
 {
  l = Line(); w = Words();
  switch (g.below(12))
  {
   case 0: // a record with its values
   {
    const uint16_t tid = gen.any_table();
    const MTable *t = m.table(tid);
    if (!t) return false;
    Op o; o.k = K::insert; o.t = tid;
    const bool no_id = g.chance(1, 3);
    o.r = no_id ? to_underlying(db.get_size(Table_Id{tid})) : gen.free_record(*t);
    if (o.r < 0 || !m.invalid(o).empty()) return false;
    l.expected.push_back(o);
    w.words = {"insert_into", t->name};
    if (!no_id) w.words.push_back(std::to_string(o.r)); else if (g.chance(1, 2)) w.words.push_back("-1");
    if ((!no_id || w.words.size() == 3) && !t->fields.empty() && g.chance(3, 4))
     for (auto &[f, d]: t->fields)
     {
      Op u; u.k = K::update; u.t = tid; u.r = o.r; u.f = f; u.type = d.type; u.s = gen.val(tid, f, d.type);
      w.values.emplace_back(d.type, text_of(g, d.type, u.s));
      l.expected.push_back(u);
     }
   } break;
   case 1: // a field with a value for every record
   {
    const uint16_t tid = gen.any_table();
    const MTable *t = m.table(tid);
    if (!t || t->fields.size() > 6) return false;
    Op o; o.k = K::add_field; o.t = tid; o.s = identifier(g); o.type = g.pick(all_types());
    if (o.type == TId::reference) o.ref = gen.any_table();
    if (!m.invalid(o).empty() || !words_of(g, m, o, w)) return false;
    l.expected.push_back(o);
    const std::string v = gen.val(tid, 0, o.type);
    w.words.push_back("=");
    w.values.emplace_back(o.type, text_of(g, o.type, v));
    for (auto &[r, unused]: t->rec)
    {
     Op u; u.k = K::update; u.t = tid; u.r = r; u.f = uint16_t(t->last_field + 1); u.type = o.type; u.s = v;
     l.expected.push_back(u);
    }
   } break;
   case 2:
   {
    Op o;
    switch (g.below(5))
    {
     case 0: o.k = K::comment; o.s = g.bytes(g.size(60)); w.words = {"comment"}; w.values.emplace_back(TId::string, text_of_string(g, o.s, false)); break;
     case 1: o.k = K::timestamp; o.n = int64_t(g.next()); w.words = {"timestamp", std::to_string(o.n)}; break;
     case 2: o.k = K::valid_data; w.words = {"valid_data"}; break;
     case 3: o.k = K::custom; o.s = identifier(g); w.words = {"custom", o.s}; break;
     default: o.k = K::blob; o.s = g.bytes(g.size(200)); w.words = {"write_blob"}; w.values.emplace_back(TId::string, text_of_string(g, o.s, true)); if (o.s.empty()) return false;
    }
    l.expected.push_back(o);
   } break;
   case 3:
   {
    static const char *plain[] = {"", "# a comment", "#", "about", "help", "?", "flush", "checkpoint", "soft_checkpoint", "hard_checkpoint", "schema", "dump", "sql", "json", "json 1", "json 0", "echo on", "echo off", "echo", "prompt off", "prompt maybe"};
    w.words = {plain[g.below(sizeof plain / sizeof *plain)]};
   } break;
   case 4:
   {
    const uint16_t tid = gen.any_table();
    const MTable *t = m.table(tid);
    if (!t) return false;
    w.words = {g.chance(1, 2) ? "table" : "record", t->name};
    for (int64_t n = g.range(0, w.words[0] == "table" ? 3 : 1); n > 0; n--) w.words.push_back(std::to_string(w.words.size() == 2 && w.words[0] == "table" ? g.range(0, 60) : g.chance(1, 8) ? int64_t(g.next() >> g.below(64)) : g.range(0, 40)));
   } break;
   default:
   {
    Op o;
    if (!gen.valid(o) || !words_of(g, m, o, w)) return false;
    if (o.k == K::update && !value_of_blob_ok(o.type, o.s)) return false;
    for (auto &v: o.v) if (!value_of_blob_ok(o.type, v)) return false;
    l.expected.push_back(o);
   }
  }
  l.text = w.str(g);
  if (l.text.find('\n') != std::string::npos) return false;
  return true;
 }

 // a line that must be rejected
 bool bad_line(Rng &g, Gen &gen, const Model &m, const Database &db, Line &l)
 {
  Words w;
  switch (g.below(9))
  {
   case 0: case 1: case 2:
   {
    l = Line();
    Op o;
    if (!gen.invalid(o)) return false;
    const std::string why = m.invalid(o);
    if (why == "wrong type" || why == "huge range" || why.empty()) return false;
    if (o.r < 0 && (o.k == K::insert || why == "no such table")) return false; // nothing: the end of the table
    if (!words_of(g, m, o, w)) return false;
    if (has_space(o.s) && o.k != K::update) return false;
    l.text = w.str(g);
    if (l.text.find('\n') != std::string::npos) return false;
   } break;
   case 3: case 4: // one value is not what it should be
   {
    if (!good_line(g, gen, m, db, l, w) || w.values.empty() || w.words[0] == "comment" || w.words[0] == "write_blob") return false;
    const size_t i = g.below(w.values.size());
    const TId t = w.values[i].first;
    if (t == TId::string) return false;
    w.values[i].second = not_a(g, t);
    if (t == TId::blob) switch (g.below(3))
    {
     case 0: w.values[i].second = "12," + not_a(g, TId::blob); break;
     case 1: w.values[i].second = "12"; if (i + 1 < w.values.size()) return false; break;
     default: break;
    }
    l.text = w.str(g);
   } break;
   case 5: // values are missing
   {
    if (!good_line(g, gen, m, db, l, w) || w.values.empty() || w.words[0] == "comment" || w.words[0] == "write_blob") return false;
    if (w.words[0] == "insert_into" && w.values.size() == 1) return false;
    w.values.resize(g.below(w.words[0] == "insert_into" ? w.values.size() - 1 : w.values.size()) + (w.words[0] == "insert_into"));
    l.text = w.str(g);
   } break;
   case 6: // words are missing
   {
    if (!good_line(g, gen, m, db, l, w) || w.words.size() < 2) return false;
    const std::string &c = w.words[0];
     if (c == "timestamp" || c == "custom" || c == "comment") return false;
    size_t least = 1;
    if (c == "insert_into") w.words.resize(1);
    else if (c == "table" || c == "record") w.words.resize(1);
    else if (c == "add_field" && w.words.back() == "=") {w.values.clear(); if (g.chance(1, 2)) w.words.resize(1 + g.below(3));}
    else w.words.resize(least + g.below(w.words.size() - 1));
    if (c != "add_field") w.values.clear();
    if (c == "write_blob") return false;
    l.text = w.str(g);
   } break;
   case 7: // numbers that are not
   {
    if (!good_line(g, gen, m, db, l, w) || w.words.size() < 3) return false;
    const std::string &c = w.words[0];
    if (c == "table" || c == "record" || c == "timestamp") return false;
    std::vector<size_t> at;
    for (size_t i = 2; i < w.words.size(); i++) if (!w.words[i].empty() && (isdigit((unsigned char)w.words[i][0]) || w.words[i][0] == '-')) at.push_back(i);
    if (at.empty()) return false;
    const size_t i = g.pick(at);
    w.words[i] = not_a(g, TId::int64);
    if (i == 3 + (c == "update_vector") && w.words[i][0] != '9' && g.chance(1, 3)) w.words[i] = "-" + std::to_string(1 + g.below(100));
    l.text = w.str(g);
   } break;
   default: // unknown commands and types
   {
    if (!good_line(g, gen, m, db, l, w)) return false;
    if (w.words[0] == "add_field" && g.chance(1, 2))
    {
     static const char *types[] = {"int", "String", "int128", "references", "references no_such_table", "=", "null", "reference", "float"};
     w.words[3] = types[g.below(9)];
     if (w.words[3] == "references" && w.words.size() > 4) return false;
    }
    else
    {
     if (w.words[0].empty() || w.words[0][0] == '#') return false;
     std::string &c = w.words[0];
     switch (has_space(c) ? 2 : int(g.below(3))) {case 0: c[0] = char(c[0] ^ 0x20); if (c == "\x1f") return false; break; case 1: c += 'x'; break; default: c.insert(0, "_");}
    }
    l.text = w.str(g);
   }
  }
  l.expected.clear();
  l.verdict = Line::rejected;
  return l.text.find('\n') == std::string::npos;
 }

 // any line
 bool any_line(Rng &g, Gen &gen, const Model &m, const Database &db, Line &l)
 {
  Words w;
  if (!good_line(g, gen, m, db, l, w)) return false;
  std::string &s = l.text;
  static const char *pieces[] = {"\"", "\\", "\\x", "\\7", " ", ",", "-1", "0", "9223372036854775807", "-9223372036854775808", "99999", "=", "nan", "\t", "\r", "\x80", "true", "1e309", "#", "?", "0x10", "references"};
  for (int64_t n = g.range(1, 4); n > 0; n--) switch (g.below(7))
  {
   case 0: s.resize(g.below(s.size() + 1)); break;
   case 1: if (!s.empty()) s[g.below(s.size())] = char(g.next()); break;
   case 2: s.insert(g.below(s.size() + 1), pieces[g.below(sizeof pieces / sizeof *pieces)]); break;
   case 3: if (!s.empty()) s.erase(g.below(s.size()), 1 + g.below(4)); break;
   case 4:
   case 5: // one word for another
   {
    std::istringstream in(s); std::vector<std::string> v; std::string x; while (in >> x) v.push_back(x);
    if (v.size() < 2) break;
    const size_t i = 1 + g.below(v.size() - 1);
    switch (g.below(3)) {case 0: v[i] = pieces[g.below(sizeof pieces / sizeof *pieces)]; break; case 1: v.erase(v.begin() + std::ptrdiff_t(i)); break; default: std::swap(v[i], v[1 + g.below(v.size() - 1)]);}
    s.clear(); for (auto &y: v) {if (!s.empty()) s += ' '; s += y;}
   } break;
   default: s = g.bytes(g.size(80)); break;
  }
  for (auto &c: s) if (c == '\n') c = ' ';
  std::istringstream in(s); std::string c; in >> c;
  if (c == "quit" || c == "abort" || c == "timestamp" || c == "prompt" || c == "read_blob" || c == "echo") return false;
  l.expected.clear();
  l.verdict = Line::any;
  return true;
 }

 struct Stand
 {
  Memory_File file;
  Writable_Journal journal;
  Database db;
  Recorder rec;
  Multiplexer all;
  Interpreter interpreter;
  Blob_Reader_Command_Processor blobs;
  Stand(Record_Id max): journal(file), db(max), all{db, rec, journal}, interpreter(db, all, max), blobs(file)
  {
   interpreter.add_processor(blobs);
   interpreter.set_echo(false);
   interpreter.set_rethrow(true);
  }
  bool run(const std::string &line, std::string &out, std::string &error)
  {
   std::istringstream in(line + '\n');
   std::ostringstream o;
   try {interpreter.main_loop(in, o);}
   catch (const Exception &e) {error = e.what(); out = o.str(); return false;}
   out = o.str();
   return true;
  }
 };

 bool same_ops(const Ops &a, const Ops &b)
 {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
  {
   Op x = a[i], y = b[i];
   if ((x.k == K::update || x.k == K::update_vec) && x.type == y.type && (x.type == TId::float32 || x.type == TId::float64))
   {
    if (!same_value(x.type, x.s, y.s) || x.v.size() != y.v.size()) return false;
    for (size_t j = 0; j < x.v.size(); j++) if (!same_value(x.type, x.v[j], y.v[j])) return false;
    x.s = y.s; x.v = y.v;
   }
   if (!(x == y)) return false;
  }
  return true;
 }

 std::string unquoted(const std::string &s)
 {
  std::istringstream in(s);
  std::string r;
  if (s.empty() || s[0] != '"') fail("display-blob", "not quoted: " + hex(s, 40));
  for (size_t i = 1; i < s.size() && s[i] != '"'; i++)
  {
   if (s[i] != '\\') {r += s[i]; continue;}
   if (i + 1 < s.size() && s[i + 1] == 'x') {r += char(std::stoi(s.substr(i + 2, 2), nullptr, 16)); i += 3;}
   else if (i + 1 < s.size() && isdigit((unsigned char)s[i + 1])) {r += char(std::stoi(s.substr(i + 1, 3), nullptr, 8)); i += 3;}
   else {i++; if (i < s.size()) r += s[i];}
  }
  return r;
 }

 // what 'table' and 'record' show
 void check_display(const Words &w, const Model &m, const std::string &out)
 {
  const MTable *t = nullptr;
  for (auto &[i, x]: m.tables) if (x.name == w.words[1]) t = &x;
  if (!t) return;
  std::vector<std::string> lines;
  {std::istringstream in(out); std::string x; while (std::getline(in, x)) lines.push_back(x);}
  auto number = [&](size_t i, int64_t d) {return i < w.words.size() ? int64_t(std::strtoll(w.words[i].c_str(), nullptr, 10)) : d;};
  if (w.words[0] == "table")
  {
   const int64_t start = number(3, 0), length = number(4, 0);
   std::vector<int64_t> ids;
   for (auto &[r, v]: t->rec) if (length == 0 || (r >= start && uint64_t(r) - uint64_t(start) < uint64_t(length))) ids.push_back(r);
   if (lines.size() != 3 + ids.size()) fail("display-table", "'" + w.str_plain() + "' shows " + std::to_string(lines.size()) + " lines for " + std::to_string(ids.size()) + " records");
   for (size_t i = 0; i < ids.size(); i++)
    if (std::strtoll(lines[3 + i].c_str(), nullptr, 10) != ids[i]) fail("display-table-id", "row " + std::to_string(i));
  }
  else if (w.words.size() > 2)
  {
   const int64_t r = number(2, 0);
   if (t->used(r))
   {
    if (lines.empty() || lines[0].compare(0, 5 + std::to_string(r).size() + 1, "id = " + std::to_string(r) + ";")) fail("display-record", out.substr(0, 100));
    if (lines.size() != 1 + t->fields.size()) fail("display-record-fields", std::to_string(lines.size()));
   }
   else if (out.find("used_count: " + std::to_string(t->rec.size()) + "\n") == std::string::npos) fail("display-unused", out.substr(0, 100));
  }
 }

 void commands(Ctx &c, Rng &g)
 {
  vf_new_limit = size_t(16) << 20;
  const Record_Id max = g.chance(1, 2) ? Record_Id(2000) : Record_Id::null;
  Stand s(max);
  Model m;
  Gen gen{g, m};
  gen.limit = g.chance(1, 2) ? 12 : 60;
  gen.max_string = 60;
  if (g.chance(1, 2)) gen.value = [&](uint16_t, uint16_t, TId t) {return t == TId::string ? text_string(g, 40) : random_value(g, t, 60);};
  std::string script, accepted;
  int64_t bad = 0, lines = 0;
  const int64_t n = g.range(15, 70);
  for (int64_t i = 0; i < n; i++)
  {
   c.step();
   Line l; Words w;
   bool found = false, shown = false;
   const int kind = int(g.below(m.tables.empty() ? 6 : 10));
   for (int tries = 0; tries < 30 && !found; tries++)
   {
    if (kind < 6) found = shown = good_line(g, gen, m, s.db, l, w);
    else if (kind < 8) found = bad_line(g, gen, m, s.db, l);
    else found = any_line(g, gen, m, s.db, l);
   }
   if (!found) continue;
   const size_t before = s.rec.ops.size();
   const int64_t position = s.journal.get_position();
   std::string out, error;
   const bool ok = s.run(l.text, out, error);
   s.interpreter.set_echo(false);
   if (getenv("VF_SHOW")) std::cerr << (ok ? "ok  " : "bad ") << l.text << "   " << error << "\n";
   script += l.text; script += '\n'; lines++;
   if (ok) {accepted += l.text; accepted += '\n';}
   const Ops got(s.rec.ops.begin() + std::ptrdiff_t(before), s.rec.ops.end());
   const std::string where = "line '" + json_escape(l.text.substr(0, 300)) + "'";
   if (!ok)
   {
    bad++;
    c.count("rejected");
    if (l.verdict == Line::accepted) fail("valid-command-refused", where + ": " + error);
    if (!got.empty() || s.journal.get_position() != position) fail("rejected-command-had-an-effect", where + ": " + (got.empty() ? "bytes of the journal" : got[0].str()) + " (" + error.substr(0, 100) + ")");
    // after memory is exhausted, the table may stay as large as what was asked: not examined further
    if (error.find("bad_alloc") != std::string::npos) {std::string o2, e2; s.run("create_table after_all_memory_was_used", o2, e2); c.count("out_of_memory"); return;}
    if (error.find("\nLine 1: ") == std::string::npos) fail("error-without-line", where + ": " + error);
   }
   else
   {
    c.count(l.verdict == Line::any ? "arbitrary_accepted" : "accepted");
    if (l.verdict == Line::rejected) fail("invalid-command-accepted", where + (got.empty() ? "" : ": " + got[0].str()));
    if (l.verdict == Line::accepted)
    {
     if (!same_ops(l.expected, got))
     {
      size_t k = 0;
      while (k < got.size() && k < l.expected.size() && same_ops({got[k]}, {l.expected[k]})) k++;
      fail("command-does-something-else", where + ": operation " + std::to_string(k) + ": expected " + (k < l.expected.size() ? l.expected[k].str() : "none") + " got " + (k < got.size() ? got[k].str() : "none"));
     }
     if (shown && w.words.size() > 1 && (w.words[0] == "table" || w.words[0] == "record")) {check_display(w, m, out); c.count("displays");}
     if (shown && w.words[0] == "write_blob")
     {
      std::string o2, e2, b = out; while (!b.empty() && b.back() == '\n') b.pop_back();
      if (!s.run("read_blob " + b, o2, e2)) fail("display-blob", "read_blob " + b + ": " + e2);
      if (unquoted(o2) != l.expected[0].s) fail("display-blob", "read_blob " + b + " shows " + hex(o2, 60));
      c.count("blobs");
     }
    }
   }
   for (auto &o: got)
   {
    if (o.k != K::blob && o.k != K::custom)
    {
     const std::string why = m.invalid(o);
     if (!why.empty() && why != "huge range") fail("accepted-operation-is-invalid", where + ": " + o.str() + ": " + why);
     if (why.empty()) m.apply(o); else throw Inconclusive{"large"};
    }
   }
   if (!ok || g.chance(1, 6)) {compare_readable(s.db, m, "state", true); c.count("states");}
  }
  compare_readable(s.db, m, "state", true);
  // what was written is what was done
  s.journal.soft_checkpoint();
  s.journal.flush();
  {
   Database again(max);
   Readonly_Journal j(s.file);
   j.replay_log(again);
   compare_readable(again, m, "replayed", true);
  }
  // all the lines at once, with errors shown
  {
   Stand all(max);
   all.interpreter.set_rethrow(false);
   std::istringstream in(script);
   std::ostringstream out;
   all.interpreter.main_loop(in, out);
   int64_t shown = 0;
   const std::string o = out.str();
   // a value that was written could hold the same text: lines of output are counted only from their beginning
   for (size_t at = 0; (at = o.find("Exception caught: ", at)) != std::string::npos; at++) if (at == 0 || o[at - 1] == '\n') shown++;
   if (shown < bad || (shown != bad && script.find("Exception") == std::string::npos)) fail("errors-not-reported", std::to_string(shown) + " reported, " + std::to_string(bad) + " lines are wrong");
   compare_readable(all.db, m, "script", true);
   compare_ops(s.rec.ops, all.rec.ops, "script-operations");
   c.count("scripts");
  }
  // the end: what follows quit is not executed
  if (g.chance(1, 4))
  {
   Stand q(max);
   std::string out, error;
   const bool abort = g.chance(1, 2);
   const bool ok = q.run(std::string("create_table first\n") + (abort ? "abort" : "quit") + "\ncreate_table second", out, error);
   if (ok == abort) fail("quit", ok ? "abort did not throw" : error);
   if (q.rec.ops.size() != 1) fail("quit", std::to_string(q.rec.ops.size()) + " operations");
   c.count("quits");
  }
  // without writing commands
  {
   Readable_Interpreter r(s.db);
   r.set_rethrow(false);
   std::istringstream in(script);
   std::ostringstream out;
   r.main_loop(in, out);
   compare_readable(s.db, m, "readonly", true);
  }
  // as a file: refused if a line is wrong, and the same database otherwise
  for (int with_errors = 0; with_errors < 2; with_errors++)
  {
   if (with_errors && bad == 0) continue;
   Memory_File text;
   const std::string t = (with_errors ? script : accepted) + "\n";
   text.pwrite(t.data(), t.size(), 0);
   bool ok = false;
   try
   {
    Abstract_Interpreted_File f(text);
    ok = true;
    Database d;
    Readonly_Journal j(f);
    j.replay_log(d);
    if (!with_errors) compare_readable(d, m, "file", true);
    c.count("files");
   }
   catch (const Exception &e) {if (!with_errors) fail("file-refused", e.what()); c.count("refused_files");}
   if (ok && with_errors) fail("file-with-errors-accepted", std::to_string(bad) + " wrong lines");
  }
  c.sig(std::hash<std::string>()(accepted) ^ (uint64_t(bad) << 40));
  c.count("lines", uint64_t(lines));
  if (g.chance(1, 50)) c.sample(script.substr(0, 500));
 }
}

int main(int argc, char **argv) {return main_loop(argc, argv, {{"commands", commands}});}
