// Histories and their expected textual form, for the text, JSON, SQL and tool harnesses.
#pragma once
#include "model.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/File.h"
#include "joedb/ui/Interpreter.h"
#include "joedb/ui/Interpreter_Dump_Writable.h"
#include "joedb/ui/dump.h"
#include "joedb/Multiplexer.h"

namespace vf
{
 // what the six printed digits of a number stand for
 inline std::string printed(TId t, const std::string &v)
 {
  char b[64];
  if (t == TId::float32) {snprintf(b, sizeof b, "%.6g", double(Dec<float>::get(v))); return enc(strtof(b, nullptr));}
  if (t == TId::float64) {snprintf(b, sizeof b, "%.6g", Dec<double>::get(v)); return enc(strtod(b, nullptr));}
  return v;
 }
 inline Op printed(Op o)
 {
  if (o.k == K::update) o.s = printed(o.type, o.s);
  for (auto &x: o.v) x = printed(o.type, x);
  return o;
 }
 inline Ops printed(Ops ops) {for (auto &o: ops) o = printed(o); return ops;}
 inline Model printed(Model m)
 {
  for (auto &[i, t]: m.tables) for (auto &[r, v]: t.rec) for (auto &[f, x]: v) x = printed(t.fields.at(f).type, x);
  return m;
 }
 // one representation of NaN, so that operations can be compared byte by byte
 inline void one_nan(TId t, std::string &v)
 {
  if (t == TId::float32) {const float x = Dec<float>::get(v); if (x != x) v = enc(__builtin_nanf(""));}
  if (t == TId::float64) {const double x = Dec<double>::get(v); if (x != x) v = enc(__builtin_nan(""));}
 }
 inline Ops one_nan(Ops ops)
 {
  for (auto &o: ops) {if (o.k == K::update) one_nan(o.type, o.s); for (auto &x: o.v) one_nan(o.type, x);}
  return ops;
 }

 struct History
 {
  Ops ops;
  Model m;
  uint64_t shape = 0;
  void add(const Op &o) {m.apply(o); ops.push_back(o); shape = mix(shape, o.shape());}
 };

 // strings that text formats find hard
 inline std::string text_string(Rng &g, size_t max)
 {
  static const char *parts[] = {"\"", "\\", "\n", "\r", "\t", " ", "??", "?", "??=", "\\n", "\\x41", "\\101", "\\0", "'", "--", ";", "a", "0", "7", "\x7f", "\x1f", "\x80", "\xc3\xa9",
   "\xc3", "\xc0\x80", "\xe0\x80\x80", "\xed\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf0\x80\x80\x80", "\xf4\x8f\xbf\xbf", "\xf4\x90\x80\x80",
   "\xf5\x80\x80\x80", "\xf8", "\xff", "\xe2\x82\xac", "\xe2\x82", "\xf0\x9f\x98", "\xf0\x9f\x98\x80", "\xc1\xbf", "\xdf\xbf", "\xe0\xa0\x80", "\xe0\x9f\xbf", "#", "{", "]", "X'", "NULL"};
  std::string s;
  if (g.chance(1, 3)) s = random_string(g, max);
  else for (int64_t n = g.range(0, 8); n > 0; n--)
  {
   if (g.chance(1, 15)) s += '\0';
   else s += parts[g.below(sizeof(parts) / sizeof(*parts))];
  }
  return s;
 }

 struct History_Options
 {
  bool schema = true, events = true, blobs = true, rounded = false, same_case = false;
  int64_t limit = 60;
  std::function<std::string(uint16_t, uint16_t, TId)> value;
 };

 inline std::string lower(std::string s) {for (auto &c: s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s;}

 // SQL does not tell "a" from "A"
 inline bool clashes(const Model &m, const Op &o)
 {
  if (o.k == K::create_table || o.k == K::rename_table)
  {
   if (lower(o.s).compare(0, 7, "sqlite_") == 0) return true;
   for (auto &[i, t]: m.tables) if (lower(t.name) == lower(o.s)) return true;
  }
  if (o.k == K::add_field || o.k == K::rename_field)
   for (auto &[i, f]: m.table(o.t)->fields) if (lower(f.name) == lower(o.s)) return true;
  return false;
 }

 inline bool one_more(Rng &g, History &h, const History_Options &opt, Op &o)
 {
  if (opt.events && g.chance(1, 12))
  {
   o = Op();
   switch (g.below(opt.blobs ? 5 : 4))
   {
    case 0: o.k = K::custom; o.s = identifier(g); break;
    case 1: o.k = K::comment; o.s = text_string(g, 200); break;
    case 2: o.k = K::timestamp; o.n = g.chance(1, 4) ? int64_t(g.next()) : g.chance(1, 4) ? -boundary(g, 60) : boundary(g, 60); break;
    case 3: o.k = K::valid_data; break;
    default: o.k = K::blob; o.s = text_string(g, 3000); break;
   }
   return true;
  }
  Gen gen{g, h.m};
  gen.schema = opt.schema;
  gen.limit = opt.limit;
  gen.value = [&](uint16_t t, uint16_t f, TId type)
  {
   if (opt.value) {const std::string v = opt.value(t, f, type); return opt.rounded ? printed(type, v) : v;}
   std::string v = type == TId::string ? text_string(g, 300) : type == TId::reference && g.chance(2, 3) ? enc(Record_Id(index_t(g.range(-1, opt.limit)))) : random_value(g, type, 300);
   return opt.rounded ? printed(type, v) : v;
  };
  if (!gen.valid(o)) return false;
  return !(opt.same_case && clashes(h.m, o));
 }

 inline History make_history(Rng &g, int64_t n, const History_Options &opt)
 {
  History h;
  for (int64_t i = 0; i < n; i++)
  {
   Op o;
   if (one_more(g, h, opt, o)) h.add(o);
  }
  return h;
 }

 inline void load(const Ops &ops, Writable &w) {for (auto &o: ops) emit(o, w);}

 // A reader of text: commands are executed on 'db' and recorded
 struct Reader
 {
  Database db;
  Recorder rec;
  std::string errors;
  Reader(const std::string &text, bool strict)
  {
   Multiplexer both{db, rec};
   Interpreter interpreter(db, both, Record_Id::null);
   interpreter.set_echo(false);
   interpreter.set_rethrow(strict);
   std::istringstream in(text);
   std::ostringstream out;
   interpreter.main_loop(in, out);
   errors = out.str();
  }
 };

 inline std::string without_blob_positions(const std::string &s)
 {
  std::istringstream in(s);
  std::string r, l;
  while (std::getline(in, l)) if (l.compare(0, 8, "# Blob: ")) {r += l; r += '\n';}
  return r;
 }

 // the model that a dump of the tables gives: identifiers of tables and fields restart at 1
 inline Model renumbered(const Model &m, bool &dangling)
 {
  Model r;
  std::map<uint16_t, uint16_t> to;
  dangling = false;
  for (auto &[i, t]: m.tables) to[i] = uint16_t(to.size() + 1);
  for (auto &[i, t]: m.tables)
  {
   MTable &n = r.tables[to[i]];
   n.name = t.name;
   std::map<uint16_t, uint16_t> fto;
   for (auto &[f, d]: t.fields)
   {
    MField e = d;
    if (d.type == TId::reference)
    {
     if (!to.count(d.ref)) {dangling = true; continue;} // a reference to a table that was dropped cannot be stated
     e.ref = to[d.ref];
    }
    fto[f] = uint16_t(++n.last_field);
    n.fields[fto[f]] = e;
   }
   for (auto &[rid, v]: t.rec)
   {
    n.order.push_back(rid);
    auto &w = n.rec[rid];
    for (auto &[f, nf]: fto) w[nf] = v.at(f);
   }
  }
  r.last_table = uint32_t(to.size());
  return r;
 }
}
