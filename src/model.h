// A simple model of tables: the oracle for the interpreted and compiled databases.
#pragma once
#include "ops.h"
#include "joedb/Readable.h"
#include "joedb/Freedom_Keeper.h"

namespace vf
{
 inline bool valid_identifier(const std::string &s)
 {
  if (s.empty() || (s[0] >= '0' && s[0] <= '9')) return false;
  for (size_t i = 0; i < s.size(); i++)
  {
   const char c = s[i];
   const bool ok = c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9');
   if (!ok || (c == '_' && i && s[i - 1] == '_')) return false;
  }
  return true;
 }

 struct MField {std::string name; TId type; uint16_t ref;};

 struct MTable
 {
  std::string name;
  std::map<uint16_t, MField> fields;
  uint32_t last_field = 0;
  std::map<int64_t, std::map<uint16_t, std::string>> rec;
  std::vector<int64_t> order; // in order of insertion
  bool used(int64_t r) const {return rec.count(r) != 0;}
  void insert(int64_t r)
  {
   auto &v = rec[r];
   for (auto &[f, d]: fields) v[f] = default_value(d.type);
   order.push_back(r);
  }
  void erase(int64_t r)
  {
   rec.erase(r);
   for (size_t i = order.size(); i-- > 0;) if (order[i] == r) {order.erase(order.begin() + long(i)); break;}
  }
 };

 struct Model
 {
  std::map<uint16_t, MTable> tables;
  uint32_t last_table = 0;

  const MTable *table(uint16_t t) const {auto i = tables.find(t); return i == tables.end() ? nullptr : &i->second;}
  uint16_t find(const std::string &n) const {for (auto &[i, t]: tables) if (t.name == n) return i; return 0;}

  // why the operation is not valid, or empty
  std::string invalid(const Op &o) const
  {
   const MTable *t = table(o.t);
   const bool needs_table = o.k != K::create_table && o.k != K::custom && o.k != K::comment && o.k != K::timestamp && o.k != K::valid_data && o.k != K::blob;
   if (needs_table && !t) return "no such table";
   auto names = [&](const MTable &m, const std::string &n) {for (auto &[i, f]: m.fields) if (f.name == n) return true; return false;};
   switch (o.k)
   {
    case K::create_table: case K::rename_table:
     if (!valid_identifier(o.s)) return "bad name";
     if (find(o.s)) return "name used";
    break;
    case K::add_field:
     if (!valid_identifier(o.s)) return "bad name";
     if (names(*t, o.s)) return "name used";
    break;
    case K::drop_field: if (!t->fields.count(o.f)) return "no such field"; break;
    case K::rename_field:
     if (!valid_identifier(o.s)) return "bad name";
     if (!t->fields.count(o.f)) return "no such field";
     if (names(*t, o.s)) return "name used";
    break;
    case K::insert: if (o.r < 0) return "null record"; if (t->used(o.r)) return "record in use"; break;
    case K::del: if (!t->used(o.r)) return "no such record"; break;
    case K::insert_vec:
     if (o.r < 0) return "null record";
     if (o.n < 0 || o.n > 1000000) return "huge range";
     for (int64_t i = 0; i < o.n; i++) if (t->used(o.r + i)) return "record in use";
    break;
    case K::del_vec:
     if (o.n < 0 || o.n > 1000000) return "range outside the table";
     for (int64_t i = 0; i < o.n; i++) if (!t->used(o.r + i)) return i ? "range outside the table" : "no such record";
    break;
    case K::update: case K::update_vec:
    {
     auto f = t->fields.find(o.f);
     if (f == t->fields.end()) return "no such field";
     if (f->second.type != o.type) return "wrong type";
     if (o.k == K::update) {if (!t->used(o.r)) return "no such record";}
     else for (size_t i = 0; i < o.v.size(); i++) if (!t->used(o.r + int64_t(i))) return i ? "range outside the table" : "no such record";
    } break;
    default: break;
   }
   return "";
  }

  void apply(const Op &o)
  {
   switch (o.k)
   {
    case K::create_table: tables[uint16_t(++last_table)].name = o.s; break;
    case K::drop_table: tables.erase(o.t); break;
    case K::rename_table: tables[o.t].name = o.s; break;
    case K::add_field:
    {
     MTable &t = tables[o.t];
     t.fields[uint16_t(++t.last_field)] = MField{o.s, o.type, o.ref};
     for (auto &[r, v]: t.rec) v[uint16_t(t.last_field)] = default_value(o.type);
    } break;
    case K::drop_field: {MTable &t = tables[o.t]; t.fields.erase(o.f); for (auto &[r, v]: t.rec) v.erase(o.f);} break;
    case K::rename_field: tables[o.t].fields[o.f].name = o.s; break;
    case K::insert: tables[o.t].insert(o.r); break;
    case K::del: tables[o.t].erase(o.r); break;
    case K::insert_vec: for (int64_t i = 0; i < o.n; i++) tables[o.t].insert(o.r + i); break;
    case K::del_vec: for (int64_t i = 0; i < o.n; i++) tables[o.t].erase(o.r + i); break;
    case K::update: tables[o.t].rec[o.r][o.f] = o.s; break;
    case K::update_vec: for (size_t i = 0; i < o.v.size(); i++) tables[o.t].rec[o.r + int64_t(i)][o.f] = o.v[i]; break;
    default: break;
   }
  }
 };

 // floats: any NaN equals any NaN (a copy may change its payload)
 inline bool same_value(TId t, const std::string &a, const std::string &b)
 {
  if (a == b) return true;
  if (t == TId::float32) {const float x = Dec<float>::get(a), y = Dec<float>::get(b); return x != x && y != y;}
  if (t == TId::float64) {const double x = Dec<double>::get(a), y = Dec<double>::get(b); return x != x && y != y;}
  return false;
 }

 inline std::string read_value(const joedb::Readable &db, uint16_t t, int64_t r, uint16_t f, TId type)
 {
  switch (type)
  {
   case TId::null: break;
   #define TYPE_MACRO(ctype, rt, type_id, R, W)\
   case TId::type_id: return enc(db.get_##type_id(Table_Id{t}, Record_Id(index_t(r)), Field_Id{f}));
   #include "joedb/TYPE_MACRO.h"
  }
  return "";
 }

 // the Readable holds exactly what the model holds; order: records enumerated in order of insertion
 inline void compare_readable(const joedb::Readable &db, const Model &m, const std::string &key, bool check_order = true)
 {
  const auto &tables = db.get_tables();
  if (tables.size() != m.tables.size()) fail(key + "-tables", "count " + std::to_string(tables.size()) + " expected " + std::to_string(m.tables.size()));
  for (auto &[tid, name]: tables)
  {
   const MTable *t = m.table(to_underlying(tid));
   const std::string where = " table " + std::to_string(to_underlying(tid)) + " " + name;
   if (!t || t->name != name) fail(key + "-table-name", where);
   if (db.find_table(name) != tid || db.get_table_name(tid) != name) fail(key + "-find-table", where);
   const auto &fields = db.get_fields(tid);
   if (fields.size() != t->fields.size()) fail(key + "-fields", where);
   for (auto &[fid, fname]: fields)
   {
    auto f = t->fields.find(to_underlying(fid));
    if (f == t->fields.end() || f->second.name != fname) fail(key + "-field-name", where + "." + fname);
    if (db.find_field(tid, fname) != fid) fail(key + "-find-field", where + "." + fname);
    const Type &ty = db.get_field_type(tid, fid);
    if (ty.get_type_id() != f->second.type) fail(key + "-field-type", where + "." + fname);
    if (f->second.type == TId::reference && to_underlying(ty.get_table_id()) != f->second.ref) fail(key + "-field-reference", where + "." + fname);
   }
   const auto &fk = db.get_freedom(tid);
   if (to_underlying(fk.get_used_count()) != int64_t(t->rec.size())) fail(key + "-count", where + ": " + std::to_string(to_underlying(fk.get_used_count())) + " expected " + std::to_string(t->rec.size()));
   size_t k = 0;
   for (Record_Id r = fk.get_first_used(); r != Freedom_Keeper::used_list; r = fk.get_next(r), k++)
   {
    const int64_t id = to_underlying(r);
    if (!t->used(id)) fail(key + "-extra-record", where + " record " + std::to_string(id));
    if (k >= t->order.size()) fail(key + "-enumeration", where);
    if (check_order && t->order[k] != id) fail(key + "-order", where + " position " + std::to_string(k) + " is " + std::to_string(id) + " expected " + std::to_string(t->order[k]));
    if (!db.is_used(tid, r) || !fk.is_used(r)) fail(key + "-is-used", where);
    for (auto &[fid, f]: t->fields)
    {
     const std::string v = read_value(db, to_underlying(tid), id, fid, f.type);
     const std::string &e = t->rec.at(id).at(fid);
     if (!same_value(f.type, v, e)) fail(key + "-value", where + "." + f.name + " (" + tname(f.type) + ") record " + std::to_string(id) + ": " + hex(v, 24) + " expected " + hex(e, 24));
    }
   }
   if (k != t->rec.size()) fail(key + "-missing-record", where);
   for (int64_t r = 0; r < to_underlying(db.get_size(tid)) + 2; r++)
    if (db.is_used(tid, Record_Id(index_t(r))) != t->used(r)) fail(key + "-is-used", where + " record " + std::to_string(r));
  }
 }

 // ---- random operations on a model
 inline std::string identifier(Rng &g)
 {
  static const char *common[] = {"city", "person", "a", "b", "_x", "name", "table1", "insert", "while", "A_b_9"};
  if (g.chance(1, 2)) return common[g.below(10)];
  std::string s;
  const int n = int(g.range(1, 12));
  for (int i = 0; i < n; i++)
  {
   const char c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"[g.below(63)];
   if (c == '_' && !s.empty() && s.back() == '_') continue;
   if (s.empty() && c >= '0' && c <= '9') continue;
   s += c;
  }
  return s.empty() ? "z" : s;
 }
 inline std::string bad_identifier(Rng &g)
 {
  static const char *bad[] = {"", "1a", "a b", "a__b", "a-b", "\xc3\xa9", "a\n", "\"", "a.b", "__", "9", " a", "a;"};
  return g.chance(1, 10) ? std::string("a\0b", 3) : std::string(bad[g.below(13)]);
 }

 struct Gen
 {
  Rng &g;
  const Model &m;
  bool schema = true;   // may change the schema
  int64_t limit = 60;   // record identifiers
  size_t max_string = 300;
  std::function<std::string(uint16_t, uint16_t, TId)> value;

  uint16_t any_table() {std::vector<uint16_t> v; for (auto &[i, t]: m.tables) v.push_back(i); return v.empty() ? 0 : g.pick(v);}
  uint16_t any_field(const MTable &t) {std::vector<uint16_t> v; for (auto &[i, f]: t.fields) v.push_back(i); return v.empty() ? 0 : g.pick(v);}
  int64_t any_record(const MTable &t)
  {
   if (t.order.empty()) return -1;
   if (g.chance(1, 3)) return t.order.back();
   if (g.chance(1, 4)) return t.rec.rbegin()->first;
   return t.order[g.below(t.order.size())];
  }
  int64_t free_record(const MTable &t)
  {
   const int64_t next = t.rec.empty() ? 0 : t.rec.rbegin()->first + 1;
   if (g.chance(1, 2) && next < limit) return next;
   for (int i = 0; i < 20; i++) {const int64_t r = g.range(0, limit); if (!t.used(r)) return r;}
   return next < limit * 2 ? next : -1;
  }
  std::string val(uint16_t t, uint16_t f, TId type) {return value ? value(t, f, type) : random_value(g, type, max_string);}

  // a valid operation; false when none was found
  bool valid(Op &o)
  {
   o = Op();
   const int kind = int(g.below(schema ? 24 : 18));
   const uint16_t tid = any_table();
   const MTable *t = m.table(tid);
   if (kind >= 18 || !t)
   {
    if (!schema) return false;
    switch (t ? int(g.below(9)) : 0)
    {
     case 0: o.k = K::create_table; o.s = identifier(g); if (m.tables.size() > 5) return false; break;
     case 1: o.k = K::rename_table; o.t = tid; o.s = identifier(g); break;
     case 2: o.k = K::drop_table; o.t = tid; if (!g.chance(1, 4)) return false; break;
     case 3: case 4: case 5: case 6:
      o.k = K::add_field; o.t = tid; o.s = identifier(g); o.type = g.pick(all_types());
      if (o.type == TId::reference) o.ref = any_table();
      if (t->fields.size() > 6) return false;
     break;
     case 7: o.k = K::drop_field; o.t = tid; o.f = any_field(*t); if (!g.chance(1, 3)) return false; break;
     case 8: o.k = K::rename_field; o.t = tid; o.f = any_field(*t); o.s = identifier(g); break;
    }
    return m.invalid(o).empty();
   }
   o.t = tid;
   switch (kind)
   {
    case 0: case 1: case 2: case 3: case 4: o.k = K::insert; o.r = free_record(*t); break;
    case 5: case 6: o.k = K::del; o.r = any_record(*t); break;
    case 7: o.k = K::insert_vec; o.r = free_record(*t); o.n = g.range(0, 7); break;
    case 8:
    {
     o.k = K::del_vec; o.r = any_record(*t); o.n = 0;
     const int64_t want = g.range(0, 6);
     while (o.n < want && t->used(o.r + o.n)) o.n++;
     if (o.r < 0) return false;
    } break;
    case 9: case 10: case 11:
    {
     o.k = K::update_vec; o.f = any_field(*t); o.r = any_record(*t);
     if (!o.f || o.r < 0) return false;
     o.type = t->fields.at(o.f).type;
     const int64_t want = g.range(1, 8);
     while (int64_t(o.v.size()) < want && t->used(o.r + int64_t(o.v.size()))) o.v.push_back(val(tid, o.f, o.type));
    } break;
    default:
     o.k = K::update; o.f = any_field(*t); o.r = any_record(*t);
     if (!o.f || o.r < 0) return false;
     o.type = t->fields.at(o.f).type; o.s = val(tid, o.f, o.type);
   }
   return m.invalid(o).empty();
  }

  // an operation that is not valid; false when none was found
  bool invalid(Op &o)
  {
   for (int tries = 0; tries < 10; tries++)
   {
    o = Op();
    const uint16_t tid = any_table();
    const MTable *t = m.table(tid);
    const uint16_t no_table = uint16_t(g.chance(1, 2) ? m.last_table + 1 + g.below(3) : g.chance(1, 3) ? 0 : g.below(65536));
    const int64_t odd_record = g.chance(1, 4) ? -1 - int64_t(g.below(3)) : g.chance(1, 3) ? INT64_MAX - int64_t(g.below(3)) : g.chance(1, 3) ? INT64_MIN + int64_t(g.below(2)) : g.range(0, limit * 3);
    switch (g.below(schema ? 16 : 9))
    {
     case 0: o.k = K::insert; o.t = g.chance(1, 5) || !t ? no_table : tid; o.r = t && g.chance(2, 3) ? any_record(*t) : -1 - int64_t(g.below(3)); break;
     case 1: o.k = K::del; o.t = g.chance(1, 5) || !t ? no_table : tid; o.r = odd_record; break;
     case 2: o.k = K::insert_vec; o.t = g.chance(1, 5) || !t ? no_table : tid; o.n = g.range(1, 8); o.r = t && g.chance(3, 4) ? any_record(*t) - g.range(0, 5) : -1 - int64_t(g.below(3)); if (g.chance(1, 4)) {o.n = -1 - int64_t(g.below(60)); o.r = g.range(0, limit);} break;
     case 3:
      o.k = K::del_vec; o.t = g.chance(1, 5) || !t ? no_table : tid; o.r = t && g.chance(2, 3) ? any_record(*t) : odd_record;
      o.n = g.chance(1, 5) ? (g.chance(1, 2) ? INT64_MAX - int64_t(g.below(20)) : -1 - int64_t(g.below(20))) : g.range(1, 12);
     break;
     case 4: case 5: case 6: case 7: case 8:
     {
      o.k = g.chance(1, 2) ? K::update : K::update_vec;
      o.t = g.chance(1, 6) || !t ? no_table : tid;
      o.f = t && g.chance(4, 5) ? any_field(*t) : uint16_t(g.chance(1, 2) ? g.below(12) : g.below(65536));
      o.type = t && t->fields.count(o.f) && g.chance(3, 4) ? t->fields.at(o.f).type : g.pick(all_types());
      o.r = t && g.chance(1, 2) ? any_record(*t) : odd_record;
      if (o.k == K::update) o.s = val(o.t, o.f, o.type);
      else for (int64_t n = g.range(1, 10); n > 0; n--) o.v.push_back(val(o.t, o.f, o.type));
     } break;
     case 9: o.k = K::create_table; o.s = t && g.chance(1, 2) ? t->name : bad_identifier(g); break;
     case 10: o.k = K::rename_table; o.t = g.chance(1, 3) || !t ? no_table : tid; o.s = g.chance(1, 2) ? bad_identifier(g) : t ? m.tables.at(any_table()).name : "x"; break;
     case 11: o.k = K::drop_table; o.t = no_table; break;
     case 12: o.k = K::add_field; o.t = g.chance(1, 3) || !t ? no_table : tid; o.type = g.pick(all_types()); o.s = t && any_field(*t) && g.chance(1, 2) ? t->fields.at(any_field(*t)).name : bad_identifier(g); break;
     case 13: o.k = K::drop_field; o.t = g.chance(1, 3) || !t ? no_table : tid; o.f = uint16_t(g.chance(1, 2) ? g.below(12) : g.below(65536)); break;
     default: o.k = K::rename_field; o.t = g.chance(1, 4) || !t ? no_table : tid; o.f = t && g.chance(2, 3) ? any_field(*t) : uint16_t(g.below(12)); o.s = t && any_field(*t) && g.chance(1, 2) ? t->fields.at(any_field(*t)).name : g.chance(1, 2) ? bad_identifier(g) : identifier(g); break;
    }
    if (o.k == K::update_vec && o.v.empty()) continue;
    if (!m.invalid(o).empty()) return true;
   }
   return false;
  }
 };
}
