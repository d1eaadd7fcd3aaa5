// D01-D03: compiled databases, the interpreted database and a map model in lockstep.
#include "glue_alpha.h"
#include "glue_beta.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/File.h"
#include "joedb/Multiplexer.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/error/Out_Of_Date.h"

using namespace vf;

namespace
{
 Ops read_ops(Abstract_File &file)
 {
  Readonly_Journal j(file);
  Recorder r;
  j.replay_log(r);
  return r.ops;
 }
 Ops ops_of_bytes(const std::string &s)
 {
  Readonly_Memory_File f(s.data(), s.size());
  return read_ops(f);
 }
 Ops one_by_one(const Ops &ops)
 {
  Ops r;
  for (auto &o: ops)
  {
   Op x = o;
   if (o.k == K::insert_vec) {x.k = K::insert; x.n = 0; for (int64_t i = 0; i < o.n; i++) {x.r = o.r + i; r.push_back(x);}}
   else if (o.k == K::del_vec) {x.k = K::del; x.n = 0; for (int64_t i = o.n; i-- > 0;) {x.r = o.r + i; r.push_back(x);}}
   else if (o.k == K::update_vec) {x.k = K::update; x.v.clear(); for (size_t i = 0; i < o.v.size(); i++) {x.r = o.r + int64_t(i); x.s = o.v[i]; r.push_back(x);}}
   else r.push_back(x);
  }
  return r;
 }
 bool schema_op(const Op &o) {return o.k <= K::custom;}
 bool data_op(const Op &o) {return o.k >= K::insert && o.k != K::blob;}

 int compare_key(const Model &m, const GIndex &x, const Key &a, const Key &b)
 {
  const MTable &t = m.tables.at(x.table);
  for (size_t i = 0; i < x.fields.size(); i++)
  {
   int c = 0;
   auto cmp = [&](auto p, auto q) {c = p < q ? -1 : q < p ? 1 : 0;};
   switch (t.fields.at(x.fields[i]).type)
   {
    case TId::string: {const int d = a[i].compare(b[i]); c = d < 0 ? -1 : d > 0 ? 1 : 0;} break;
    case TId::int32: cmp(Dec<int32_t>::get(a[i]), Dec<int32_t>::get(b[i])); break;
    case TId::int64: case TId::reference: cmp(Dec<int64_t>::get(a[i]), Dec<int64_t>::get(b[i])); break;
    case TId::int16: cmp(Dec<int16_t>::get(a[i]), Dec<int16_t>::get(b[i])); break;
    case TId::int8: cmp(Dec<int8_t>::get(a[i]), Dec<int8_t>::get(b[i])); break;
    case TId::boolean: cmp(Dec<bool>::get(a[i]), Dec<bool>::get(b[i])); break;
    case TId::float32: cmp(Dec<float>::get(a[i]), Dec<float>::get(b[i])); break;
    case TId::float64: cmp(Dec<double>::get(a[i]), Dec<double>::get(b[i])); break;
    default: fail("harness-key-type");
   }
   if (c) return c;
  }
  return 0;
 }

 // a unique index follows the last of its columns in the schema; any other index follows all of its columns
 inline bool follows(const GIndex &x, uint16_t f)
 {
  if (x.unique) return f == *std::max_element(x.fields.begin(), x.fields.end());
  return std::find(x.fields.begin(), x.fields.end(), f) != x.fields.end();
 }
 // what each index must hold: the key of a record is taken when a column the index follows is set
 template<typename G> struct Keys
 {
  std::vector<std::map<int64_t, Key>> of;
  Keys(): of(G::indexes().size()) {}
  Key current(const Model &m, size_t i, int64_t r) const
  {
   Key k;
   for (uint16_t f: G::indexes()[i].fields) k.push_back(m.tables.at(G::indexes()[i].table).rec.at(r).at(f));
   return k;
  }
  // conflict of setting field f of these records, m already updated
  bool conflict(const Model &m, uint16_t t, uint16_t f, const std::vector<int64_t> &rs) const
  {
   for (size_t i = 0; i < of.size(); i++)
   {
    const GIndex &x = G::indexes()[i];
    if (x.table != t || !x.unique || !follows(x, f)) continue;
    std::set<int64_t> touched(rs.begin(), rs.end());
    std::vector<Key> seen;
    for (auto &[r, k]: of[i]) if (!touched.count(r)) seen.push_back(k);
    for (int64_t r: rs)
    {
     const Key k = current(m, i, r);
     for (auto &s: seen) if (compare_key(m, x, s, k) == 0) return true;
     seen.push_back(k);
    }
   }
   return false;
  }
  void set(const Model &m, uint16_t t, uint16_t f, const std::vector<int64_t> &rs)
  {
   for (size_t i = 0; i < of.size(); i++)
    if (G::indexes()[i].table == t && follows(G::indexes()[i], f))
     for (int64_t r: rs) of[i][r] = current(m, i, r);
  }
  void erase(uint16_t t, int64_t r) {for (size_t i = 0; i < of.size(); i++) if (G::indexes()[i].table == t) of[i].erase(r);}
 };

 template<typename G> void compare_db(typename G::Db &db, const Model &m, const std::string &key, uint16_t only = 0)
 {
  for (auto &[tid, t]: m.tables)
  {
   if (only && tid != only) continue;
   G::enumerate(db, tid, t.order);
   for (auto &[r, values]: t.rec)
    for (auto &[fid, f]: t.fields)
    {
     const std::string v = G::get(db, tid, r, fid);
     if (!same_value(f.type, v, values.at(fid)))
      fail(key + "-value", t.name + "." + f.name + " of record " + std::to_string(r) + ": " + hex(v, 32) + " expected " + hex(values.at(fid), 32));
    }
  }
 }

 template<typename G> void compare_indexes(Ctx &c, Rng &g, typename G::Db &db, const Model &m, const Keys<G> &keys, const std::string &key, uint16_t only = 0)
 {
  for (size_t i = 0; i < keys.of.size(); i++)
  {
   const GIndex &x = G::indexes()[i];
   if (only && x.table != only) continue;
   auto bad = [&](const char *w, const std::string &d = "") {fail(key + "-" + w, x.name + " " + d);};
   const Index_Content content = G::index_content(db, i);
   c.count("index_comparisons");
   if (content.size() != keys.of[i].size()) bad("size", std::to_string(content.size()) + " expected " + std::to_string(keys.of[i].size()));
   for (size_t k = 0; k < content.size(); k++)
   {
    auto &[kk, r] = content[k];
    const auto e = keys.of[i].find(r);
    if (e == keys.of[i].end()) bad("extra", "record " + std::to_string(r));
    if (compare_key(m, x, e->second, kk)) bad("key", "record " + std::to_string(r));
    if (k) {const int o = compare_key(m, x, content[k - 1].first, kk); if (o > 0 || (o == 0 && x.unique)) bad("sorted", "position " + std::to_string(k));}
    if (x.unique)
    {
     if (G::index_next(db, i, r) != (k + 1 < content.size() ? content[k + 1].second : -1)) bad("next", std::to_string(r));
     if (G::index_previous(db, i, r) != (k ? content[k - 1].second : -1)) bad("previous", std::to_string(r));
    }
   }
   std::vector<Key> look;
   for (int j = 0; j < 6 && !content.empty(); j++) look.push_back(g.pick(content).first);
   {
    Key absent; // of record columns, mixed
    const MTable &t = m.tables.at(x.table);
    for (uint16_t f: x.fields) absent.push_back(t.rec.empty() || g.chance(1, 3) ? default_value(t.fields.at(f).type) : t.rec.at(t.order[g.below(t.order.size())]).at(f));
    look.push_back(absent);
   }
   for (auto &k: look)
   {
    std::vector<int64_t> e, f = G::find(db, i, k);
    for (auto &[r, kk]: keys.of[i]) if (compare_key(m, x, kk, k) == 0) e.push_back(r);
    std::sort(f.begin(), f.end());
    c.count(e.empty() ? "absent_lookups" : "lookups");
    if (e != f) bad("find", "found " + std::to_string(f.size()) + " expected " + std::to_string(e.size()));
   }
  }
 }

 // one storage and the ways of opening it
 template<typename G> struct Store
 {
  Ctx &c;
  int kind;
  std::string path;
  std::unique_ptr<Memory_File> memory;
  std::unique_ptr<File> file;
  std::unique_ptr<typename G::Wdb> db;
  std::unique_ptr<typename G::Memory_Database> mdb;
  std::unique_ptr<typename G::File_Database> fdb;
  std::unique_ptr<typename G::Client> client;

  Store(Ctx &c, int kind): c(c), kind(kind), path(c.scratch("db.joedb"))
  {
   std::filesystem::remove(path);
   if (kind == 0) memory = std::make_unique<Memory_File>();
   open();
  }
  ~Store() {close();}
  void open()
  {
   switch (kind)
   {
    case 0: db = std::make_unique<typename G::Wdb>(*memory); break;
    case 1: mdb = std::make_unique<typename G::Memory_Database>(); break;
    case 2: fdb = std::make_unique<typename G::File_Database>(path); break;
    default: file = std::make_unique<File>(path, kind == 3 ? Open_Mode::shared_write : Open_Mode::write_existing_or_create_new);
     client = std::make_unique<typename G::Client>(*file); break;
   }
  }
  void close() {client.reset(); fdb.reset(); db.reset(); file.reset();}
  bool can_reopen() const {return kind != 1;}
  template<typename F> void write(F f)
  {
   if (client) client->transaction([&](typename G::Wdb &w) {f(w);});
   else f(db ? *db : mdb ? *static_cast<typename G::Wdb *>(mdb.get()) : *static_cast<typename G::Wdb *>(fdb.get()));
  }
  typename G::Db &read()
  {
   if (client) return const_cast<typename G::Db &>(client->get_database());
   if (db) return *db;
   if (mdb) return *mdb;
   return *fdb;
  }
  void with_bytes(const std::function<void(Abstract_File &)> &f)
  {
   if (kind == 0) f(*memory);
   else if (kind == 1) f(*mdb);
   else if (kind == 3) {File r(path, Open_Mode::shared_write); f(r);}
   else {File r(path, Open_Mode::read_existing); f(r);}
  }
  std::string bytes()
  {
   std::string s;
   with_bytes([&](Abstract_File &f) {s.resize(size_t(f.get_size())); f.pread(s.data(), s.size(), 0);});
   return s;
  }
 };

 template<typename G> struct Lock
 {
  Ctx &c;
  Rng &g;
  Store<G> st;
  Model m;
  Keys<G> keys;
  joedb::Database idb;
  Ops expected;   // data and information operations, in journal order
  size_t baseline = 0;
  uint64_t shape = 0;

  Lock(Ctx &c, Rng &g, int kind): c(c), g(g), st(c, kind)
  {
   for (auto &o: ops_of_bytes(G::schema())) {m.apply(o); emit(o, idb);}
   checkpoint();
   Ops first;
   st.with_bytes([&](Abstract_File &f) {first = read_ops(f);});
   Ops schema;
   for (auto &o: first) if (schema_op(o)) schema.push_back(o);
   compare_ops(ops_of_bytes(G::schema()), schema, "fresh-schema");
   expected = first;
  }

  void checkpoint()
  {
   if (st.client) return;
   st.write([&](typename G::Wdb &w) {if (g.chance(1, 3)) w.hard_checkpoint(); else w.soft_checkpoint();});
  }

  void apply(const Op &o)
  {
   m.apply(o);
   emit(o, idb);
   expected.push_back(o);
   switch (o.k)
   {
    case K::del: keys.erase(o.t, o.r); break;
    case K::del_vec: for (int64_t i = 0; i < o.n; i++) keys.erase(o.t, o.r + i); break;
    case K::update: keys.set(m, o.t, o.f, {o.r}); break;
    case K::update_vec: {std::vector<int64_t> rs; for (size_t i = 0; i < o.v.size(); i++) rs.push_back(o.r + int64_t(i)); keys.set(m, o.t, o.f, rs);} break;
    default: break;
   }
  }
  bool conflicts(const Op &o)
  {
   if (o.k != K::update && o.k != K::update_vec) return false;
   Model n;
   n.tables[o.t] = m.tables.at(o.t);
   std::vector<int64_t> rs;
   if (o.k == K::update) rs.push_back(o.r); else for (size_t i = 0; i < o.v.size(); i++) rs.push_back(o.r + int64_t(i));
   n.apply(o);
   return keys.conflict(n, o.t, o.f, rs);
  }
  Op set_op(uint16_t t, int64_t r, uint16_t f, const std::string &v)
  {
   Op o; o.k = K::update; o.t = t; o.r = r; o.f = f; o.type = m.tables.at(t).fields.at(f).type; o.s = v; return o;
  }
  bool indexed(uint16_t t, uint16_t f) {for (auto &x: G::indexes()) if (x.table == t) for (auto y: x.fields) if (y == f) return true; return false;}
  std::string value(uint16_t t, uint16_t f, TId type, bool close_values)
  {
   if (!close_values || !indexed(t, f)) return random_value(g, type, g.chance(1, 30) ? 9000 : 40);
   switch (type)
   {
    case TId::string: {static const char *s[] = {"", "a", "b", "ab", "\xc3\xa9", "B"}; const uint64_t k = g.below(8); return k < 6 ? std::string(s[k]) : k == 6 ? std::string("a\0", 2) : std::string("\xff");}
    case TId::reference: return enc(Record_Id(index_t(g.range(-1, 5))));
    case TId::boolean: return enc(g.chance(1, 2));
    case TId::int8: return enc(int8_t(g.range(-2, 2)));
    case TId::int16: return enc(int16_t(g.range(-2, 2)));
    case TId::int32: return enc(int32_t(g.range(-3, 3)));
    case TId::int64: return enc(int64_t(g.chance(1, 5) ? INT64_MIN + int64_t(g.below(2)) : g.chance(1, 5) ? INT64_MAX : g.range(-9, 9)));
    default: return random_value(g, type, 40);
   }
  }

  // one call of the typed interface
  bool step(bool close_values)
  {
   Gen gen{g, m};
   gen.schema = false;
   gen.limit = 70;
   const uint16_t t = gen.any_table();
   const MTable &mt = m.tables.at(t);
   const int kind = int(g.below(20));
   shape = shape * 31 + uint64_t(kind) * 7 + t;
   Op o; o.t = t;
   auto fill = [&](int64_t id) {if (mt.used(id) || id < 0) fail("new-id", "record " + std::to_string(id) + " of " + mt.name + " is in use");};
   switch (kind)
   {
    case 0: case 1: case 2:
     st.write([&](typename G::Wdb &w) {o.r = G::create(w, t);});
     fill(o.r); o.k = K::insert; apply(o); c.count("creations");
    break;
    case 3: case 4:
    {
     std::vector<std::string> v;
     std::vector<Op> sets;
     for (auto &[f, d]: mt.fields) v.push_back(value(t, f, d.type, close_values));
     // predict: would any unique index refuse it?
     {
      Lock<G> *self = this;
      Model n; n.tables[t] = mt;
      Keys<G> k = self->keys;
      const int64_t r = int64_t(1) << 40;
      Op i; i.k = K::insert; i.t = t; i.r = r; n.apply(i);
      size_t j = 0;
      for (auto &[f, d]: mt.fields)
      {
       n.apply(set_op(t, r, f, v[j++]));
       if (k.conflict(n, t, f, {r})) return false;
       k.set(n, t, f, {r});
      }
     }
     int64_t id = -1;
     if (mt.fields.empty()) return false;
     st.write([&](typename G::Wdb &w) {id = G::create_full(w, t, v);});
     fill(id); o.k = K::insert; o.r = id; apply(o);
     size_t j = 0;
     for (auto &[f, d]: mt.fields) apply(set_op(t, id, f, v[j++]));
     c.count("full_creations");
    } break;
    case 5:
     o.k = K::insert; o.r = gen.free_record(mt);
     if (o.r < 0) return false;
     st.write([&](typename G::Wdb &w) {G::insert(w, t, o.r);});
     apply(o); c.count("chosen_insertions");
    break;
    case 6:
     o.k = K::insert_vec; o.n = g.range(g.chance(1, 3) ? 0 : 1, 6);
     if (mt.rec.size() > 60) return false;
     st.write([&](typename G::Wdb &w) {o.r = G::create_vector(w, t, size_t(o.n));});
     for (int64_t i = 0; i < o.n; i++) fill(o.r + i);
     apply(o); c.count("vector_creations");
    break;
    case 7: case 8:
     o.k = K::del; o.r = gen.any_record(mt);
     if (o.r < 0) return false;
     st.write([&](typename G::Wdb &w) {G::erase(w, t, o.r);});
     apply(o); c.count("deletions");
    break;
    case 9:
    {
     o.k = K::del_vec; o.r = gen.any_record(mt); o.n = 0;
     if (o.r < 0) return false;
     const int64_t want = g.range(1, 5);
     while (o.n < want && mt.used(o.r + o.n)) o.n++;
     st.write([&](typename G::Wdb &w) {G::erase_vector(w, t, o.r, size_t(o.n));});
     apply(o); c.count("vector_deletions");
    } break;
    case 10:
     if (!g.chance(1, 4)) return false;
     st.write([&](typename G::Wdb &w) {G::clear(w, t);});
     while (!mt.order.empty()) {Op d; d.k = K::del; d.t = t; d.r = mt.order.back(); apply(d);}
     c.count("clears");
    break;
    case 11: case 12: case 13:
    {
     o.k = K::update_vec; o.f = gen.any_field(mt); o.r = gen.any_record(mt);
     if (!o.f || o.r < 0) return false;
     o.type = mt.fields.at(o.f).type;
     const int64_t want = g.range(1, 7);
     while (int64_t(o.v.size()) < want && mt.used(o.r + int64_t(o.v.size()))) o.v.push_back(value(t, o.f, o.type, close_values));
     if (conflicts(o)) return violation(o);
     st.write([&](typename G::Wdb &w) {G::set_vector(w, t, o.r, o.f, o.v);});
     apply(o); c.count("vector_updates");
    } break;
    case 14:
     o = Op(); o.k = K::comment; o.s = random_string(g, 60);
     if (g.chance(1, 3)) {o.k = K::valid_data; o.s.clear();}
     else if (g.chance(1, 2)) {o.k = K::timestamp; o.n = boundary(g, 60); o.s.clear();}
     st.write([&](typename G::Wdb &w) {if (o.k == K::comment) w.write_comment(o.s); else if (o.k == K::timestamp) w.write_timestamp(o.n); else w.write_valid_data();});
     expected.push_back(o);
    break;
    default:
     o.k = K::update; o.f = gen.any_field(mt); o.r = gen.any_record(mt);
     if (!o.f || o.r < 0) return false;
     o.type = mt.fields.at(o.f).type;
     o.s = value(t, o.f, o.type, close_values);
     if (conflicts(o)) return violation(o);
     st.write([&](typename G::Wdb &w) {G::set(w, t, o.r, o.f, o.s);});
     apply(o); c.count("updates");
   }
   c.count("operations");
   compare_db<G>(st.read(), m, "compiled", t);
   compare_indexes<G>(c, g, st.read(), m, keys, "index", t);
   return true;
  }

  // a unique index must refuse this update, and never hold one key twice; the record is then given a free key
  bool violation(const Op &o)
  {
   if (st.client) return false; // the transaction is cancelled, see C01
   c.count("conflicts");
   bool thrown = false;
   st.write([&](typename G::Wdb &w)
   {
    try {if (o.k == K::update) G::set(w, o.t, o.r, o.f, o.s); else G::set_vector(w, o.t, o.r, o.f, o.v);}
    catch (const joedb::Exception &) {thrown = true;}
   });
   if (!thrown) fail("unique-violation-accepted", o.str());
   std::set<int64_t> touched;
   for (int64_t i = 0; i < (o.k == K::update ? 1 : int64_t(o.v.size())); i++) touched.insert(o.r + i);
   for (size_t i = 0; i < keys.of.size(); i++)
   {
    const GIndex &x = G::indexes()[i];
    const Index_Content content = G::index_content(st.read(), i);
    size_t others = 0;
    for (size_t k = 0; k < content.size(); k++)
    {
     auto &[kk, r] = content[k];
     if (k && x.unique && compare_key(m, x, content[k - 1].first, kk) >= 0) fail("unique-duplicate", x.name);
     if (x.table == o.t && touched.count(r)) continue;
     others++;
     auto e = keys.of[i].find(r);
     if (e == keys.of[i].end() || compare_key(m, x, e->second, kk)) fail("unique-violation-disturbed", x.name + " record " + std::to_string(r));
    }
    size_t expect = 0;
    for (auto &[r, k]: keys.of[i]) if (x.table != o.t || !touched.count(r)) expect++;
    if (others != expect) fail("unique-violation-disturbed", x.name);
   }
   // repair with values no one has
   for (int64_t r: touched)
   {
    for (int tries = 0;; tries++)
    {
     if (tries > 60)
     { // no free key left: delete it
      Op d; d.k = K::del; d.t = o.t; d.r = r;
      st.write([&](typename G::Wdb &w) {G::erase(w, o.t, r);});
      apply(d);
      break;
     }
     const TId type = m.tables.at(o.t).fields.at(o.f).type;
     const Op u = set_op(o.t, r, o.f, type == TId::string ? g.bytes(6) : random_value(g, type, 40));
     keys.erase(o.t, -2);
     // other touched records still hold, at worst, their own former keys or their new ones
     Model n; n.tables[o.t] = m.tables.at(o.t);
     n.apply(u);
     bool clash = keys.conflict(n, o.t, o.f, {r});
     for (size_t i = 0; i < keys.of.size() && !clash; i++)
      if (G::indexes()[i].table == o.t && G::indexes()[i].unique && follows(G::indexes()[i], o.f))
      {
       const Key k = keys.current(n, i, r);
       for (auto &[kk, id]: G::index_content(st.read(), i)) if (id != r && compare_key(m, G::indexes()[i], kk, k) == 0) clash = true;
      }
     if (clash) continue;
     st.write([&](typename G::Wdb &w) {G::set(w, o.t, r, o.f, u.s);});
     apply(u);
     break;
    }
   }
   compare_db<G>(st.read(), m, "repaired", o.t);
   compare_indexes<G>(c, g, st.read(), m, keys, "repaired-index", o.t);
   return true;
  }

  void full(const char *when)
  {
   const std::string w = when;
   compare_db<G>(st.read(), m, w);
   compare_indexes<G>(c, g, st.read(), m, keys, w + "-index");
   compare_readable(idb, m, "interpreted");
   typename G::Readable readable(st.read());
   compare_readable(readable, m, "readable");
  }

  void reopen()
  {
   checkpoint();
   {
    Ops got;
    st.with_bytes([&](Abstract_File &f) {got = read_ops(f);});
    compare_ops(expected_replay(expected), got, "journal");
   }
   c.count("journal_comparisons");
   switch (g.below(5))
   {
    case 0:
     if (st.can_reopen())
     {
      st.close();
      st.open();
      c.count("reopens");
      full("reopened");
      // nothing may have been added
      Ops got;
      st.with_bytes([&](Abstract_File &f) {got = read_ops(f);});
      compare_ops(expected_replay(expected), got, "journal-after-reopen");
     }
    break;
    case 1:
     st.with_bytes([&](Abstract_File &f)
     {
      typename G::Readonly_Database r(f);
      compare_db<G>(r, m, "readonly");
      compare_indexes<G>(c, g, r, m, keys, "readonly-index");
      c.count("readonly_openings");
     });
    break;
    case 2:
     st.with_bytes([&](Abstract_File &f)
     {
      Readonly_Journal j(f);
      joedb::Database d(Record_Id(j.get_checkpoint()));
      j.replay_log(d);
      compare_readable(d, m, "interpreted-replay");
      c.count("interpreted_replays");
     });
    break;
    case 3:
    {
     typename G::Memory_Database d;
     d.soft_checkpoint();
     const Ops before = read_ops(d);
     {
      typename G::Multiplexer mux(d);
      for (auto &o: expected) if (data_op(o)) emit(o, mux);
      mux.soft_checkpoint();
     }
     Ops e = before;
     for (auto &o: expected_replay(expected)) if (data_op(o)) e.push_back(o);
     compare_db<G>(d, m, "multiplexer");
     compare_indexes<G>(c, g, d, m, keys, "multiplexer-index");
     compare_ops(one_by_one(e), one_by_one(read_ops(d)), "multiplexer-journal");
     c.count("multiplexer_feeds");
    } break;
    case 4:
     if (st.kind == 3)
     {
      File r(st.path, Open_Mode::read_existing);
      typename G::Readonly_Client rc(r);
      compare_db<G>(const_cast<typename G::Db &>(rc.get_database()), m, "readonly-client");
      for (int i = 0; i < 5; i++) step(true);
      rc.pull();
      compare_db<G>(const_cast<typename G::Db &>(rc.get_database()), m, "readonly-client-pull");
      compare_indexes<G>(c, g, const_cast<typename G::Db &>(rc.get_database()), m, keys, "readonly-client-index");
      c.count("readonly_client_pulls");
     }
     else if (st.kind == 1)
     {
      const int64_t before = st.mdb->get_size();
      st.mdb->pull();
      if (st.mdb->get_size() != before) fail("memory-pull");
      full("pulled");
     }
    break;
   }
  }

  void run(bool close_values)
  {
   const int n = int(g.range(10, c.thorough ? 150 : 70));
   for (int i = 0; i < n; i++)
   {
    step(close_values);
    c.step();
    if (g.chance(1, 12)) full("full");
    if (g.chance(1, 20)) reopen();
   }
   full("end");
   reopen();
   c.sig(shape * 5 + uint64_t(st.kind));
   std::ostringstream s;
   s << G::name << " store " << st.kind << ": " << expected.size() << " journal operations, ";
   for (auto &[i, t]: m.tables) s << t.name << "=" << t.rec.size() << " ";
   c.sample(s.str());
  }
 };

 template<typename G> void run_lock(Ctx &c, Rng &g, bool close_values)
 {
  const int kind = int(g.below(10));
  Lock<G> l(c, g, kind < 4 ? 0 : kind < 6 ? 1 : kind < 7 ? 2 : kind < 9 ? 3 : 4);
  c.count(std::string("kind_") + std::to_string(l.st.kind));
  l.run(close_values);
 }
 void lockstep(Ctx &c, Rng &g) {if (g.chance(1, 3)) run_lock<Glue_beta>(c, g, false); else run_lock<Glue_alpha>(c, g, g.chance(1, 2));}
 void indexes(Ctx &c, Rng &g) {run_lock<Glue_alpha>(c, g, true);}

 // ---- D03
 bool accepted(const Op &o, Writable &w)
 {
  try {emit(o, w); return true;}
  catch (const std::exception &) {return false;}
 }

 void interpreted(Ctx &c, Rng &g)
 {
  Model m;
  joedb::Database db;
  Gen gen{g, m};
  gen.max_string = 50;
  const int n = int(g.range(20, 150));
  uint64_t shape = 0;
  for (int i = 0; i < n; i++)
  {
   Op o;
   const bool bad = g.chance(1, 4);
   if (!(bad ? gen.invalid(o) : gen.valid(o))) continue;
   const std::string why = m.invalid(o);
   const bool ok = accepted(o, db);
   c.count(why.empty() ? "accepted" : "rejected");
   if (!why.empty()) c.count("reason " + why);
   shape = shape * 31 + o.shape() * 2 + why.empty();
   if (ok != why.empty()) fail(ok ? "invalid-accepted" : "valid-rejected", o.str() + " (" + why + ")");
   if (ok) m.apply(o);
   if (!ok || g.chance(1, 10)) compare_readable(db, m, ok ? "state" : "state-after-rejection");
   c.step();
  }
  compare_readable(db, m, "state");
  c.sig(shape);
 }

 // many records in few bytes of journal
 void sparse(Ctx &c, Rng &g)
 {
  Memory_File f;
  const int64_t n = g.range(2, 20000);
  const bool vector = g.chance(1, 2);
  int64_t size;
  {
   alpha::Writable_Database db(f);
   if (vector) db.new_vector_of_person(size_t(n)); else db.insert_person(alpha::id_of_person(n));
   db.soft_checkpoint();
   size = f.get_size();
  }
  c.count("sparse_journals");
  c.sig(uint64_t(n) * 2 + vector);
  const auto again = [&]()
  {
   alpha::Writable_Database db(f);
   if (db.get_person_table().get_size() != (vector ? n : 1)) fail("sparse-count");
  };
  if (n < size) {again(); return;}
  try {again();}
  catch (const joedb::Exception &e) {fail(vector ? "large-vector-refused" : "large-identifier-refused", e.what());}
 }

 // there are at most 65535 tables and 65535 fields in a table
 void limits(Ctx &c, Rng &g)
 {
  joedb::Database db;
  db.create_table("keep");
  const bool tables = c.case_index % 2;
  int n = 0;
  for (; n < 70000; n++)
  {
   try
   {
    if (tables) {db.create_table("t"); db.drop_table(Table_Id(uint16_t(n + 2)));}
    else {db.add_field(Table_Id(1), "f", Type::int8()); db.drop_field(Table_Id(1), Field_Id(uint16_t(n + 1)));}
   }
   catch (const joedb::Exception &) {break;}
  }
  if (n != (tables ? 65534 : 65535)) fail("identifier-limit", std::to_string(n));
  if (db.find_table("keep") != Table_Id(1) || db.get_tables().size() != 1 || db.get_fields(Table_Id(1)).size()) fail("identifier-limit-state");
  c.count("limits");
  c.sig(uint64_t(tables));
 }

 // operations written through the database of a client: what is refused never reaches the file
 void through_client(Ctx &c, Rng &g)
 {
  Memory_File file;
  Model m;
  Ops good;
  uint64_t shape = 0;
  {
   Writable_Database_Client client(file);
   for (int t = int(g.range(1, 6)); t > 0; t--)
   {
    client.transaction([&](const Readable &db, Writable &w)
    {
     Gen gen{g, m};
     gen.max_string = 50;
     for (int i = int(g.range(1, 25)); i > 0; i--)
     {
      Op o;
      if (!(g.chance(1, 4) ? gen.invalid(o) : gen.valid(o))) continue;
      const std::string why = m.invalid(o);
      const bool ok = accepted(o, w);
      if (ok != why.empty()) fail(ok ? "client-invalid-accepted" : "client-valid-rejected", o.str() + " (" + why + ")");
      if (ok) {m.apply(o); good.push_back(o);}
      c.count(ok ? "client_accepted" : "client_rejected");
      shape = shape * 31 + o.shape() * 2 + ok;
     }
     compare_readable(db, m, "client-state");
    });
    compare_readable(client.get_database(), m, "client-state");
    compare_ops(expected_replay(good), read_ops(file), "client-journal");
   }
  }
  c.sig(shape);
 }

 template<typename F> bool throws(F f)
 {
  try {f(); return false;}
  catch (const std::exception &) {return true;}
 }

 // invalid calls of the typed interface, and journals with one invalid operation
 template<typename G> void typed(Ctx &c, Rng &g)
 {
  Lock<G> l(c, g, 0);
  const int n = int(g.range(5, 40));
  for (int i = 0; i < n; i++) l.step(true);
  Gen gen{g, l.m};
  gen.schema = false;
  for (int i = 0; i < 12; i++)
  {
   Op o;
   if (!gen.invalid(o) || !l.m.table(o.t)) continue;
   const std::string why = l.m.invalid(o);
   if ((o.k == K::update || o.k == K::update_vec) && (!l.m.table(o.t)->fields.count(o.f) || l.m.table(o.t)->fields.at(o.f).type != o.type)) continue; // cannot be written in the typed interface
   if (o.k == K::insert_vec) continue; // the typed interface chooses the identifiers
   if (o.k == K::insert && o.r == INT64_MAX) continue;
   l.shape = l.shape * 31 + o.shape();
   if (g.chance(1, 2))
   {
    const bool thrown = throws([&]() {l.st.write([&](typename G::Wdb &w)
    {
     switch (o.k)
     {
      case K::insert: G::insert(w, o.t, o.r); break;
      case K::del: G::erase(w, o.t, o.r); break;
      case K::del_vec: G::erase_vector(w, o.t, o.r, size_t(o.n)); break;
      case K::update: G::set(w, o.t, o.r, o.f, o.s); break;
      case K::update_vec: G::set_vector(w, o.t, o.r, o.f, o.v); break;
      default: throw joedb::Exception("not a call");
     }
    });});
    c.count(std::string("typed_rejections ") + kname(o.k));
    if (!thrown) fail(std::string("typed-accepted-") + kname(o.k), o.str() + " (" + why + ")");
    compare_db<G>(l.st.read(), l.m, "after-typed-rejection", o.t);
    compare_indexes<G>(c, g, l.st.read(), l.m, l.keys, "after-typed-rejection-index", o.t);
   }
   else
   { // as it would be found in a damaged or hostile journal
    if ((o.r > 3000 && o.k == K::insert) || o.r < -1 || o.r > (int64_t(1) << 60)) continue; // cannot be written in a journal
    if (o.n < 0) continue;
    Memory_File f;
    {
     Writable_Journal j(f);
     for (auto &e: l.expected) emit(e, j);
     emit(o, j);
     j.soft_checkpoint();
    }
    c.count(std::string("replayed_rejections ") + kname(o.k));
    if (!throws([&]() {typename G::Wdb w(f);})) fail(std::string("replay-accepted-") + kname(o.k), o.str() + " (" + why + ")");
    if (!throws([&]() {typename G::Readonly_Database w(f);})) fail(std::string("readonly-replay-accepted-") + kname(o.k), o.str() + " (" + why + ")");
    if (!throws([&]() {joedb::Database d; Readonly_Journal(f).replay_log(d);})) fail(std::string("interpreted-replay-accepted-") + kname(o.k), o.str() + " (" + why + ")");
   }
  }
  l.full("after-rejections");
  l.reopen();
  c.sig(l.shape);
 }
 void typed_mode(Ctx &c, Rng &g) {if (g.chance(1, 3)) typed<Glue_beta>(c, g); else typed<Glue_alpha>(c, g);}
}

int main(int argc, char **argv)
{
 return main_loop(argc, argv, {{"lockstep", lockstep}, {"indexes", indexes}, {"interpreted", interpreted}, {"through_client", through_client}, {"typed", typed_mode}, {"limits", limits}, {"sparse", sparse}});
}
