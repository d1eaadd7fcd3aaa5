// D04: a file written by one version of a schema is opened by later versions, and by programs that must refuse it.
#include "glue_up1.h"
#include "glue_up2.h"
#include "glue_up3.h"
#include "glue_up4.h"
#include "glue_beta.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/File.h"
#include "joedb/error/Out_Of_Date.h"

using namespace vf;

namespace
{
 int custom_calls = 0;
 int64_t checkpoint_in_custom = -1;
 bool throw_in_custom = false;
 struct Custom_Failure: public std::runtime_error {Custom_Failure(): std::runtime_error("custom") {}};
 template<typename W> void enter(W &db)
 {
  custom_calls++;
  checkpoint_in_custom = db.get_journal().get_checkpoint();
  if (throw_in_custom) throw Custom_Failure();
 }
}

void up2::Writable_Database::set_default_language(Writable_Database &db)
{
 enter(db);
 const auto english = db.new_language("English", "en");
 for (auto person: db.get_person_table()) db.set_preferred(person, english);
}
void up3::Writable_Database::set_default_language(Writable_Database &db)
{
 enter(db);
 const auto english = db.new_idiom("English", "en");
 for (auto person: db.get_person_table()) db.set_preferred(person, english);
}
void up4::Writable_Database::set_default_language(Writable_Database &db)
{
 enter(db);
 const auto english = db.new_idiom("English", "en");
 for (auto person: db.get_person_table()) db.set_preferred(person, english);
}
void up3::Writable_Database::score_from_years(Writable_Database &db)
{
 enter(db);
 for (auto person: db.get_person_table()) db.set_score(person, db.get_years(person) * 0.5);
}
void up4::Writable_Database::score_from_years(Writable_Database &db)
{
 enter(db);
 if (!db.get_person_table().is_empty()) throw Custom_Failure();
}

namespace
{
 Ops read_ops(Abstract_File &file) {Readonly_Journal j(file); Recorder r; j.replay_log(r); return r.ops;}
 Ops ops_of_bytes(const std::string &s) {Readonly_Memory_File f(s.data(), s.size()); return read_ops(f);}
 std::string bytes(Memory_File &f) {return std::string(f.get_data().data(), f.get_data().size());}
 bool schema_op(const Op &o) {return o.k <= K::custom;}

 struct Version
 {
  Ops schema;
  std::map<std::pair<uint16_t, uint16_t>, std::string> defaults; // (table, field): value for the rows that exist when the field is added
  uint16_t single = 0;
 };
 template<typename G> Version version(int k)
 {
  Version v;
  v.schema = ops_of_bytes(G::schema());
  if (k >= 3)
  {
   v.single = 5;
   v.defaults[{5, 1}] = enc(int32_t(7));
   v.defaults[{5, 2}] = "default title";
   v.defaults[{1, 1}] = "";
   if (k == 3) v.defaults[{1, 2}] = enc(int16_t(0));
   v.defaults[{1, 3}] = enc(Record_Id(-1));
   v.defaults[{1, 4}] = enc(1.5);
   if (k == 4)
   {
    v.defaults[{5, 3}] = enc(0.25f);
    v.defaults[{1, 5}] = "none";
    v.defaults[{1, 6}] = enc(Record_Id(-1));
   }
  }
  return v;
 }

 struct Sim
 {
  Model m;
  Ops journal; // what the journal must hold
  bool refused = false;
  int customs = 0;
  void data(Op o) {m.apply(o); journal.push_back(o);}
  void set(uint16_t t, uint16_t f, int64_t r, const std::string &v)
  {
   Op o; o.k = K::update; o.t = t; o.f = f; o.r = r; o.s = v;
   for (auto &[i, d]: m.tables.at(t).fields) if (i == f) o.type = d.type;
   data(o);
  }
  int64_t free_id(uint16_t t, const Sim &) const {return m.tables.at(t).rec.empty() ? 0 : -1;}
  // the upgrade of this content to version k
  void upgrade(int k, const Version &v)
  {
   Ops have;
   for (auto &o: journal) if (schema_op(o)) have.push_back(o);
   customs = 0;
   if (have.size() >= v.schema.size()) return;
   Op c; c.k = K::comment; c.s = "Automatic schema upgrade"; journal.push_back(c);
   Ops tail(v.schema.begin() + long(have.size()), v.schema.end());
   for (auto &o: tail) journal.push_back(o);
   // the final set of fields is in memory from the start; the journal has the values after the schema
   Model final_schema = m;
   for (auto &o: tail) final_schema.apply(o);
   std::map<uint16_t, uint32_t> nf;
   for (auto &[t, d]: m.tables) nf[t] = d.last_field;
   uint32_t nt = m.last_table;
   const std::set<uint16_t> before = [&]() {std::set<uint16_t> s; for (auto &[t, d]: m.tables) s.insert(t); return s;}();
   m = final_schema;
   for (auto &o: tail)
   {
    if (o.k == K::create_table) {nt++; if (nt == v.single) {Op i; i.k = K::insert; i.t = uint16_t(nt); i.r = 0; data(i);}}
    else if (o.k == K::add_field)
    {
     const uint16_t f = uint16_t(++nf[o.t]);
     auto d = v.defaults.find({o.t, f});
     if (d != v.defaults.end() && m.tables.count(o.t)) for (int64_t r: std::vector<int64_t>(m.tables.at(o.t).order)) set(o.t, f, r, d->second);
    }
    else if (o.k == K::custom)
    {
     customs++;
     const std::vector<int64_t> persons = m.tables.at(1).order;
     if (o.s == "set_default_language")
     {
      Op i; i.k = K::insert; i.t = 3; i.r = 0; data(i);
      set(3, 1, 0, "English"); set(3, 2, 0, "en");
      for (int64_t r: persons) set(1, 3, r, enc(Record_Id(0)));
     }
     else
     {
      if (k == 4 && !persons.empty()) {refused = true; return;}
      if (k == 3) for (int64_t r: persons) set(1, 4, r, enc(double(Dec<int16_t>::get(m.tables.at(1).rec.at(r).at(2)) * 0.5)));
     }
    }
   }
   Op d; d.k = K::valid_data; journal.push_back(d);
  }
 };

 template<typename F> bool throws(F f)
 {
  try {f(); return false;}
  catch (const std::exception &) {return true;}
 }

 template<typename G> void compare_db(typename G::Db &db, const Model &m, const std::string &key)
 {
  for (auto &[tid, t]: m.tables)
  {
   if (!G::single(tid)) G::enumerate(db, tid, t.order);
   for (auto &[r, values]: t.rec)
    for (auto &[fid, f]: t.fields)
    {
     const std::string v = G::get(db, tid, r, fid);
     if (!same_value(f.type, v, values.at(fid))) fail(key + "-value", t.name + "." + f.name + " of record " + std::to_string(r) + ": " + hex(v, 32) + " expected " + hex(values.at(fid), 32));
    }
  }
  typename G::Readable readable(db);
  compare_readable(readable, m, key + "-readable");
  for (size_t i = 0; i < G::indexes().size(); i++)
  { // single-column indexes here: every record whose column was set; at least the uniqueness and the keys
   for (auto &[k, r]: G::index_content(db, i))
    if (!m.tables.at(G::indexes()[i].table).used(r) || !same_value(TId::string, k[0], m.tables.at(G::indexes()[i].table).rec.at(r).at(G::indexes()[i].fields[0])))
     fail(key + "-index", G::indexes()[i].name);
  }
 }

 template<typename G> void writes(Ctx &c, Rng &g, Sim &s, typename G::Wdb &w, int n)
 {
  Gen gen{g, s.m};
  gen.schema = false;
  gen.max_string = 40;
  gen.limit = 40;
  gen.value = [&](uint16_t, uint16_t, TId t) -> std::string
  {
   if (t == TId::string) return g.bytes(8);
   if (t == TId::reference) return enc(Record_Id(index_t(g.range(-1, 10))));
   if (t == TId::float64) return enc(double(g.range(-100, 100)) / 8);
   return random_value(g, t, 40);
  };
  for (int i = 0; i < n; i++)
  {
   Op o;
   if (!gen.valid(o)) continue;
   if (G::single(o.t) && o.k != K::update) continue;
   if (o.k == K::insert_vec) continue;
   switch (o.k)
   {
    case K::insert: if (g.chance(1, 2)) G::insert(w, o.t, o.r); else {o.r = G::create(w, o.t); if (s.m.tables.at(o.t).used(o.r)) fail("new-id");} break;
    case K::del: G::erase(w, o.t, o.r); break;
    case K::del_vec: G::erase_vector(w, o.t, o.r, size_t(o.n)); break;
    case K::update: G::set(w, o.t, o.r, o.f, o.s); break;
    case K::update_vec: G::set_vector(w, o.t, o.r, o.f, o.v); break;
    default: continue;
   }
   s.data(o);
   c.count("writes");
  }
 }

 template<typename G> void must_refuse(Ctx &c, Memory_File &f, const char *what, bool out_of_date = false)
 {
  const std::string before = bytes(f);
  if (!out_of_date)
  {
   if (!throws([&]() {typename G::Wdb w(f);})) fail(std::string("accepted-") + what, G::name);
   if (bytes(f) != before) fail(std::string("refused-but-modified-") + what, G::name);
  }
  bool date = false;
  if (!throws([&]() {
   try {typename G::Readonly_Database r(f);}
   catch (const joedb::Out_Of_Date &) {date = true; throw;}
  })) fail(std::string("accepted-readonly-") + what, G::name);
  if (date != out_of_date) fail("out-of-date-exception", what);
  if (bytes(f) != before) fail(std::string("readonly-modified-") + what, G::name);
  c.count(std::string("refusals_") + what);
 }

 template<typename F> void with_version(int k, F f)
 {
  switch (k)
  {
   case 1: f.template operator()<Glue_up1>(); break;
   case 2: f.template operator()<Glue_up2>(); break;
   case 3: f.template operator()<Glue_up3>(); break;
   default: f.template operator()<Glue_up4>(); break;
  }
 }

 void compare_file(Ctx &c, Memory_File &f, const Sim &s, const std::string &key)
 {
  compare_ops(expected_replay(s.journal), read_ops(f), key + "-journal");
  joedb::Database d;
  Readonly_Journal(f).replay_log(d);
  compare_readable(d, s.m, key + "-interpreted");
  c.count("journal_comparisons");
 }

 void copy_file(Memory_File &from, Memory_File &to) {const std::string b = bytes(from); to.pwrite(b.data(), b.size(), 0);}

 void upgrade(Ctx &c, Rng &g)
 {
  auto f = std::make_unique<Memory_File>();
  Sim s;
  uint64_t shape = 1;
  int k = int(g.range(1, 4)), last = 0;
  for (int life = 0; life < 5; life++)
  {
   shape = shape * 11 + uint64_t(k);
   with_version(k, [&]<typename G>()
   {
    const Version v = version<G>(k);
    if (last)
    {
     if (k > last) must_refuse<G>(c, *f, "old-readonly", true);
     for (int j = 1; j < last; j++) if (g.chance(1, 2)) with_version(j, [&]<typename O>() {must_refuse<O>(c, *f, "newer");});
     if (g.chance(1, 4)) must_refuse<Glue_beta>(c, *f, "foreign");
     if (k > last && g.chance(1, 4))
     { // the custom function fails: the data stay as they were
      Memory_File copy;
      copy_file(*f, copy);
      Sim t = s;
      t.upgrade(k, v);
      if (t.customs && !t.refused)
      {
       throw_in_custom = true;
       bool custom_failure = false;
       try {typename G::Wdb w(copy);}
       catch (const Custom_Failure &) {custom_failure = true;}
       throw_in_custom = false;
       if (!custom_failure) fail("custom-exception-lost");
       compare_file(c, copy, s, "after-custom-failure");
       with_version(last, [&]<typename O>() {typename O::Wdb w(copy, Recovery::overwrite); compare_db<O>(w, s.m, "after-custom-failure");});
       c.count("failed_customs");
      }
     }
    }
    Sim predicted = s;
    predicted.upgrade(k, v);
    custom_calls = 0;
    const int64_t checkpoint_before = last ? Readonly_Journal(*f).get_checkpoint() : 0;
    if (predicted.refused)
    {
     bool refused = false;
     try {typename G::Wdb w(*f);}
     catch (const Custom_Failure &) {refused = true;}
     if (!refused) fail("custom-exception-lost");
     compare_file(c, *f, s, "after-refusal");
     c.count("refused_upgrades");
     // only the older version can go on
     auto copy = std::make_unique<Memory_File>();
     {
      Memory_File &o = *f;
      const int64_t p = Readonly_Journal(o).get_checkpoint();
      const std::string b = bytes(o).substr(0, size_t(p));
      copy->pwrite(b.data(), b.size(), 0);
     }
     f = std::move(copy);
     return;
    }
    const bool by_client = g.chance(1, 3);
    const int n = int(g.range(0, 25));
    if (by_client)
    {
     typename G::Client client(*f);
     s = predicted;
     compare_file(c, *f, s, "client-upgraded");
     client.transaction([&](typename G::Wdb &w) {compare_db<G>(w, s.m, "client-upgraded"); writes<G>(c, g, s, w, n); compare_db<G>(w, s.m, "client-written");});
     c.count("client_upgrades");
    }
    else
    {
     typename G::Wdb w(*f);
     s = predicted;
     compare_db<G>(w, s.m, "upgraded");
     compare_file(c, *f, s, "upgraded");
     if (w.ahead_of_checkpoint()) fail("upgrade-not-checkpointed");
     writes<G>(c, g, s, w, n);
     if (g.chance(1, 2)) w.hard_checkpoint(); else w.soft_checkpoint();
     compare_db<G>(w, s.m, "written");
    }
    if (custom_calls != predicted.customs) fail("custom-calls", std::to_string(custom_calls));
    if (custom_calls)
    {
     c.count("customs", uint64_t(custom_calls));
     // nothing of an upgrade may be visible before all of it is
     const int64_t limit = last ? checkpoint_before : 41;
     if (checkpoint_in_custom > limit) fail("upgrade-visible-early", std::to_string(checkpoint_in_custom) + " > " + std::to_string(limit));
    }
    compare_file(c, *f, s, "written");
    {
     const std::string before = bytes(*f);
     typename G::Readonly_Database r(*f);
     compare_db<G>(r, s.m, "readonly");
     if (bytes(*f) != before) fail("readonly-modified");
    }
    { // opening again changes nothing
     const std::string before = bytes(*f);
     custom_calls = 0;
     typename G::Wdb w(*f);
     compare_db<G>(w, s.m, "again");
     if (custom_calls || bytes(*f) != before) fail("again-modified");
    }
    if (k > last) c.count(last ? "upgrades" : "creations");
    last = k;
   });
   if (!last) return;
   k = int(g.range(last, 4));
   c.step();
  }
  c.sig(shape * 1000003 + s.journal.size());
  c.sample("versions " + std::to_string(shape) + ", " + std::to_string(s.journal.size()) + " operations");
 }

 // schemas that differ somewhere from the one of the program are refused, whatever the data
 void mismatch(Ctx &c, Rng &g)
 {
  const int k = int(g.range(1, 4));
  with_version(k, [&]<typename G>()
  {
   Ops schema = ops_of_bytes(G::schema());
   const size_t at = g.below(schema.size() + 1);
   Model m;
   Ops ops;
   bool changed = false;
   const int how = int(g.below(4));
   for (size_t i = 0; i < schema.size() || i == at; i++)
   {
    if (i == at)
    {
     Op o;
     if (i >= schema.size() || how == 0)
     { // one more operation
      if (g.chance(1, 2)) {o.k = K::create_table; o.s = "intruder";}
      else if (m.tables.size()) {o.k = K::rename_table; o.t = m.tables.begin()->first; o.s = "intruder";}
      else {o.k = K::custom; o.s = "intruder";}
      ops.push_back(o); if (o.k != K::custom) m.apply(o); changed = true;
      if (i >= schema.size()) break;
      ops.push_back(schema[i]);
     }
     else
     {
      o = schema[i];
      if (!o.s.empty()) {o.s[g.below(o.s.size())] = 'q'; if (o.s == schema[i].s) return;}
      else if (o.k == K::drop_table) o.t++;
      else o.f++;
      ops.push_back(o);
      changed = true;
      // stop here, or go on with the rest
      if (how == 1) break;
      continue;
     }
     if (how == 1) break;
     continue;
    }
    ops.push_back(schema[i]);
    if (i < at) m.apply(schema[i]);
   }
   if (!changed) return;
   Memory_File f;
   {
    Writable_Journal j(f);
    for (auto &o: ops) emit(o, j);
    j.soft_checkpoint();
   }
   // a change of the schema that is only a longer prefix is an older file; none here
   const std::string before = bytes(f);
   if (!throws([&]() {typename G::Wdb w(f);})) fail("mismatch-accepted", "operation " + std::to_string(at) + " of version " + std::to_string(k));
   if (!throws([&]() {typename G::Readonly_Database w(f);})) fail("mismatch-accepted-readonly", "operation " + std::to_string(at) + " of version " + std::to_string(k));
   if (bytes(f) != before) fail("mismatch-modified");
   c.count("mismatches");
   c.sig(uint64_t(k) * 1000 + at * 10 + uint64_t(how));
  });
 }

 // an open client or reader meets the upgrade of another program: it must not go on with the old schema
 void concurrent(Ctx &c, Rng &g)
 {
  const std::string path = c.scratch("shared.joedb");
  std::filesystem::remove(path);
  const int a = int(g.range(1, 2)), b = int(g.range(a + 1, a == 1 ? 3 : 3));
  with_version(a, [&]<typename A>() {with_version(b, [&]<typename B>()
  {
   File file(path, Open_Mode::shared_write);
   typename A::Client client(file);
   Sim s;
   s.upgrade(a, version<A>(a));
   client.transaction([&](typename A::Wdb &w) {writes<A>(c, g, s, w, int(g.range(0, 10)));});
   std::unique_ptr<File> rf = std::make_unique<File>(path, Open_Mode::read_existing);
   typename A::Readonly_Client reader(*rf);
   if (g.chance(2, 3))
   {
    File file_b(path, Open_Mode::shared_write);
    typename B::Client client_b(file_b);
    s.upgrade(b, version<B>(b));
    client_b.transaction([&](typename B::Wdb &w) {writes<B>(c, g, s, w, int(g.range(0, 5))); compare_db<B>(w, s.m, "upgrading-client");});
    if (!throws([&]() {client.pull();})) fail("pulled-schema-upgrade");
    if (!throws([&]() {reader.pull();})) fail("reader-pulled-schema-upgrade");
    if (!throws([&]() {client.transaction([&](typename A::Wdb &) {fail("transaction-on-old-schema");});})) fail("transaction-on-old-schema");
    c.count("upgrades_met");
   }
   else
   {
    client.transaction([&](typename A::Wdb &w) {writes<A>(c, g, s, w, 5);});
    reader.pull();
    client.pull();
    compare_db<A>(const_cast<typename A::Db &>(reader.get_database()), s.m, "reader");
    c.count("no_upgrade");
   }
   c.sig(uint64_t(a) * 10 + uint64_t(b) + s.journal.size() * 1000);
   File check(path, Open_Mode::read_existing);
   compare_ops(expected_replay(s.journal), read_ops(check), "concurrent-journal");
  });});
 }
}

int main(int argc, char **argv)
{
 return main_loop(argc, argv, {{"upgrade", upgrade}, {"mismatch", mismatch}, {"concurrent", concurrent}});
}
