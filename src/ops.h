// Operations as data: emit them to a Writable, record them from a Writable.
#pragma once
#include "common.h"
#include "joedb/Writable.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Writable_Journal.h"

namespace vf
{
 using namespace joedb;

 enum class K: uint8_t
 {
  create_table, drop_table, rename_table, add_field, drop_field, rename_field, custom, comment, timestamp,
  valid_data, insert, del, insert_vec, del_vec, update, update_vec, blob
 };
 inline const char *kname(K k)
 {
  static const char *n[] = {"create_table", "drop_table", "rename_table", "add_field", "drop_field", "rename_field", "custom", "comment", "timestamp",
  "valid_data", "insert", "delete", "insert_vec", "delete_vec", "update", "update_vec", "blob"};
  return n[int(k)];
 }

 using TId = Type::Type_Id;

 inline std::vector<TId> all_types()
 {
  return
  {
   #define TYPE_MACRO(t, rt, type_id, r, w) TId::type_id,
   #include "joedb/TYPE_MACRO.h"
  };
 }
 inline const char *tname(TId t)
 {
  switch (t)
  {
   case TId::null: return "null";
   #define TYPE_MACRO(t, rt, type_id, r, w) case TId::type_id: return #type_id;
   #include "joedb/TYPE_MACRO.h"
  }
  return "?";
 }

 // a value in canonical bytes: raw memory, except references (8 bytes), blobs (16), strings (themselves)
 inline std::string enc(const std::string &s) {return s;}
 inline std::string enc(std::string_view s) {return std::string(s);}
 inline std::string enc(Record_Id r) {const int64_t v = to_underlying(r); return std::string((const char *)&v, 8);}
 inline std::string enc(Blob b) {const int64_t v[2] = {b.get_position(), b.get_size()}; return std::string((const char *)v, 16);}
 inline std::string enc(bool b) {return std::string(1, char(b));}
 inline std::string enc(char b) {return std::string(1, b);}
 template<typename T> std::string enc(T v) requires (std::is_arithmetic_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>) {return std::string((const char *)&v, sizeof(v));}

 template<typename T> struct Dec
 {
  static T get(const std::string &s) {T v{}; std::memcpy((void *)&v, s.data(), std::min(sizeof(v), s.size())); return v;}
 };
 template<> struct Dec<std::string> {static std::string get(const std::string &s) {return s;}};
 template<> struct Dec<Record_Id> {static Record_Id get(const std::string &s) {return Record_Id(index_t(Dec<int64_t>::get(s)));}};
 template<> struct Dec<Blob> {static Blob get(const std::string &s) {int64_t v[2] = {0, 0}; std::memcpy(v, s.data(), std::min<size_t>(16, s.size())); return Blob(v[0], v[1]);}};

 inline std::string default_value(TId t)
 {
  switch (t)
  {
   case TId::null: return "";
   #define TYPE_MACRO(t, rt, type_id, r, w) case TId::type_id: return enc(t());
   #include "joedb/TYPE_MACRO.h"
  }
  return "";
 }

 struct Op
 {
  K k{};
  uint16_t t = 0, f = 0;
  TId type = TId::null;
  uint16_t ref = 0;
  int64_t r = -1, n = 0;
  std::string s;
  std::vector<std::string> v;
  bool operator==(const Op &o) const
  {
   return k == o.k && t == o.t && f == o.f && type == o.type && ref == o.ref && r == o.r && n == o.n && s == o.s && v == o.v;
  }
  std::string str() const
  {
   std::ostringstream o;
   o << kname(k) << " t=" << t << " f=" << f << " type=" << tname(type) << " ref=" << ref << " r=" << r << " n=" << n;
   if (!s.empty()) o << " s(" << s.size() << ")=" << hex(s, 24);
   if (!v.empty()) o << " v(" << v.size() << ")[0]=" << hex(v[0], 24);
   return o.str();
  }
  uint64_t shape() const {return uint64_t(k) * 131 + uint64_t(type) * 17 + (s.size() > 100) + 2 * (s.size() > 4000) + 4 * (v.size() > 50) + 8 * (r > 5000) + 16 * (t > 31);}
 };

 using Ops = std::vector<Op>;

 // returns the blob for K::blob
 inline Blob emit(const Op &o, Writable &w)
 {
  const Table_Id t{o.t};
  const Field_Id f{o.f};
  const Record_Id r{index_t(o.r)};
  switch (o.k)
  {
   case K::create_table: w.create_table(o.s); break;
   case K::drop_table: w.drop_table(t); break;
   case K::rename_table: w.rename_table(t, o.s); break;
   case K::add_field: w.add_field(t, o.s, o.type == TId::reference ? Type::reference(Table_Id{o.ref}) : Type(o.type)); break;
   case K::drop_field: w.drop_field(t, f); break;
   case K::rename_field: w.rename_field(t, f, o.s); break;
   case K::custom: w.custom(o.s); break;
   case K::comment: w.comment(o.s); break;
   case K::timestamp: w.timestamp(o.n); break;
   case K::valid_data: w.valid_data(); break;
   case K::insert: w.insert_into(t, r); break;
   case K::del: w.delete_from(t, r); break;
   case K::insert_vec: w.insert_vector(t, r, size_t(o.n)); break;
   case K::del_vec: w.delete_vector(t, r, size_t(o.n)); break;
   case K::blob: return w.write_blob(o.s);
   case K::update:
    switch (o.type)
    {
     case TId::null: break;
     #define TYPE_MACRO(ctype, rt, type_id, R, W)\
     case TId::type_id: {const ctype x = Dec<ctype>::get(o.s); w.update_##type_id(t, r, f, x);} break;
     #include "joedb/TYPE_MACRO.h"
    }
   break;
   case K::update_vec:
    switch (o.type)
    {
     case TId::null: break;
     #define TYPE_MACRO(ctype, rt, type_id, R, W)\
     case TId::type_id: {std::vector<ctype> x; x.reserve(o.v.size() + 1); for (auto &s: o.v) x.push_back(Dec<ctype>::get(s)); w.update_vector_##type_id(t, r, f, x.size(), x.data());} break;
     #include "joedb/TYPE_MACRO.h"
    }
   break;
  }
  return Blob();
 }

 // Records every call. With 'own', offers its own storage to update_vector.
 class Recorder: public Writable
 {
  public:
   Ops ops;
   bool blob_data = true, own = false;
   size_t extra_capacity = 0;
   bool bad_own = false;
   std::vector<Blob> blobs;
   uint64_t starts = 0, ends = 0, soft = 0;
   int64_t last_start = -1, last_end = -1;

   void start_writing(int64_t p) override {starts++; last_start = p;}
   void end_writing(int64_t p) override {ends++; last_end = p;}
   void soft_checkpoint() override {soft++;}

   Op &add(K k, uint16_t t = 0, int64_t r = -1) {ops.emplace_back(); Op &o = ops.back(); o.k = k; o.t = t; o.r = r; return o;}
   void create_table(const std::string &n) override {add(K::create_table).s = n;}
   void drop_table(Table_Id t) override {add(K::drop_table, to_underlying(t));}
   void rename_table(Table_Id t, const std::string &n) override {add(K::rename_table, to_underlying(t)).s = n;}
   void add_field(Table_Id t, const std::string &n, Type type) override
   {
    Op &o = add(K::add_field, to_underlying(t)); o.s = n; o.type = type.get_type_id();
    if (o.type == TId::reference) o.ref = to_underlying(type.get_table_id());
   }
   void drop_field(Table_Id t, Field_Id f) override {add(K::drop_field, to_underlying(t)).f = to_underlying(f);}
   void rename_field(Table_Id t, Field_Id f, const std::string &n) override {Op &o = add(K::rename_field, to_underlying(t)); o.f = to_underlying(f); o.s = n;}
   void custom(const std::string &n) override {add(K::custom).s = n;}
   void comment(const std::string &n) override {add(K::comment).s = n;}
   void timestamp(int64_t n) override {add(K::timestamp).n = n;}
   void valid_data() override {add(K::valid_data);}
   void insert_into(Table_Id t, Record_Id r) override {add(K::insert, to_underlying(t), to_underlying(r));}
   void delete_from(Table_Id t, Record_Id r) override {add(K::del, to_underlying(t), to_underlying(r));}
   void insert_vector(Table_Id t, Record_Id r, size_t n) override {add(K::insert_vec, to_underlying(t), to_underlying(r)).n = int64_t(n);}
   void delete_vector(Table_Id t, Record_Id r, size_t n) override {add(K::del_vec, to_underlying(t), to_underlying(r)).n = int64_t(n);}
   #define TYPE_MACRO(ctype, return_type, type_id, R, W)\
   std::vector<ctype> own_##type_id;\
   void update_##type_id(Table_Id t, Record_Id r, Field_Id f, return_type value) override\
   {\
    Op &o = add(K::update, to_underlying(t), to_underlying(r)); o.f = to_underlying(f); o.type = TId::type_id; o.s = enc(value);\
   }\
   void update_vector_##type_id(Table_Id t, Record_Id r, Field_Id f, size_t size, const ctype *value) override\
   {\
    Op &o = add(K::update_vec, to_underlying(t), to_underlying(r)); o.f = to_underlying(f); o.type = TId::type_id;\
    if (own && size && value != own_##type_id.data()) bad_own = true;\
    for (size_t i = 0; i < size; i++) o.v.push_back(enc(value[i]));\
   }\
   ctype *get_own_##type_id##_storage(Table_Id t, Record_Id r, Field_Id f, size_t &capacity) override\
   {\
    if (!own) {capacity = 0; return nullptr;}\
    own_##type_id.clear();\
    own_##type_id.resize(own_capacity + extra_capacity + 1);\
    capacity = size_t(to_underlying(r)) + own_capacity + extra_capacity;\
    return own_##type_id.data();\
   }
   #include "joedb/TYPE_MACRO.h"
   size_t own_capacity = 0;
   void on_blob(Blob b) override {blobs.push_back(b); if (!blob_data) add(K::blob);}
   bool wants_blob_data() const override {return blob_data;}
   Blob write_blob(std::string_view d) override {add(K::blob).s = std::string(d); return Blob();}
 };

 // what a replay must deliver: a journal does not deliver empty vector updates
 inline Ops expected_replay(const Ops &ops, size_t n = size_t(-1))
 {
  Ops r;
  for (size_t i = 0; i < ops.size() && i < n; i++)
   if (!(ops[i].k == K::update_vec && ops[i].v.empty())) r.push_back(ops[i]);
  return r;
 }

 inline void compare_ops(const Ops &expected, const Ops &got, const std::string &key)
 {
  for (size_t i = 0; i < expected.size() || i < got.size(); i++)
  {
   if (i >= expected.size()) fail(key, "extra operation " + std::to_string(i) + ": " + got[i].str());
   if (i >= got.size()) fail(key, "missing operation " + std::to_string(i) + ": " + expected[i].str());
   if (!(expected[i] == got[i]))
    fail(key, "operation " + std::to_string(i) + ": expected " + expected[i].str() + " got " + got[i].str());
  }
 }

 // ---- generation of arbitrary operations (not necessarily valid for a database)
 inline int64_t boundary(Rng &g, int max_bits)
 {
  switch (g.below(5))
  {
   case 0: return int64_t(g.below(4));
   case 1: return int64_t(g.below(40));
   case 2: return int64_t(g.below(10000));
   default:
   {
    const int bits = int(g.below(uint64_t(max_bits) + 1));
    int64_t v = (int64_t(1) << bits) + g.range(-3, 3);
    if (v < 0) v = 0;
    const int64_t m = (int64_t(1) << max_bits) - 4;
    return v > m ? m : v;
   }
  }
 }

 inline std::string random_string(Rng &g, size_t max = 20000)
 {
  size_t n = g.size(max);
  if (g.chance(1, 3) && max > 5000) n = size_t(4096 * (1 + g.below(2)) + g.range(-20, 20));
  if (n > max) n = max;
  switch (g.below(3))
  {
   case 0: return g.bytes(n);
   case 1: return std::string(n, char(g.below(256)));
   default: {std::string s = g.bytes(n); for (auto &c: s) c = char('a' + (unsigned char)c % 26); return s;}
  }
 }

 inline std::string random_value(Rng &g, TId t, size_t max_string = 20000)
 {
  switch (t)
  {
   case TId::null: return "";
   case TId::string: return random_string(g, max_string);
   case TId::reference: return enc(Record_Id(index_t(g.chance(1, 6) ? -1 : boundary(g, 60))));
   case TId::boolean: return enc(g.chance(1, 2));
   case TId::blob: return enc(g.chance(1, 6) ? Blob() : Blob(boundary(g, 60), boundary(g, 60)));
   case TId::int32: return enc(int32_t(g.chance(1, 2) ? g.next() : g.range(-3, 3)));
   case TId::int64: return enc(int64_t(g.chance(1, 2) ? g.next() : g.range(-3, 3)));
   case TId::int16: return enc(int16_t(g.next()));
   case TId::int8: return enc(int8_t(g.next()));
   case TId::float32:
   {
    const uint32_t specials[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7fc12345u, 1u, 0x3f800000u};
    uint32_t u = g.chance(1, 2) ? specials[g.below(8)] : uint32_t(g.next());
    float x; std::memcpy(&x, &u, 4); return std::string((const char *)&u, 4);
   }
   case TId::float64:
   {
    const uint64_t specials[] = {0, 1ULL << 63, 0x7ffULL << 52, 0xfffULL << 52, 0x7ff8000000000000ULL, 1, 0x3ff0000000000000ULL, 0x7ff8000012345678ULL};
    uint64_t u = g.chance(1, 2) ? specials[g.below(8)] : g.next();
    return std::string((const char *)&u, 8);
   }
   default: return default_value(t);
  }
 }
}
