// Helpers used by the generated glue_<schema>.h
#pragma once
#include "model.h"

namespace vf
{
 struct GIndex {std::string name; uint16_t table; std::vector<uint16_t> fields; bool unique;};
 using Key = std::vector<std::string>;
 using Index_Content = std::vector<std::pair<Key, int64_t>>;

 template<typename T> concept Is_Id = requires(T x) {x.get_record_id();};
 template<typename T> std::string to_bytes(const T &x)
 {
  if constexpr (Is_Id<T>) return enc(x.get_record_id());
  else return enc(x);
 }
 template<typename T> T from_bytes(const std::string &s)
 {
  if constexpr (Is_Id<T>) return T(Dec<Record_Id>::get(s));
  else return Dec<T>::get(s);
 }
 template<typename S> void span_write(S s, const std::vector<std::string> &v)
 {
  if (s.get_size() != v.size()) fail("span-size");
  for (size_t i = 0; i < v.size(); i++) s[i] = from_bytes<std::remove_reference_t<decltype(s[0])>>(v[i]);
 }
 template<typename T> void key_of(Key &k, const T &x) {k.push_back(to_bytes(x));}
 template<typename... A> void key_of(Key &k, const std::tuple<A...> &x) {std::apply([&](auto &... e) {(k.push_back(to_bytes(e)), ...);}, x);}
 template<typename M> Index_Content read_index(const M &m)
 {
  Index_Content r;
  for (auto &[k, v]: m) {Key key; key_of(key, k); r.emplace_back(key, v.get_id());}
  return r;
 }
 template<typename R> std::vector<int64_t> found(const R &r)
 {
  std::vector<int64_t> v;
  if constexpr (Is_Id<R>) {if (r.is_not_null()) v.push_back(r.get_id());}
  else
  {
   for (auto x: r) v.push_back(x.get_id());
   if (r.empty() != v.empty() || r.size() != v.size()) fail("range-size");
  }
  return v;
 }
 template<typename D, typename T, typename S, typename I>
 void check_table(const D &db, const T &table, const std::vector<int64_t> &expected, const std::string &name, S sorted, I null)
 {
  auto bad = [&](const char *w) {fail(std::string("accessor-") + w, name);};
  if (!null.is_null() || null.is_not_null()) bad("null");
  if (table.get_size() != index_t(expected.size())) bad("get_size");
  if (table.is_empty() != expected.empty()) bad("is_empty");
  size_t k = 0;
  for (auto r: table) {if (k >= expected.size() || expected[k] != r.get_id()) bad("iteration"); k++; if (!db.is_valid(r)) bad("is_valid");}
  if (k != expected.size()) bad("iteration-short");
  auto it = table.end();
  for (size_t i = expected.size(); i-- > 0;) {--it; if ((*it).get_id() != expected[i]) bad("reverse-iteration");}
  if (it != table.begin()) bad("begin");
  if (!expected.empty())
  {
   if (table.first().get_id() != expected.front()) bad("first");
   if (table.last().get_id() != expected.back()) bad("last");
   auto r = table.first();
   for (size_t i = 1; i < expected.size(); i++) {r = db.next(r); if (r.get_id() != expected[i]) bad("next");}
   if (db.next(r) != table.get_end()) bad("next-end");
   for (size_t i = expected.size() - 1; i-- > 0;) {r = db.previous(r); if (r.get_id() != expected[i]) bad("previous");}
  }
  auto s = sorted([](auto a, auto b) {return a.get_id() > b.get_id();});
  std::vector<int64_t> e = expected, f;
  std::sort(e.begin(), e.end(), std::greater<int64_t>());
  for (auto r: s) f.push_back(r.get_id());
  if (e != f) bad("sorted");
 }
}
