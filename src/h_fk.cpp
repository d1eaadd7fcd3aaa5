// D05: record-identifier bookkeeping against a plain ordered set.
#include "common.h"
#include "joedb/Freedom_Keeper.h"
#include <list>

using namespace vf;
using joedb::Record_Id;

namespace
{
 struct Model
 {
  std::list<int64_t> used;                 // in order of use
  std::vector<std::list<int64_t>::iterator> where;
  std::vector<char> is_used;
  int64_t size() const {return int64_t(is_used.size());}
  void push() {is_used.push_back(0); where.push_back(used.end());}
  void use(int64_t i) {is_used[i] = 1; used.push_back(i); where[i] = std::prev(used.end());}
  void free(int64_t i) {is_used[i] = 0; used.erase(where[i]); where[i] = used.end();}
  bool in(int64_t i) const {return i >= 0 && i < size() && is_used[i];}
  int64_t random_used(Rng &r) const
  {
   if (used.empty()) return -1;
   switch (r.below(4))
   {
    case 0: return used.front();
    case 1: return used.back();
    default:
    {
     int64_t i = int64_t(r.below(is_used.size()));
     for (int64_t k = 0; k < size(); k++) if (is_used[(i + k) % size()]) return (i + k) % size();
     return -1;
    }
   }
  }
  int64_t random_free(Rng &r) const
  {
   if (used.size() == is_used.size()) return -1;
   const int64_t i = r.chance(1, 3) ? 0 : int64_t(r.below(is_used.size()));
   for (int64_t k = 0; k < size(); k++) if (!is_used[(i + k) % size()]) return (i + k) % size();
   return -1;
  }
 };

 int64_t n(Record_Id r) {return joedb::to_underlying(r);}
 Record_Id id(int64_t i) {return Record_Id(joedb::index_t(i));}

 template<typename K> void full_check(Ctx &c, const K &k, const Model &m, const char *what)
 {
  const std::string w = what;
  if (n(k.get_used_count()) != int64_t(m.used.size())) fail("used-count", w);
  if (n(k.get_size()) != m.size() || k.size() != size_t(m.size())) fail("size", w);
  // used list, both directions, in order of use
  auto it = m.used.begin();
  int64_t steps = 0;
  for (Record_Id i = k.get_first_used(); i != K::used_list; i = k.get_next(i), ++it)
  {
   if (it == m.used.end() || *it != n(i)) fail("used-forward", w + " at " + std::to_string(n(i)));
   if (++steps > m.size()) fail("used-loop", w);
  }
  if (it != m.used.end()) fail("used-forward-short", w);
  auto rit = m.used.rbegin();
  steps = 0;
  for (Record_Id i = k.get_previous(K::used_list); i != K::used_list; i = k.get_previous(i), ++rit)
  {
   if (rit == m.used.rend() || *rit != n(i)) fail("used-backward", w + " at " + std::to_string(n(i)));
   if (++steps > m.size()) fail("used-loop-backward", w);
  }
  if (rit != m.used.rend()) fail("used-backward-short", w);
  if (k.get_next(K::used_list) != k.get_first_used()) fail("first-used", w);
  // free list: some order, each once, the same in both directions
  std::vector<int64_t> forward, backward;
  std::vector<char> seen(m.is_used.size());
  for (Record_Id i = k.get_first_free(); i != K::free_list; i = k.get_next(i))
  {
   if (n(i) < 0 || n(i) >= m.size() || m.is_used[n(i)]) fail("free-not-free", w + " " + std::to_string(n(i)));
   if (seen[n(i)]++) fail("free-twice", w);
   forward.push_back(n(i));
  }
  if (int64_t(forward.size()) != m.size() - int64_t(m.used.size())) fail("free-count", w);
  for (Record_Id i = k.get_previous(K::free_list); i != K::free_list; i = k.get_previous(i))
  {
   backward.push_back(n(i));
   if (backward.size() > forward.size()) fail("free-backward", w);
  }
  std::reverse(backward.begin(), backward.end());
  if (backward != forward) fail("free-backward", w);
  for (int64_t i = -3; i < m.size() + 3; i++)
  {
   if (k.is_used(id(i)) != m.in(i)) fail("is-used", w + " " + std::to_string(i));
   if (i >= 0 && k.is_free(id(i)) == m.in(i)) fail("is-free", w + " " + std::to_string(i));
  }
  c.count("full_checks");
  c.count("elements_enumerated", m.is_used.size());
 }

 template<typename K> void query(Ctx &c, Rng &r, const K &k, const Model &m)
 {
  const int64_t i = r.range(-2, m.size() + 2);
  const int64_t len = r.range(1, std::max<int64_t>(1, std::min<int64_t>(m.size() + 2, 1 + int64_t(r.size(200)))));
  bool used = true, free = true;
  for (int64_t j = i; j < i + len; j++)
  {
   if (m.in(j)) free = false; else used = false;
  }
  if (i < 0) used = false;
  if (k.is_used_vector(id(i), size_t(len)) != used) fail("is-used-vector", std::to_string(i) + "+" + std::to_string(len));
  if (i >= 0 && k.is_free_vector(id(i), size_t(len)) != free) fail("is-free-vector", std::to_string(i) + "+" + std::to_string(len));
  // ranges whose end is not representable
  const int64_t top = INT64_MAX - int64_t(r.below(3));
  if (m.size() && k.is_used_vector(id(r.below(m.size())), size_t(top))) fail("is-used-vector-huge");
  if (k.is_used(id(top)) || k.is_used(id(INT64_MIN + int64_t(r.below(3))))) fail("is-used-huge");
  c.count("range_queries");
 }

 // operations valid for the general interfaces (List_Freedom_Keeper, Freedom_Keeper)
 template<typename K> void general(Ctx &c, Rng &r, const char *what)
 {
  K k;
  Model m;
  uint64_t sig = hash_bytes(what);
  const int steps = int(r.range(1, c.thorough ? 400 : 150));
  const int style = int(r.below(5)); // 0: mostly dense, 1: mostly random, 2: grow then shrink, 3: vectors, 4: explicit ids
  const int64_t limit = r.chance(1, 8) ? 5000 : 60;
  full_check(c, k, m, what);
  for (int s = 0; s < steps; s++)
  {
   int op = int(r.below(10));
   if (style == 0 && r.chance(4, 5)) op = r.chance(2, 3) ? 0 : 7;
   if (style == 2 && r.chance(4, 5)) op = s < steps / 2 ? 0 : 2;
   if (style == 3 && r.chance(3, 5)) op = 4 + int(r.below(2));
   if (style == 4 && r.chance(3, 5)) op = r.chance(1, 2) ? 6 : 1;
   sig = mix(sig, op);
   switch (op)
   {
    case 0: // allocate
    {
     const Record_Id f = k.get_free_record();
     if (n(f) < 0 || n(f) > m.size()) fail("allocated-range", what);
     if (m.in(n(f))) fail("allocated-in-use", what);
     if (n(f) == m.size()) m.push();
     k.use(f); m.use(n(f));
     c.count("allocations");
    } break;
    case 1: // use a free identifier
     if (const int64_t f = m.random_free(r); f >= 0) {k.use(id(f)); m.use(f); c.count("explicit_uses");}
     break;
    case 2:
     if (const int64_t u = m.random_used(r); u >= 0) {k.free(id(u)); m.free(u); c.count("releases");}
     break;
    case 3:
     if (m.size() < limit)
     {
      const Record_Id p = k.push_back();
      if (n(p) != m.size()) fail("push-back", what);
      m.push();
     }
     break;
    case 4: // range insertion
    {
     const int64_t len = r.range(1, 12);
     int64_t start;
     if (r.chance(1, 2) && m.size() + len <= limit)
     {
      start = m.size() + (r.chance(1, 4) ? r.range(0, 3) : 0);
      k.resize(id(start + len));
      while (m.size() < start + len) m.push();
     }
     else start = r.range(0, std::max<int64_t>(0, m.size() - len));
     bool ok = start + len <= m.size();
     for (int64_t j = start; ok && j < start + len; j++) if (m.in(j)) ok = false;
     if (ok)
     {
      k.use_vector(id(start), size_t(len));
      for (int64_t j = start; j < start + len; j++) m.use(j);
      c.count("range_uses");
     }
    } break;
    case 5: // range deletion
    {
     if (!m.size()) break;
     int64_t len = r.range(1, 12);
     int64_t start = r.chance(1, 3) ? m.size() - len : r.range(0, m.size() - 1);
     if (start < 0) start = 0;
     int64_t end = start;
     while (end < m.size() && end < start + len && m.in(end)) end++;
     if (end > start)
     {
      k.free_vector(id(start), size_t(end - start));
      for (int64_t j = start; j < end; j++) m.free(j);
      c.count("range_releases");
     }
    } break;
    case 6: // insertion at an identifier chosen by the caller, as when replaying a journal
    {
     const int64_t i = r.range(0, std::min<int64_t>(limit, m.size() + 8));
     if (!m.in(i))
     {
      k.resize(id(i + 1));
      while (m.size() < i + 1) m.push();
      k.use(id(i)); m.use(i);
      c.count("chosen_insertions");
     }
    } break;
    case 7: // release the last
     if (!m.used.empty()) {const int64_t u = m.used.back(); k.free(id(u)); m.free(u); c.count("releases");}
     break;
    case 8:
    {
     const int64_t s2 = r.range(0, std::min<int64_t>(limit, m.size() + 5));
     k.resize(id(s2));
     while (m.size() < s2) m.push();
    } break;
    case 9: query(c, r, k, m); break;
   }
   if (m.size() < 100 || s % 16 == 0) full_check(c, k, m, what);
  }
  query(c, r, k, m);
  full_check(c, k, m, what);
  c.sig(sig);
 }

 void dense(Ctx &c, Rng &r)
 {
  joedb::Dense_Freedom_Keeper k;
  Model m;
  uint64_t sig = 99;
  const int steps = int(r.range(1, 150));
  for (int s = 0; s < steps; s++)
  {
   const int op = int(r.below(8));
   sig = mix(sig, op);
   const int64_t used = int64_t(m.used.size());
   switch (op)
   {
    case 0: case 1:
    {
     const Record_Id f = k.get_free_record();
     if (n(f) != used) fail("dense-allocated");
     if (n(f) == m.size()) m.push();
     if (!k.use(f)) fail("dense-use-refused");
     m.use(n(f)); c.count("allocations");
    } break;
    case 2: if (n(k.push_back()) != m.size()) fail("push-back", "dense"); m.push(); break;
    case 3:
    {
     const int64_t i = r.range(-1, m.size() + 1);
     const bool expected = used > 0 && i == used - 1;
     if (k.free(id(i)) != expected) fail("dense-free", std::to_string(i));
     if (expected) m.free(i);
     c.count("releases");
    } break;
    case 4:
    {
     const int64_t i = r.range(-1, m.size() + 1);
     const bool expected = i == used && i < m.size();
     if (k.use(id(i)) != expected) fail("dense-use", std::to_string(i));
     if (expected) m.use(i);
     c.count("explicit_uses");
    } break;
    case 5:
    {
     const int64_t i = r.chance(1, 2) ? used : r.range(0, m.size() + 1), len = r.range(1, 6);
     if (r.chance(1, 2)) {k.resize(id(i + len)); while (m.size() < i + len) m.push();}
     const bool expected = i == used && i + len <= m.size();
     if (k.use_vector(id(i), size_t(len)) != expected) fail("dense-use-vector");
     if (expected) for (int64_t j = i; j < i + len; j++) m.use(j);
     c.count("range_uses");
    } break;
    case 6:
    {
     const int64_t len = r.range(1, 6), i = std::max<int64_t>(0, r.chance(1, 2) ? used - len : r.range(0, m.size()));
     const bool expected = i + len == used;
     if (k.free_vector(id(i), size_t(len)) != expected) fail("dense-free-vector");
     if (expected) for (int64_t j = i + len; j-- > i;) m.free(j);
     c.count("range_releases");
    } break;
    case 7: query(c, r, k, m); break;
   }
   full_check(c, k, m, "dense");
  }
  c.sig(sig);
 }

 void keeper(Ctx &c, Rng &r)
 {
  switch (r.below(5))
  {
   case 0: general<joedb::List_Freedom_Keeper>(c, r, "list"); break;
   case 1: dense(c, r); break;
   default: general<joedb::Freedom_Keeper>(c, r, "both"); break;
  }
 }
}

int main(int argc, char **argv) {return main_loop(argc, argv, {{"keeper", keeper}});}
