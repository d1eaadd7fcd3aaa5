// Shared by all harnesses: random numbers, the case loop, counters, violations.
#pragma once
#include <ctime>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <stdexcept>
#include <algorithm>
#include <sstream>
#include <filesystem>
#include <csignal>
#include <typeinfo>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vf
{
 struct Rng
 {
  uint64_t s;
  explicit Rng(uint64_t seed): s(seed) {next(); next();}
  uint64_t next()
  {
   s += 0x9e3779b97f4a7c15ULL;
   uint64_t z = s;
   z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
   z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
   return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) {return n ? next() % n : 0;}
  int64_t range(int64_t a, int64_t b) {return a + int64_t(below(uint64_t(b - a) + 1));}
  bool chance(int num, int den) {return int(below(den)) < num;}
  template<typename T> const T &pick(const std::vector<T> &v) {return v[below(v.size())];}
  // sizes biased to small values and to the neighbourhood of powers of two
  uint64_t size(uint64_t max)
  {
   uint64_t r;
   switch (below(4))
   {
    case 0: r = below(4); break;
    case 1: r = below(40); break;
    case 2: {r = (uint64_t(1) << below(22)) + below(20); r = r > 10 ? r - 10 : 0;} break;
    default: r = below(max + 1); break;
   }
   return r > max ? below(max + 1) : r;
  }
  std::string bytes(size_t n)
  {
   std::string r(n, 0);
   for (size_t i = 0; i < n; i += 8)
   {
    const uint64_t x = next();
    std::memcpy(&r[i], &x, std::min<size_t>(8, n - i));
   }
   return r;
  }
 };

 inline uint64_t mix(uint64_t a, uint64_t b)
 {
  Rng r(a * 0x9e3779b97f4a7c15ULL + b + 0x1234567);
  return r.next();
 }
 inline uint64_t hash_bytes(const std::string &s, uint64_t h = 1469598103934665603ULL)
 {
  for (unsigned char c: s) {h ^= c; h *= 1099511628211ULL;}
  return h;
 }

 struct Violation
 {
  std::string key, msg;
 };
 [[noreturn]] inline void fail(const std::string &key, const std::string &msg = "") {throw Violation{key, msg};}
 // thrown when a case could not be decided
 struct Inconclusive {std::string why;};

 inline std::string hex(const std::string &s, size_t max = 64)
 {
  static const char *d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < s.size() && i < max; i++) {r += d[(s[i] >> 4) & 15]; r += d[s[i] & 15];}
  if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
  return r;
 }

 struct Progress {volatile int64_t current; volatile int64_t step;};

 struct Ctx
 {
  std::string mode, dir;
  uint64_t seed = 1;       // VERIF_SEED
  bool thorough = false;
  int64_t case_index = 0;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> sigs;
  std::vector<std::string> samples;
  Progress *progress = nullptr;
  void count(const std::string &k, uint64_t n = 1) {counters[k] += n;}
  void sig(uint64_t h) {sigs.insert(h);}
  void sample(const std::string &s) {if (samples.size() < 3) samples.push_back(s.substr(0, 600));}
  void step() {if (progress) progress->step++;}
  std::string scratch(const std::string &name) const {return dir + "/" + name;}
  std::map<std::string, std::string> options;
 };

 inline std::string json_escape(const std::string &s)
 {
  std::string r = "\"";
  for (unsigned char c: s)
  {
   if (c == '"' || c == '\\') {r += '\\'; r += char(c);}
   else if (c < 0x20 || c >= 0x7f) {char b[8]; snprintf(b, 8, "\\u%04x", c); r += b;}
   else r += char(c);
  }
  return r + "\"";
 }

 inline Ctx *&current_ctx() {static Ctx *c = nullptr; return c;}
 inline std::string &out_path() {static std::string s; return s;}

 inline void write_stats(Ctx &c, uint64_t evaluations, uint64_t inconclusive)
 {
  std::ostringstream o;
  o << "{\"evaluations\":" << evaluations << ",\"inconclusive\":" << inconclusive << ",\"counters\":{";
  bool first = true;
  for (auto &[k, v]: c.counters) {o << (first ? "" : ",") << json_escape(k) << ":" << v; first = false;}
  o << "},\"samples\":[";
  first = true;
  for (auto &s: c.samples) {o << (first ? "" : ",") << json_escape(s); first = false;}
  o << "],\"sigs\":[";
  first = true;
  for (auto h: c.sigs) {o << (first ? "" : ",") << h; first = false;}
  o << "]}";
  FILE *f = fopen((out_path() + ".tmp").c_str(), "w");
  if (f) {const std::string s = o.str(); fwrite(s.data(), 1, s.size(), f); fclose(f); rename((out_path() + ".tmp").c_str(), out_path().c_str());}
 }

 inline void report(const Violation &v, int64_t case_index)
 {
  FILE *f = fopen((out_path() + ".viol").c_str(), "a");
  if (!f) return;
  std::string s = "{\"key\":" + json_escape(v.key) + ",\"msg\":" + json_escape(v.msg.substr(0, 3000)) + ",\"case\":" + std::to_string(case_index) + "}\n";
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
 }

 using Mode = std::function<void(Ctx &, Rng &)>;

 inline std::string exception_name(const std::exception &e)
 {
  return std::string(typeid(e).name()) + ": " + e.what();
 }

 // usage: harness MODE --seed S --shard I --shards N --cases K --out F --dir D [--start C] [--only C] [--tier T] [--opt k=v]
 inline int64_t now()
 {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return int64_t(t.tv_sec) * 1000000000 + t.tv_nsec;
 }

 inline int main_loop(int argc, char **argv, const std::map<std::string, Mode> &modes)
 {
  signal(SIGPIPE, SIG_IGN);
  Ctx c;
  current_ctx() = &c;
  int64_t shard = 0, shards = 1, cases = 1, start = 0, only = -1;
  if (argc < 2 || !modes.count(argv[1])) {fprintf(stderr, "unknown mode\n"); return 2;}
  c.mode = argv[1];
  for (int i = 2; i + 1 < argc; i += 2)
  {
   const std::string a = argv[i], b = argv[i + 1];
   if (a == "--seed") c.seed = std::stoull(b);
   else if (a == "--shard") shard = std::stoll(b);
   else if (a == "--shards") shards = std::stoll(b);
   else if (a == "--cases") cases = std::stoll(b);
   else if (a == "--start") start = std::stoll(b);
   else if (a == "--only") only = std::stoll(b);
   else if (a == "--out") out_path() = b;
   else if (a == "--dir") c.dir = b;
   else if (a == "--tier") c.thorough = b == "thorough";
   else if (a == "--opt") c.options[b.substr(0, b.find('='))] = b.substr(b.find('=') + 1);
  }
  std::filesystem::create_directories(c.dir);
  {
   const int fd = open((out_path() + ".progress").c_str(), O_RDWR | O_CREAT, 0644);
   if (fd < 0 || ftruncate(fd, sizeof(Progress))) return 2;
   c.progress = (Progress *)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
   close(fd);
  }
  uint64_t evaluations = 0, inconclusive = 0;
  std::map<std::string, int> keys;
  const Mode &mode = modes.at(c.mode);
  int64_t last_stats = 0;
  for (int64_t k = only >= 0 ? only : start; k < cases || only >= 0; k++)
  {
   if (only < 0 && k % shards != shard) continue;
   c.case_index = k;
   c.progress->current = k;
   c.progress->step = 0;
   Rng rng(mix(mix(c.seed, hash_bytes(c.mode)), uint64_t(k)));
   try
   {
    mode(c, rng);
    evaluations++;
   }
   catch (const Violation &v)
   {
    evaluations++;
    if (keys[v.key]++ < 2) report(v, k);
    if (keys.size() > 8) break;
   }
   catch (const Inconclusive &i)
   {
    inconclusive++;
    fprintf(stderr, "inconclusive case %lld: %s\n", (long long)k, i.why.c_str());
   }
   catch (const std::exception &e)
   {
    evaluations++;
    Violation v{"unexpected-exception", exception_name(e)};
    if (keys[v.key]++ < 2) report(v, k);
   }
   if (++last_stats >= 2000) {write_stats(c, evaluations, inconclusive); last_stats = 0;}
   if (only >= 0) break;
  }
  c.progress->current = -1;
  write_stats(c, evaluations, inconclusive);
  fflush(nullptr);
  _exit(0);
 }
}
