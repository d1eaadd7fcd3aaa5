// A strict reader of JSON, and SQLite through its shared library.
#pragma once
#include "common.h"
#include "joedb/ui/json.h"
#include "joedb/ui/base64.h"
#include "joedb/ui/SQL_Dump_Writable.h"
#include <dlfcn.h>
#include <cmath>
#include <fstream>

namespace vf
{
 // length of the well-formed UTF-8 sequence at i, or 0 (Unicode, table 3-7)
 inline size_t utf8_length(const std::string &s, size_t i)
 {
  auto at = [&](size_t k) {return i + k < s.size() ? uint8_t(s[i + k]) : 0;};
  const uint8_t a = at(0), b = at(1);
  auto cont = [](uint8_t x) {return x >= 0x80 && x <= 0xbf;};
  if (a < 0x80) return 1;
  if (a >= 0xc2 && a <= 0xdf) return cont(b) ? 2 : 0;
  if (a >= 0xe0 && a <= 0xef)
  {
   if (!cont(b) || !cont(at(2))) return 0;
   if (a == 0xe0 && b < 0xa0) return 0;
   if (a == 0xed && b > 0x9f) return 0;
   return 3;
  }
  if (a >= 0xf0 && a <= 0xf4)
  {
   if (!cont(b) || !cont(at(2)) || !cont(at(3))) return 0;
   if (a == 0xf0 && b < 0x90) return 0;
   if (a == 0xf4 && b > 0x8f) return 0;
   return 4;
  }
  return 0;
 }

 struct Json
 {
  enum Kind {null, boolean, number, string, array, object} kind = null;
  std::string text;
  std::vector<Json> items;
  std::vector<std::string> keys; // of an object, whose values are the items

  struct Parser
  {
   const std::string &s;
   size_t i = 0;
   [[noreturn]] void bad(const char *why) {fail("json-structure", std::string(why) + " at " + std::to_string(i) + ": " + s.substr(i > 30 ? i - 30 : 0, 60));}
   void space() {while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t')) i++;}
   void expect(char c) {if (i >= s.size() || s[i] != c) bad("unexpected character"); i++;}
   std::string str()
   {
    expect('"');
    std::string r;
    while (true)
    {
     if (i >= s.size()) bad("end in a string");
     const uint8_t c = uint8_t(s[i]);
     if (c == '"') {i++; return r;}
     if (c < 0x20) bad("control character");
     if (c == '\\')
     {
      i++;
      if (i >= s.size()) bad("end in a string");
      switch (s[i++])
      {
       case '"': r += '"'; break;
       case '\\': r += '\\'; break;
       case '/': r += '/'; break;
       case 'b': r += '\b'; break;
       case 'f': r += '\f'; break;
       case 'n': r += '\n'; break;
       case 'r': r += '\r'; break;
       case 't': r += '\t'; break;
       case 'u':
       {
        unsigned u = 0;
        for (int k = 0; k < 4; k++)
        {
         if (i >= s.size() || !isxdigit(uint8_t(s[i]))) bad("bad \\u");
         u = u * 16 + unsigned(s[i] <= '9' ? s[i] - '0' : (s[i] | 32) - 'a' + 10);
         i++;
        }
        if (u >= 0xd800 && u < 0xe000) bad("surrogate");
        if (u < 0x80) r += char(u);
        else if (u < 0x800) {r += char(0xc0 | (u >> 6)); r += char(0x80 | (u & 63));}
        else {r += char(0xe0 | (u >> 12)); r += char(0x80 | ((u >> 6) & 63)); r += char(0x80 | (u & 63));}
       } break;
       default: bad("bad escape");
      }
      continue;
     }
     const size_t n = utf8_length(s, i);
     if (!n) bad("not UTF-8");
     r.append(s, i, n);
     i += n;
    }
   }
   Json value()
   {
    space();
    if (i >= s.size()) bad("end");
    Json j;
    if (s[i] == '{')
    {
     j.kind = object; i++; space();
     if (i < s.size() && s[i] == '}') {i++; return j;}
     while (true)
     {
      space();
      std::string k = str();
      for (auto &n: j.keys) if (n == k) bad("the same key twice");
      space(); expect(':');
      j.keys.push_back(k);
      j.items.push_back(value());
      space();
      if (i < s.size() && s[i] == ',') {i++; continue;}
      expect('}');
      return j;
     }
    }
    if (s[i] == '[')
    {
     j.kind = array; i++; space();
     if (i < s.size() && s[i] == ']') {i++; return j;}
     while (true)
     {
      j.items.push_back(value());
      space();
      if (i < s.size() && s[i] == ',') {i++; continue;}
      expect(']');
      return j;
     }
    }
    if (s[i] == '"') {j.kind = string; j.text = str(); return j;}
    for (const char *w: {"true", "false", "null"})
     if (s.compare(i, strlen(w), w) == 0) {i += strlen(w); j.kind = *w == 'n' ? null : boolean; j.text = w; return j;}
    const size_t b = i;
    auto digits = [&] {const size_t a = i; while (i < s.size() && isdigit(uint8_t(s[i]))) i++; if (a == i) bad("bad number");};
    if (s[i] == '-') i++;
    if (i < s.size() && s[i] == '0') i++; else digits();
    if (i < s.size() && s[i] == '.') {i++; digits();}
    if (i < s.size() && (s[i] | 32) == 'e') {i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; digits();}
    j.kind = number;
    j.text = s.substr(b, i - b);
    return j;
   }
  };
  static Json parse(const std::string &s) {Parser p{s}; Json j = p.value(); p.space(); if (p.i != s.size()) p.bad("something after the end"); return j;}
 };

 inline std::string decode64(const std::string &s)
 {
  if (s.size() % 4) fail("json-base64", "length");
  std::string r;
  for (size_t i = 0; i < s.size(); i += 4)
  {
   uint32_t v = 0;
   int pad = 0;
   for (size_t k = 0; k < 4; k++)
   {
    const char c = s[i + k];
    uint32_t d = 0;
    if (c >= 'A' && c <= 'Z') d = uint32_t(c - 'A');
    else if (c >= 'a' && c <= 'z') d = uint32_t(c - 'a') + 26;
    else if (c >= '0' && c <= '9') d = uint32_t(c - '0') + 52;
    else if (c == '+') d = 62;
    else if (c == '/') d = 63;
    else if (c == '=' && i + 4 == s.size() && k >= 2) pad++;
    else fail("json-base64", "character");
    if (c != '=' && pad) fail("json-base64", "padding");
    v = (v << 6) | d;
   }
   r += char(v >> 16);
   if (pad < 2) r += char(v >> 8);
   if (pad < 1) r += char(v);
  }
  return r;
 }

 struct Sql_Value {int type = 5; int64_t integer = 0; double real = 0; std::string bytes;};

 class Sqlite
 {
  struct Api
  {
   int (*open)(const char *, void **);
   int (*close)(void *);
   int (*exec)(void *, const char *, int (*)(void *, int, char **, char **), void *, char **);
   int (*prepare)(void *, const char *, int, void **, const char **);
   int (*step)(void *);
   int (*finalize)(void *);
   int (*column_count)(void *);
   int (*column_type)(void *, int);
   long long (*column_int64)(void *, int);
   double (*column_double)(void *, int);
   const void *(*column_blob)(void *, int);
   int (*column_bytes)(void *, int);
   const char *(*errmsg)(void *);
   Api()
   {
    void *h = dlopen("libsqlite3.so.0", RTLD_NOW);
    if (!h) h = dlopen("libsqlite3.so", RTLD_NOW);
    if (!h) throw Inconclusive{"no SQLite library"};
    auto get = [h](auto &f, const char *n) {f = reinterpret_cast<std::remove_reference_t<decltype(f)>>(dlsym(h, n)); if (!f) throw Inconclusive{"SQLite function"};};
    get(open, "sqlite3_open"); get(close, "sqlite3_close"); get(exec, "sqlite3_exec"); get(prepare, "sqlite3_prepare_v2"); get(step, "sqlite3_step");
    get(finalize, "sqlite3_finalize"); get(column_count, "sqlite3_column_count"); get(column_type, "sqlite3_column_type"); get(column_int64, "sqlite3_column_int64");
    get(column_double, "sqlite3_column_double"); get(column_blob, "sqlite3_column_blob"); get(column_bytes, "sqlite3_column_bytes"); get(errmsg, "sqlite3_errmsg");
   }
  };
  static Api &api() {static Api a; return a;}
  void *db = nullptr;
  public:
  Sqlite() {if (api().open(":memory:", &db)) throw Inconclusive{"SQLite"};}
  ~Sqlite() {api().close(db);}
  Sqlite(const Sqlite &) = delete;
  void run(const std::string &sql, const char *key)
  {
   if (sql.find('\0') != std::string::npos) fail(key, "a zero in the text");
   // statement by statement, to name the one that failed
   const char *p = sql.c_str();
   while (*p)
   {
    void *st = nullptr;
    const char *tail = nullptr;
    if (api().prepare(db, p, -1, &st, &tail)) fail(key, std::string(api().errmsg(db)) + ": " + std::string(p).substr(0, 120));
    if (st)
    {
     int r;
     while ((r = api().step(st)) == 100) {}
     const std::string e = api().errmsg(db);
     api().finalize(st);
     if (r != 101) fail(key, e + ": " + std::string(p).substr(0, 120));
    }
    p = tail;
   }
  }
  std::vector<std::vector<Sql_Value>> query(const std::string &sql)
  {
   void *st = nullptr;
   if (api().prepare(db, sql.c_str(), -1, &st, nullptr)) throw Inconclusive{std::string("query: ") + api().errmsg(db)};
   std::vector<std::vector<Sql_Value>> rows;
   while (api().step(st) == 100)
   {
    rows.emplace_back();
    for (int i = 0; i < api().column_count(st); i++)
    {
     Sql_Value v;
     v.type = api().column_type(st, i);
     v.integer = api().column_int64(st, i);
     v.real = api().column_double(st, i);
     if (v.type == 3 || v.type == 4)
     {
      const void *b = api().column_blob(st, i);
      const int n = api().column_bytes(st, i);
      if (b && n > 0) v.bytes.assign(static_cast<const char *>(b), size_t(n));
     }
     rows.back().push_back(v);
    }
   }
   api().finalize(st);
   return rows;
  }
 };
}
