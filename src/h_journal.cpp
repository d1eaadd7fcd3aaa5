// J01: whatever is written to a journal is what replay delivers.
#include "ops.h"
#include "joedb/journal/Stream_File.h"
#include "joedb/journal/Posix_File.h"
#include "joedb/Multiplexer.h"
#include <sstream>

using namespace vf;

namespace
{
 // Returns short reads beyond the header
 class Short_File: public Memory_File
 {
  public:
   mutable Rng g{1};
   size_t max = 1;
   size_t pread(char *b, size_t n, int64_t o) const override
   {
    if (o >= 41 && n > 1) n = 1 + g.below(std::min(n, max));
    return Memory_File::pread(b, n, o);
   }
 };

 // chooses mostly related records so that relative encodings are exercised
 struct Generator
 {
  Rng &g;
  size_t max_string;
  uint16_t t = 1, f = 1;
  int64_t r = 0;
  TId type = TId::int32;
  std::vector<TId> types = all_types();

  Op next()
  {
   Op o;
   // context moves
   switch (g.below(8))
   {
    case 0: case 1: r++; break;
    case 2: r = boundary(g, 58); break;
    case 3: if (g.chance(1, 3)) t = uint16_t(1 + boundary(g, 15)); break;
    case 4: if (g.chance(1, 2)) f = uint16_t(1 + boundary(g, 15)); break;
    case 5: if (g.chance(1, 2)) type = g.pick(types); break;
    default: break;
   }
   o.t = t;
   switch (g.below(22))
   {
    case 0: o.k = K::create_table; o.t = 0; o.s = random_string(g, max_string); break;
    case 1: o.k = K::drop_table; break;
    case 2: o.k = K::rename_table; o.s = random_string(g, max_string); break;
    case 3: o.k = K::add_field; o.s = random_string(g, max_string); o.type = g.pick(types); if (o.type == TId::reference) o.ref = uint16_t(boundary(g, 15)); break;
    case 4: o.k = K::drop_field; o.f = f; break;
    case 5: o.k = K::rename_field; o.f = f; o.s = random_string(g, max_string); break;
    case 6: o.k = K::custom; o.t = 0; o.s = random_string(g, max_string); break;
    case 7: o.k = K::comment; o.t = 0; o.s = random_string(g, max_string); break;
    case 8: o.k = K::timestamp; o.t = 0; o.n = int64_t(g.next()); break;
    case 9: o.k = K::valid_data; o.t = 0; break;
    case 10: case 11: case 12: o.k = K::insert; o.r = r; break;
    case 13: o.k = K::del; o.r = r; break;
    case 14: o.k = K::insert_vec; o.r = r; o.n = boundary(g, 58); break;
    case 15: o.k = K::del_vec; o.r = r; o.n = boundary(g, 58); break;
    case 16:
     o.k = K::update_vec; o.r = r; o.f = f; o.type = type;
     {
      size_t n = g.chance(1, 12) ? 0 : size_t(g.below(20));
      if (type != TId::string && g.chance(1, 4)) n = g.size(3000);
      for (size_t i = 0; i < n; i++) o.v.push_back(random_value(g, type, 60));
     }
    break;
    case 17: o.k = K::blob; o.t = 0; o.s = random_string(g, max_string); break;
    default: o.k = K::update; o.r = r; o.f = f; o.type = type; o.s = random_value(g, type, max_string); break;
   }
   return o;
  }
 };

 void check_blobs(const Ops &ops, const Recorder &rec, const Abstract_File &file)
 {
  size_t b = 0;
  for (auto &o: ops)
   if (o.k == K::blob)
   {
    if (b >= rec.blobs.size()) fail("blob-not-announced");
    const Blob blob = rec.blobs[b++];
    if (blob.get_size() != int64_t(o.s.size()) || file.read_blob(blob) != o.s)
     fail("blob-position", "announced blob does not hold the written bytes");
   }
 }

 void random_replay(Rng &g, Readonly_Journal &j, const Ops &ops, const std::vector<int64_t> &pos, Ctx &c)
 {
  const Ops expected = expected_replay(ops);
  switch (g.below(5))
  {
   case 0:
   {
    Recorder rec;
    j.replay_log(rec);
    compare_ops(expected, rec.ops, "replay_log");
    check_blobs(ops, rec, j.get_file());
    c.count("replay_log");
   }
   break;
   case 1:
   {
    Recorder rec;
    j.rewind();
    for (size_t i = 0; i < ops.size(); i++)
    {
     j.one_step(rec);
     if (j.get_position() != pos[i]) fail("one_step-position", "after " + ops[i].str() + ": " + std::to_string(j.get_position()) + " expected " + std::to_string(pos[i]));
    }
    compare_ops(expected, rec.ops, "one_step");
    c.count("one_step");
   }
   break;
   case 2:
   {
    Recorder rec;
    rec.blob_data = true;
    j.rewind();
    int64_t p = 41;
    while (j.get_position() < j.get_checkpoint())
    {
     p = j.get_position() + 1 + int64_t(g.size(5000));
     if (p > j.get_checkpoint()) p = j.get_checkpoint();
     if (g.chance(1, 2)) j.play_until(rec, p); else {j.raw_play_until(rec, p);}
     if (j.get_position() < p) fail("play_until-short");
     c.count("increments");
    }
    compare_ops(expected, rec.ops, "increments");
   }
   break;
   case 3:
   {
    Recorder rec;
    rec.own = true;
    rec.own_capacity = 4000;
    j.rewind();
    j.play_until_checkpoint(rec);
    if (rec.bad_own) fail("own-storage", "update_vector not delivered in own storage");
    compare_ops(expected, rec.ops, "own-storage");
    if (rec.starts != rec.ends) fail("start-end-writing");
    c.count("own_storage");
   }
   break;
   case 4:
   {
    Recorder rec;
    j.replay_with_checkpoint_comments(rec);
    Ops e;
    for (size_t i = 0; i < ops.size(); i++)
    {
     if (!(ops[i].k == K::update_vec && ops[i].v.empty())) e.push_back(ops[i]);
     Op cm; cm.k = K::comment; cm.s = std::to_string(pos[i]); e.push_back(cm);
    }
    compare_ops(e, rec.ops, "checkpoint_comments");
    c.count("checkpoint_comments");
   }
   break;
  }
 }

 void round_trip(Ctx &c, Rng &g)
 {
  const int kind = int(g.below(4));
  Memory_File mem;
  Short_File shorter; shorter.g = Rng(g.next()); shorter.max = 1 + g.size(5000);
  std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
  const std::string path = c.scratch("j.joedb");
  unlink(path.c_str());
  Stream_File stream(*ss.rdbuf(), Open_Mode::create_new);
  std::unique_ptr<Posix_File> posix, posix_reader;
  Abstract_File *file = &mem, *reader_file = &mem;
  if (kind == 1) file = reader_file = &shorter;
  if (kind == 2) file = reader_file = &stream;

  Ops ops;
  std::vector<int64_t> pos;
  Generator gen{g, g.chance(1, 3) ? size_t(20000) : size_t(30)};
  std::unique_ptr<Readonly_Journal> follower;
  Recorder follower_rec;
  const int sessions = 1 + int(g.below(3));
  uint64_t shape = uint64_t(kind);
  size_t checkpointed = 0;
  bool skipped = false;

  auto check_follower = [&]()
  {
   if (!follower)
   {
    if (kind == 3)
    {
     posix_reader.reset(new Posix_File(path.c_str(), Open_Mode::read_existing));
     reader_file = posix_reader.get();
    }
    follower.reset(new Readonly_Journal(Journal_Construction_Lock(*reader_file, g.chance(1, 4) ? Recovery::overwrite : Recovery::none)));
   }
   follower->pull();
   if (follower->get_checkpoint() != (checkpointed ? pos[checkpointed - 1] : 41)) fail("follower-checkpoint", std::to_string(follower->get_checkpoint()));
   if (g.chance(1, 3)) follower->play_until(follower_rec, follower->get_position() + int64_t(g.below(uint64_t(follower->get_checkpoint() - follower->get_position()) + 1)));
   if (g.chance(2, 3)) follower->play_until_checkpoint(follower_rec);
   Ops e = expected_replay(ops, checkpointed);
   if (follower_rec.ops.size() > e.size()) fail("follower-ahead");
   e.resize(follower_rec.ops.size());
   compare_ops(e, follower_rec.ops, "follower");
   c.count("follower_pulls");
  };

  for (int session = 0; session < sessions; session++)
  {
   if (kind == 3)
   {
    posix.reset();
    posix.reset(new Posix_File(path.c_str(), session == 0 ? Open_Mode::create_new : g.chance(1, 2) ? Open_Mode::write_existing : Open_Mode::shared_write));
    file = posix.get();
   }
   Writable_Journal j{Journal_Construction_Lock(*file, g.chance(1, 8) ? Recovery::overwrite : Recovery::none)};
   if (session > 0)
   {
    if (j.get_checkpoint() != (pos.empty() ? 41 : pos.back())) fail("reopen-checkpoint", std::to_string(j.get_checkpoint()));
    if (g.chance(1, 3))
    {
     j.skip_directly_to(j.get_checkpoint());
     skipped = true;
     c.count("skip");
    }
    else if (g.chance(1, 2))
    {
     Recorder rec;
     j.play_until_checkpoint(rec);
     compare_ops(expected_replay(ops), rec.ops, "reopen-replay");
    }
    else
    {
     random_replay(g, j, ops, pos, c);
     j.play_until_checkpoint(follower_rec);
    }
    c.count("reopens");
   }
   const size_t n = g.chance(1, 6) ? g.below(3) : g.size(120) + 1;
   // pad so that every alignment with the 4096-byte buffer is met
   if (g.chance(1, 3))
   {
    Op o; o.k = K::comment; o.s = std::string(size_t(4060 + g.below(60)), 'x');
    emit(o, j); ops.push_back(o); pos.push_back(j.get_position());
   }
   for (size_t i = 0; i < n; i++)
   {
    const Op o = gen.next();
    const Blob blob = emit(o, j);
    if (o.k == K::blob && blob.get_size() != int64_t(o.s.size())) fail("write_blob-size");
    if (o.k == K::blob) {if (g.chance(1, 2)) {if (file->read_blob(blob) != o.s) fail("write_blob-read");}}
    ops.push_back(o); pos.push_back(j.get_position());
    shape = mix(shape, o.shape());
    c.count(std::string("op_") + kname(o.k));
    if (o.k == K::update || o.k == K::update_vec) c.count(std::string(o.k == K::update ? "update_" : "update_vec_") + tname(o.type));
    if (g.chance(1, 30))
    {
     if (g.chance(1, 2)) j.soft_checkpoint(); else j.hard_checkpoint();
     if (j.get_checkpoint() != j.get_position()) fail("checkpoint-not-at-position");
     checkpointed = ops.size();
     if (g.chance(1, 2)) check_follower();
     if (g.chance(1, 6))
     {
      random_replay(g, j, ops, pos, c);
      Recorder rest; j.play_until_checkpoint(rest);
      if (j.get_position() != pos.back()) fail("replay-end-position");
      c.count("replay_then_write");
     }
    }
    else if (g.chance(1, 40)) j.flush();
   }
   if (g.chance(1, 2)) j.soft_checkpoint();
   else j.hard_checkpoint();
   checkpointed = ops.size();
   if (g.chance(1, 2)) check_follower();
  }
  posix.reset();
  check_follower();
  follower->play_until_checkpoint(follower_rec);
  compare_ops(expected_replay(ops), follower_rec.ops, "follower-end");

  if (kind == 3) {posix_reader.reset(new Posix_File(path.c_str(), Open_Mode::read_existing)); reader_file = posix_reader.get();}
  {
   Readonly_Journal j(*reader_file);
   for (int i = 0; i < 3; i++) random_replay(g, j, ops, pos, c);
  }
  // other ways of producing the same operations
  {
   Readonly_Journal j(*reader_file);
   Memory_File m2, m3;
   // play_until into a journal requires that positions agree, so that all
   // operations are delivered and are encoded relatively to each other in the same way
   const bool raw = skipped || std::any_of(ops.begin(), ops.end(), [](const Op &o){return o.k == K::update_vec && o.v.empty();});
   {
    Writable_Journal w2(m2), w3(m3);
    if (g.chance(1, 2))
    {
     Multiplexer mux{w2, w3};
     if (raw) {j.rewind(); j.raw_play_until_checkpoint(mux);}
     else if (g.chance(1, 2)) j.replay_log(mux);
     else {j.rewind(); while (j.get_position() < j.get_checkpoint()) j.play_until(mux, std::min(j.get_checkpoint(), j.get_position() + 1 + int64_t(g.below(3000))));}
     mux.soft_checkpoint();
     if (m2.get_data().substr(41) != m3.get_data().substr(41)) fail("multiplexer", "two journals fed by a multiplexer differ");
     c.count("multiplexer");
    }
    else
    {
     if (raw) {j.rewind(); j.raw_play_until_checkpoint(w2);} else j.replay_log(w2);
     w2.soft_checkpoint();
     // increments of a verbatim copy
     for (int64_t p: {j.get_checkpoint() / 3, j.get_checkpoint() / 2, j.get_checkpoint()})
      w3.pull_from(j, p);
     if (w3.get_checkpoint() != j.get_checkpoint()) fail("pull_from-checkpoint");
     std::string data(size_t(j.get_checkpoint()) - 41, 0);
     for (size_t o = 0; o < data.size();)
     {
      const size_t k = reader_file->pread(&data[o], data.size() - o, int64_t(o) + 41);
      if (!k) fail("short-file");
      o += k;
     }
     if (m3.get_data().substr(41) != data) fail("pull_from", "copied journal differs");
     c.count("pull_from");
    }
   }
   for (Memory_File *m: {&m2, &m3})
   {
    Readonly_Journal k(*m);
    Recorder rec;
    k.replay_log(rec);
    compare_ops(expected_replay(ops), rec.ops, "copied-journal");
    check_blobs(ops, rec, *m);
   }
  }
  c.count("operations", ops.size());
  c.count("bytes", uint64_t(pos.empty() ? 0 : pos.back()));
  c.sig(shape);
  if (ops.size() > 2) c.sample(ops[0].str() + "; " + ops[1].str() + "; " + ops[2].str() + "; ... (" + std::to_string(ops.size()) + " operations, file kind " + std::to_string(kind) + ", " + std::to_string(sessions) + " sessions)");
  follower.reset();
 }

 // Several writers take turns on one file, as shared clients do: each catches up by
 // replaying or by skipping, then writes with its own idea of the last operation.
 void turns(Ctx &c, Rng &g)
 {
  Memory_File mem;
  const std::string path = c.scratch("t.joedb");
  unlink(path.c_str());
  const bool posix = g.chance(1, 3);
  const int n = 2 + int(g.below(2));
  std::vector<std::unique_ptr<Posix_File>> files;
  std::vector<std::unique_ptr<Writable_Journal>> writers;
  std::vector<Recorder> recs(static_cast<size_t>(n));
  std::vector<bool> skipper;
  Ops ops;
  std::vector<int64_t> pos;
  for (int i = 0; i < n; i++)
  {
   if (posix)
   {
    files.emplace_back(new Posix_File(path.c_str(), Open_Mode::shared_write));
    writers.emplace_back(new Writable_Journal(*files.back()));
   }
   else
    writers.emplace_back(new Writable_Journal(mem));
   skipper.push_back(g.chance(1, 2));
  }
  Generator gen{g, 30};
  uint64_t shape = 7;
  const int rounds = 2 + int(g.below(20));
  for (int round = 0; round < rounds; round++)
  {
   const size_t w = g.below(uint64_t(n));
   Writable_Journal &j = *writers[w];
   if (posix) j.lock_pull(); else j.pull();
   if (j.get_checkpoint() != (pos.empty() ? 41 : pos.back())) fail("turn-checkpoint", std::to_string(j.get_checkpoint()));
   if (skipper[w]) j.skip_directly_to(j.get_checkpoint());
   else
   {
    j.play_until_checkpoint(recs[w]);
    compare_ops(expected_replay(ops), recs[w].ops, "turn-replay");
   }
   const size_t k = 1 + g.below(6);
   for (size_t i = 0; i < k; i++)
   {
    const Op o = gen.next();
    emit(o, j);
    ops.push_back(o); pos.push_back(j.get_position());
    if (!skipper[w] && !(o.k == K::update_vec && o.v.empty())) recs[w].ops.push_back(o);
    shape = mix(shape, o.shape());
   }
   if (g.chance(1, 4)) j.hard_checkpoint(); else j.soft_checkpoint();
   if (posix) j.unlock();
   c.count("turns");
  }
  std::unique_ptr<Posix_File> rf;
  if (posix) rf.reset(new Posix_File(path.c_str(), Open_Mode::read_existing));
  Readonly_Journal r(posix ? (Abstract_File &)*rf : mem);
  Recorder rec;
  r.replay_log(rec);
  compare_ops(expected_replay(ops), rec.ops, "turns");
  c.sig(mix(shape, uint64_t(n)));
  writers.clear();
 }
}

int main(int argc, char **argv)
{
 return main_loop(argc, argv, {{"round_trip", round_trip}, {"turns", turns}});
}
