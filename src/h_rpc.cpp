// R01: remote procedures against the same procedures called locally; hostile clients of the server of procedures.
#include "rpc_common.h"

namespace
{
 std::string handshake_bytes(const std::vector<rpc::Signature> &s)
 {
  std::string all;
  auto length = [&](size_t n)
  {
   // as strings are written everywhere: compact length, then bytes. The oracle does not depend on it: a wrong hash is refused
   (void)n;
  };
  length(0);
  const SHA_256::Hash h = rpc::get_hash(s);
  return std::string((const char *)&h, 32);
 }

 void hostile(Ctx &c, Rng &g)
 {
  const int threads = g.chance(1, 2) ? 1 : 2 + int(g.below(3));
  Remote remote(c.scratch("r.sock"), threads, int(g.below(5)));
  std::string trace;
  uint64_t sig = uint64_t(threads);
  auto bad = [&](const std::string &key, const std::string &msg) {fail(key, msg + ": " + trace.substr(trace.size() > 1500 ? trace.size() - 1500 : 0));};
  const std::string good = handshake_bytes(remote.signatures);
  int64_t total = 0;
  Local_Channel channel(remote.endpoint);
  svc::rpc::Client honest(channel);
  const int rounds = 2 + int(g.below(8));
  for (int round = 0; round < rounds; round++)
  {
   c.step();
   trace += " |";
   Socket s;
   if (!s.open_at(remote.endpoint)) bad("connect-refused", "");
   std::string m;
   const int start = int(g.below(8));
   if (start == 0) {m = g.bytes(g.below(60)); trace += " noise";}
   else if (start == 1)
   {
    // a client with other procedures is refused
    std::vector<rpc::Signature> other;
    const size_t k = g.below(remote.signatures.size());
    for (size_t i = 0; i < remote.signatures.size(); i++)
    {
     auto x = remote.signatures[i];
     const int how = int(g.below(3));
     if (i == k && how == 2) continue;
     other.push_back({i == k && how == 0 ? x.name + "2" : x.name, i == k && how == 1 ? x.prolog + "x" : x.prolog});
    }
    trace += " other-signatures";
    try
    {
     Local_Channel ch(remote.endpoint);
     rpc::Client client(ch, other);
     bad("other-signatures-accepted", "");
    }
    catch (const Exception &) {c.count("refused_signatures");}
    m = handshake_bytes(other) + 'C' + i64(0) + i64(0);
    s.send(m);
    if (!s.wait_for(9)) bad("no-reply", "to a handshake");
    if (s.take(9)[0] != 'h') bad("other-signatures-accepted", "");
    if (!s.wait_for_eof()) bad("not-closed", "after a wrong handshake");
    continue;
   }
   else m = good;
   const int n = 1 + int(g.below(5));
   for (int i = 0; i < n; i++)
    switch (g.below(8))
    {
     case 0: m += 'P'; trace += " P"; break;
     case 1: m += g.bytes(1 + g.below(30)); trace += " bytes"; break;
     default:
     {
      // a call, with a journal that is damaged, or sizes that are
      const size_t id = g.below(remote.signatures.size());
      const std::string &prolog = remote.signatures[id].prolog;
      std::string body;
      {
       Memory_File f(Open_Mode::create_new);
       if (id == 0) {svc::rpc::amount::Memory_Database d; d.set_name(random_string(g, 50)); d.set_amount(-1); d.soft_checkpoint(); body = d.get_data();}
       else if (id == 4) {svc::Memory_Database d; for (int q = int(g.below(4)); q-- > 0;) d.set_name(d.new_person(), "h" + std::to_string(q)); d.soft_checkpoint(); body = d.get_data();}
       else {svc::rpc::batch::Memory_Database d; edit_batch(d, Rng(g.next())); d.soft_checkpoint(); body = d.get_data();}
       body = body.size() > prolog.size() ? body.substr(prolog.size()) : "";
      }
      const bool harmless = id == 0;
      for (int q = int(g.below(4)); q-- > 0;)
       if (!body.empty() && !harmless)
        switch (g.below(5))
        {
         case 0: body[g.below(body.size())] ^= char(1 << g.below(8)); break;
         case 1: body[g.below(body.size())] = char(g.next()); break;
         case 2: body.insert(g.below(body.size()), g.bytes(1 + g.below(10))); break;
         case 3: body.resize(g.below(body.size() + 1)); break;
         default: body += g.bytes(g.below(30)); break;
        }
      int64_t until = int64_t(prolog.size() + body.size()), procedure = int64_t(id);
      if (g.chance(1, 5))
       until = g.pick(std::vector<int64_t>{0, -1, 1, INT64_MIN, INT64_MAX, int64_t(prolog.size()) - 1, int64_t(prolog.size()), until + 5, 1LL << 20, 1LL << 40, 1LL << 62, int64_t(g.next()), int64_t(g.below(300))});
      if (g.chance(1, 10)) procedure = g.pick(std::vector<int64_t>{-1, 5, 100, INT64_MIN, INT64_MAX, int64_t(g.next())});
      m += 'C' + i64(procedure) + i64(until) + body;
      trace += " C(" + std::to_string(procedure) + "," + std::to_string(until) + ")+" + std::to_string(body.size());
      c.count("hostile_calls");
     }
     break;
    }
   if (g.chance(1, 4)) m.resize(g.below(m.size() + 1));
   sig = mix(sig, hash_bytes(m));
   for (size_t done = 0; done < m.size();)
   {
    const size_t k = g.chance(1, 2) ? m.size() - done : 1 + g.below(std::min<size_t>(m.size() - done, 60));
    const ssize_t w = ::send(s.fd, m.data() + done, k, MSG_NOSIGNAL | MSG_DONTWAIT);
    if (w < 0 && errno == EAGAIN) {s.receive(10); continue;}
    if (w < 0) break;
    done += size_t(w);
   }
   const int how = int(g.below(3));
   trace += " how " + std::to_string(how);
   if (how == 0)
   {
    ::shutdown(s.fd, SHUT_WR);
    if (!s.wait_for_eof()) bad("not-closed", "20 s after the end of what was sent");
    c.count("completed_streams");
   }
   if (how == 1) s.shut();
   // a client that behaves
   svc::rpc::amount::Memory_Database a;
   a.set_name("honest");
   const int64_t x = int64_t(g.below(100));
   a.set_amount(x);
   if (g.chance(1, 2)) honest.add(a);
   else
   {
    Local_Channel ch(remote.endpoint);
    svc::rpc::Client client(ch);
    client.add(a);
   }
   total += x;
   if (a.get_total() != total) bad("result-differs", "total " + std::to_string(a.get_total()) + " instead of " + std::to_string(total));
   c.count("honest_calls");
  }
  remote.stop();
  c.sig(sig);
  c.sample(trace);
 }
}

int main(int argc, char **argv)
{
 return main_loop(argc, argv, {{"calls", calls}, {"concurrent", concurrent}, {"hostile", hostile}});
}
