// Memory exhaustion seen through the C interface: every allocation of every call of short sessions
// is made to fail, in turn (alone, or with all the following ones). The record is checked against
// spec/TraceFaults.tla.
//
//   faults SEED N OUT [CALL ALLOCATION STICKY]

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <cerrno>
#include <sys/wait.h>
#include <unistd.h>

#include "netcode/decoder.hh"
#include "netcode/packet.hh"

#include "netcode/c/data.h"
#include "netcode/c/decoder.h"
#include "netcode/c/encoder.h"
#include "netcode/c/packet.h"

/*------------------------------------------------------------------------------------------------*/
// Allocations.

extern "C" void* __libc_malloc(std::size_t);
extern "C" void* __libc_calloc(std::size_t, std::size_t);
extern "C" void* __libc_realloc(void*, std::size_t);
extern "C" void* __libc_memalign(std::size_t, std::size_t);
extern "C" void __libc_free(void*);

static bool in_library = false;   // between the call of a function and its end, out of the handlers
static long allocations = 0;      // in the current call
static long fail_at = 0;          // which one fails (0: none)
static bool sticky = false;       // and the following ones too
static bool exhausted = false;    // one has failed

static const std::size_t table_size = 1 << 16;
static void* table[table_size];
static long live = 0;

static void remember(void* p)
{
  for (auto i = (reinterpret_cast<std::size_t>(p) >> 4) % table_size; p; i = (i + 1) % table_size)
    if (table[i] == nullptr or table[i] == reinterpret_cast<void*>(1))
    {
      table[i] = p;
      ++live;
      return;
    }
}

static void forget(void* p)
{
  auto i = (reinterpret_cast<std::size_t>(p) >> 4) % table_size;
  for (std::size_t n = 0; p and table[i] and n < table_size; ++n, i = (i + 1) % table_size)
    if (table[i] == p)
    {
      table[i] = reinterpret_cast<void*>(1);
      --live;
      return;
    }
}

static bool refused()
{
  if (not in_library) return false;
  ++allocations;
  if (fail_at and (allocations == fail_at or (sticky and allocations > fail_at)))
  {
    exhausted = true;
    errno = ENOMEM;
    return true;
  }
  return false;
}

static void* tracked(void* p) { if (in_library) remember(p); return p; }

extern "C" void* malloc(std::size_t n) { return refused() ? nullptr : tracked(__libc_malloc(n)); }
extern "C" void* calloc(std::size_t n, std::size_t m) { return refused() ? nullptr : tracked(__libc_calloc(n, m)); }
extern "C" void* realloc(void* p, std::size_t n)
{
  if (refused()) return nullptr;
  forget(p);
  return tracked(__libc_realloc(p, n));
}
extern "C" void* memalign(std::size_t a, std::size_t n) { return refused() ? nullptr : tracked(__libc_memalign(a, n)); }
extern "C" void* aligned_alloc(std::size_t a, std::size_t n) { return memalign(a, n); }
extern "C" int posix_memalign(void** p, std::size_t a, std::size_t n)
{
  void* r = memalign(a, n);
  if (not r) return ENOMEM;
  *p = r;
  return 0;
}
extern "C" void free(void* p) { forget(p); __libc_free(p); }

// The tables of the fields belong to another library: their allocation fails or not, as a whole.
extern "C" int gf_init_easy(gf_t* gf, int w)
{
  static gf_t fields[256];
  if (refused()) return 0;
  const bool was = in_library;
  in_library = false;
  const bool ok = fields[w].scratch
    or gf_init_hard( &fields[w], w, GF_MULT_DEFAULT, GF_REGION_DEFAULT, GF_DIVIDE_DEFAULT
                   , 0, 0, 0, nullptr, nullptr);
  in_library = was;
  if (ok) *gf = fields[w];
  return ok;
}
extern "C" int gf_free(gf_t*, int) { return 1; }

/*------------------------------------------------------------------------------------------------*/

struct rng
{
  std::uint64_t s;
  explicit rng(std::uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ull + 0x1234567ull} { next(); next(); }
  std::uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    auto z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  long below(long n) { return n <= 0 ? 0 : static_cast<long>(next() % static_cast<std::uint64_t>(n)); }
  bool chance(long percent) { return below(100) < percent; }
};

/*------------------------------------------------------------------------------------------------*/

using bytes = std::string;

struct outside { bool was = in_library; outside() { in_library = false; } ~outside() { in_library = was; } };

struct port { std::vector<bytes> sent; bytes cur; };

static void prepare(void* c, const char* p, std::size_t n) { outside o; static_cast<port*>(c)->cur.append(p, n); }
static void send(void* c)
{
  outside o;
  auto& x = *static_cast<port*>(c);
  x.sent.push_back(x.cur);
  x.cur.clear();
}
static void read_data(void* c, const char* p, std::size_t n)
{
  outside o;
  static_cast<std::vector<bytes>*>(c)->emplace_back(p, n);
}

// What a call gave, without any fault.
struct reference { long allocations; bytes result; };

struct stop {};

struct session
{
  // The fault.
  long call, allocation; bool all;
  std::vector<reference>& refs;   // filled when call == 0
  FILE* out;                      // the trace, when call != 0

  long n = 0;                     // calls up to now
  port e, d;
  std::vector<bytes> delivered;
  ntc_encoder_t* enc = nullptr;
  ntc_decoder_t* dec = nullptr;
  ntc_data_t* dat = nullptr;
  ntc_packet_t* pkt = nullptr;
  ntc_error err;
  bytes before;                   // content of a data or a packet before it is resized
  bool valid = false;             // it hasn't been given to an encoder or a decoder

  session(long c, long a, bool s, std::vector<reference>& r, FILE* o)
    : call{c}, allocation{a}, all{s}, refs(r), out{o}
  { err.type = ntc_no_error; err.message = nullptr; }

  // Everything that can be observed after a call.
  bytes seen(long r, int er) const
  {
    std::ostringstream s;
    s << r << ' ' << er << ' ' << e.sent.size() << ' ' << d.sent.size() << ' ' << delivered.size() << '|';
    for (const auto& x : {e.cur, d.cur}) s << x << '|';
    if (not e.sent.empty()) s << e.sent.back() << '|';
    if (not d.sent.empty()) s << d.sent.back() << '|';
    if (not delivered.empty()) s << delivered.back();
    return s.str();
  }

  // Calls fn; true if it's the one in which an allocation fails.
  template <typename Fn>
  bool run(Fn&& fn)
  {
    ++n;
    allocations = 0;
    exhausted = false;
    const bool faulty = call == n;
    fail_at = faulty ? allocation : 0;
    sticky = all;
    in_library = true;
    fn();
    in_library = false;
    fail_at = 0;
    return faulty;
  }

  void check(bool faulty, const char* what, long r, int er)
  {
    const auto s = seen(r, er);
    if (call == 0) { refs.push_back({allocations, s}); return; }
    if (not faulty) return;
    fprintf(out, "{\"op\":\"use\",\"call\":\"%s\",\"oom\":%d,\"er\":%d,\"same\":%d}\n", what, exhausted, er
           , s == refs[static_cast<std::size_t>(n - 1)].result);
    if (exhausted and er == ntc_no_memory) after(what);
    throw stop{};
  }

  template <typename T, typename Fn>
  void create(T*& p, const char* what, Fn&& fn)
  {
    const auto before = live;
    const bool faulty = run([&]{ p = fn(); });
    if (call == 0) { refs.push_back({allocations, ""}); if (not p) throw stop{}; return; }
    if (not faulty) return;
    fprintf(out, "{\"op\":\"new\",\"call\":\"%s\",\"oom\":%d,\"null\":%d,\"left\":%ld}\n", what, exhausted, p == nullptr
           , p ? 0 : live - before);
    if (not p) throw stop{};
    // It exists, and is thus usable: the session goes on as if there were no fault.
    call = -1;
  }

  template <typename Fn>
  void use(const char* what, Fn&& fn)
  {
    long r = 0;
    err.type = ntc_no_error;
    const bool faulty = run([&]{ r = fn(); });
    const int er = err.type;
    if (call == -1)
    {
      const bool same = seen(r, er) == refs[static_cast<std::size_t>(n - 1)].result;
      if (not same)
      {
        fprintf(out, "{\"op\":\"use\",\"call\":\"%s\",\"oom\":0,\"er\":%d,\"same\":0}\n", what, er);
        throw stop{};
      }
      return;
    }
    check(faulty, what, er ? 0 : r, er);
  }

  // An encoder which could not allocate memory is still able to send data.
  void after(const char* what)
  {
    if (valid and std::strcmp(what, "data_resize") == 0)
    {
      const bool ok = ntc_data_get_size(dat) == before.size()
                      and std::memcmp(ntc_data_buffer(dat), before.data(), before.size()) == 0;
      fprintf(out, "{\"op\":\"kept\",\"ok\":%d}\n", ok);
    }
    if (valid and std::strcmp(what, "packet_resize") == 0)
    {
      const bool ok = ntc_packet_get_size(pkt) == before.size()
                      and std::memcmp(ntc_packet_buffer(pkt), before.data(), before.size()) == 0;
      fprintf(out, "{\"op\":\"kept\",\"ok\":%d}\n", ok);
    }
    // A packet is lost, but not the decoder: it can be deleted.
    if (std::strncmp(what, "enc", 3) != 0) return;
    e.cur.clear();
    call = -2;
    ntc_encoder_set_window_size(enc, 1000);
    ntc_encoder_set_code_type(enc, ntc_systematic_yes);
    ntc_encoder_set_rate(enc, 1000);
    std::vector<bytes> given;
    const auto from = e.sent.size();
    std::set<std::uint32_t> ids;
    for (const auto& p : e.sent) if (p[0] == 2) ids.insert(id_of(p));
    for (int i = 0; i < 4; ++i)
    {
      bytes b(static_cast<std::size_t>(8 + 4 * i), static_cast<char>('a' + i));
      auto* x = ntc_new_data_from(b.data(), static_cast<std::uint16_t>(b.size()));
      err.type = ntc_no_error;
      ntc_encoder_add_data(enc, x, &err);
      ntc_delete_data(x);
      given.push_back(b);
      const bool one = e.sent.size() == from + static_cast<std::size_t>(i) + 1 and e.cur.empty();
      const bytes p = one ? e.sent.back() : bytes{};
      const bool good = p.size() == b.size() + 7 and p[0] == 2 and p.substr(7) == b;
      const bool fresh = good and ids.insert(id_of(p)).second;
      fprintf(out, "{\"op\":\"again\",\"er\":%d,\"good\":%d,\"fresh\":%d}\n", err.type, good, fresh);
    }
    if (not syst) return;  // what has been sent before isn't enough to decode what follows
    err.type = ntc_no_error;
    ntc_encoder_generate_repair(enc, &err);
    // The third one is lost.
    std::vector<bytes> got;
    struct ph { void operator()(const char*, std::size_t) {} void operator()() {} };
    struct dh { std::vector<bytes>* v; void operator()(const char* p, std::size_t k) { v->emplace_back(p, k); } };
    ntc::decoder<ph, dh> fresh{w, ntc::in_order::no, ph{}, dh{&got}};
    bool ok = err.type == ntc_no_error;
    try
    {
      for (std::size_t i = 0; i < e.sent.size(); ++i)
        if (i != from + 2) fresh(ntc::packet(e.sent[i].begin(), e.sent[i].end()));
    }
    catch (const std::exception&) { ok = false; }
    for (const auto& b : given) ok = ok and std::find(got.begin(), got.end(), b) != got.end();
    fprintf(out, "{\"op\":\"recover\",\"ok\":%d}\n", ok);
  }

  static std::uint32_t id_of(const bytes& p)
  {
    std::uint32_t v = 0;
    for (std::size_t i = 1; i < 5 and i < p.size(); ++i) v = (v << 8) | static_cast<unsigned char>(p[i]);
    return v;
  }

  std::uint8_t w = 8;
  bool syst = true;

  void play(std::uint64_t seed)
  {
    rng r{seed};
    static const std::uint8_t ws[] = {4, 8, 16, 32};
    w = ws[r.below(4)];
    const auto order = r.chance(50) ? ntc_in_order_yes : ntc_in_order_no;
    syst = r.chance(75);
    const auto rate = 1 + r.below(4);
    const auto acks = 1 + r.below(6);
    const auto window = r.chance(30) ? 1 + r.below(8) : 1000;
    const bool adaptive = r.chance(20);

    create(enc, "new_encoder", [&]{ return ntc_new_encoder(w, ntc_packet_handler{&e, prepare, send}); });
    create(dec, "new_decoder", [&]{ return ntc_new_decoder( w, order, ntc_packet_handler{&d, prepare, send}
                                                          , ntc_data_handler{&delivered, read_data}); });
    ntc_encoder_set_code_type(enc, syst ? ntc_systematic_yes : ntc_systematic_no);
    ntc_encoder_set_rate(enc, static_cast<std::size_t>(rate));
    ntc_encoder_set_window_size(enc, static_cast<std::size_t>(window));
    ntc_encoder_set_adaptive(enc, adaptive);
    ntc_decoder_set_ack_period(dec, 0);
    ntc_decoder_set_ack_nb_packets(dec, static_cast<std::uint16_t>(acks));

    std::size_t ne = 0, nd = 0;
    std::vector<bytes> late;
    const long ops = 12 + r.below(16);
    for (long i = 0; i < ops; ++i)
    {
      const auto size = static_cast<std::uint16_t>(4 * (1 + r.below(r.chance(10) ? 800 : 30)));
      bytes b(size, '\0');
      for (auto& c : b) c = static_cast<char>(r.below(256));
      const long v = r.below(100);
      if (v < 60)
      {
        if (r.chance(60))
        {
          create(dat, "new_data_from", [&]{ return ntc_new_data_from(b.data(), size); });
        }
        else
        {
          create(dat, "new_data", [&]{ return ntc_new_data(4); });
          std::memcpy(ntc_data_buffer(dat), "keep", 4);
          before = "keep";
          valid = true;
          use("data_resize", [&]{ ntc_data_resize(dat, size, &err); return 0; });
          valid = false;
          std::memcpy(ntc_data_buffer(dat), b.data(), size);
        }
        use("enc_add_data", [&]{ ntc_encoder_add_data(enc, dat, &err); return 0; });
        if (r.chance(30))
        {
          use("data_resize", [&]{ ntc_data_resize(dat, size, &err); return 0; });
          std::memcpy(ntc_data_buffer(dat), b.data(), size);
          use("enc_add_data", [&]{ ntc_encoder_add_data(enc, dat, &err); return 0; });
        }
        ntc_delete_data(dat);
        dat = nullptr;
      }
      else if (v < 72) use("enc_generate_repair", [&]{ ntc_encoder_generate_repair(enc, &err); return 0; });
      else if (v < 80) use("dec_generate_ack", [&]{ ntc_decoder_generate_ack(dec, &err); return 0; });
      else
      {
        // Something which can't be read.
        bytes p = b;
        p[0] = static_cast<char>(r.below(6));
        if (p[0] == 1 or p[0] == 2 or p[0] == 0) { p[5] = p[6] = '\xff'; if (p[0] == 0) p.resize(4 + static_cast<std::size_t>(r.below(3))); }
        create(pkt, "new_packet", [&]{ return ntc_new_packet(1); });
        *ntc_packet_buffer(pkt) = 'k';
        before = "k";
        valid = true;
        use("packet_resize", [&]{ ntc_packet_resize(pkt, static_cast<std::uint16_t>(p.size()), &err); return 0; });
        valid = false;
        std::memcpy(ntc_packet_buffer(pkt), p.data(), p.size());
        if (r.chance(50)) use("enc_add_packet", [&]{ return static_cast<long>(ntc_encoder_add_packet(enc, pkt, &err)); });
        else use("dec_add_packet", [&]{ return static_cast<long>(ntc_decoder_add_packet(dec, pkt, &err)); });
        ntc_delete_packet(pkt);
        pkt = nullptr;
      }
      // What has been sent: lost, late, or received
      std::vector<bytes> now;
      for (; ne < e.sent.size(); ++ne)
      {
        const long f = r.below(100);
        if (f < 40 and e.sent[ne][0] == 2) continue;
        if (f < 55) late.push_back(e.sent[ne]); else now.push_back(e.sent[ne]);
      }
      if (not late.empty() and r.chance(40)) { now.push_back(late.front()); late.erase(late.begin()); }
      for (const auto& p : now)
      {
        create(pkt, "new_packet_from", [&]{ return ntc_new_packet_from(p.data(), static_cast<std::uint16_t>(p.size())); });
        use("dec_add_packet", [&]{ return static_cast<long>(ntc_decoder_add_packet(dec, pkt, &err)); });
        ntc_delete_packet(pkt);
        pkt = nullptr;
      }
      for (; nd < d.sent.size(); ++nd)
      {
        if (r.chance(50)) continue;
        const auto p = d.sent[nd];
        create(pkt, "new_packet_from", [&]{ return ntc_new_packet_from(p.data(), static_cast<std::uint16_t>(p.size())); });
        use("enc_add_packet", [&]{ return static_cast<long>(ntc_encoder_add_packet(enc, pkt, &err)); });
        ntc_delete_packet(pkt);
        pkt = nullptr;
      }
    }
  }

  void clear()
  {
    if (enc) ntc_delete_encoder(enc);
    if (dec) ntc_delete_decoder(dec);
    if (dat) ntc_delete_data(dat);
    if (pkt) ntc_delete_packet(pkt);
  }
};

static long go(std::uint64_t seed, long call, long allocation, bool all, std::vector<reference>& refs, FILE* out)
{
  const auto before = live;
  {
    session s{call, allocation, all, refs, out};
    try { s.play(seed); } catch (const stop&) {}
    s.clear();
  }
  return live - before;
}

int main(int argc, char** argv)
{
  if (argc < 4) return 2;
  const auto seed = std::strtoull(argv[1], nullptr, 10);
  const long sessions = std::atol(argv[2]);
  FILE* out = std::fopen(argv[3], "w");
  if (not out) return 2;
  const bool one = argc >= 7;
  long points = 0;
  for (long i = 0; i < sessions; ++i)
  {
    std::fflush(out);
    const pid_t child = fork();
    if (child < 0) return 2;
    if (child == 0)
    {
      std::vector<reference> refs;
      const auto s = seed + static_cast<std::uint64_t>(i);
      go(s, 0, 0, false, refs, out);
      // Once more: what is kept from a session to another one has now been allocated.
      { std::vector<reference> again; go(s, 0, 0, false, again, out); }
      for (std::size_t t = 0; t < refs.size(); ++t)
        for (long k = 1; k <= refs[t].allocations; ++k)
          for (int all = 0; all < 2; ++all)
          {
            if (one and (std::atol(argv[4]) != static_cast<long>(t) + 1 or std::atol(argv[5]) != k or std::atoi(argv[6]) != all)) continue;
            fprintf(out, "{\"op\":\"start\",\"seed\":%llu,\"call\":%zu,\"alloc\":%ld,\"sticky\":%d}\n"
                   , static_cast<unsigned long long>(s), t + 1, k, all);
            std::fflush(out);
            const long left = go(s, static_cast<long>(t) + 1, k, all != 0, refs, out);
            fprintf(out, "{\"op\":\"end\",\"left\":%ld}\n", left);
            ++points;
          }
      std::fflush(out);
      _exit(0);
    }
    int status = 0;
    waitpid(child, &status, 0);
    if (not WIFEXITED(status) or WEXITSTATUS(status) != 0)
      fprintf(out, "{\"op\":\"dead\",\"status\":%d}\n", status);
  }
  std::fclose(out);
}
