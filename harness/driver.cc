// Drives real encoders and decoders (built from the sources of the repository) and records what is
// observable at their interfaces: one line of JSON per call. The record is then checked against the
// TLA+ specification (spec/TraceNetcode.tla).
//
//   driver script FILE OUT            replay the operations listed in FILE
//   driver random SEED PROFILES OUT   random sessions: PROFILES is a list name:count,...
//   driver multi SEED N PROFILES OUT [K]    N interleaved sessions (only the K-th one)
//   driver threads SEED N PROFILES OUT      N sessions, each one in its own thread
//   driver gen FILE OUT [c]           replay the tests generated from the specification
//                                     (spec/GenNetcode.tla); OUT lists those which diverge
//
// OUT.ndjson is the trace, OUT.script the operations (can be replayed with the first form).

#include <algorithm>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#include <dlfcn.h>
#include <unistd.h>

#include "netcode/data.hh"
#include "netcode/decoder.hh"
#include "netcode/dispatch.hh"
#include "netcode/encoder.hh"
#include "netcode/errors.hh"
#include "netcode/packet.hh"

#include "netcode/c/data.h"
#include "netcode/c/decoder.h"
#include "netcode/c/encoder.h"
#include "netcode/c/packet.h"

using bytes = std::vector<char>;

/*------------------------------------------------------------------------------------------------*/
// Virtual time. The 'real time' clock goes backwards when the monotonic one goes forwards.

static thread_local long long virtual_ms = 1000000;

extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
  long long ms = virtual_ms;
  if (id == CLOCK_REALTIME or id == CLOCK_REALTIME_COARSE)
  {
    ms = 1700000000000ll - virtual_ms;
  }
  ts->tv_sec = ms / 1000;
  ts->tv_nsec = (ms % 1000) * 1000000;
  return 0;
}

/*------------------------------------------------------------------------------------------------*/
// The tables of a field are computed once: it takes far longer than a short session.
// Except when checking that encoders and decoders are independent.
static bool own_fields = false;

extern "C" int gf_init_easy(gf_t* gf, int w)
{
  static gf_t fields[256];
  if (w < 0 or w > 255) return 0;
  if (own_fields)
  {
    static const auto real = reinterpret_cast<int (*)(gf_t*, int)>(dlsym(RTLD_NEXT, "gf_init_easy"));
    return real(gf, w);
  }
  if (not fields[w].scratch
      and gf_init_hard( &fields[w], w, GF_MULT_DEFAULT, GF_REGION_DEFAULT, GF_DIVIDE_DEFAULT
                      , 0, 0, 0, nullptr, nullptr) == 0)
  {
    return 0;
  }
  *gf = fields[w];
  return 1;
}

extern "C" int gf_free(gf_t* gf, int recursive)
{
  if (not own_fields) return 1;
  static const auto real = reinterpret_cast<int (*)(gf_t*, int)>(dlsym(RTLD_NEXT, "gf_free"));
  return real(gf, recursive);
}

/*------------------------------------------------------------------------------------------------*/

struct rng
{
  std::uint64_t s;
  explicit rng(std::uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ull + 0x1234567ull} { next(); next(); }
  std::uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    auto z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  long below(long n) { return n <= 0 ? 0 : static_cast<long>(next() % static_cast<std::uint64_t>(n)); }
  long range(long a, long b) { return a + below(b - a + 1); }
  bool chance(long percent) { return below(100) < percent; }
};

/*------------------------------------------------------------------------------------------------*/

// Called whenever a handler is called.
static void (*on_handler)() = nullptr;
inline void in_handler() { if (on_handler) on_handler(); }

struct delivery { bytes b; unsigned align; };

// What has been observed during a call.
struct observation
{
  std::vector<bytes> eo;      // packets emitted by the encoder
  std::vector<bytes> dout;    // packets emitted by the decoder
  std::vector<delivery> dv;   // delivered data
  long rd = 0;                // returned value
  int er = 0;                 // 0: none, 1: packet type, 2: overflow, 3: other
  int ep = 0;                 // the packet given back by a packet type error is the given one
  bool frag = false;          // unfinished packet
};

struct recorder
{
  std::vector<bytes>* out;
  bytes* cur;
  void operator()(const char* p, std::size_t n) { in_handler(); cur->insert(cur->end(), p, p + n); }
  void operator()() { out->push_back(*cur); cur->clear(); in_handler(); }
};

struct data_recorder
{
  std::vector<delivery>* out;
  void operator()(const char* p, std::size_t n)
  {
    in_handler();
    out->push_back(delivery{bytes(p, p + n), static_cast<unsigned>(reinterpret_cast<std::uintptr_t>(p) % 16)});
  }
};

static ntc::packet mk_packet(const bytes& b, int variant)
{
  switch (variant % 5)
  {
    case 0: return ntc::packet(b.begin(), b.end());
    case 1:
    {
      ntc::packet p(b.size());
      std::copy(b.begin(), b.end(), p.begin());
      return p;
    }
    case 2:
    {
      ntc::packet p(b.size() + 100, 'j');
      std::copy(b.begin(), b.end(), p.data());
      p.resize(b.size());
      return p;
    }
    case 3:
    {
      ntc::packet p;
      p.assign(b.begin(), b.end());
      return p;
    }
    default:
    {
      ntc::packet p;
      for (auto c : b) p.push_back(c);
      return p;
    }
  }
}

/*------------------------------------------------------------------------------------------------*/

struct backend
{
  observation obs;
  bytes ecur, dcur;
  virtual ~backend() {}
  virtual void data(const bytes&, int variant) = 0;
  virtual void rep() = 0;
  virtual void to_dec(const bytes&, int variant) = 0;
  virtual void to_enc(const bytes&, int variant) = 0;
  virtual void dispatch(const bytes&, int variant) = 0;
  virtual void ack() = 0;
  virtual void set(const std::string& k, long v) = 0;
  virtual std::vector<long> getters() = 0;
  void begin() { obs = observation{}; }
  void end() { obs.frag = not ecur.empty() or not dcur.empty(); }
};

struct cpp_backend final : backend
{
  ntc::encoder<recorder> enc;
  ntc::decoder<recorder, data_recorder> dec;

  cpp_backend(int w, bool ord)
    : enc(static_cast<std::uint8_t>(w), recorder{&obs.eo, &ecur})
    , dec(static_cast<std::uint8_t>(w), ord ? ntc::in_order::yes : ntc::in_order::no
         , recorder{&obs.dout, &dcur}, data_recorder{&obs.dv})
  {}

  template <typename F>
  void guarded(const bytes& b, F&& f)
  {
    try
    {
      obs.rd = static_cast<long>(f());
    }
    catch (const ntc::packet_type_error& e)
    {
      obs.er = 1;
      obs.ep = e.error_packet.size() == b.size()
               and std::equal(b.begin(), b.end(), e.error_packet.begin());
    }
    catch (const ntc::overflow_error&) { obs.er = 2; }
    catch (const std::exception&)      { obs.er = 3; }
  }

  void data(const bytes& b, int variant) override
  {
    if (variant % 2)
    {
      const ntc::data d(b.begin(), b.end());
      enc(d);
    }
    else
    {
      ntc::data d(b.begin(), b.end());
      enc(std::move(d));
    }
  }

  void rep() override { enc.generate_repair(); }

  void to_dec(const bytes& b, int variant) override
  {
    guarded(b, [&]() -> std::size_t
    {
      auto p = mk_packet(b, variant / 2);
      if (variant % 2) { const auto& cp = p; return dec(cp); }
      return dec(std::move(p));
    });
  }

  void to_enc(const bytes& b, int variant) override
  {
    guarded(b, [&]() -> std::size_t
    {
      auto p = mk_packet(b, variant / 2);
      if (variant % 2) { const auto& cp = p; return enc(cp); }
      return enc(std::move(p));
    });
  }

  void dispatch(const bytes& b, int variant) override
  {
    guarded(b, [&]{ return ntc::dispatch(enc, dec, mk_packet(b, variant)); });
  }

  void ack() override { dec.generate_ack(); }

  void set(const std::string& k, long v) override
  {
    if (k == "rate") enc.set_rate(static_cast<std::size_t>(v));
    else if (k == "lim") enc.set_window_size(v < 0 ? std::numeric_limits<std::size_t>::max() : static_cast<std::size_t>(v));
    else if (k == "sys") enc.set_code_type(v ? ntc::systematic::yes : ntc::systematic::no);
    else if (k == "adapt") enc.set_adaptive(v != 0);
    else if (k == "nb") dec.set_ack_nb_packets(static_cast<std::uint16_t>(v));
    else if (k == "per") dec.set_ack_period(std::chrono::milliseconds{v});
  }

  std::vector<long> getters() override
  {
    const auto lim = enc.window_size();
    return { static_cast<long>(enc.window()), static_cast<long>(enc.nb_received_acks())
           , static_cast<long>(enc.nb_sent_repairs()), static_cast<long>(enc.nb_sent_sources())
           , static_cast<long>(enc.rate()), lim > 2000000000ul ? -1 : static_cast<long>(lim)
           , enc.code_type() == ntc::systematic::yes, enc.adaptive()
           , static_cast<long>(dec.nb_decoded()), static_cast<long>(dec.nb_failed_full_decodings())
           , static_cast<long>(dec.nb_missing_sources()), static_cast<long>(dec.nb_received_repairs())
           , static_cast<long>(dec.nb_received_sources()), static_cast<long>(dec.nb_sent_acks())
           , static_cast<long>(dec.nb_useless_repairs())
           , static_cast<long>(dec.ack_period().count()), static_cast<long>(dec.ack_nb_packets())
           , static_cast<long>(enc.galois_field_size())};
  }
};

/*------------------------------------------------------------------------------------------------*/

extern "C"
{
  struct cxt { std::vector<bytes>* out; bytes* cur; };
  static void c_prepare(void* c, const char* p, size_t n)
  { auto x = static_cast<cxt*>(c); in_handler(); x->cur->insert(x->cur->end(), p, p + n); }
  static void c_send(void* c)
  { auto x = static_cast<cxt*>(c); x->out->push_back(*x->cur); x->cur->clear(); }
  static void c_read(void* c, const char* p, size_t n)
  { (*static_cast<data_recorder*>(c))(p, n); }
}

struct c_backend final : backend
{
  cxt ecxt, dcxt;
  data_recorder datacxt;
  ntc_encoder_t* enc;
  ntc_decoder_t* dec;
  ntc_data_t* d;
  ntc_packet_t* p;

  c_backend(int w, bool ord)
    : ecxt{&obs.eo, &ecur}, dcxt{&obs.dout, &dcur}, datacxt{&obs.dv}
    , enc(ntc_new_encoder(static_cast<std::uint8_t>(w), ntc_packet_handler{&ecxt, c_prepare, c_send}))
    , dec(ntc_new_decoder( static_cast<std::uint8_t>(w), ord ? ntc_in_order_yes : ntc_in_order_no
                         , ntc_packet_handler{&dcxt, c_prepare, c_send}
                         , ntc_data_handler{&datacxt, c_read}))
    , d(ntc_new_data(16)), p(ntc_new_packet(16))
  {}

  ~c_backend()
  {
    ntc_delete_encoder(enc); ntc_delete_decoder(dec); ntc_delete_data(d); ntc_delete_packet(p);
  }

  // The same one is used all along, whatever it contains.
  ntc_error err{ntc_unknown_error, nullptr};
  int calls = 0;
  ntc_error& next_error()
  {
    ++calls;
    if (calls % 3 == 1) err.type = static_cast<ntc_error_type>(calls / 3 % 5);
    return err;
  }

  void error(const ntc_error& e)
  {
    switch (e.type)
    {
      case ntc_no_error: obs.er = 0; break;
      case ntc_packet_type_error: obs.er = 1; break;
      case ntc_overflow_error: obs.er = 2; break;
      default: obs.er = 3;
    }
  }

  void data(const bytes& b, int variant) override
  {
    auto& e = next_error();
    if (variant % 3 == 0)
    {
      auto x = ntc_new_data_from(b.data(), static_cast<std::uint16_t>(b.size()));
      ntc_encoder_add_data(enc, x, &e);
      ntc_delete_data(x);
    }
    else
    {
      // Recycle a data.
      ntc_data_resize(d, static_cast<std::uint16_t>(b.size()), &e);
      std::copy(b.begin(), b.end(), ntc_data_buffer(d));
      if (ntc_data_get_size(d) != b.size()) obs.er = 4;
      ntc_encoder_add_data(enc, d, &e);
    }
    error(e);
  }

  void rep() override { auto& e = next_error(); ntc_encoder_generate_repair(enc, &e); error(e); }

  ntc_packet_t* packet(const bytes& b, int variant)
  {
    auto& e = next_error();
    if (variant % 3 == 0)
    {
      ntc_delete_packet(p);
      p = ntc_new_packet_from(b.data(), static_cast<std::uint16_t>(b.size()));
    }
    else
    {
      // Recycle a packet: a large one which is then reduced to what was received.
      ntc_packet_resize(p, static_cast<std::uint16_t>(std::min<std::size_t>(65000, b.size() + 50)), &e);
      if (b.size() > 64950) ntc_packet_resize(p, static_cast<std::uint16_t>(b.size()), &e);
      std::copy(b.begin(), b.end(), ntc_packet_buffer(p));
      ntc_packet_resize(p, static_cast<std::uint16_t>(b.size()), &e);
    }
    if (ntc_packet_get_size(p) != b.size()) obs.er = 4;
    return p;
  }

  void to_dec(const bytes& b, int variant) override
  {
    auto& e = next_error();
    obs.rd = static_cast<long>(ntc_decoder_add_packet(dec, packet(b, variant), &e));
    error(e);
  }

  void to_enc(const bytes& b, int variant) override
  {
    auto& e = next_error();
    obs.rd = static_cast<long>(ntc_encoder_add_packet(enc, packet(b, variant), &e));
    error(e);
  }

  void dispatch(const bytes& b, int variant) override
  {
    // Not available in C: do the same thing by hand.
    if (b[0] == 0) to_enc(b, variant); else to_dec(b, variant);
  }

  void ack() override { auto& e = next_error(); ntc_decoder_generate_ack(dec, &e); error(e); }

  void set(const std::string& k, long v) override
  {
    if (k == "rate") ntc_encoder_set_rate(enc, static_cast<std::size_t>(v));
    else if (k == "lim") ntc_encoder_set_window_size(enc, v < 0 ? std::numeric_limits<std::size_t>::max() : static_cast<std::size_t>(v));
    else if (k == "sys") ntc_encoder_set_code_type(enc, v ? ntc_systematic_yes : ntc_systematic_no);
    else if (k == "adapt") ntc_encoder_set_adaptive(enc, v != 0);
    else if (k == "nb") ntc_decoder_set_ack_nb_packets(dec, static_cast<std::uint16_t>(v));
    else if (k == "per") ntc_decoder_set_ack_period(dec, static_cast<std::size_t>(v));
  }

  std::vector<long> getters() override { return {static_cast<long>(ntc_encoder_window(enc))}; }
};

/*------------------------------------------------------------------------------------------------*/

struct op_t { std::string k; std::vector<long> a; std::string s; };

struct session_driver
{
  FILE* trace;
  FILE* script;
  bool owner = true;     // of these files
  int ses = 0;           // number of this session, among the interleaved ones
  long own_line = 0;
  long* line = &own_line; // number of lines written
  std::uint64_t cseed;   // contents

  // Session
  std::unique_ptr<cpp_backend> m;    // main
  std::unique_ptr<backend> x;        // C interface, or twin
  int w = 8; int ord = 0; int api = 0;
  std::vector<long> pos;             // sampled positions
  struct pk_t { bytes b; long line; long at; };
  std::vector<pk_t> pk, ak;
  std::unordered_map<std::string, long> content;
  long sid = 0;
  long nbad = 0;
  op_t last_op;                      // the last operation, for "again"

  session_driver(const std::string& out, std::uint64_t seed)
    : trace(std::fopen((out + ".ndjson").c_str(), "w")), script(std::fopen((out + ".script").c_str(), "w"))
    , cseed(seed)
  {
    if (not trace or not script) { std::perror("open"); std::exit(3); }
  }
  // A session which shares its files with another one.
  session_driver(session_driver& d, int number, std::uint64_t seed)
    : trace(d.trace), script(d.script), owner(false), ses(number), line(d.line), cseed(seed)
  {}
  ~session_driver() { if (owner) { std::fclose(trace); std::fclose(script); } }
  session_driver(const session_driver&) = delete;

  /*----------------------------------------------------------------------------------------------*/

  static void ints(std::string& o, const std::vector<long>& v)
  {
    o += '[';
    for (std::size_t i = 0; i < v.size(); ++i) { if (i) o += ','; o += std::to_string(v[i]); }
    o += ']';
  }

  static void byte_list(std::string& o, const char* b, std::size_t n)
  {
    o += '[';
    for (std::size_t i = 0; i < n; ++i) { if (i) o += ','; o += std::to_string(static_cast<unsigned char>(b[i])); }
    o += ']';
  }

  void sample(std::string& o, const char* b, std::size_t n) const
  {
    if (pos.empty()) { byte_list(o, b, n); return; }
    bytes s;
    for (auto p : pos) { if (static_cast<std::size_t>(p) < n) s.push_back(b[p]); }
    byte_list(o, s.data(), s.size());
  }

  void packet_json(std::string& o, const bytes& b) const
  {
    o += "{\"h\":";
    if (b.empty() or (b[0] != 1 and b[0] != 2) or b.size() < 7)
    {
      byte_list(o, b.data(), b.size());
      o += ",\"n\":0,\"s\":[],\"t\":[]}";
      return;
    }
    byte_list(o, b.data(), 7);
    std::size_t n = static_cast<unsigned char>(b[5]) * 256u + static_cast<unsigned char>(b[6]);
    n = std::min(n, b.size() - 7);
    o += ",\"n\":" + std::to_string(n) + ",\"s\":";
    sample(o, b.data() + 7, n);
    o += ",\"t\":";
    byte_list(o, b.data() + 7 + n, b.size() - 7 - n);
    o += '}';
  }

  void packets_json(std::string& o, const char* name, const std::vector<bytes>& v) const
  {
    o += ",\""; o += name; o += "\":[";
    for (std::size_t i = 0; i < v.size(); ++i) { if (i) o += ','; packet_json(o, v[i]); }
    o += ']';
  }

  void deliveries_json(std::string& o, const std::vector<delivery>& v) const
  {
    o += ",\"dv\":[";
    for (std::size_t i = 0; i < v.size(); ++i)
    {
      if (i) o += ',';
      const auto it = content.find(std::string(v[i].b.begin(), v[i].b.end()));
      o += '[' + std::to_string(it == content.end() ? -1 : it->second) + ','
         + std::to_string(v[i].align) + ',' + std::to_string(v[i].b.size()) + ']';
    }
    o += ']';
  }

  void observation_json(std::string& o, const observation& b) const
  {
    packets_json(o, "eo", b.eo);
    packets_json(o, "do", b.dout);
    deliveries_json(o, b.dv);
    o += ",\"rd\":" + std::to_string(b.rd) + ",\"er\":" + std::to_string(b.er)
       + ",\"ep\":" + std::to_string(b.ep) + ",\"fr\":" + std::to_string(b.frag ? 1 : 0);
  }

  /*----------------------------------------------------------------------------------------------*/

  void emit(const op_t& op, const std::string& extra)
  {
    std::string o = "{\"op\":\"" + op.k + "\",\"ses\":" + std::to_string(ses) + extra;
    m->end();
    observation_json(o, m->obs);
    o += ",\"g\":";
    ints(o, m->getters());
    o += ",\"x\":";
    if (x)
    {
      x->end();
      o += "{\"on\":1";
      observation_json(o, x->obs);
      o += ",\"g\":";
      ints(o, x->getters());
      o += '}';
    }
    else
    {
      o += "{\"on\":0}";
    }
    o += "}\n";
    ++*line;
    for (std::size_t i = 0; i < m->obs.eo.size(); ++i) pk.push_back(pk_t{m->obs.eo[i], *line, static_cast<long>(i + 1)});
    for (std::size_t i = 0; i < m->obs.dout.size(); ++i) ak.push_back(pk_t{m->obs.dout[i], *line, static_cast<long>(i + 1)});
    std::fwrite(o.data(), 1, o.size(), trace);
    std::fflush(trace);
  }

  void write_op(const op_t& op)
  {
    std::string o = op.k;
    if (not op.s.empty()) o += ' ' + op.s;
    for (auto v : op.a) o += ' ' + std::to_string(v);
    o += '\n';
    std::fwrite(o.data(), 1, o.size(), script);
    std::fflush(script);
  }

  bytes make_content(long n)
  {
    const long word = w == 32 ? 4 : w == 16 ? 2 : 1;
    rng r(cseed * 1000003ull + static_cast<std::uint64_t>(sid) * 7919ull + static_cast<std::uint64_t>(n));
    for (int attempt = 0;; ++attempt)
    {
      if (attempt > 50 and attempt % 10 == 0) n += word;
      bytes b(static_cast<std::size_t>(n));
      const auto style = r.below(5);
      for (auto& c : b)
      {
        c = style == 0 ? static_cast<char>(r.chance(80) ? 0 : r.below(256))
          : style == 1 ? static_cast<char>(r.chance(80) ? 255 : r.below(256))
                       : static_cast<char>(r.below(256));
      }
      if (style == 3 and n > 2 * word) std::fill(b.end() - word, b.end(), 0); // trailing zeroes
      if (content.emplace(std::string(b.begin(), b.end()), sid).second) return b;
    }
  }

  void both(const std::function<void(backend&)>& f)
  {
    m->begin();
    f(*m);
    if (x) { x->begin(); f(*x); }
  }

  /// Feed a packet to something; returns false if not applicable.
  /// where: 0 encoder, 1 decoder, 2 dispatch
  void feed(const op_t& op, const bytes& b, int where, int variant, bool bad, const std::string& extra)
  {
    const auto f = [&](backend& k)
    {
      if (where == 0) k.to_enc(b, variant);
      else if (where == 1) k.to_dec(b, variant);
      else k.dispatch(b, variant);
    };
    m->begin();
    f(*m);
    if (x)
    {
      x->begin();
      // A twin doesn't get bad packets.
      if (api == 1 or not bad) f(*x);
    }
    emit(op, extra);
  }

  // Returns false if the operation can't be done in this state.
  bool exec(const op_t& op)
  {
    in_handler();
    const auto& a = op.a;
    const auto& k = op.k;
    if (k == "new") // w ord api nbpos positions...
    {
      write_op(op);
      w = static_cast<int>(a.at(0)); ord = static_cast<int>(a.at(1)); api = static_cast<int>(a.at(2));
      pos.assign(a.begin() + 3, a.end());
      pk.clear(); ak.clear(); content.clear(); sid = 0; nbad = 0;
      cseed += 1;
      m.reset(); x.reset();
      virtual_ms = 1000000;
      m.reset(new cpp_backend(w, ord != 0));
      if (api == 1) x.reset(new c_backend(w, ord != 0));
      if (api == 2) x.reset(new cpp_backend(w, ord != 0));
      m->begin(); if (x) x->begin();
      emit(op, ",\"w\":" + std::to_string(w) + ",\"ord\":" + std::to_string(ord) + ",\"api\":" + std::to_string(api)
             + ",\"now\":" + std::to_string(virtual_ms));
      return true;
    }
    if (not m) return false;
    if (k == "data") // size variant
    {
      write_op(op);
      const auto b = make_content(a.at(0));
      both([&](backend& y){ y.data(b, static_cast<int>(a.at(1))); });
      std::string e = ",\"n\":" + std::to_string(b.size()) + ",\"c\":";
      sample(e, b.data(), b.size());
      ++sid;
      emit(op, e);
      return true;
    }
    if (k == "bulk") // count: data which hold their own identifier on 4 bytes
    {
      write_op(op);
      for (long i = 0; i < a.at(0); ++i)
      {
        bytes b(4);
        for (int j = 0; j < 4; ++j) b[static_cast<std::size_t>(j)] = static_cast<char>((sid >> (8 * j)) & 255);
        content[std::string(b.begin(), b.end())] = sid;
        ++sid;
        m->begin(); m->data(b, 0); m->end();
        if (x) { x->begin(); x->data(b, 0); }
      }
      m->begin(); if (x) x->begin();
      emit(op, ",\"n\":" + std::to_string(a.at(0)));
      return true;
    }
    if (k == "stream") // count: data which hold their own identifier on 4 bytes; their packets are all received
    {
      if (x) return false;
      write_op(op);
      long neo = 0, ndo = 0, ndv = 0, ner = 0, first = -1, last = -1, jumps = 0, misaligned = 0, frag = 0;
      for (long i = 0; i < a.at(0); ++i)
      {
        bytes b(4);
        for (int j = 0; j < 4; ++j) b[static_cast<std::size_t>(j)] = static_cast<char>((sid >> (8 * j)) & 255);
        content[std::string(b.begin(), b.end())] = sid;
        ++sid;
        m->begin(); m->data(b, 0); m->end();
        const auto eo = m->obs.eo;
        neo += static_cast<long>(eo.size()); ner += m->obs.er != 0; frag += m->obs.frag;
        for (const auto& p : eo)
        {
          m->begin(); m->to_dec(p, 0); m->end();
          ndo += static_cast<long>(m->obs.dout.size()); ner += m->obs.er != 0; frag += m->obs.frag;
          for (const auto& d : m->obs.dv)
          {
            const auto it = content.find(std::string(d.b.begin(), d.b.end()));
            const auto id = it == content.end() ? -1 : it->second;
            if (ndv == 0) first = id; else if (id != last + 1) ++jumps;
            last = id;
            ++ndv;
            misaligned += d.align != 0;
          }
        }
      }
      m->begin();
      std::string e = ",\"n\":" + std::to_string(a.at(0)) + ",\"tot\":";
      ints(e, {neo, ndo, ndv, ner, first, last, jumps, misaligned, frag});
      emit(op, e);
      return true;
    }
    if (k == "again") // count: the last operation is done again, many times
    {
      const auto o = last_op;
      bytes b;
      std::string e = ",\"k\":\"" + o.k + "\",\"n\":" + std::to_string(a.at(0));
      if (o.k == "fwd" or o.k == "fba")
      {
        const auto& from = o.k == "fwd" ? pk : ak;
        if (a.at(0) < 1 or o.a.at(0) < 0 or o.a[0] >= static_cast<long>(from.size())) return false;
        if (o.a.at(3) > 0) return false;
        const auto& p = from[static_cast<std::size_t>(o.a[0])];
        b = p.b;
        e += ",\"pl\":" + std::to_string(p.line) + ",\"pp\":" + std::to_string(p.at);
      }
      else if (o.k != "rep" and o.k != "ack") return false;
      write_op(op);
      long neo = 0, ndo = 0, ndv = 0, ner = 0;
      for (long i = 0; i < a.at(0); ++i)
      {
        both([&](backend& y)
        {
          if (o.k == "rep") y.rep();
          else if (o.k == "ack") y.ack();
          else if (o.k == "fwd") y.to_dec(b, 0);
          else y.to_enc(b, 0);
        });
        m->end();
        if (x) x->end();
        neo += static_cast<long>(m->obs.eo.size()); ndo += static_cast<long>(m->obs.dout.size());
        ndv += static_cast<long>(m->obs.dv.size()); ner += m->obs.er != 0;
      }
      e += ",\"tot\":";
      ints(e, {neo, ndo, ndv, ner});
      emit(op, e);
      return true;
    }
    last_op = op;
    if (k == "rep") { write_op(op); both([](backend& y){ y.rep(); }); emit(op, ""); return true; }
    if (k == "ack") { write_op(op); both([](backend& y){ y.ack(); }); emit(op, ""); return true; }
    if (k == "set")
    {
      write_op(op);
      both([&](backend& y){ y.set(op.s, a.at(0)); });
      emit(op, ",\"k\":\"" + op.s + "\",\"v\":" + std::to_string(a.at(0)));
      return true;
    }
    if (k == "time")
    {
      write_op(op);
      virtual_ms += a.at(0);
      m->begin(); if (x) x->begin();
      emit(op, ",\"now\":" + std::to_string(virtual_ms));
      return true;
    }
    if (k == "drain" or k == "end")
    {
      write_op(op);
      m->begin(); if (x) x->begin();
      emit(op, ",\"n\":" + std::to_string(a.empty() ? 0 : a[0]));
      return true;
    }
    if (k == "fwd" or k == "fba") // index, variant, trailing bytes, cut (-1: none), via dispatch
    {
      const auto& from = k == "fwd" ? pk : ak;
      if (a.at(0) < 0 or a[0] >= static_cast<long>(from.size())) return false;
      const auto& p = from[static_cast<std::size_t>(a[0])];
      auto b = p.b;
      auto cut = a.at(3);
      if (cut >= static_cast<long>(b.size()) or cut == 0) cut = -1;
      if (cut > 0) b.resize(static_cast<std::size_t>(cut));
      for (long i = 0; i < a.at(2) and cut < 0; ++i) b.push_back(static_cast<char>(a[2] * 37 + i));
      write_op(op);
      feed( op, b, a.at(4) ? 2 : k == "fwd" ? 1 : 0, static_cast<int>(a.at(1)), cut > 0
          , ",\"pl\":" + std::to_string(p.line) + ",\"pp\":" + std::to_string(p.at) + ",\"cut\":" + std::to_string(cut)
          + ",\"via\":" + std::to_string(a[4]) + ",\"len\":" + std::to_string(b.size()));
      return true;
    }
    if (k == "mis") // a valid packet to the wrong peer: index (in pk or ak) to the encoder or decoder
    {
      const bool to_enc = op.s == "enc";
      const auto& from = to_enc ? pk : ak;
      if (a.at(0) < 0 or a[0] >= static_cast<long>(from.size())) return false;
      const auto b = from[static_cast<std::size_t>(a[0])].b;
      write_op(op);
      feed(op, b, to_enc ? 0 : 1, static_cast<int>(a.at(1)), true, "");
      return true;
    }
    if (k == "unk") // an unknown type: type byte, variant, length, where
    {
      bytes b(static_cast<std::size_t>(std::max(1l, a.at(2))));
      for (std::size_t i = 0; i < b.size(); ++i) b[i] = static_cast<char>(i * 7);
      b[0] = static_cast<char>(a.at(0));
      auto where = static_cast<int>(a.at(3));
      if (api == 1 and where == 2) where = 1;
      write_op(op);
      feed(op, b, where, static_cast<int>(a.at(1)), true, "");
      return true;
    }
    if (k == "fack") // a hand-made ack to the encoder: nb, then runs (first, count, step)
    {
      std::vector<long> ids;
      for (std::size_t i = 1; i + 2 < a.size(); i += 3)
        for (long j = 0; j < a[i + 1]; ++j) ids.push_back(a[i] + j * a[i + 2]);
      std::sort(ids.begin(), ids.end());
      ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
      bytes b{0};
      const auto u16 = [&](long v){ b.push_back(static_cast<char>(v >> 8)); b.push_back(static_cast<char>(v)); };
      u16(a.at(0));
      std::vector<std::pair<long, long>> pairs;
      for (std::size_t i = 1; i < ids.size();)
      {
        const auto d = ids[i] - ids[i - 1];
        long run = 1;
        while (i + static_cast<std::size_t>(run) < ids.size() and run < 255
               and ids[i + static_cast<std::size_t>(run)] - ids[i + static_cast<std::size_t>(run) - 1] == d) ++run;
        if (d > 65535) pairs.emplace_back(0, d >> 16);
        pairs.emplace_back(run, d & 65535);
        i += static_cast<std::size_t>(run);
      }
      u16(ids.empty() ? 0 : static_cast<long>(pairs.size()) + 1);
      if (not ids.empty())
      {
        u16(ids[0] >> 16); u16(ids[0]);
        for (const auto& p : pairs) { b.push_back(static_cast<char>(p.first)); u16(p.second); }
      }
      write_op(op);
      std::string e = ",\"len\":" + std::to_string(b.size()) + ",\"p\":";
      packet_json(e, b);
      feed(op, b, 0, 0, false, e);
      return true;
    }
    std::cerr << "unknown operation " << k << '\n';
    std::exit(3);
  }
};

/*------------------------------------------------------------------------------------------------*/

#include "profiles.hh"
#include "gen.hh"
#include "multi.hh"

int main(int argc, char** argv)
{
  if (argc < 4) { std::cerr << "usage\n"; return 3; }
  const std::string mode = argv[1];
  if (mode == "script")
  {
    session_driver s(argv[3], 1);
    std::ifstream f(argv[2]);
    std::string l;
    while (std::getline(f, l))
    {
      std::istringstream is(l);
      op_t op;
      if (not (is >> op.k) or op.k[0] == '#') continue;
      if (op.k == "seed") { std::uint64_t v; is >> v; s.cseed = v; continue; }
      if (op.k == "set" or op.k == "mis") is >> op.s;
      long v;
      while (is >> v) op.a.push_back(v);
      s.exec(op);
    }
    return 0;
  }
  if (mode == "multi") return run_multi(argc, argv);
  if (mode == "threads") return run_threads(argc, argv);
  if (mode == "gen") return replay_generated(argv[2], argv[3], argc > 4);
  if (mode == "random" and argc >= 5)
  {
    const auto seed = std::strtoull(argv[2], nullptr, 10);
    session_driver s(argv[4], seed * 100000ull);
    std::fprintf(s.script, "seed %llu\n", seed * 100000ull);
    std::istringstream is(argv[3]);
    std::string item;
    rng r(seed);
    while (std::getline(is, item, ','))
    {
      const auto c = item.find(':');
      const auto n = std::atol(item.substr(c + 1).c_str());
      for (long i = 0; i < n; ++i) run_profile(s, r, item.substr(0, c));
    }
    return 0;
  }
  std::cerr << "usage\n";
  return 3;
}
