// Recording of packets (NTC_DUMP_PACKETS) and replay. The record of this program is checked against
// spec/TraceRecord.tla.
//
//   record SEED N DIR OUT [TOOL]   N random sessions; DIR is a scratch directory;
//                                  TOOL is the replay program built from tools/replay.cc

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

static std::string dump_path;
#define NTC_DUMP_PACKETS
#define NTC_DUMP_PACKETS_FILE dump_path
#include "netcode/decoder.hh"
#include "netcode/encoder.hh"
#include "netcode/detail/serialize_packet.hh"

using bytes = std::vector<char>;

static long long virtual_ms = 1000000;
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept
{
  ts->tv_sec = virtual_ms / 1000;
  ts->tv_nsec = (virtual_ms % 1000) * 1000000;
  return 0;
}

struct rng
{
  std::uint64_t s;
  explicit rng(std::uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ull + 0x1234567ull} { next(); next(); }
  std::uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    auto z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  long below(long n) { return n <= 0 ? 0 : static_cast<long>(next() % static_cast<std::uint64_t>(n)); }
  long range(long a, long b) { return a + below(b - a + 1); }
  bool chance(long percent) { return below(100) < percent; }
};

struct recorder
{
  std::vector<bytes>* out;
  bytes* cur;
  void operator()(const char* p, std::size_t n) { cur->insert(cur->end(), p, p + n); }
  void operator()() { out->push_back(*cur); cur->clear(); }
};

struct data_recorder
{
  std::vector<bytes>* out;
  void operator()(const char* p, std::size_t n) { out->push_back(bytes(p, p + n)); }
};

// A digest that fits TLC's integers.
static long digest(const char* p, std::size_t n)
{
  std::uint64_t h = 1469598103934665603ull;
  for (std::size_t i = 0; i < n; ++i) h = (h ^ static_cast<unsigned char>(p[i])) * 1099511628211ull;
  return static_cast<long>((h ^ (h >> 32)) & 0x3fffffff);
}

static std::string show(const char* p, std::size_t n)
{
  std::string o = "{\"n\":" + std::to_string(n) + ",\"d\":" + std::to_string(digest(p, n)) + ",\"c\":[";
  for (std::size_t i = 0; i < n and i < 12; ++i) { if (i) o += ','; o += std::to_string(static_cast<unsigned char>(p[i])); }
  return o + "]}";
}

static std::string show(const std::vector<bytes>& v)
{
  std::string o = "[";
  for (std::size_t i = 0; i < v.size(); ++i) { if (i) o += ','; o += show(v[i].data(), v[i].size()); }
  return o + "]";
}

using decoder = ntc::decoder<recorder, data_recorder>;

// 0: ok, 1: type, 2: overflow, 3: other
template <typename D>
int give(D& dec, ntc::packet&& p, bool copy)
{
  try { if (copy) { const auto& c = p; dec(c); } else dec(std::move(p)); return 0; }
  catch (const ntc::packet_type_error&) { return 1; }
  catch (const ntc::overflow_error&) { return 2; }
  catch (const std::exception&) { return 3; }
}

int main(int argc, char** argv)
{
  if (argc < 5) return 3;
  rng r(std::strtoull(argv[1], nullptr, 10));
  const auto count = std::atol(argv[2]);
  const std::string dir = argv[3];
  const std::string out = argv[4];
  const std::string tool = argc > 5 ? argv[5] : "";
  std::FILE* trace = std::fopen((out + ".ndjson").c_str(), "w");
  if (not trace) return 3;
  const auto line = [&](const std::string& l){ std::fwrite(l.data(), 1, l.size(), trace); std::fputc('\n', trace); std::fflush(trace); };

  for (long i = 0; i < count; ++i)
  {
    static const int ws[] = {4, 8, 8, 8, 16, 32};
    const auto w = static_cast<std::uint8_t>(ws[r.below(6)]);
    const auto ord = r.chance(70) ? ntc::in_order::yes : ntc::in_order::no;
    std::vector<bytes> pk, ak, ak2, dv, dv2;
    bytes c1, c2, c3;
    ntc::encoder<recorder> enc(w, recorder{&pk, &c1});
    enc.set_rate(static_cast<std::size_t>(r.range(1, 4)));
    enc.set_window_size(static_cast<std::size_t>(r.range(2, 8)));
    const bool big = r.chance(15);
    dump_path = dir + "/dump";
    std::unique_ptr<decoder> dec(new decoder(w, ord, recorder{&ak, &c2}, data_recorder{&dv}));
    dec->set_ack_period(std::chrono::milliseconds{0});
    line("{\"op\":\"new\"}");

    std::size_t next = 0;
    const auto loss = r.range(0, 50);
    const auto bad = r.chance(50) ? 0 : 10;
    // The first packet that stops the tool, if any.
    long stop = -1, given = 0;
    const auto feed = [&](const bytes& b)
    {
      ntc::packet p(b.begin(), b.end());
      if (r.chance(30)) { p.resize(b.size() + 30); p.resize(b.size()); }
      dv.clear(); ak.clear();
      const auto er = give(*dec, std::move(p), r.chance(40));
      if (er != 0 and stop == -1) stop = given;
      ++given;
      line("{\"op\":\"give\",\"k\":" + show(b.data(), b.size()) + ",\"dv\":" + show(dv) + ",\"ak\":" + show(ak)
          + ",\"er\":" + std::to_string(er) + "}");
    };
    for (long j = 0, n = r.range(1, 30); j < n; ++j)
    {
      if (r.chance(40))
      {
        auto sz = big and r.chance(40) ? r.range(30000, 65400) : r.range(1, 40);
        sz = (sz + 3) / 4 * 4;
        ntc::data d(static_cast<std::size_t>(sz));
        for (auto& c : d) c = static_cast<char>(r.below(256));
        enc(std::move(d));
      }
      else if (next < pk.size())
      {
        if (r.chance(loss)) { ++next; continue; }
        auto b = pk[r.chance(20) ? static_cast<std::size_t>(r.below(static_cast<long>(next) + 1)) : next++];
        if (r.chance(bad)) b.resize(static_cast<std::size_t>(r.range(1, static_cast<long>(b.size()))));
        else if (r.chance(bad)) b[0] = static_cast<char>(r.range(3, 255));
        else if (r.chance(bad)) b.push_back('x');
        // A datagram holds at most 65507 bytes.
        if (b.size() <= 65507) feed(b);
      }
    }
    // Something which the tool tells about when it's reached.
    if (r.chance(60)) feed(bytes{static_cast<char>(r.range(3, 120)), 1, 2});

    dec.reset(); // closes the record
    const auto record = dump_path;
    {
      std::ifstream f(record, std::ios::binary | std::ios::ate);
      line("{\"op\":\"closed\",\"n\":" + std::to_string(static_cast<long>(f.tellg())) + "}");
    }
    // Run the tool, which assumes a field of 8 bits and an in-order decoder.
    if (not tool.empty() and w == 8 and ord == ntc::in_order::yes)
    {
      const auto res = dir + "/tool";
      const auto rc = std::system(("timeout 20 '" + tool + "' '" + record + "' > '" + res + "' 2>&1").c_str());
      std::ifstream f(res);
      std::stringstream ss; ss << f.rdbuf();

      line("{\"op\":\"tool\",\"rc\":" + std::to_string(rc) + ",\"told\":" + (ss.str().empty() ? "0" : "1")
          + ",\"want\":" + (stop >= 0 ? "1" : "0") + "}");
    }
    // Read back.
    dump_path = dir + "/dump2";
    decoder dec2(w, ord, recorder{&ak2, &c3}, data_recorder{&dv2});
    dec2.set_ack_period(std::chrono::milliseconds{0});
    std::ifstream f(record, std::ios::binary);
    long guard = 0;
    while (f.peek() != std::char_traits<char>::eof() and guard++ < 200)
    {
      auto p = ntc::detail::serialize_packet::read(f);
      const auto insane = p.size() > 100000 or p.size() == 0;
      const bytes b = insane ? bytes{} : bytes(p.begin(), p.end());
      dv2.clear(); ak2.clear();
      const auto er = insane ? 3 : give(dec2, std::move(p), r.chance(40));
      line("{\"op\":\"read\",\"k\":" + show(b.data(), b.size()) + ",\"dv\":" + show(dv2) + ",\"ak\":" + show(ak2)
          + ",\"er\":" + std::to_string(er) + "}");
    }
    line("{\"op\":\"end\"}");
  }
  return 0;
}
