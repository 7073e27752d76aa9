// Drives the containers of packets and data (C++ and C) and records what they hold after each
// operation. The record is checked against spec/TraceBuffers.tla.
//
//   containers script FILE OUT     replay the operations listed in FILE
//   containers random SEED N OUT   N random sessions
//
// Operations:  op slot other n v   (unused arguments are 0)
// Slots 0..2: ntc::packet, 3..4: ntc::data, 5..6: ntc_packet_t, 7..8: ntc_data_t

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include "netcode/data.hh"
#include "netcode/packet.hh"
#include "netcode/c/data.h"
#include "netcode/c/packet.h"

struct rng
{
  std::uint64_t s;
  explicit rng(std::uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ull + 0x1234567ull} { next(); next(); }
  std::uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    auto z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  long below(long n) { return n <= 0 ? 0 : static_cast<long>(next() % static_cast<std::uint64_t>(n)); }
  long range(long a, long b) { return a + below(b - a + 1); }
  bool chance(long percent) { return below(100) < percent; }
};

static const int nslots = 9;
static const std::size_t shown = 48; // number of bytes shown at each end

struct world
{
  std::unique_ptr<ntc::packet> p[3];
  std::unique_ptr<ntc::data> d[2];
  ntc_packet_t* cp[2] = {nullptr, nullptr};
  ntc_data_t* cd[2] = {nullptr, nullptr};
  FILE *trace, *script;

  ~world()
  {
    for (auto x : cp) if (x) ntc_delete_packet(x);
    for (auto x : cd) if (x) ntc_delete_data(x);
  }

  static int kind(long s) { return s < 3 ? 0 : s < 5 ? 1 : s < 7 ? 2 : 3; }

  bool live(long s) const
  {
    switch (kind(s))
    {
      case 0: return p[s] != nullptr;
      case 1: return d[s - 3] != nullptr;
      case 2: return cp[s - 5] != nullptr;
      default: return cd[s - 7] != nullptr;
    }
  }

  // Contents, read in all available ways. 'ok' tells if they all agree.
  void observe(std::string& o, long s) const
  {
    std::vector<unsigned char> b;
    bool ok = true;
    std::size_t size = 0;
    const char* ptr = nullptr;
    const auto limit = std::size_t{200000};
    if (kind(s) == 0)
    {
      ntc::packet& x = *p[s];
      const ntc::packet& cx = x;
      size = cx.size();
      ok = ok and (cx.empty() == (size == 0)) and x.capacity() >= size;
      if (size <= limit)
      {
        for (std::size_t i = 0; i < size; ++i) b.push_back(static_cast<unsigned char>(cx[i]));
        for (std::size_t i = 0; i < size; ++i) ok = ok and static_cast<unsigned char>(x[i]) == b[i];
        std::size_t i = 0;
        for (auto it = x.begin(); it != x.end() and i <= size; ++it, ++i) ok = ok and i < size and static_cast<unsigned char>(*it) == b[i];
        ok = ok and i == size; i = 0;
        for (auto it = cx.begin(); it != cx.end() and i <= size; ++it, ++i) ok = ok and i < size and static_cast<unsigned char>(*it) == b[i];
        ok = ok and i == size; i = 0;
        for (auto it = cx.cbegin(); it != cx.cend() and i <= size; ++it, ++i) ok = ok and i < size and static_cast<unsigned char>(*it) == b[i];
        ok = ok and i == size;
        for (i = 0; i < size; ++i) ok = ok and static_cast<unsigned char>(x.data()[i]) == b[i] and static_cast<unsigned char>(cx.data()[i]) == b[i];
        // The symbol follows the headers (7 bytes), and is aligned.
        ok = ok and x.symbol() == x.data() + 7 and cx.symbol() == cx.data() + 7;
        ptr = cx.symbol();
      }
    }
    else if (kind(s) == 1)
    {
      ntc::data& x = *d[s - 3];
      const ntc::data& cx = x;
      size = cx.size();
      ok = ok and (cx.empty() == (size == 0)) and x.capacity() >= size;
      if (size <= limit)
      {
        for (std::size_t i = 0; i < size; ++i) b.push_back(static_cast<unsigned char>(cx[i]));
        std::size_t i = 0;
        for (auto c : cx) { ok = ok and static_cast<unsigned char>(c) == b[i]; ++i; }
        for (i = 0; i < size; ++i) ok = ok and static_cast<unsigned char>(x.data()[i]) == b[i];
        ptr = size == 0 ? nullptr : cx.data();
      }
    }
    else
    {
      const char* buf;
      if (kind(s) == 2) { size = ntc_packet_get_size(cp[s - 5]); buf = ntc_packet_buffer(cp[s - 5]); ptr = buf + 7; }
      else { size = ntc_data_get_size(cd[s - 7]); buf = ntc_data_buffer(cd[s - 7]); ptr = size == 0 ? nullptr : buf; }
      for (std::size_t i = 0; i < size; ++i) b.push_back(static_cast<unsigned char>(buf[i]));
    }
    const auto sz = static_cast<long>(std::min<std::size_t>(size, 1000000));
    o += "{\"s\":" + std::to_string(s) + ",\"n\":" + std::to_string(sz)
       + ",\"ok\":" + (ok ? "1" : "0")
       + ",\"al\":" + std::to_string(reinterpret_cast<std::uintptr_t>(ptr) % 16) + ",\"c\":[";
    // Everything if it's short, otherwise both ends.
    bool first = true;
    for (std::size_t i = 0; i < b.size(); ++i)
    {
      if (b.size() > 2 * shown and i >= shown and i < b.size() - shown) continue;
      if (not first) o += ',';
      first = false;
      o += std::to_string(b[i]);
    }
    o += "]}";
  }

  static std::vector<char> pattern(long n, long v)
  {
    std::vector<char> b(static_cast<std::size_t>(n));
    for (std::size_t i = 0; i < b.size(); ++i) b[i] = static_cast<char>(v + static_cast<long>(i) * 3);
    return b;
  }

  // Returns false if not applicable.
  bool exec(const std::string& op, long s, long t, long n, long v)
  {
    const auto k = kind(s);
    const bool ctor = op == "new" or op == "newn" or op == "newnv" or op == "newrange" or op == "newinit"
                   or op == "newcopy" or op == "newmove";
    if (not ctor and not live(s)) return false;
    const bool binary = op == "newcopy" or op == "newmove" or op == "copy" or op == "move" or op == "swap";
    if (binary and (k != kind(t) or not live(t) or k > 1)) return false;
    if (ctor and binary and s == t) return false;
    if (op == "move" and s == t) return false;
    const auto c = static_cast<char>(v);
    const auto b = pattern(n, v);
    const auto un = static_cast<std::size_t>(n);
    if (k == 0)
    {
      auto& x = p[s];
      if (op == "new") x.reset(new ntc::packet);
      else if (op == "newn") x.reset(new ntc::packet(un));
      else if (op == "newnv") x.reset(new ntc::packet(un, c));
      else if (op == "newrange")
      {
        if (v % 3 == 0) { const std::list<char> l(b.begin(), b.end()); x.reset(new ntc::packet(l.begin(), l.end())); }
        else if (v % 3 == 1) x.reset(new ntc::packet(b.data(), b.data() + b.size()));
        else x.reset(new ntc::packet(b.begin(), b.end()));
      }
      else if (op == "newinit")
      {
        if (n == 0) x.reset(new ntc::packet({c}));
        else if (n == 1) x.reset(new ntc::packet({c, static_cast<char>(c + 3), static_cast<char>(c + 6)}));
        else x.reset(new ntc::packet({c, static_cast<char>(c + 3), static_cast<char>(c + 6), static_cast<char>(c + 9)
                                     , static_cast<char>(c + 12), static_cast<char>(c + 15), static_cast<char>(c + 18)
                                     , static_cast<char>(c + 21), static_cast<char>(c + 24), static_cast<char>(c + 27)}));
      }
      else if (op == "newcopy") x.reset(new ntc::packet(*p[t]));
      else if (op == "newmove") { x.reset(new ntc::packet(std::move(*p[t]))); p[t].reset(); }
      else if (op == "copy") { const ntc::packet& from = *p[t]; *x = from; }
      else if (op == "move") { *x = std::move(*p[t]); p[t].reset(); }
      else if (op == "swap") std::swap(*x, *p[t]);
      else if (op == "assignnv") x->assign(un, c);
      else if (op == "assignrange")
      {
        if (v % 2) { const std::list<char> l(b.begin(), b.end()); x->assign(l.begin(), l.end()); }
        else x->assign(b.begin(), b.end());
      }
      else if (op == "assigninit") x->assign({c, static_cast<char>(c + 3), static_cast<char>(c + 6)});
      else if (op == "resize") x->resize(un);
      else if (op == "resizev") x->resize(un, c);
      else if (op == "push") x->push_back(c);
      else if (op == "clear") x->clear();
      else if (op == "reserve") { x->reserve(un); if (x->capacity() < un) return fail(); }
      else if (op == "shrink") x->shrink_to_fit();
      else if (op == "write")
      {
        if (x->size() == 0) return false;
        const auto i = un % x->size();
        n = static_cast<long>(i);
        switch (v % 4)
        {
          case 0: (*x)[i] = c; break;
          case 1: *(x->begin() + static_cast<long>(i)) = c; break;
          case 2: x->data()[i] = c; break;
          default: if (i >= 7) x->symbol()[i - 7] = c; else (*x)[i] = c;
        }
      }
      else return false;
    }
    else if (k == 1)
    {
      auto& x = d[s - 3];
      if (op == "new") x.reset(new ntc::data);
      else if (op == "newn") x.reset(new ntc::data(un));
      else if (op == "newnv") x.reset(new ntc::data(un, c));
      else if (op == "newrange") x.reset(new ntc::data(b.begin(), b.end()));
      else if (op == "newcopy") x.reset(new ntc::data(*d[t - 3]));
      else if (op == "newmove") { x.reset(new ntc::data(std::move(*d[t - 3]))); d[t - 3].reset(); }
      else if (op == "copy") { const ntc::data& from = *d[t - 3]; *x = from; }
      else if (op == "move") { *x = std::move(*d[t - 3]); d[t - 3].reset(); }
      else if (op == "swap") std::swap(*x, *d[t - 3]);
      else if (op == "assignnv") x->assign(un, c);
      else if (op == "assignrange") x->assign(b.begin(), b.end());
      else if (op == "resize") x->resize(un);
      else if (op == "resizev") x->resize(un, c);
      else if (op == "push") x->push_back(c);
      else if (op == "clear") x->clear();
      else if (op == "reserve") x->reserve(un);
      else if (op == "shrink") x->shrink_to_fit();
      else if (op == "write")
      {
        if (x->empty()) return false;
        const auto i = un % x->size();
        n = static_cast<long>(i);
        (*x)[i] = c;
      }
      else return false;
    }
    else
    {
      if (n > 65535) return false;
      ntc_error e{ntc_unknown_error, nullptr};
      const auto u16 = static_cast<std::uint16_t>(n);
      if (op == "newn")
      {
        if (k == 2) { if (cp[s - 5]) ntc_delete_packet(cp[s - 5]); cp[s - 5] = ntc_new_packet(u16); }
        else { if (cd[s - 7]) ntc_delete_data(cd[s - 7]); cd[s - 7] = ntc_new_data(u16); }
      }
      else if (op == "newrange")
      {
        if (k == 2) { if (cp[s - 5]) ntc_delete_packet(cp[s - 5]); cp[s - 5] = ntc_new_packet_from(b.data(), u16); }
        else { if (cd[s - 7]) ntc_delete_data(cd[s - 7]); cd[s - 7] = ntc_new_data_from(b.data(), u16); }
      }
      else if (op == "resize")
      {
        if (k == 2) ntc_packet_resize(cp[s - 5], u16, &e);
        else ntc_data_resize(cd[s - 7], u16, &e);
        if (e.type != ntc_no_error) return fail();
      }
      else if (op == "write")
      {
        const auto size = k == 2 ? ntc_packet_get_size(cp[s - 5]) : ntc_data_get_size(cd[s - 7]);
        if (size == 0) return false;
        n = n % size;
        (k == 2 ? ntc_packet_buffer(cp[s - 5]) : ntc_data_buffer(cd[s - 7]))[n] = c;
      }
      else return false;
    }
    emit(op, s, t, n, v);
    return true;
  }

  bool failed = false;
  bool fail() { failed = true; return true; }

  void emit(const std::string& op, long s, long t, long n, long v)
  {
    std::string o = "{\"op\":\"" + op + "\",\"s\":" + std::to_string(s) + ",\"t\":" + std::to_string(t)
                  + ",\"n\":" + std::to_string(n) + ",\"v\":" + std::to_string(v & 255)
                  + ",\"err\":" + (failed ? "1" : "0") + ",\"obs\":[";
    bool first = true;
    for (long i = 0; i < nslots; ++i)
    {
      if (not live(i)) continue;
      if (not first) o += ',';
      first = false;
      observe(o, i);
    }
    o += "]}\n";
    std::fwrite(o.data(), 1, o.size(), trace);
    std::fflush(trace);
  }

  void run(const std::string& op, long s, long t, long n, long v)
  {
    std::fprintf(script, "%s %ld %ld %ld %ld\n", op.c_str(), s, t, n, v);
    std::fflush(script);
    if (op == "reset")
    {
      for (auto& x : p) x.reset();
      for (auto& x : d) x.reset();
      for (auto& x : cp) { if (x) ntc_delete_packet(x); x = nullptr; }
      for (auto& x : cd) { if (x) ntc_delete_data(x); x = nullptr; }
      emit("reset", 0, 0, 0, 0);
      return;
    }
    exec(op, s, t, n, v);
    if (failed) { emit("failed", s, t, n, v); failed = false; }
  }
};

int main(int argc, char** argv)
{
  if (argc < 4) return 3;
  const std::string mode = argv[1];
  const std::string out = argv[argc - 1];
  world w;
  w.trace = std::fopen((out + ".ndjson").c_str(), "w");
  w.script = std::fopen((out + ".script").c_str(), "w");
  if (not w.trace or not w.script) return 3;
  if (mode == "script")
  {
    std::ifstream f(argv[2]);
    std::string l;
    while (std::getline(f, l))
    {
      std::istringstream is(l);
      std::string op;
      long s = 0, t = 0, n = 0, v = 0;
      if (not (is >> op)) continue;
      is >> s >> t >> n >> v;
      w.run(op, s, t, n, v);
    }
    return 0;
  }
  rng r(std::strtoull(argv[2], nullptr, 10));
  for (long i = 0, count = std::atol(argv[3]); i < count; ++i)
  {
    w.run("reset", 0, 0, 0, 0);
    const bool big = r.chance(8);
    for (long j = 0, ops = r.range(20, 60); j < ops; ++j)
    {
      static const char* ctors[] = {"new", "newn", "newnv", "newrange", "newinit", "newcopy", "newmove"};
      static const char* others[] = {"copy", "move", "swap", "assignnv", "assignrange", "assigninit", "resize", "resize"
                                    , "resizev", "resizev", "push", "push", "clear", "reserve", "shrink", "write", "write"};
      const auto s = r.below(nslots);
      long t = s < 3 ? r.below(3) : s < 5 ? 3 + r.below(2) : s;
      long n = r.chance(20) ? r.below(5) : r.chance(30) ? r.range(14, 34) : r.below(48);
      if (big and r.chance(30)) n = r.chance(50) ? r.range(60, 300) : r.range(4000, 66000);
      const auto v = r.below(256);
      if (not w.live(s) or r.chance(10)) w.run(ctors[r.below(7)], s, t, n, v);
      else w.run(others[r.below(17)], s, t, n, v);
    }
  }
  return 0;
}
