// Tests generated from the specification: a sequence of calls and what must be observed at the last
// one, see spec/GenNetcode.tla. Lines look like:
//   GEN w8 o1 L2 R2 S1 A0 N1000 P0 d r p0 ... {"eo":[...],"ak":[...],"dv":[0,1],"win":2,...}

namespace generated {

// Only what's needed to read these lines.
struct json
{
  long n = 0;
  std::vector<json> items;
  std::vector<std::pair<std::string, json>> fields;

  const json& at(const std::string& k) const
  {
    for (const auto& f : fields) { if (f.first == k) return f.second; }
    std::cerr << "no field " << k << '\n';
    std::exit(3);
  }
  std::vector<long> longs() const
  {
    std::vector<long> v;
    for (const auto& i : items) v.push_back(i.n);
    return v;
  }
};

inline json parse_json(const char*& p)
{
  json j;
  if (*p == '[')
  {
    ++p;
    while (*p != ']') { j.items.push_back(parse_json(p)); if (*p == ',') ++p; }
    ++p;
  }
  else if (*p == '{')
  {
    ++p;
    while (*p != '}')
    {
      ++p; // "
      std::string k;
      while (*p != '"') k += *p++;
      p += 2; // ":
      j.fields.emplace_back(k, parse_json(p));
      if (*p == ',') ++p;
    }
    ++p;
  }
  else
  {
    char* e;
    j.n = std::strtol(p, &e, 10);
    if (e == p) { std::cerr << "bad generated test\n"; std::exit(3); }
    p = e;
  }
  return j;
}

// An independent reading of identifiers.
inline bool read_ids(const bytes& b, std::size_t at, std::vector<long>& ids)
{
  const auto u8 = [&](std::size_t i) -> long { return i < b.size() ? static_cast<unsigned char>(b[i]) : 0; };
  const auto u16 = [&](std::size_t i) { return u8(i) * 256 + u8(i + 1); };
  if (at + 2 > b.size()) return false;
  const auto n = u16(at);
  if (n == 0) return true;
  if (at + 6 + 3 * static_cast<std::size_t>(n - 1) > b.size()) return false;
  ids.push_back(u16(at + 2) * 65536 + u16(at + 4));
  for (std::size_t i = 0; i + 1 < static_cast<std::size_t>(n); ++i)
  {
    const auto run = u8(at + 6 + 3 * i), diff = u16(at + 7 + 3 * i);
    if (run == 0) return false; // never the case here
    for (long k = 0; k < run; ++k) ids.push_back(ids.back() + diff);
  }
  return true;
}

struct runner
{
  std::unique_ptr<backend> m;
  std::vector<bytes> pk, ak, contents;
  int w = 8;

  bytes content(long id) const
  {
    const long word = w == 32 ? 4 : w == 16 ? 2 : 1;
    bytes b(static_cast<std::size_t>(word * (1 + (id * 2) % 5)));
    for (std::size_t i = 0; i < b.size(); ++i) b[i] = static_cast<char>(17 + id * 31 + static_cast<long>(i) * 7);
    return b;
  }

  void step(const std::string& t)
  {
    const auto v = t.size() > 1 ? std::strtol(t.c_str() + 1, nullptr, 10) : 0;
    m->begin();
    switch (t[0])
    {
      case 'd': contents.push_back(content(static_cast<long>(contents.size()))); m->data(contents.back(), 0); break;
      case 'r': m->rep(); break;
      case 'k': m->ack(); break;
      case 'p': m->to_dec(pk.at(static_cast<std::size_t>(v)), 0); break;
      case 'a': m->to_enc(ak.at(static_cast<std::size_t>(v)), 0); break;
      case 'L': m->set("lim", v); break;
      case 'R': m->set("rate", v); break;
      case 'S': m->set("sys", v); break;
      case 'A': m->set("adapt", v); break;
      case 'N': m->set("nb", v); break;
      case 'P': m->set("per", v); break;
      case 't': virtual_ms += 1; break;
      default: std::cerr << "bad generated call " << t << '\n'; std::exit(3);
    }
    m->end();
    for (const auto& b : m->obs.eo) pk.push_back(b);
    for (const auto& b : m->obs.dout) ak.push_back(b);
  }

  bool observed(const json& x, bool ordered)
  {
    const auto& o = m->obs;
    if (o.er != 0 or o.frag) return false;
    // Packets of the encoder
    const auto& eo = x.at("eo").items;
    if (eo.size() != o.eo.size()) return false;
    for (std::size_t i = 0; i < eo.size(); ++i)
    {
      const auto& b = o.eo[i];
      if (b.size() < 7 or b[0] != eo[i].at("t").n) return false;
      const auto u = [&](std::size_t k){ return static_cast<unsigned char>(b[k]); };
      if (((u(1) * 256l + u(2)) * 256l + u(3)) * 256l + u(4) != eo[i].at("id").n) return false;
      if (b[0] == 1)
      {
        std::vector<long> ids;
        if (not read_ids(b, 7u + u(5) * 256u + u(6), ids) or ids != eo[i].at("ids").longs()) return false;
      }
    }
    // Acks
    const auto& acks = x.at("ak").items;
    if (acks.size() != o.dout.size()) return false;
    for (std::size_t i = 0; i < acks.size(); ++i)
    {
      const auto& b = o.dout[i];
      std::vector<long> ids;
      if (b.size() < 3 or b[0] != 0) return false;
      if (static_cast<unsigned char>(b[1]) * 256l + static_cast<unsigned char>(b[2]) != acks[i].at("nb").n) return false;
      auto want = acks[i].at("ids").longs();
      std::sort(want.begin(), want.end());
      if (not read_ids(b, 3, ids) or ids != want) return false;
    }
    // Deliveries
    auto dv = x.at("dv").longs();
    if (dv.size() != o.dv.size()) return false;
    std::vector<long> have;
    for (const auto& d : o.dv)
    {
      const auto it = std::find(contents.begin(), contents.end(), d.b);
      if (it == contents.end() or d.align != 0) return false;
      have.push_back(it - contents.begin());
    }
    if (not ordered) { std::sort(dv.begin(), dv.end()); std::sort(have.begin(), have.end()); }
    if (dv != have) return false;
    // State
    const auto g = m->getters();
    if (g.size() == 1) return g[0] == x.at("win").n; // all there is in the C interface
    return g[0] == x.at("win").n and g[4] == x.at("rate").n and g[8] == x.at("nd").n
       and g[10] == x.at("miss").n and g[14] == x.at("nu").n;
  }
};

} // namespace generated

// Should a call crash or hang, tell which test did it.
static char crash_text[4096];
static std::size_t crash_size = 0;

extern "C" inline void crash_handler(int)
{
  if (::write(2, crash_text, crash_size) < 0) {}
  ::_exit(99);
}

inline void on_crash(const std::string& calls)
{
  const auto t = "CRASH " + calls + "\n";
  crash_size = std::min(t.size(), sizeof(crash_text));
  std::copy_n(t.begin(), crash_size, crash_text);
  ::alarm(20);
}

inline int replay_generated(const std::string& file, const std::string& out, bool c)
{
  using namespace generated;
  for (const auto sig : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) std::signal(sig, crash_handler);
  std::ifstream f(file);
  std::ofstream o(out);
  std::string l;
  long count = 0, diverge = 0, calls = 0;
  while (std::getline(f, l))
  {
    const auto brace = l.find('{');
    if (brace == std::string::npos) continue;
    std::istringstream is(l.substr(4, brace - 4));
    std::string t;
    runner r;
    virtual_ms = 1000000;
    is >> t;
    const auto w = std::atoi(t.c_str() + 1);
    is >> t;
    const bool ord = t == "o1";
    r.w = w;
    if (c) r.m.reset(new c_backend(w, ord)); else r.m.reset(new cpp_backend(w, ord));
    const char* p = l.c_str() + brace;
    const auto expected = parse_json(p);
    ++count;
    bool ok = true;
    on_crash(l.substr(4, brace - 4));
    try
    {
      while (is >> t) { r.step(t); ++calls; }
      ok = r.observed(expected, ord);
    }
    catch (const std::exception&) { ok = false; } // e.g. a packet which was expected isn't there
    if (not ok)
    {
      ++diverge;
      if (diverge <= 200) o << l.substr(4, brace - 4) << '\n';
    }
  }
  std::cout << "{\"tests\":" << count << ",\"calls\":" << calls << ",\"diverge\":" << diverge << "}\n";
  return 0;
}
