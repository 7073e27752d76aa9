// Several sessions in the same process, which must not influence each other.
//
// multi: each session is a coroutine; all run in the same thread, and control goes from one to another
// at random (but reproducible) points: before each call, and within handlers, i.e. in the middle of
// calls. This is what happens when the handler of an encoder or a decoder uses another one.
//
// threads: each session has its own thread.

#include <thread>
#include <ucontext.h>

namespace multi {

struct coroutine
{
  ucontext_t ctx;
  std::vector<char> stack;
  long long ms = 1000000;
  bool done = false;
  std::function<void()> body;
};

static ucontext_t scheduler;
static std::vector<std::unique_ptr<coroutine>> all;
static coroutine* current = nullptr;
static rng* decisions = nullptr;

inline void switch_out()
{
  auto c = current;
  c->ms = virtual_ms;
  swapcontext(&c->ctx, &scheduler);
  // Back: 'current' is c again.
  virtual_ms = c->ms;
}

inline void maybe_switch() { if (current and decisions->chance(30)) switch_out(); }

inline void entry()
{
  current->body();
  current->done = true;
  switch_out();
}

} // namespace multi

inline std::vector<std::pair<std::string, long>> read_profiles(const std::string& text)
{
  std::vector<std::pair<std::string, long>> res;
  std::istringstream is(text);
  std::string item;
  while (std::getline(is, item, ','))
  {
    const auto c = item.find(':');
    res.emplace_back(item.substr(0, c), std::atol(item.substr(c + 1).c_str()));
  }
  return res;
}

// What session number k does.
inline void one_session( session_driver& s, std::uint64_t seed, long k
                       , const std::vector<std::pair<std::string, long>>& profiles)
{
  rng r(seed * 64 + static_cast<std::uint64_t>(k) + 77);
  // Each one with its own order of profiles.
  std::vector<std::string> todo;
  for (const auto& p : profiles) for (long i = 0; i < p.second; ++i) todo.push_back(p.first);
  for (auto i = static_cast<long>(todo.size()); i > 1; --i)
    std::swap(todo[static_cast<std::size_t>(i - 1)], todo[static_cast<std::size_t>(r.below(i))]);
  for (const auto& p : todo) run_profile(s, r, p);
}

inline int run_multi(int argc, char** argv)
{
  using namespace multi;
  if (argc < 6) return 3;
  const auto seed = std::strtoull(argv[2], nullptr, 10);
  const auto n = std::atol(argv[3]);
  const auto profiles = read_profiles(argv[4]);
  const auto only = argc > 6 ? std::atol(argv[6]) : -1;
  own_fields = true;
  session_driver files(argv[5], 0);
  std::vector<std::unique_ptr<session_driver>> sessions;
  for (long k = 0; k < n; ++k)
    sessions.emplace_back(new session_driver(files, static_cast<int>(k), seed * 1000 + static_cast<std::uint64_t>(k) * 100));
  if (only >= 0)
  {
    std::fprintf(files.script, "seed %llu\n", static_cast<unsigned long long>(seed * 1000 + only * 100));
    one_session(*sessions.at(static_cast<std::size_t>(only)), seed, only, profiles);
    return 0;
  }
  rng r(seed + 4242);
  decisions = &r;
  for (long k = 0; k < n; ++k)
  {
    std::unique_ptr<coroutine> c(new coroutine);
    c->stack.resize(1 << 20);
    auto s = sessions[static_cast<std::size_t>(k)].get();
    c->body = [=, &profiles]{ one_session(*s, seed, k, profiles); };
    getcontext(&c->ctx);
    c->ctx.uc_stack.ss_sp = c->stack.data();
    c->ctx.uc_stack.ss_size = c->stack.size();
    c->ctx.uc_link = nullptr;
    makecontext(&c->ctx, entry, 0);
    all.push_back(std::move(c));
  }
  on_handler = maybe_switch;
  while (true)
  {
    std::vector<coroutine*> ready;
    for (auto& c : all) if (not c->done) ready.push_back(c.get());
    if (ready.empty()) break;
    current = ready[static_cast<std::size_t>(r.below(static_cast<long>(ready.size())))];
    virtual_ms = current->ms;
    swapcontext(&scheduler, &current->ctx);
  }
  current = nullptr;
  return 0;
}

inline int run_threads(int argc, char** argv)
{
  if (argc < 6) return 3;
  const auto seed = std::strtoull(argv[2], nullptr, 10);
  const auto n = std::atol(argv[3]);
  const auto profiles = read_profiles(argv[4]);
  const std::string out = argv[5];
  own_fields = true;
  std::vector<std::thread> threads;
  for (long k = 0; k < n; ++k)
  {
    threads.emplace_back([=, &profiles]
    {
      session_driver s(out + "." + std::to_string(k), seed * 1000 + static_cast<std::uint64_t>(k) * 100);
      virtual_ms = 1000000;
      one_session(s, seed, k, profiles);
    });
  }
  for (auto& t : threads) t.join();
  return 0;
}
