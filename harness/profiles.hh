// Random sessions. Each profile stresses a part of the behaviour.

struct gen
{
  session_driver& s;
  rng& r;
  long next_fwd = 0;      // next packet to forward, in order
  long next_ack = 0;
  long max_size = 16;
  long loss = 20, reorder = 15, late = 5;

  gen(session_driver& s_, rng& r_) : s(s_), r(r_) {}

  long word() const { return s.w == 32 ? 4 : s.w == 16 ? 2 : 1; }

  void op(const std::string& k, std::vector<long> a = {}, const std::string& str = "")
  { s.exec(op_t{k, std::move(a), str}); }

  void start(int w, int ord, int api, std::vector<long> pos = {})
  {
    std::vector<long> a{w, ord, api};
    a.insert(a.end(), pos.begin(), pos.end());
    op("new", a);
  }

  long size()
  {
    const auto m = max_size / word();
    if (r.chance(5)) return word() * m;
    if (r.chance(10)) return word();
    return word() * r.range(1, m);
  }

  void data() { op("data", {size(), r.below(6)}); }
  long npk() const { return static_cast<long>(s.pk.size()); }
  long nak() const { return static_cast<long>(s.ak.size()); }

  void fwd_index(long i) { op("fwd", {i, r.below(10), r.chance(10) ? r.range(1, 20) : 0, -1, s.api != 1 and r.chance(15) ? 1 : 0}); }
  void fba_index(long i) { op("fba", {i, r.below(10), r.chance(10) ? r.range(1, 20) : 0, -1, s.api != 1 and r.chance(15) ? 1 : 0}); }

  // The network moves a packet.
  void net()
  {
    if (npk() == 0) return;
    if (r.chance(late)) { fwd_index(r.below(npk())); return; }
    if (r.chance(reorder)) { fwd_index(std::max(0l, npk() - 1 - r.below(12))); return; }
    while (next_fwd < npk() and r.chance(loss)) ++next_fwd;
    if (next_fwd < npk()) fwd_index(next_fwd++);
  }

  void net_ack()
  {
    if (nak() == 0) return;
    if (r.chance(20)) { fba_index(r.below(nak())); return; }
    if (r.chance(25)) { next_ack = nak(); return; } // lost
    fba_index(nak() - 1);
  }

  void cut()
  {
    if (r.chance(60) and npk())
    {
      const auto i = r.chance(70) ? std::max(0l, npk() - 1 - r.below(6)) : r.below(npk());
      const auto sz = static_cast<long>(s.pk[static_cast<std::size_t>(i)].b.size());
      const auto c = r.chance(40) ? sz - 1 - r.below(std::min(sz - 1, 12l)) : r.range(1, std::max(1l, sz - 1));
      op("fwd", {i, r.below(10), 0, c, s.api != 1 and r.chance(20) ? 1 : 0});
    }
    else if (nak())
    {
      const auto i = r.below(nak());
      const auto sz = static_cast<long>(s.ak[static_cast<std::size_t>(i)].b.size());
      op("fba", {i, r.below(10), 0, r.range(1, std::max(1l, sz - 1)), s.api != 1 and r.chance(20) ? 1 : 0});
    }
  }

  void foreign()
  {
    switch (r.below(3))
    {
      case 0: if (npk()) op("mis", {r.below(npk()), r.below(10)}, "enc"); break;
      case 1: if (nak()) op("mis", {r.below(nak()), r.below(10)}, "dec"); break;
      default: op("unk", {r.chance(50) ? r.range(3, 8) : r.range(3, 255), r.below(10), r.range(1, 12), r.below(3)});
    }
  }

  // Exchanges without loss, until the window is empty.
  void drain()
  {
    op("drain");
    const auto max_rounds = 45;
    long rounds = 0;
    while (s.m->enc.window() != 0 and rounds < max_rounds)
    {
      ++rounds;
      const auto before = npk();
      op("rep");
      for (auto i = before; i < npk(); ++i) fwd_index(i);
      const auto acks = nak();
      op("ack");
      if (nak() > acks) fba_index(nak() - 1);
    }
    op("end", {rounds});
  }

  void params(long lim_max, bool allow_unlimited)
  {
    op("set", {r.chance(85) ? 0 : 1}, "adapt");
    op("set", {r.range(1, 6)}, "rate");
    if (not allow_unlimited or r.chance(60)) op("set", {r.range(1, lim_max)}, "lim");
    op("set", {r.chance(80) ? 1 : 0}, "sys");
    op("set", {r.chance(50) ? r.range(1, 30) : r.range(1, 200)}, "nb");
    op("set", {r.chance(35) ? 0 : r.chance(85) ? r.range(1, 300) : r.range(300, 200000)}, "per");
  }

  void change_param(long lim_max, bool allow_unlimited)
  {
    switch (r.below(6))
    {
      case 0: op("set", {r.range(1, 8)}, "rate"); break;
      case 1: op("set", {allow_unlimited and r.chance(20) ? -1 : r.range(1, lim_max)}, "lim"); break;
      case 2: op("set", {r.below(2)}, "sys"); break;
      case 3: op("set", {r.below(2)}, "adapt"); break;
      case 4: op("set", {r.chance(85) ? r.range(1, 140) : r.range(140, 65535)}, "nb"); break;
      default: op("set", {r.chance(30) ? 0 : r.chance(85) ? r.range(1, 250) : r.range(250, 200000)}, "per");
    }
  }

  // The general case.
  void mix(long nops, long lim_max, bool unlimited, long wdata, long wrep, long wnet, long wack, long wfba
          , long wset, long wtime, long wbad)
  {
    const auto total = wdata + wrep + wnet + wack + wfba + wset + wtime + wbad;
    for (long i = 0; i < nops; ++i)
    {
      auto v = r.below(total);
      if ((v -= wdata) < 0) data();
      else if ((v -= wrep) < 0) op("rep");
      else if ((v -= wnet) < 0) net();
      else if ((v -= wack) < 0) op("ack");
      else if ((v -= wfba) < 0) net_ack();
      else if ((v -= wset) < 0) change_param(lim_max, unlimited);
      else if ((v -= wtime) < 0) op("time", {r.chance(80) ? r.range(1, 60) : r.chance(90) ? r.range(60, 400) : r.range(400, 150000)});
      else { if (r.chance(50)) cut(); else foreign(); }
    }
  }
};

inline int any_w(rng& r) { static const int w[] = {4, 8, 8, 8, 16, 32}; return w[r.below(6)]; }

inline void run_profile(session_driver& s, rng& r, const std::string& name)
{
  gen g(s, r);
  const auto ord = static_cast<int>(r.below(2));
  if (name == "mix")
  {
    const auto w = any_w(r);
    g.start(w, ord, 0);
    g.params(w == 4 ? 8 : w == 8 ? 14 : 9, w == 8);
    g.max_size = r.chance(30) ? 4 * g.word() : 16;
    g.loss = r.range(0, 60); g.reorder = r.range(0, 40); g.late = r.range(0, 15);
    g.mix(r.range(60, 200), w == 4 ? 8 : w == 8 ? 14 : 9, w == 8, 30, 8, 45, 4, 6, 2, 4, 2);
    g.drain();
  }
  else if (name == "loss") // few sources received: repairs do the job
  {
    const auto w = any_w(r);
    g.start(w, ord, 0);
    g.params(w == 4 ? 6 : 10, false);
    g.max_size = 8;
    g.loss = r.range(50, 80); g.reorder = 30; g.late = 5;
    g.mix(r.range(80, 160), w == 4 ? 6 : 10, false, 20, 20, 45, 3, 4, 1, 2, 0);
    g.drain();
  }
  else if (name == "singular") // tiny field, many repairs
  {
    g.start(4, ord, 0);
    g.op("set", {1000}, "rate");
    g.op("set", {0}, "per"); g.op("set", {128}, "nb");
    g.op("set", {r.chance(70) ? 1 : 0}, "sys");
    g.op("set", {r.range(2, 6)}, "lim");
    g.max_size = 4;
    g.loss = 70; g.reorder = 40; g.late = 20;
    g.mix(r.range(80, 160), 6, false, 12, 34, 50, 2, 3, 0, 0, 0);
    g.drain();
  }
  else if (name == "late") // small windows and very old packets
  {
    g.start(any_w(r), ord, 0);
    g.op("set", {r.range(1, 3)}, "rate");
    g.op("set", {r.range(1, 5)}, "lim");
    g.op("set", {r.chance(70) ? 1 : 0}, "sys");
    g.op("set", {0}, "per"); g.op("set", {r.range(1, 128)}, "nb");
    g.max_size = 8;
    g.loss = r.range(10, 60); g.reorder = 40; g.late = 40;
    g.mix(r.range(80, 200), 5, false, 25, 8, 60, 4, 6, 2, 0, 0);
    g.drain();
  }
  else if (name == "acks") // timing and counting of acks, adaptive rate
  {
    g.start(8, ord, 0);
    g.op("set", {1}, "adapt");
    g.op("set", {r.range(2, 20)}, "lim");
    g.op("set", {r.chance(30) ? r.range(100, 300) : r.range(1, 20)}, "nb");
    g.op("set", {r.chance(30) ? 0 : r.range(1, 150)}, "per");
    g.max_size = 4;
    g.loss = r.range(0, 40); g.reorder = 5; g.late = 3;
    g.mix(r.range(100, 250), 20, false, 35, 5, 40, 3, 8, 4, 15, 0);
    g.drain();
  }
  else if (name == "ratio") // adaptive rate for chosen ratios
  {
    g.start(8, ord, 0);
    g.op("set", {1}, "adapt");
    g.op("set", {3}, "lim");
    g.op("set", {1000000}, "rate");
    for (int i = 0; i < 12; ++i)
    {
      const auto sent = r.chance(50) ? r.range(1, 40) : r.range(1, 420);
      g.op("set", {1000000}, "rate");
      if (r.chance(95)) g.op("bulk", {sent});
      if (r.chance(30)) g.op("rep");
      long nb = r.below(sent + 3);
      if (r.chance(30)) nb = std::max(0l, sent - r.below(5));
      if (r.chance(10)) nb = sent - sent / 50;
      g.op("fack", {nb});
      if (r.chance(20)) g.op("set", {r.below(2)}, "adapt");
      g.data();
    }
  }
  else if (name == "bad") // with a twin that isn't given bad packets
  {
    const auto w = any_w(r);
    g.start(w, ord, 2);
    g.op("set", {r.range(1, 6)}, "rate");
    g.op("set", {r.range(2, w == 4 ? 8 : 12)}, "lim");
    g.op("set", {r.chance(80) ? 1 : 0}, "sys");
    g.op("set", {128}, "nb"); g.op("set", {0}, "per");
    g.max_size = 12;
    g.loss = r.range(10, 60);
    for (long i = 0, n = r.range(60, 120); i < n; ++i)
    {
      if (s.m->dec.nb_received_sources() + s.m->dec.nb_received_repairs() > 100) g.op("ack");
      g.mix(1, 12, false, 26, 8, 30, 4, 6, 0, 0, 24);
    }
    g.drain();
  }
  else if (name == "cuts") // packets cut everywhere
  {
    const auto w = any_w(r);
    g.start(w, ord, 2);
    g.op("set", {1000}, "rate");
    g.op("set", {8}, "lim");
    g.op("set", {128}, "nb"); g.op("set", {0}, "per");
    g.max_size = 12;
    for (int turn = 0; turn < 2; ++turn)
    {
      // Lists of identifiers with holes.
      for (long i = 0, n = r.range(3, 7); i < n; ++i) { g.data(); if (r.chance(50)) g.fwd_index(g.npk() - 1); }
      g.op("ack");
      if (r.chance(60)) g.fba_index(g.nak() - 1);
      g.data(); // not forwarded yet
      const auto src = g.npk() - 1;
      g.op("rep");
      const auto rep = g.npk() - 1;
      g.op("ack");
      const auto ack = g.nak() - 1;
      const auto all = [&](const char* k, long i, std::size_t size)
      {
        for (long c = 1; c < static_cast<long>(size); ++c)
          g.op(k, {i, r.below(10), 0, c, r.chance(20) ? 1 : 0});
      };
      all("fwd", src, s.pk[static_cast<std::size_t>(src)].b.size());
      all("fwd", rep, s.pk[static_cast<std::size_t>(rep)].b.size());
      g.op("ack"); // there can't be more than 128 packets between two acks
      all("fba", ack, s.ak[static_cast<std::size_t>(ack)].b.size());
      g.fwd_index(r.chance(50) ? rep : src);
      g.fba_index(ack);
    }
    g.drain();
  }
  else if (name == "capi") // the C interface in parallel
  {
    const auto w = any_w(r);
    g.start(w, ord, 1);
    g.params(w == 4 ? 8 : w == 8 ? 14 : 9, w == 8);
    g.max_size = 16;
    g.loss = r.range(0, 60);
    g.mix(r.range(60, 140), w == 4 ? 8 : w == 8 ? 14 : 9, w == 8, 28, 8, 40, 4, 6, 4, 4, 5);
    g.drain();
  }
  else if (name == "cset") // parameters of all magnitudes, C interface in parallel
  {
    g.start(8, ord, 1);
    g.max_size = 2;
    g.op("set", {r.range(1, 3)}, "lim");
    g.op("set", {1000000}, "rate");
    const auto magnitude = [&]() -> long
    {
      static const long b[] = {1, 16, 128, 255, 256, 1000, 32768, 65535, 65536, 131072};
      return b[r.below(10)] + r.below(4);
    };
    const auto one = [&]{ g.data(); g.fwd_index(g.npk() - 1); };
    for (int i = 0; i < 4; ++i)
    {
      switch (r.below(6))
      {
        case 0:
        case 1:
        {
          const auto p = magnitude();
          g.op("set", {128}, "nb"); g.op("set", {p}, "per");
          g.op("time", {p}); one(); // resets the date of the last ack
          for (const auto q : {p % 256, p % 65536 - p % 256, p - p % 65536 - 1, 1l})
          { if (q > 0) { g.op("time", {q}); one(); } }
          g.op("set", {0}, "per"); g.op("time", {p}); one();
          break;
        }
        case 2:
        {
          const auto n = std::min(magnitude(), 65535l);
          g.op("set", {0}, "per"); g.op("set", {n}, "nb");
          g.op("ack");
          for (long k = 0; k < std::min(n, 130l); ++k) one();
          break;
        }
        case 3:
        {
          const auto n = magnitude();
          g.op("set", {n}, "rate");
          g.op("bulk", {n + r.below(3)}); g.op("rep"); g.fwd_index(g.npk() - 1);
          g.op("set", {1000000}, "rate");
          break;
        }
        case 4:
        {
          const auto n = magnitude();
          g.op("set", {n}, "lim");
          g.op("bulk", {n + r.below(3)});
          if (n < 300) g.op("rep");
          g.op("set", {r.range(1, 3)}, "lim"); one();
          break;
        }
        default:
          g.op("set", {1}, "adapt"); g.op("set", {r.range(1, 3)}, "rate");
          for (int k = 0; k < 6; ++k) { one(); if (r.chance(20)) g.op("set", {r.below(2)}, "sys"); }
          g.op("ack"); g.fba_index(g.nak() - 1);
          g.op("set", {0}, "adapt"); g.op("set", {1}, "sys"); g.op("set", {1000000}, "rate");
      }
    }
  }
  else if (name == "runs") // long lists of identifiers
  {
    static const int ws[] = {8, 16, 32};
    g.start(ws[r.below(3)], ord, 0);
    g.op("set", {1000000}, "rate");
    g.op("set", {0}, "per"); g.op("set", {128}, "nb");
    g.max_size = g.word();
    const auto n = r.chance(30) ? r.range(250, 262) : r.range(200, 600);
    if (r.chance(50))
    {
      g.op("bulk", {n});
      g.op("rep");
      // Acknowledge some runs.
      std::vector<long> a{0};
      long at = r.below(5);
      while (at < n)
      {
        const auto run = r.chance(30) ? r.range(250, 260) : r.range(1, 40);
        const auto step = r.range(1, 3);
        a.push_back(at); a.push_back(run); a.push_back(step);
        at += run * step + r.range(1, 10);
      }
      g.op("fack", a);
      g.op("rep");
      g.data(); g.op("rep");
    }
    else
    {
      // The decoder receives many sources, and thus sends long acks.
      const auto loss = r.chance(30) ? 0 : r.range(1, 40);
      for (long i = 0; i < n; ++i)
      {
        g.data();
        if (not r.chance(loss)) g.fwd_index(g.npk() - 1);
      }
      g.op("ack"); g.fba_index(g.nak() - 1);
      g.op("rep"); g.fwd_index(g.npk() - 1);
      g.op("ack"); g.fba_index(g.nak() - 1);
    }
  }
  else if (name == "high") // large identifiers
  {
    g.start(any_w(r), ord, 0);
    g.op("set", {r.chance(50) ? 1 : 1000000}, "rate");
    g.op("set", {r.range(1, 6)}, "lim");
    g.op("bulk", {r.chance(50) ? 65530 + r.below(10) : r.range(66000, 140000)});
    g.op("set", {r.range(1, 6)}, "rate");
    g.max_size = 8;
    g.loss = r.range(20, 60); g.reorder = 20; g.late = 10;
    g.mix(r.range(40, 100), 6, false, 25, 12, 45, 4, 6, 0, 3, 0);
    g.drain();
  }
  else if (name == "gap") // large gaps between identifiers in the window
  {
    static const int ws[] = {8, 16, 32};
    g.start(ws[r.below(3)], ord, 0);
    g.op("set", {1000000}, "rate");
    const auto n = r.range(66000, 72000);
    const auto keep = r.range(1, 3);
    g.op("bulk", {n});
    g.op("fack", {7, keep, n - keep - r.below(3), 1});
    g.op("rep");
    g.data(); g.data();
    g.op("rep");
    g.op("bulk", {r.range(65530, 65540)});
    g.op("fack", {3, n + 3, 65538, 1});
    g.op("rep");
    g.op("fack", {1, 0, 1, 1, n + 1, 2, 1});
    g.op("rep");
  }
  else if (name == "count") // many packets sent since the last ack
  {
    g.start(8, ord, 0);
    g.op("set", {1}, "adapt");
    g.op("set", {2}, "lim");
    g.op("set", {1000000}, "rate");
    const auto n = r.range(65500, 70000);
    g.op("bulk", {n});
    g.op("fack", {r.range(30000, 65535)});
    g.data();
  }
  else if (name == "long") // counters of all magnitudes
  {
    const auto many = [&]{ return r.chance(50) ? r.range(66000, 70000) : r.chance(50) ? r.range(33000, 45000) : r.range(150, 700); };
    const auto some = [&](long max){ return std::min(max, many()); };
    g.start(any_w(r), ord, 0);
    if (r.chance(50))
    {
      g.op("set", {1}, "lim");
      g.op("set", {0}, "per");
      const bool sys = r.chance(50);
      g.op("set", {sys ? 1 : 0}, "sys");
      g.op("set", {sys or r.chance(30) ? 1 : 1000000}, "rate");
      g.op("set", {r.chance(30) ? r.range(1, 3) : r.range(3, 140)}, "nb");
      g.op("stream", {many()});
      g.op("ack");
      g.op("stream", {r.range(1, 300)});
    }
    else
    {
      g.op("set", {r.range(2, 4)}, "lim");
      g.op("set", {0}, "per");
      g.op("set", {1000000}, "rate");
      if (r.chance(50)) g.op("set", {1}, "adapt");
      g.data(); g.data();
    }
    for (int i = 0; i < 2; ++i)
    {
      g.op("rep");
      g.op("again", {some(70000)});
      g.fwd_index(g.npk() - 1);
      g.op("ack");
      g.op("again", {many()});
      g.fba_index(g.nak() - 1);
      g.op("again", {many()});
      g.data();
      g.fwd_index(g.npk() - 1);
      g.op("again", {some(60000)});
      g.op("ack");
      g.fwd_index(g.npk() - 1);
      g.op("again", {some(60000)});
      g.op("ack");
      g.op("rep");
      g.fwd_index(g.npk() - 1);
      g.op("again", {some(60000)});
      g.op("ack");
    }
    g.mix(20, 8, false, 4, 2, 6, 1, 1, 0, 0, 0);
  }
  else if (name == "payload") // large payloads of very different sizes
  {
    static const int ws[] = {4, 8, 16, 32};
    const auto w = ws[r.below(4)];
    const auto word = w == 32 ? 4 : w == 16 ? 2 : 1;
    std::vector<long> pos;
    for (int i = 0; i < 7; ++i)
    {
      static const long at[] = {0, 16, 252, 1020, 4096, 65528, 65532};
      auto p = r.chance(70) ? at[i] : r.below(65532);
      p -= p % 4;
      for (int j = 0; j < word; ++j) pos.push_back(p + j);
    }
    std::sort(pos.begin(), pos.end());
    pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
    g.start(w, ord, r.chance(20) ? 1 : 0, pos);
    g.op("set", {1000}, "rate");
    g.op("set", {r.range(2, 5)}, "lim");
    g.op("set", {128}, "nb"); g.op("set", {0}, "per");
    g.loss = 50; g.reorder = 20; g.late = 10;
    for (long i = 0, n = r.range(15, 40); i < n; ++i)
    {
      static const long sizes[] = {1, 15, 16, 17, 255, 256, 257, 1400, 4095, 4096, 32767, 32768, 65535, 65534, 65532};
      // C packets hold 65535 bytes, headers included.
      const auto top = s.api == 1 ? 64000 : 65535;
      auto sz = r.chance(60) ? sizes[r.below(15)] : r.range(1, 65535);
      sz = std::min<long>(sz, top);
      sz = std::max<long>(word, sz - sz % word);
      if (r.chance(35)) g.op("data", {sz, r.below(6)});
      else if (r.chance(25)) g.op("rep");
      else g.net();
    }
    g.drain();
  }
  else if (name == "matrix") // many missing sources
  {
    const auto w = r.chance(75) ? 8 : 16;
    g.start(w, ord, 0);
    g.op("set", {1000000}, "rate");
    g.op("set", {0}, "per"); g.op("set", {128}, "nb");
    g.max_size = 2;
    const auto n = w == 8 ? r.range(20, 44) : r.range(10, 18);
    for (long i = 0; i < n; ++i) { g.data(); if (r.chance(10)) g.fwd_index(g.npk() - 1); }
    g.drain();
  }
  else
  {
    std::cerr << "unknown profile " << name << '\n';
    std::exit(3);
  }
}
