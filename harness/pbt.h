// Small property-based testing library: every random decision is one entry of
// a recorded choice sequence, so that any failing case can be shrunk (by
// simplifying the sequence) and replayed exactly, independent of the seed.
#pragma once
#include <mpi.h>

#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt
{
  struct Failure : public std::runtime_error
  {
    Failure(const std::string &m)
      : std::runtime_error(m)
    {}
  };
  struct Discard
  {};

  inline std::uint64_t
  mix(std::uint64_t x)
  {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
  }

  inline std::uint64_t
  hash_str(const std::string &s)
  {
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
      h = (h ^ c) * 1099511628211ull;
    return h;
  }

  // ---- source of choices ---------------------------------------------------
  class Src
  {
  public:
    explicit Src(std::uint64_t seed)
      : state(seed)
      , replaying(false)
    {}
    explicit Src(const std::vector<std::uint64_t> &choices)
      : replay(choices)
      , replaying(true)
    {}

    // uniform in [0,n)
    std::uint64_t
    draw(std::uint64_t n)
    {
      if (n == 0)
        n = 1;
      std::uint64_t v = 0;
      if (replaying)
        {
          if (rec.size() < replay.size())
            v = replay[rec.size()] % n; // beyond the end: simplest value
        }
      else
        {
          state += 0x9E3779B97F4A7C15ull;
          std::uint64_t z = mix(state);
          v               = z % n;
        }
      if (rec.size() > 2000000)
        throw Discard();
      rec.push_back(v);
      return v;
    }

    long
    range(long lo, long hi) // inclusive, shrinks towards lo
    {
      return lo + static_cast<long>(
                    draw(static_cast<std::uint64_t>(hi - lo) + 1));
    }

    bool
    coin(double p = 0.5) // shrinks towards false
    {
      return draw(1000) >= static_cast<std::uint64_t>(1000 * (1 - p));
    }

    double
    unit() // [0,1)
    {
      return static_cast<double>(draw(1ull << 52)) /
             static_cast<double>(1ull << 52);
    }

    // real number; one third of the draws are taken from a coarse grid so that
    // ties, symmetric positions and end points really occur
    double
    real(double lo, double hi)
    {
      if (draw(3) == 0)
        return lo + (hi - lo) * static_cast<double>(draw(17)) / 16.;
      return lo + (hi - lo) * unit();
    }

    // real number without special values
    double
    generic(double lo, double hi)
    {
      return lo + (hi - lo) * unit();
    }

    // log-uniform
    double
    logreal(double lo, double hi)
    {
      return std::exp(real(std::log(lo), std::log(hi)));
    }

    template <typename T>
    const T &
    pick(const std::vector<T> &v)
    {
      return v[draw(v.size())];
    }

    std::vector<unsigned int>
    permutation(unsigned int n)
    {
      std::vector<unsigned int> p(n);
      for (unsigned int i = 0; i < n; ++i)
        p[i] = i;
      for (unsigned int i = 0; i + 1 < n; ++i)
        std::swap(p[i], p[i + draw(n - i)]);
      return p;
    }

    std::vector<std::uint64_t> rec;

  private:
    std::vector<std::uint64_t> replay;
    std::uint64_t              state = 0;
    bool                       replaying;
  };

  // ---- one case -------------------------------------------------------------
  struct Case
  {
    Src                               &s;
    std::map<std::string, std::size_t> labels;
    std::vector<std::string>           errors;
    std::ostringstream                 desc;
    std::set<std::string>              known;
    bool                               nontrivial = false;
    bool                               verbose    = false;

    explicit Case(Src &s)
      : s(s)
    {}

    void
    label(const std::string &l, bool cond = true)
    {
      if (cond)
        labels[l]++;
    }

    void
    fail(const std::string &m)
    {
      if (errors.size() < 5)
        errors.push_back(m);
    }

    template <typename... Args>
    bool
    check(bool ok, Args &&...args)
    {
      if (!ok)
        {
          std::ostringstream ss;
          ss << std::setprecision(17);
          (ss << ... << args);
          fail(ss.str());
        }
      return ok;
    }

    template <typename... Args>
    void
    require(bool ok, Args &&...args)
    {
      if (!ok)
        {
          std::ostringstream ss;
          ss << std::setprecision(17);
          (ss << ... << args);
          throw Failure(ss.str());
        }
    }

    // |a-b| <= atol + rtol*max(|a|,|b|); NaN never passes
    bool
    close(double a, double b, double rtol, double atol, const std::string &what)
    {
      const double lim = atol + rtol * std::max(std::abs(a), std::abs(b));
      const bool   ok  = std::abs(a - b) <= lim || a == b;
      if (!ok)
        {
          std::ostringstream ss;
          ss << std::setprecision(17) << what << ": " << a << " vs " << b
             << " (diff " << std::abs(a - b) << ", allowed " << lim << ")";
          fail(ss.str());
        }
      return ok;
    }
  };

  using Property = std::function<void(Case &)>;

  inline std::map<std::string, Property> &
  registry()
  {
    static std::map<std::string, Property> r;
    return r;
  }

  struct Register
  {
    Register(const std::string &name, Property p)
    {
      registry()[name] = p;
    }
  };

#define PBT_PROPERTY(name)                                \
  static void          prop_##name(pbt::Case &);          \
  static pbt::Register reg_##name(#name, &prop_##name);   \
  static void          prop_##name([[maybe_unused]] pbt::Case &c)

  inline std::string
  json_str(const std::string &s)
  {
    std::string o = "\"";
    for (char ch : s)
      {
        if (ch == '"' || ch == '\\')
          {
            o += '\\';
            o += ch;
          }
        else if (ch == '\n')
          o += "\\n";
        else if (static_cast<unsigned char>(ch) < 32)
          o += ' ';
        else
          o += ch;
      }
    return o + "\"";
  }

  // ---- driver ---------------------------------------------------------------
  namespace detail
  {
    inline std::string                 out_file, fail_file;
    inline std::string                 cur_prop;
    inline Src                        *cur_src   = nullptr;
    inline Case                       *cur_case  = nullptr;
    inline unsigned int                rank      = 0;
    inline int                         n_ranks   = 1;

    inline void
    write_failure(const std::string                &msg,
                  const std::vector<std::uint64_t> &choices,
                  const std::string                &desc,
                  const char                       *kind)
    {
      std::ofstream f(out_file + ".fail");
      f << "{\"prop\":" << json_str(cur_prop) << ",\"kind\":\"" << kind
        << "\",\"ranks\":" << n_ranks << ",\"message\":" << json_str(msg)
        << ",\"case\":" << json_str(desc.substr(0, 20000)) << ",\"choices\":[";
      for (std::size_t i = 0; i < choices.size(); ++i)
        f << (i ? "," : "") << choices[i];
      f << "]}\n";
      f.flush();
    }

    inline void
    on_signal(int sig)
    {
      static volatile sig_atomic_t entered = 0;
      if (entered)
        _exit(97);
      entered = 1;
      if (cur_src)
        {
          // the heap may be corrupted: no allocations
          signal(SIGALRM, SIG_DFL);
          alarm(5);
          static char buf[1 << 20];
          std::size_t n = snprintf(buf,
                                   sizeof(buf),
                                   "{\"prop\":\"%s\",\"kind\":\"crash\",\"ranks\":%d,\"message\":\"%s%s\",\"case\":\"\",\"choices\":[",
                                   cur_prop.c_str(),
                                   n_ranks,
                                   sig == SIGPROF ? "case does not terminate (CPU time limit)" : "process killed by signal: ",
                                   sig == SIGPROF ? "" : sigdescr_np(sig));
          for (std::size_t i = 0; i < cur_src->rec.size() && n + 40 < sizeof(buf); ++i)
            n += snprintf(buf + n, sizeof(buf) - n, "%s%llu", i ? "," : "", (unsigned long long)cur_src->rec[i]);
          n += snprintf(buf + n, sizeof(buf) - n, "]}\n");
          const int fd = open(fail_file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
          if (fd >= 0)
            {
              if (write(fd, buf, n) < 0)
                _exit(95);
              close(fd);
            }
        }
      _exit(96);
    }

    inline void
    arm(unsigned int cpu_seconds)
    {
      struct itimerval t;
      t.it_interval.tv_sec = t.it_interval.tv_usec = 0;
      t.it_value.tv_sec                            = cpu_seconds;
      t.it_value.tv_usec                           = 0;
      setitimer(ITIMER_PROF, &t, nullptr);
    }

    struct Outcome
    {
      enum Kind
      {
        ok,
        discard,
        fail
      } kind = ok;
      std::string message;
    };

    inline Outcome
    run_one(const Property &p, Src &s, Case &c, unsigned int cpu_limit)
    {
      cur_src  = &s;
      cur_case = &c;
      arm(cpu_limit);
      Outcome o;
      bool    thrown = false;
      try
        {
          p(c);
        }
      catch (Discard &)
        {
          o.kind = Outcome::discard;
        }
      catch (std::exception &e)
        {
          o.kind    = Outcome::fail;
          o.message = e.what();
          thrown    = true;
        }
      arm(0);
      if (!c.errors.empty() && o.kind != Outcome::discard)
        {
          o.kind = Outcome::fail;
          std::string m;
          for (const auto &e : c.errors)
            m += (m.empty() ? "" : " | ") + e;
          o.message = m + (o.message.empty() ? "" : " | " + o.message);
        }
      if (n_ranks > 1)
        {
          if (thrown)
            {
              // other ranks may be blocked in a collective
              write_failure("rank " + std::to_string(rank) + ": " + o.message,
                            s.rec,
                            c.desc.str(),
                            "exception");
              MPI_Abort(MPI_COMM_WORLD, 96);
              _exit(96);
            }
          int mine = o.kind == Outcome::fail, all = 0;
          MPI_Allreduce(&mine, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
          if (all && !mine)
            {
              o.kind    = Outcome::fail;
              o.message = "(failure on another rank)";
            }
          if (all)
            {
              // make the lowest failing rank's message known to rank 0
              int src = mine && o.message[0] != '(' ? static_cast<int>(rank) : n_ranks;
              int who = 0;
              MPI_Allreduce(&src, &who, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
              if (who < n_ranks)
                {
                  int len = o.message.size();
                  MPI_Bcast(&len, 1, MPI_INT, who, MPI_COMM_WORLD);
                  std::string m = o.message;
                  m.resize(len);
                  MPI_Bcast(&m[0], len, MPI_CHAR, who, MPI_COMM_WORLD);
                  o.message = "rank " + std::to_string(who) + ": " + m;
                }
            }
        }
      return o;
    }
  } // namespace detail

  inline int
  run(int argc, char **argv)
  {
    using namespace detail;
    std::string  prop, replay_file, out = "/dev/null";
    unsigned int seed = 1, first = 0, count = 100, stride = 1, cpu_limit = 120;
    double       shrink_time = 20.;
    bool         list = false, verbose = false;
    for (int i = 1; i < argc; ++i)
      {
        std::string a = argv[i];
        auto        v = [&]() { return std::string(argv[++i]); };
        if (a == "--prop")
          prop = v();
        else if (a == "--seed")
          seed = std::stoul(v());
        else if (a == "--first")
          first = std::stoul(v());
        else if (a == "--count")
          count = std::stoul(v());
        else if (a == "--stride")
          stride = std::stoul(v());
        else if (a == "--cpu-limit")
          cpu_limit = std::stoul(v());
        else if (a == "--shrink-time")
          shrink_time = std::stod(v());
        else if (a == "--out")
          out = v();
        else if (a == "--replay")
          replay_file = v();
        else if (a == "--list")
          list = true;
        else if (a == "--verbose")
          verbose = true;
      }
    int r = 0;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    MPI_Comm_size(MPI_COMM_WORLD, &n_ranks);
    rank     = r;
    out_file = out;
    fail_file = out + ".fail";
    cur_prop = prop;

    if (list)
      {
        for (const auto &[n, p] : registry())
          std::cout << n << std::endl;
        return 0;
      }
    if (registry().find(prop) == registry().end())
      {
        std::cerr << "no such property " << prop << std::endl;
        return 3;
      }
    const Property &p = registry()[prop];

    // a stack of its own: the regular one may have overflowed
    static char signal_stack[1 << 18];
    stack_t     ss_alt;
    memset(&ss_alt, 0, sizeof(ss_alt));
    ss_alt.ss_sp   = signal_stack;
    ss_alt.ss_size = sizeof(signal_stack);
    sigaltstack(&ss_alt, nullptr);
    for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGPROF})
      {
        struct sigaction sa;
        memset(&sa, 0, sizeof(sa));
        sa.sa_handler = on_signal;
        sa.sa_flags   = SA_ONSTACK;
        sigaction(sig, &sa, nullptr);
      }

    if (!replay_file.empty())
      {
        std::vector<std::uint64_t> choices;
        std::ifstream              f(replay_file);
        std::stringstream          ss;
        ss << f.rdbuf();
        std::string t = ss.str();
        auto        b = t.find("\"choices\":");
        b             = t.find('[', b) + 1;
        auto        e = t.find(']', b);
        std::string n = t.substr(b, e - b);
        for (auto &ch : n)
          if (ch == ',')
            ch = ' ';
        std::stringstream ns(n);
        std::uint64_t     v;
        while (ns >> v)
          choices.push_back(v);
        Src  s(choices);
        Case c(s);
        c.verbose    = true;
        const auto o = run_one(p, s, c, cpu_limit);
        if (rank == 0)
          {
            std::cout << "case: " << c.desc.str() << std::endl;
            if (o.kind == Outcome::fail)
              std::cout << "REPLAY-FAILS " << o.message << std::endl;
            else
              std::cout << "REPLAY-PASSES" << std::endl;
          }
        return o.kind == Outcome::fail ? 1 : 0;
      }

    std::size_t                        evals = 0, discards = 0;
    std::map<std::string, std::size_t> labels;
    std::set<std::uint64_t>            distinct;
    std::vector<std::string>           samples;
    std::set<std::string>              known;
    int                                status = 0;

    for (unsigned int i = 0; i < count; ++i)
      {
        const std::uint64_t idx = first + static_cast<std::uint64_t>(i) * stride;
        const std::uint64_t cs =
          mix(mix(seed) ^ mix(hash_str(prop)) ^ mix(idx * 7919 + 13));
        Src  s(cs);
        Case c(s);
        c.verbose    = verbose;
        const auto o = run_one(p, s, c, cpu_limit);
        evals++;
        if (verbose && rank == 0)
          std::cout << idx << ": " << c.desc.str() << std::endl;
        if (o.kind == Outcome::discard)
          {
            discards++;
            continue;
          }
        for (const auto &[l, n] : c.labels)
          labels[l] += (n > 0);
        for (const auto &k : c.known)
          known.insert(k);
        if (c.nontrivial)
          {
            std::uint64_t h = 7;
            for (const auto v : s.rec)
              h = mix(h ^ v);
            distinct.insert(h);
            if (samples.size() < 3)
              samples.push_back(c.desc.str().substr(0, 600));
          }
        if (o.kind == Outcome::fail)
          {
            // shrink
            auto        best    = s.rec;
            std::string message = o.message;
            std::string desc    = c.desc.str();
            const auto  t0      = std::chrono::steady_clock::now();
            unsigned    n_tries = 0;
            auto        attempt = [&](const std::vector<std::uint64_t> &cand) {
              ++n_tries;
              Src        s2(cand);
              Case       c2(s2);
              const auto o2 = run_one(p, s2, c2, cpu_limit);
              if (o2.kind != Outcome::fail)
                return false;
              // canonical form: what was really consumed
              best = s2.rec;
              if (best.size() > cand.size())
                best.resize(cand.size());
              message = o2.message;
              desc    = c2.desc.str();
              return true;
            };
            auto time_left = [&]() {
              double el = std::chrono::duration<double>(
                            std::chrono::steady_clock::now() - t0)
                            .count();
              int stop = el > shrink_time || n_tries > 1500;
              if (n_ranks > 1)
                MPI_Bcast(&stop, 1, MPI_INT, 0, MPI_COMM_WORLD);
              return !stop;
            };
            bool progress = true;
            while (progress && time_left())
              {
                progress = false;
                for (std::size_t len : {64, 16, 8, 4, 2, 1})
                  for (std::size_t pos = 0;
                       pos + len <= best.size() && time_left();)
                    {
                      auto cand = best;
                      cand.erase(cand.begin() + pos, cand.begin() + pos + len);
                      if (attempt(cand))
                        progress = true;
                      else
                        pos += len;
                    }
                for (std::size_t pos = 0; pos < best.size() && time_left();
                     ++pos)
                  {
                    if (best[pos] == 0)
                      continue;
                    auto cand = best;
                    cand[pos] = 0;
                    if (attempt(cand))
                      {
                        progress = true;
                        continue;
                      }
                    std::uint64_t lo = 0, hi = best[pos];
                    for (int it = 0; it < 12 && hi - lo > 1 && time_left() &&
                                     pos < best.size();
                         ++it)
                      {
                        const auto mid = lo + (hi - lo) / 2;
                        cand           = best;
                        if (pos >= cand.size())
                          break;
                        cand[pos] = mid;
                        if (attempt(cand))
                          {
                            hi       = mid;
                            progress = true;
                          }
                        else
                          lo = mid;
                      }
                  }
              }
            if (rank == 0)
              write_failure(message, best, desc, "property");
            status = 1;
            break;
          }
      }

    if (rank == 0)
      {
        std::ofstream f(out);
        f << "{\"prop\":" << json_str(prop) << ",\"evaluations\":" << evals
          << ",\"discards\":" << discards << ",\"labels\":{";
        bool first_l = true;
        for (const auto &[l, n] : labels)
          {
            f << (first_l ? "" : ",") << json_str(l) << ":" << n;
            first_l = false;
          }
        f << "},\"known\":[";
        first_l = true;
        for (const auto &k : known)
          {
            f << (first_l ? "" : ",") << json_str(k);
            first_l = false;
          }
        f << "],\"distinct\":[";
        first_l = true;
        for (const auto h : distinct)
          {
            f << (first_l ? "" : ",") << "\"" << std::hex << h << std::dec
              << "\"";
            first_l = false;
          }
        f << "],\"samples\":[";
        for (std::size_t i = 0; i < samples.size(); ++i)
          f << (i ? "," : "") << json_str(samples[i]);
        f << "],\"status\":" << status << "}\n";
      }
    return status;
  }
} // namespace pbt
