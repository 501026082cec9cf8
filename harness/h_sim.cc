// Whole simulations: the shipped applications, run as a user runs them.
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <fstream>
#include <iomanip>
#include <regex>
#include <sstream>

#include "pbt.h"

namespace
{
  std::string
  bin_dir()
  {
    char          buf[4096];
    const ssize_t n = readlink("/proc/self/exe", buf, sizeof(buf) - 1);
    std::string   p(buf, n > 0 ? n : 0);
    return p.substr(0, p.rfind('/'));
  }

  std::string
  str(double v)
  {
    std::ostringstream s;
    s << std::setprecision(15) << v;
    return s.str();
  }

  // parameters as path -> value, e.g. "Geometry/InterfaceWidth"
  struct Prm
  {
    std::map<std::string, std::string> v;

    std::string &
    operator[](const std::string &k)
    {
      return v[k];
    }

    void
    set(const std::string &k, const std::string &x)
    {
      v[k] = x;
    }
    void
    set(const std::string &k, double x)
    {
      v[k] = str(x);
    }

    std::string
    text() const
    {
      std::ostringstream o;
      for (const auto &[k, x] : v)
        {
          std::vector<std::string> parts;
          std::stringstream        ss(k);
          std::string              p;
          while (std::getline(ss, p, '/'))
            parts.push_back(p);
          for (std::size_t i = 0; i + 1 < parts.size(); ++i)
            o << "subsection " << parts[i] << "\n";
          o << "set " << parts.back() << " = " << x << "\n";
          for (std::size_t i = 0; i + 1 < parts.size(); ++i)
            o << "end\n";
        }
      return o.str();
    }
  };

  struct Step
  {
    double       t, dt;
    unsigned int n, newton, linear;
    unsigned int failures = 0; // rejected attempts before this step
    int          restart  = -1; // number of the restart point written after this step
    unsigned int refined = 0, tracked = 0, remapped = 0; // before this step, since the previous one
  };

  struct Run
  {
    int                                     rc = 0;
    std::string                             out;
    std::vector<std::string>                cols;
    std::vector<std::map<std::string, double>> rows;
    std::vector<Step>                       steps;
    std::map<std::string, double>           stats;
    bool                                    timeout = false;

    double
    at(unsigned int i, const std::string &k) const
    {
      const auto it = rows[i].find(k);
      return it == rows[i].end() ? std::nan("") : it->second;
    }
  };

  struct Scratch
  {
    std::string dir;
    Scratch()
    {
      char buf[4096];
      if (!getcwd(buf, sizeof(buf)))
        throw std::runtime_error("getcwd");
      static unsigned int n = 0;
      dir                   = std::string(buf) + "/sim_" + std::to_string(getpid()) + "_" + std::to_string(n++);
      if (mkdir(dir.c_str(), 0755))
        throw std::runtime_error("mkdir " + dir);
    }
    ~Scratch()
    {
      if (!getenv("PBT_KEEP"))
        if (system(("rm -rf '" + dir + "'").c_str()))
          {}
    }
    void
    write(const std::string &name, const std::string &txt) const
    {
      std::ofstream(dir + "/" + name) << txt;
    }
    std::string
    read(const std::string &name) const
    {
      std::ifstream     f(dir + "/" + name);
      std::stringstream s;
      s << f.rdbuf();
      return s.str();
    }
    bool
    exists(const std::string &name) const
    {
      return access((dir + "/" + name).c_str(), F_OK) == 0;
    }
  };

  void
  read_table(Run &r, const std::string &txt)
  {
    std::istringstream in(txt);
    std::string        line;
    bool               first = true;
    while (std::getline(in, line))
      {
        std::istringstream       ls(line);
        std::vector<std::string> w;
        std::string              x;
        while (ls >> x)
          w.push_back(x);
        if (w.empty())
          continue;
        if (first)
          {
            r.cols = w;
            first  = false;
          }
        else
          {
            std::map<std::string, double> row;
            for (std::size_t i = 0; i < w.size() && i < r.cols.size(); ++i)
              row[r.cols[i]] = std::strtod(w[i].c_str(), nullptr);
            if (w.size() != r.cols.size())
              row["malformed"] = 1;
            r.rows.push_back(row);
          }
      }
  }

  Run
  execute(const Scratch &sc, const std::string &bin, const std::string &args, unsigned int np, const bool keep_log = false, const std::string &label = "solution")
  {
    const std::string env =
      "env -i PATH=/usr/local/bin:/usr/bin:/bin HOME=/tmp LC_ALL=C.UTF-8 OMP_NUM_THREADS=1 DEAL_II_NUM_THREADS=1 "
      "OPENBLAS_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader "
      "OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=false OMPI_MCA_oob_tcp_if_include=lo "
      "OMPI_MCA_ess_singleton_isolated=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none "
      "OMPI_MCA_mpi_yield_when_idle=1 MALLOC_PERTURB_=165 ";
    const std::string tmp = " TMPDIR='" + sc.dir + "' OMPI_MCA_orte_tmpdir_base='" + sc.dir + "' ";
    std::string cmd = "cd '" + sc.dir + "' && " + (keep_log ? "" : "rm -f " + label + ".log && ") + env + tmp + "timeout -k 5 400 ";
    if (np > 1)
      cmd += "mpirun -np " + std::to_string(np) + " ";
    cmd += bin_dir() + "/" + bin + " " + args + " > out.txt 2>&1 < /dev/null";
    const int rc = system(cmd.c_str());
    Run       r;
    r.rc      = WIFEXITED(rc) ? WEXITSTATUS(rc) : 128 + WTERMSIG(rc);
    r.timeout = r.rc == 124 || r.rc == 137;
    r.out     = sc.read("out.txt");
    read_table(r, sc.read(label + ".log"));

    std::istringstream in(r.out);
    std::string        line;
    unsigned int       failures = 0, refined = 0, tracked = 0, remapped = 0;
    static const std::regex re_step(
      "^t = ([-+0-9.e]+), t_n = ([0-9]+), dt = ([-+0-9.e]+): solved in ([0-9]+) Newton iterations and ([0-9]+) linear.*");
    static const std::regex re_stat("^  - (.*): +([-+0-9.e]+)$");
    while (std::getline(in, line))
      {
        std::smatch m;
        if (line.find("Reducing timestep") != std::string::npos)
          ++failures;
        else if (line.find("Execute refinement/coarsening") == 0)
          ++refined;
        else if (line.find("Execute grain tracker(track)") == 0)
          ++tracked;
        else if (line.find("Grains remapped") != std::string::npos)
          ++remapped;
        else if (line.find("Saving restart data") != std::string::npos && !r.steps.empty() && line.rfind('_') != std::string::npos)
          r.steps.back().restart = std::atoi(line.c_str() + line.rfind('_') + 1);
        else if (std::regex_match(line, m, re_step))
          {
            Step s;
            s.t        = std::stod(m[1]);
            s.n        = std::stoul(m[2]);
            s.dt       = std::stod(m[3]);
            s.newton   = std::stoul(m[4]);
            s.linear   = std::stoul(m[5]);
            s.failures = failures;
            s.refined  = refined;
            s.tracked  = tracked;
            s.remapped = remapped;
            failures = refined = tracked = remapped = 0;
            r.steps.push_back(s);
          }
        else if (std::regex_match(line, m, re_stat))
          r.stats[m[1]] = std::stod(m[2]);
      }
    return r;
  }

  std::string
  tail(const Run &r)
  {
    const std::size_t p = r.out.find("--------------------------------------------------------\nAn error");
    const std::size_t e = r.out.find("Exception");
    std::string       s = p != std::string::npos ? r.out.substr(p, 900) : e != std::string::npos ? r.out.substr(e > 200 ? e - 200 : 0, 900) : r.out.size() > 700 ? r.out.substr(r.out.size() - 700) : r.out;
    return s;
  }

  void
  finished(pbt::Case &c, const Run &r, const std::string &what)
  {
    // a single order parameter is documented as not implemented
    if (r.rc && r.out.find("currently not\n    implemented") != std::string::npos && r.out.find("n_grains = 1;") != std::string::npos)
      throw pbt::Discard();
    if (r.rc && getenv("PBT_SIM_LOG"))
      std::ofstream(std::string(getenv("PBT_SIM_LOG")) + "/fail_" + std::to_string(getpid()) + "_" + std::to_string(time(nullptr))) << r.out;
    c.require(!r.timeout, what, ": the run did not finish");
    c.require(r.rc == 0, what, ": exit code ", r.rc, ": ", tail(r));
    for (const auto &row : r.rows)
      c.require(!row.count("malformed"), what, ": malformed table");
    c.require(r.out.find("MPI_ERR") == std::string::npos, what, ": MPI error");
  }

  struct Particle
  {
    double x, y, r;
  };

  struct Box
  {
    double x0, y0, x1, y1;
  };

  // a generated simulation
  struct Sim
  {
    std::string           bin = "sim2";
    std::vector<Particle> particles;
    std::vector<Box>      boxes;
    Prm                   prm;
    double                W = 2, T = 0, dt0 = 0, dtmax = 0, growth = 1;
    unsigned int          div = 2;
    bool                  amr = false, tracker = false, advection = false, predictor = false;
    unsigned int          order = 1;

    std::string
    cloud() const
    {
      std::ostringstream o;
      o << std::setprecision(15) << "#x,y,z,r\n";
      for (const auto &p : particles)
        o << p.x << "," << p.y << ",0," << p.r << "\n";
      return o.str();
    }

    Prm
    full() const
    {
      Prm               q = prm;
      std::ostringstream o;
      o << std::setprecision(15);
      for (unsigned int i = 0; i < boxes.size(); ++i)
        o << (i ? "|" : "") << boxes[i].x0 << "," << boxes[i].y0 << ",0;" << boxes[i].x1 << "," << boxes[i].y1 << ",1";
      if (!boxes.empty())
        q["Output/ControlBoxes"] = o.str();
      return q;
    }

    void
    write(const Scratch &sc, const std::string &name = "a.prm") const
    {
      sc.write("a.cloud", cloud());
      sc.write(name, full().text());
    }

    Run
    run(unsigned int np) const
    {
      Scratch sc;
      write(sc);
      return execute(sc, bin, "--cloud a.cloud a.prm", np);
    }
  };

  std::string
  yes(bool b)
  {
    return b ? "true" : "false";
  }

  // touching or slightly overlapping discs in the plane
  std::vector<Particle>
  packing(pbt::Case &c, unsigned int n, double w)
  {
    std::vector<Particle> p;
    for (unsigned int i = 0; i < n; ++i)
      {
        Particle q;
        q.r = c.s.real(2.2, 4.0);
        if (p.empty())
          q.x = c.s.real(-5, 5), q.y = c.s.real(-5, 5);
        else
          {
            bool ok = false;
            for (unsigned int k = 0; k < 30 && !ok; ++k)
              {
                const auto  &a  = p[c.s.draw(p.size())];
                const double al = c.s.real(0, 2 * M_PI);
                const double d  = (a.r + q.r) * c.s.real(0.94, 1.0);
                q.x             = a.x + d * std::cos(al);
                q.y             = a.y + d * std::sin(al);
                ok              = true;
                for (const auto &b : p)
                  ok = ok && std::hypot(b.x - q.x, b.y - q.y) > 0.93 * (b.r + q.r);
              }
            if (!ok)
              continue;
          }
        p.push_back(q);
      }
    return p;
  }

  Sim
  generate(pbt::Case &c, bool reproducible)
  {
    Sim s;
    s.W              = c.s.real(1.2, 2.0);
    s.div            = c.s.range(2, 3);
    s.particles      = packing(c, c.s.range(2, 4), s.W);
    if (s.particles.size() < 2)
      throw pbt::Discard();
    auto &p          = s.prm;
    p["Geometry/InterfaceWidth"]        = str(s.W);
    p["Geometry/DivisionsPerInterface"] = str(s.div);
    p["Geometry/BoundaryFactor"]        = str(c.s.real(0.5, 0.9));
    p["Geometry/InterfaceDirection"]    = c.s.coin(0.8) ? "Middle" : c.s.coin() ? "Inside" : "Outside";
    p["Geometry/MinimizeOrderParameters"] = yes(c.s.coin());
    // grains which share an order parameter have to be apart by more than the
    // tails of their interfaces
    p["Geometry/InterfaceBufferRatio"]  = str(p["Geometry/InterfaceDirection"] == "Inside" ? c.s.real(1.6, 2.2) : c.s.real(1.0, 1.6));
    p["Geometry/RadiusBufferRatio"]     = "0";
    p["Geometry/GlobalRefinement"]      = "Full";
    p["Adaptivity/RefinementFrequency"] = "0";
    p["GrainTracker/GrainTrackerFrequency"] = "0";
    p["Material/Type"]                  = "Abstract";
    p["Material/EnergyAbstract/A"]      = str(c.s.real(8, 20));
    p["Material/EnergyAbstract/B"]      = str(c.s.real(0.5, 2));
    p["Material/EnergyAbstract/KappaC"] = str(c.s.real(0.5, 1.5));
    p["Material/EnergyAbstract/KappaP"] = str(c.s.real(0.3, 1.));
    p["Material/MobilityAbstract/Mvol"]  = str(c.s.logreal(1e-2, 0.5));
    p["Material/MobilityAbstract/Mvap"]  = str(c.s.logreal(1e-6, 1e-2));
    p["Material/MobilityAbstract/Msurf"] = str(c.s.real(0.5, 4));
    p["Material/MobilityAbstract/Mgb"]   = str(c.s.real(0.1, 1));
    p["Material/MobilityAbstract/L"]     = str(c.s.real(0.5, 4));
    const unsigned int o = c.s.range(0, 2);
    s.order              = o == 2 ? 3 : o == 1 ? 1 : 2;
    p["TimeIntegration/IntegrationScheme"] = "BDF" + std::to_string(s.order);
    s.dt0   = c.s.logreal(2e-3, 3e-2);
    s.growth = c.s.coin(0.7) ? c.s.real(1.05, 2.0) : 1.0;
    s.dtmax = s.dt0 * c.s.real(1.2, 6);
    s.T     = s.dt0 * c.s.real(3, 9);
    p["TimeIntegration/TimeStart"]    = "0";
    p["TimeIntegration/TimeEnd"]      = str(s.T);
    p["TimeIntegration/TimeStepInit"] = str(s.dt0);
    p["TimeIntegration/TimeStepMax"]  = str(s.dtmax);
    p["TimeIntegration/TimeStepMin"]  = "1e-8";
    p["TimeIntegration/GrowthFactor"] = str(s.growth);
    p["TimeIntegration/DesirableNewtonIterations"] = reproducible ? "100" : str(c.s.range(3, 6));
    p["TimeIntegration/DesirableLinearIterations"] = reproducible ? "100000" : str(c.s.range(20, 150));
    p["NonLinearData/NonLinearMaxIterations"]     = reproducible ? "30" : str(c.s.range(5, 12));
    p["NonLinearData/NonLinearAbsoluteTolerance"] = "1e-10";
    p["NonLinearData/NonLinearRelativeTolerance"] = "1e-8";
    p["NonLinearData/LinearMaxIterations"]        = "1000";
    p["NonLinearData/LinearAbsoluteTolerance"]    = "1e-12";
    p["NonLinearData/LinearRelativeTolerance"]    = reproducible ? "1e-6" : "1e-3";
    p["Output/Regular"]            = "false";
    p["Output/Contour"]            = "false";
    p["Output/Table"]              = "true";
    p["Output/OutputTimeInterval"] = "1e-12";
    p["Output/VtkPath"]            = ".";
    p["Output/DomainIntegrals"]    = "solid_vol,free_energy,surf_area,gb_area,avg_grain_size,bulk_energy,interface_energy,control_vol";
    p["Restart/Type"]              = "never";
    p["Profiling/OutputTimeInterval"] = "-1";
    double x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9;
    for (const auto &q : s.particles)
      {
        x0 = std::min(x0, q.x - q.r);
        x1 = std::max(x1, q.x + q.r);
        y0 = std::min(y0, q.y - q.r);
        y1 = std::max(y1, q.y + q.r);
      }
    const unsigned int nb = c.s.range(0, 2);
    for (unsigned int i = 0; i < nb; ++i)
      {
        Box b;
        b.x0 = x0 + (x1 - x0) * c.s.generic(-0.1, 0.6);
        b.x1 = b.x0 + (x1 - x0) * c.s.generic(0.2, 0.8);
        b.y0 = y0 + (y1 - y0) * c.s.generic(-0.1, 0.6);
        b.y1 = b.y0 + (y1 - y0) * c.s.generic(0.2, 0.8);
        s.boxes.push_back(b);
      }
    c.desc << " n=" << s.particles.size() << " W=" << s.W << " div=" << s.div << " BDF" << s.order << " dt0=" << s.dt0 << " growth=" << s.growth
           << " dtmax=" << s.dtmax << " T=" << s.T << " boxes=" << nb;
    for (const auto &q : s.particles)
      c.desc << " (" << q.x << "," << q.y << " r" << q.r << ")";
    return s;
  }

  void
  add_tracker(pbt::Case &c, Sim &s, unsigned int freq)
  {
    s.tracker                                  = true;
    s.prm["GrainTracker/GrainTrackerFrequency"] = str(freq);
    s.prm["GrainTracker/FastReassignment"]     = yes(c.s.coin());
    s.prm["GrainTracker/UseOldRemap"]          = yes(c.s.coin(0.3));
    s.prm["GrainTracker/CheckInconsistency"]   = yes(c.s.coin(0.3));
    // the wavefront description does not see the distance of grains which do
    // not touch (known finding of G07)
    bool apart = true;
    for (const auto &a : s.particles)
      for (const auto &b : s.particles)
        {
          const double gap = std::hypot(a.x - b.x, a.y - b.y) - a.r - b.r;
          apart            = apart && (&a == &b || gap <= 1e-9 || gap > 3 * s.W);
        }
    s.prm["GrainTracker/GrainRepresentation"]  = c.s.coin(0.6) ? "Spherical" : c.s.coin() || !apart ? "Elliptical" : "Wavefront";
    s.prm["GrainTracker/ThresholdLower"]       = "0.15";
    s.prm["GrainTracker/ThresholdNewGrains"]   = "0.2";
    s.prm["GrainTracker/BufferDistanceRatio"]  = str(s.prm["GrainTracker/GrainRepresentation"] == "Wavefront" ? c.s.real(0.4, 0.6) : c.s.real(0, 0.2));
    c.desc << " tracker every " << freq;
  }

  void
  add_amr(pbt::Case &c, Sim &s, unsigned int freq)
  {
    s.amr                                     = true;
    s.prm["Geometry/GlobalRefinement"]        = c.s.coin() ? "Full" : "Base";
    s.prm["Adaptivity/RefinementFrequency"]   = str(freq);
    s.prm["Adaptivity/TopFractionOfCells"]    = str(c.s.real(0.2, 0.4));
    s.prm["Adaptivity/BottomFractionOfCells"] = str(c.s.real(0.1, 0.3));
    s.prm["Adaptivity/MinRefinementDepth"]    = str(c.s.range(0, 3));
    s.prm["Adaptivity/MaxRefinementDepth"]    = str(c.s.range(0, 1));
    c.desc << " amr every " << freq << " " << s.prm["Geometry/GlobalRefinement"] << " depth " << s.prm["Adaptivity/MinRefinementDepth"] << ".."
           << s.prm["Adaptivity/MaxRefinementDepth"];
  }

  // ---- laws along one run ----------------------------------------------------
  void
  check_time_stepping(pbt::Case &c, const Sim &s, const Run &r, const unsigned int n_newton, const unsigned int n_linear)
  {
    c.require(!r.steps.empty(), "no time step was made");
    double       t = 0, next = s.dt0;
    bool         clamped = false;
    unsigned int sum_newton = 0, sum_linear = 0, sum_fail = 0;
    double       maxdt = 0;
    for (unsigned int i = 0; i < r.steps.size(); ++i)
      {
        const auto &st = r.steps[i];
        c.check(st.n == i + 1, "step ", i + 1, " is numbered ", st.n);
        double expect = next;
        for (unsigned int k = 0; k < st.failures; ++k)
          expect *= 0.5;
        c.close(st.dt, expect, 2e-5, 1e-5 * s.T, "size of time step " + std::to_string(i + 1));
        c.check(st.dt > 0, "time step ", i + 1, " is not positive: ", st.dt);
        t += st.dt;
        c.close(st.t, t, 2e-5, 1e-5 * s.T, "time after step " + std::to_string(i + 1));
        t = st.t;
        next = st.dt;
        if (s.growth > 1. && st.newton < n_newton && st.linear < n_linear)
          next = std::min(st.dt * s.growth, s.dtmax);
        if (t + next > s.T)
          next = s.T - t, clamped = true;
        sum_newton += st.newton;
        sum_linear += st.linear;
        sum_fail += st.failures;
        maxdt = std::max(maxdt, st.dt);
      }
    c.close(r.steps.back().t, s.T, 1e-5, 1e-9, "end of the run");
    c.check(r.stats.count("n timesteps") && r.stats.at("n timesteps") == r.steps.size(), "reported number of time steps");
    c.check(r.stats.count("n non-linear iterations") && r.stats.at("n non-linear iterations") == sum_newton, "reported number of Newton iterations");
    c.check(r.stats.count("n linear iterations") && r.stats.at("n linear iterations") == sum_linear, "reported number of linear iterations");
    c.check(r.stats.count("n failed tries") && r.stats.at("n failed tries") == sum_fail, "reported number of failed tries");
    c.close(r.stats.at("max dt"), maxdt, 1e-4, 0, "reported largest time step");
    c.label("last step shortened", clamped);
    c.label("rejected steps", sum_fail > 0);
  }
} // namespace

PBT_PROPERTY(run_laws)
{
  Sim                s  = generate(c, false);
  const unsigned int np = c.s.coin(0.5) ? 1 : c.s.range(2, 3);
  if (c.s.coin(0.5))
    add_tracker(c, s, c.s.range(1, 4));
  if (c.s.coin(0.3))
    add_amr(c, s, c.s.range(1, 4));
  c.desc << " np=" << np;
  const Run r = s.run(np);
  if (r.out.find("Minimum timestep size exceeded") != std::string::npos)
    throw pbt::Discard();
  finished(c, r, "run");
  check_time_stepping(c, s, r, std::stoul(s.prm["TimeIntegration/DesirableNewtonIterations"]), std::stoul(s.prm["TimeIntegration/DesirableLinearIterations"]));

  c.require(r.rows.size() == r.steps.size() + 1, "one table row per step: ", r.rows.size(), " rows, ", r.steps.size(), " steps");
  const double v0 = r.at(0, "solid_vol");
  c.check(v0 > 0, "no matter");
  const double domain = r.at(0, "control_vol");
  for (unsigned int i = 0; i < r.rows.size(); ++i)
    {
      const std::string w = " in row " + std::to_string(i);
      c.check(r.at(i, "step") == i, "row number", w);
      c.close(r.at(i, "time"), i ? r.steps[i - 1].t : 0., 2e-4, 1e-9, "time" + w);
      c.close(r.at(i, "dt"), i ? r.steps[i - 1].dt : s.dt0, 2e-4, 1e-9, "dt" + w);
      c.check(!i || r.at(i, "n_newton_iter") == r.steps[i - 1].newton, "Newton iterations", w);
      c.check(!i || r.at(i, "n_linear_iter") == r.steps[i - 1].linear, "linear iterations", w);
      c.close(r.at(i, "control_vol"), domain, 1e-6, 0, "volume of the domain" + w);
      c.close(r.at(i, "free_energy"), r.at(i, "bulk_energy") + r.at(i, "interface_energy"), 3e-6, 1e-9, "free energy is bulk plus interface" + w);
      if (!s.amr)
        {
          c.close(r.at(i, "solid_vol"), v0, 2e-6, 0, "amount of matter" + w);
          c.check(r.at(i, "n_dofs") == r.at(0, "n_dofs"), "number of unknowns changed", w);
        }
      else if (i)
        {
          // moving the solution to another mesh does not conserve exactly; the
          // earlier solutions of a multistep scheme then carry the difference
          // on, and it decays
          double tol = 3e-6;
          for (unsigned int k = 1; k < s.order && k < i; ++k)
            {
              if (r.steps[i - 1 - k].refined)
                tol = 1e-2;
              tol = std::max(tol, 3e-6 + 1.2 * std::abs(r.at(i - k, "solid_vol") / r.at(i - k - 1, "solid_vol") - 1.));
            }
          if (r.steps[i - 1].refined)
            tol = 2e-2;
          c.close(r.at(i, "solid_vol"), r.at(i - 1, "solid_vol"), tol, 0, "amount of matter" + w);
        }
      if (s.tracker)
        {
          c.check(r.at(i, "n_grains") == s.particles.size(), "number of grains", w, ": ", r.at(i, "n_grains"), " of ", s.particles.size());
          c.check(r.at(i, "n_op") >= 1 && r.at(i, "n_op") <= s.particles.size(), "number of order parameters", w);
        }
      if (i && s.order == 1 && !s.amr)
        c.check(r.at(i, "free_energy") <= r.at(i - 1, "free_energy") * (1 + 1e-6), "free energy rises from ", r.at(i - 1, "free_energy"), " to ", r.at(i, "free_energy"), w);
      for (unsigned int b = 0; b < s.boxes.size(); ++b)
        {
          const std::string sb = "_" + std::to_string(b);
          c.check(r.at(i, "control_vol" + sb) <= domain * (1 + 1e-6) && r.at(i, "control_vol" + sb) >= 0, "volume of box", w);
          c.close(r.at(i, "free_energy" + sb), r.at(i, "bulk_energy" + sb) + r.at(i, "interface_energy" + sb), 3e-6, 1e-9, "free energy of the box" + w);
        }
    }
  c.label("adaptive", s.amr);
  c.label("tracked", s.tracker);
  c.label("parallel", np > 1);
  c.label("BDF" + std::to_string(s.order));
  c.nontrivial = r.steps.size() >= 3;
}

// ---- a run continued from a restart point ----------------------------------------
PBT_PROPERTY(restart)
{
  Sim s = generate(c, true);
  if (c.s.coin(0.5))
    add_tracker(c, s, c.s.range(1, 4));
  if (c.s.coin(0.4))
    add_amr(c, s, c.s.range(1, 4));
  const unsigned int np1      = c.s.coin(0.6) ? 1 : c.s.range(2, 3);
  const bool         flexible = c.s.coin(0.5);
  const bool         history  = c.s.coin(0.7);
  const unsigned int every    = c.s.range(1, 3);
  const unsigned int max_out  = c.s.coin(0.8) ? 0 : c.s.range(1, 3);
  const unsigned int np2      = !flexible || c.s.coin(0.5) ? np1 : c.s.range(1, 3);
  const bool         by_time  = c.s.coin(0.2);
  s.prm["Restart/Type"]           = by_time ? "simulation_time" : "n_calls";
  s.prm["Restart/Interval"]       = by_time ? str(s.T / 3) : str(every);
  s.prm["Restart/FlexibleOutput"] = yes(flexible);
  s.prm["Restart/FullHistory"]    = yes(history);
  s.prm["Restart/MaximalOutput"]  = str(max_out);
  s.prm["Restart/Prefix"]         = "rs";
  c.desc << " np=" << np1 << "->" << np2 << (flexible ? " flexible" : "") << (history ? " full history" : "") << " restart points every " << s.prm["Restart/Interval"] << (by_time ? " (time)" : "")
         << " at most " << max_out;
  Scratch sc;
  s.write(sc);
  const Run a = execute(sc, s.bin, "--cloud a.cloud a.prm", np1);
  if (a.out.find("Minimum timestep size exceeded") != std::string::npos)
    throw pbt::Discard();
  finished(c, a, "run");
  c.require(a.rows.size() == a.steps.size() + 1, "rows");
  // rounding errors make the demanded residual unreachable at a tiny last step: whether it converges is not determined
  for (const auto &x : a.steps)
    if (x.dt < 1e-2 * a.steps[0].dt)
      throw pbt::Discard();

  // which restart points exist
  int                         expect = 0;
  std::map<int, unsigned int> points; // number -> last step which wrote it
  double                      last = 0;
  for (unsigned int i = 0; i < a.steps.size(); ++i)
    {
      bool due = i + 1 == a.steps.size();
      if (by_time)
        {
          if (a.steps[i].t - last - s.T / 3 > 1e-9)
            due = true, last = a.steps[i].t;
          else if (a.steps[i].t - last - s.T / 3 > -1e-5 * s.T)
            {
              // cannot tell from the printed time
              due = a.steps[i].restart >= 0;
              if (due)
                last = a.steps[i].t;
            }
        }
      c.check((a.steps[i].restart >= 0) == due || (!by_time && i % every == 0), "restart point after step ", i + 1, due ? " is missing" : " is not due");
      if (a.steps[i].restart >= 0)
        {
          c.check(a.steps[i].restart == (max_out ? expect % int(max_out) : expect), "restart point ", a.steps[i].restart, " instead of number ", expect);
          ++expect;
          points[a.steps[i].restart] = i;
        }
    }
  std::vector<std::pair<int, unsigned int>> usable;
  for (const auto &x : points)
    if (x.second + 1 < a.steps.size())
      usable.push_back(x);
  if (usable.empty())
    throw pbt::Discard();
  const auto [number, at] = usable[c.s.draw(usable.size())];
  c.desc << " restarted after step " << at + 1 << " of " << a.steps.size();
  // it writes its own restart points, which must not disturb the one it reads
  s.prm["Restart/Prefix"] = "new";
  sc.write("b.prm", s.full().text());
  const std::string log = sc.read("solution.log");
  const Run         b   = execute(sc, s.bin, "--restart rs_" + std::to_string(number) + " b.prm", np2, true);
  finished(c, b, "restarted run");
  const std::string log2 = sc.read("solution.log");
  c.require(log2.compare(0, log.size(), log) == 0, "the table of the first run is overwritten");
  Run rb;
  read_table(rb, log.substr(0, log.find('\n') + 1) + log2.substr(log.size()));
  c.require(rb.rows.size() == b.steps.size(), "one table row per step after the restart: ", rb.rows.size(), " rows, ", b.steps.size(), " steps");
  c.require(!b.steps.empty(), "no step after the restart");

  const bool exact    = history || s.order == 1;
  const bool remapped = b.out.find("Grains remapped") != std::string::npos;
  const bool same_schedule = exact && std::all_of(a.steps.begin() + at + 1, a.steps.end(), [](const auto &x) { return x.failures == 0; });
  if (same_schedule)
    {
      c.check(a.steps.size() == at + 1 + b.steps.size(), "steps: ", a.steps.size(), " without restart, ", at + 1, " + ", b.steps.size());
      for (unsigned int i = 0; i < b.steps.size() && at + 1 + i < a.steps.size(); ++i)
        {
          const unsigned int j = at + 1 + i;
          const auto        &x = a.steps[j];
          const auto        &y = b.steps[i];
          const std::string  w = " of step " + std::to_string(x.n);
          c.check(x.n == y.n, "number", w, ": ", y.n);
          c.close(y.dt, x.dt, 2e-5, 0, "size" + w);
          c.close(y.t, x.t, 2e-5, 1e-9, "time" + w);
          c.check(y.refined == x.refined, "mesh adaptions before the end", w, ": ", y.refined, " instead of ", x.refined);
          if (np1 == np2)
            c.check(std::abs(int(x.newton) - int(y.newton)) <= 1, "Newton iterations", w, ": ", y.newton, " instead of ", x.newton);
          for (const auto &k : {"solid_vol", "free_energy", "bulk_energy", "interface_energy", "surf_area", "gb_area", "n_dofs"})
            if (s.amr)
              c.close(rb.at(i, k), a.at(j + 1, k), std::string(k) == "gb_area" ? 1e-1 : 2e-2, 1e-6, std::string(k) + w);
            else
              {
                // The small tails of the order parameters, which make up a part of the areas, follow the last residual. The grains
                // are tracked anew after the restart: those reassigned then, and not in the first run, leave other tails behind.
                const bool   area = std::string(k).find("_area") != std::string::npos;
                const double tol  = remapped ? 1e-3 : area ? 5e-4 : 2e-5;
                c.close(rb.at(i, k), a.at(j + 1, k), std::string(k) == "solid_vol" ? 2e-5 : tol, 1e-6 * std::abs(a.at(0, k)), std::string(k) + w);
              }
          c.check(rb.at(i, "step") == a.at(j + 1, "step"), "row number", w);
          if (s.tracker)
            c.check(rb.at(i, "n_grains") == a.at(j + 1, "n_grains"), "number of grains", w);
        }
      for (const auto &k : {"n timesteps", "max dt"})
        c.close(b.stats.at(k), a.stats.at(k), 1e-5, 0, std::string("reported ") + k);
    }
  else
    {
      c.close(b.steps.back().t, s.T, 1e-5, 1e-9, "end of the run");
      if (!s.amr)
        for (unsigned int i = 0; i < rb.rows.size(); ++i)
          c.close(rb.at(i, "solid_vol"), a.at(0, "solid_vol"), 3e-6, 0, "amount of matter after the restart");
      c.close(rb.at(0, "free_energy"), a.at(at + 1, "free_energy"), 0.3, 0, "free energy after the restart");
    }
  c.label("same schedule", same_schedule);
  c.label("flexible", flexible);
  c.label("full history", history);
  c.label("adaptive", s.amr);
  c.label("tracked", s.tracker);
  c.label("other number of processes", np1 != np2);
  c.nontrivial = b.steps.size() >= 2;
}

// ---- the same physics described otherwise ----------------------------------------
namespace
{
  // how the numbers of a table scale
  struct Relation
  {
    double len = 1, energy = 1, time = 1, shift = 0;
    bool   swap = false;  // x and y
    bool   tails = false; // order parameters are distributed otherwise
    bool   permuted = false;
    bool   contour = false; // the contours are cut otherwise
  };

  void
  compare_tables(pbt::Case &c, const Run &a, const Run &b, const Relation &rel, const Sim &s, const bool boxes_exact)
  {
    c.check(a.rows.size() == b.rows.size(), "rows: ", a.rows.size(), " and ", b.rows.size());
    c.check(a.cols == b.cols, "columns of the table differ");
    const double area = rel.len * rel.len;
    for (unsigned int i = 0; i < std::min(a.rows.size(), b.rows.size()); ++i)
      for (std::string k : a.cols)
        {
          std::string base = k;
          const auto  us   = k.rfind('_');
          if (us != std::string::npos && us + 1 < k.size() && k.find_first_not_of("0123456789", us + 1) == std::string::npos)
            base = k.substr(0, us);
          const std::string w = k + " in row " + std::to_string(i);
          double            x = a.at(i, k), x0 = std::abs(a.at(0, k));
          bool              box = base != k;
          if (k.compare(0, 3, "op_") == 0)
            {
              box  = std::count(k.begin(), k.end(), '_') > 1;
              base = "order_params";
              if (rel.tails || rel.permuted)
                continue;
            }
          if (box && !boxes_exact)
            continue;
          if ((base == "n_op" || base == "avg_coord_num" || base == "mesh_quality") && rel.tails)
            continue;
          if (base == "n_linear_iter" || base == "n_newton_iter" || base == "n_resid_eval")
            continue;
          if (rel.swap && k == "dim_x")
            x = a.at(i, "dim_y");
          else if (rel.swap && k == "dim_y")
            x = a.at(i, "dim_x");
          if (base == "dim_x" || base == "dim_y")
            x *= rel.len;
          else if (base == "volume" || base == "solid_vol" || base == "surf_area" || base == "gb_area" || base == "avg_grain_size" || base == "surf_area_nrm" ||
                   base == "order_params" || base == "control_vol" || base == "control_box")
            x *= area, x0 *= area;
          else if (base == "iso_surf_area" || base == "iso_gb_area")
            x *= rel.len, x0 *= rel.len;
          else if (base == "free_energy" || base == "bulk_energy" || base == "interface_energy")
            x *= area * rel.energy, x0 *= area * rel.energy;
          else if (base == "time")
            x = x * rel.time + rel.shift;
          else if (base == "dt")
            x *= rel.time;
          double tol = 2e-5, abs = 1e-6 * x0;
          if (base == "surf_area" || base == "gb_area")
            tol = 5e-4;
          if (rel.tails && (base == "gb_area" || base == "interface_energy" || base == "free_energy" || base == "bulk_energy" || base == "avg_grain_size" || base == "order_params"))
            tol = base == "gb_area" ? 5e-2 : 5e-3;
          if (base == "iso_surf_area" || base == "iso_gb_area")
            tol = rel.contour ? 5e-3 : 2e-3, abs = rel.contour ? 0.2 * s.W * rel.len : 0.05 * s.W * rel.len;
          if (base.find("_area") != std::string::npos || base.find("_energy") != std::string::npos || base == "order_params" || base == "avg_grain_size" || base == "solid_vol" || base == "surf_area_nrm")
            abs = std::max(abs, 1e-7 * area * (base.find("energy") != std::string::npos ? 10 * rel.energy : 1.) * a.at(0, a.rows[0].count("control_vol") ? "control_vol" : "control_vol_0"));
          if (base == "time" || base == "dt")
            abs = 2e-4 * s.T * rel.time, tol = 2e-4; // printed with few digits
          if (base == "surf_area_nrm")
            tol = 2e-2, abs = 0.1 * s.W * s.W * area; // counts quadrature points in a narrow band
          if (base == "dim_x" || base == "dim_y" || base == "volume")
            tol = 0.05;
          // these are printed with four decimals
          if (base == "control_box" || base == "dim_x" || base == "dim_y" || base == "volume" || base == "iso_surf_area" || base == "iso_gb_area" || base == "mesh_quality")
            abs = std::max(abs, 1e-4 * std::max(1., area));
          if (base == "mesh_quality")
            tol = 1e-3;
          c.close(b.at(i, k), x, tol, abs, w);
        }
  }
} // namespace

PBT_PROPERTY(same_physics)
{
  Sim s = generate(c, true);
  if (c.s.coin(0.25))
    s.bin = "sim2t";
  if (s.bin == "sim2t")
    c.desc << " tensorial mobility";
  s.T = s.dt0 * c.s.real(2, 5);
  s.prm["TimeIntegration/TimeEnd"] = str(s.T);
  s.prm["Output/DomainIntegrals"] = "solid_vol,free_energy,surf_area,gb_area,avg_grain_size,surf_area_nrm,order_params,bulk_energy,interface_energy,control_vol";
  s.prm["Output/QualityMin"]             = yes(c.s.coin(0.3));
  s.prm["Output/IsoSurfaceArea"]         = yes(c.s.coin(0.3));
  s.prm["Output/IsoGrainBoundariesArea"] = yes(c.s.coin(0.3));
  s.prm["Output/CoordinationNumber"]     = yes(c.s.coin(0.3));
  s.prm["Output/AutoControlBox"]         = yes(c.s.coin(0.3));
  s.prm["Output/OnlyControlBoxes"]       = yes(c.s.coin(0.1));
  s.prm["Output/Shrinkage"]              = yes(c.s.coin(0.2));
  if (c.s.coin(0.4))
    add_tracker(c, s, c.s.range(1, 3));

  Sim                t   = s;
  Relation           rel;
  const unsigned int np1 = c.s.coin(0.7) ? 1 : c.s.range(2, 3);
  unsigned int       np2 = np1;
  bool               boxes_exact = true, moved = false;
  const unsigned int n_changes   = c.s.range(1, 3);
  const auto         each        = [&](auto &&f) {
    for (auto &p : t.particles)
      f(p.x, p.y);
    for (auto &b : t.boxes)
      {
        f(b.x0, b.y0);
        f(b.x1, b.y1);
        if (b.x0 > b.x1)
          std::swap(b.x0, b.x1);
        if (b.y0 > b.y1)
          std::swap(b.y0, b.y1);
      }
  };
  for (unsigned int n = 0; n < n_changes; ++n)
    switch (c.s.draw(14))
      {
        case 0:
        case 1:
          np2 = np1 == 1 ? c.s.range(2, 3) : c.s.coin(0.5) ? 1 : 5 - np1;
          c.desc << " | np " << np1 << " and " << np2;
          c.label("number of processes");
          break;
        case 2:
          {
            const auto            perm = c.s.permutation(t.particles.size());
            std::vector<Particle> q;
            for (const auto i : perm)
              q.push_back(t.particles[i]);
            t.particles  = q;
            rel.permuted = true;
            rel.tails   = rel.tails || s.prm["Geometry/MinimizeOrderParameters"] == "true" || s.tracker;
            c.desc << " | other order of particles";
            c.label("order of particles");
            break;
          }
        case 3:
          each([](double &x, double &) { x = -x; });
          moved = true;
          c.desc << " | mirrored";
          c.label("mirrored");
          break;
        case 4:
          each([](double &x, double &y) { std::swap(x, y); });
          rel.swap = !rel.swap;
          moved    = true;
          c.desc << " | axes swapped";
          c.label("axes swapped");
          break;
        case 5:
          {
            const double dx = c.s.real(-40, 40), dy = c.s.real(-40, 40);
            each([&](double &x, double &y) { x += dx, y += dy; });
            moved = true;
            c.desc << " | moved by " << dx << " " << dy;
            c.label("moved");
            break;
          }
        case 6:
          t.prm["MatrixBased"] = "true";
          c.desc << " | matrix based";
          c.label("matrix based");
          break;
        case 7:
          {
            const std::vector<std::string> types = {"ILU", "BlockPreconditioner2", "AMG", "InverseDiagonalMatrix", "BlockAMG", "BlockILU"};
            t.prm["Preconditioners/Outer/Type"]                       = types[c.s.draw(2)];
            t.prm["Preconditioners/BlockPreconditioner2/Block0/Type"] = c.s.coin() ? "ILU" : "AMG";
            t.prm["Preconditioners/BlockPreconditioner2/Block1/Type"] = c.s.coin(0.4) ? "InverseDiagonalMatrix" : c.s.coin() ? "BlockILU" : "AMG";
            t.prm["Preconditioners/BlockPreconditioner2/Block1Approximation"] = c.s.pick(std::vector<std::string>{"all", "const", "max", "avg"});
            c.desc << " | preconditioner " << t.prm["Preconditioners/Outer/Type"] << " " << t.prm["Preconditioners/BlockPreconditioner2/Block1/Type"] << " "
                   << t.prm["Preconditioners/BlockPreconditioner2/Block1Approximation"];
            c.label("preconditioner");
            break;
          }
        case 8:
          t.prm["NonLinearData/LinearSolver"] = c.s.coin() ? "IDR" : "Bicgstab";
          c.desc << " | solver " << t.prm["NonLinearData/LinearSolver"];
          c.label("linear solver");
          break;
        case 9:
          t.prm["NonLinearData/NewtonReusePreconditioner"] = yes(c.s.coin());
          t.prm["NonLinearData/NewtonUseDamping"]          = yes(c.s.coin());
          t.prm["NonLinearData/NonLinearSolverType"] = c.s.coin(0.4) ? "NOX" : "damped";
          c.desc << " | nonlinear solver " << t.prm["NonLinearData/NonLinearSolverType"];
          c.label("nonlinear solver");
          break;
        case 10:
          if (s.tracker)
            break;
          add_tracker(c, t, c.s.range(1, 3));
          rel.tails = true;
          c.label("tracker");
          break;
        case 11:
          {
            const double t0 = c.s.real(-1, 1) * 5 * s.T;
            if (rel.shift != 0 || rel.time != 1)
              break;
            t.prm["TimeIntegration/TimeStart"] = str(t0);
            t.prm["TimeIntegration/TimeEnd"]   = str(t0 + s.T);
            rel.shift                          = t0;
            c.desc << " | starts at " << t0;
            c.label("start time");
            break;
          }
        case 12:
          {
            // other units of length, time and energy
            const double l = std::pow(2., int(c.s.range(0, 4)) - 2), e = std::pow(2., int(c.s.range(0, 4)) - 2), tm = std::pow(2., int(c.s.range(0, 4)) - 2);
            if (rel.len != 1 || rel.energy != 1 || rel.time != 1 || rel.shift != 0)
              break;
            rel.len    = l;
            rel.energy = e;
            rel.time   = tm;
            each([&](double &x, double &y) { x *= l, y *= l; });
            for (auto &p : t.particles)
              p.r *= l;
            const auto scale = [&](const std::string &k, double f) { t.prm[k] = str(std::stod(t.prm[k]) * f); };
            scale("Geometry/InterfaceWidth", l);
            scale("Material/EnergyAbstract/A", e);
            scale("Material/EnergyAbstract/B", e);
            scale("Material/EnergyAbstract/KappaC", e * l * l);
            scale("Material/EnergyAbstract/KappaP", e * l * l);
            for (const auto &m : {"Mvol", "Mvap", "Msurf", "Mgb"})
              scale(std::string("Material/MobilityAbstract/") + m, l * l / e / tm);
            scale("Material/MobilityAbstract/L", 1 / e / tm);
            for (const auto &m : {"TimeEnd", "TimeStepInit", "TimeStepMax", "TimeStepMin"})
              scale(std::string("TimeIntegration/") + m, tm);
            scale("Output/OutputTimeInterval", tm);
            c.desc << " | units of length " << l << " energy " << e << " time " << tm;
            c.label("units");
            break;
          }
        default:
          t.prm["Output/Regular"]              = yes(c.s.coin());
          t.prm["Output/Contour"]              = yes(c.s.coin());
          t.prm["Output/ContourTex"]           = yes(c.s.coin());
          t.prm["Output/Porosity"]             = yes(c.s.coin());
          t.prm["Output/PorosityContours"]     = yes(c.s.coin());
          t.prm["Output/PorosityStats"]        = yes(c.s.coin());
          t.prm["Output/GrainsStats"]          = yes(c.s.coin());
          t.prm["Output/ConcentrationContour"] = yes(c.s.coin());
          t.prm["Output/GrainBoundaries"]      = yes(c.s.coin());
          t.prm["Output/Quality"]              = yes(c.s.coin());
          t.prm["Output/Fields"]               = s.bin == "sim2t" ? "CH,AC,bnds,dt,d2f,kappa,L,energy,subdomain,mf_indices" : "CH,AC,bnds,dt,d2f,M,dM,kappa,L,energy,subdomain,mf_indices";
          t.prm["Output/FluxesDivergences"]    = yes(c.s.coin(0.3));
          t.prm["Output/Debug"]                = yes(c.s.coin(0.2));
          t.prm["Profiling/RunVmults"]         = yes(c.s.coin(0.3));
          t.prm["NonLinearData/Verbosity"]     = str(c.s.range(0, 2));
          t.prm["PrintTimeLoop"]               = "";
          t.prm.v.erase("PrintTimeLoop");
          // these options need the grains
          if (!s.tracker && (t.prm["Output/Contour"] == "true" || t.prm["Output/ContourTex"] == "true" || t.prm["Output/GrainsStats"] == "true"))
            rel.tails = true, c.label("tracker for the output");
          c.desc << " | other output";
          c.label("output");
      }
  rel.contour = moved || rel.swap;
  if (np1 != np2 && s.bin == "")
    boxes_exact = false;
  const Run a = s.run(np1);
  finished(c, a, "first run");
  if (std::any_of(a.steps.begin(), a.steps.end(), [&](const auto &x) { return x.failures > 0 || x.dt < 1e-2 * s.dt0; }))
    throw pbt::Discard();
  const Run b = t.run(np2);
  if (b.out.find("Minimum timestep size exceeded") != std::string::npos || std::any_of(b.steps.begin(), b.steps.end(), [&](const auto &x) { return x.failures > 0; }))
    throw pbt::Discard();
  finished(c, b, "second run");
  // rounding decides about another number of cells
  if (!a.rows.empty() && !b.rows.empty() && moved && a.at(0, "n_dofs") != b.at(0, "n_dofs"))
    throw pbt::Discard();
  if (b.out.find("Grains remapped") != std::string::npos || a.out.find("Grains remapped") != std::string::npos)
    rel.tails = true;
  c.check(a.steps.size() == b.steps.size(), "steps: ", a.steps.size(), " and ", b.steps.size());
  // the detected grains need the tracker to be on in both
  Run        x = a, y = b;
  const bool with_tracker = s.tracker || s.prm["Output/CoordinationNumber"] == "true";
  if (!with_tracker)
    for (auto *r : {&x, &y})
      for (auto &row : r->rows)
        row["n_grains"] = 0;
  compare_tables(c, x, y, rel, s, boxes_exact);
  c.nontrivial = a.steps.size() >= 2;
}
