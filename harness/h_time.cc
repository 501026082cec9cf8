// Time integration: implicit weights and step-size bookkeeping, solution
// history, explicit stepping.
#include <deal.II/base/mpi.h>
#include <deal.II/base/conditional_ostream.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/matrix_free/matrix_free.h>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>

#include <pf-applications/lac/dynamic_block_vector.h>
#include <pf-applications/lac/residual_wrapper.h>
#include <pf-applications/time_integration/solution_history.h>
#include <pf-applications/time_integration/time_integrator_data.h>
#include <pf-applications/time_integration/time_integrators.h>
#include <pf-applications/time_integration/time_marching.h>
#include <pf-applications/time_integration/time_schemes.h>

#include "pbt.h"

using namespace dealii;
using namespace TimeIntegration;

namespace
{
  using TD = TimeIntegratorData<double>;

  std::unique_ptr<ImplicitScheme<double>>
  scheme(unsigned int order)
  {
    auto v = create_time_scheme<double>("BDF" + std::to_string(order));
    return v.template try_take<ImplicitScheme<double>>();
  }

  // derivative weights at t=0 of the Lagrange interpolation through
  // t=0, -dt0, -(dt0+dt1), ...
  std::vector<long double>
  reference_weights(const std::vector<double> &dt, unsigned int n)
  {
    std::vector<long double> t(n + 1, 0.L);
    for (unsigned int i = 0; i < n; ++i)
      t[i + 1] = t[i] - dt[i];
    std::vector<long double> w(n + 1, 0.L);
    for (unsigned int i = 1; i <= n; ++i)
      {
        long double l = 1.L / (t[i] - t[0]);
        for (unsigned int j = 1; j <= n; ++j)
          if (j != i)
            l *= (t[0] - t[j]) / (t[i] - t[j]);
        w[i] = l;
        w[0] -= l;
      }
    return w;
  }

  struct Model
  {
    unsigned int        order = 1;
    std::vector<double> dt; // most recent first, 0 = not available
    double              time = 0;
  };

  void
  compare(pbt::Case &c, const TD &d, const Model &m, const std::string &what)
  {
    c.check(d.is_implicit(), what, ": implicit");
    c.check(d.get_order() == m.order, what, ": order");
    if (!c.check(d.get_all_dt().size() == m.dt.size(), what, ": number of stored steps ", d.get_all_dt().size()))
      return;
    for (unsigned int i = 0; i < m.dt.size(); ++i)
      c.check(d.get_all_dt()[i] == m.dt[i], what, ": dt[", i, "] = ", d.get_all_dt()[i], " expected ", m.dt[i]);
    c.check(d.get_current_dt() == m.dt[0], what, ": current dt");
    c.close(d.get_current_time(), m.time, 1e-13, 1e-13, what + ": time");
    unsigned int n = 0;
    while (n < m.order && m.dt[n] > 0)
      ++n;
    const auto &w = d.get_weights();
    if (!c.check(w.size() == m.order + 1, what, ": number of weights"))
      return;
    if (n > 0)
      {
        const auto  r  = reference_weights(m.dt, n);
        long double mx = 0;
        for (const auto x : r)
          mx = std::max(mx, std::abs(x));
        for (unsigned int i = 0; i <= m.order; ++i)
          c.close(w[i], i <= n ? static_cast<double>(r[i]) : 0., 1e-9, 1e-10 * mx,
                  what + ": weight " + std::to_string(i) + " with " + std::to_string(n) + " steps");
        c.check(d.get_primary_weight() == w[0], what, ": primary weight");
        // exactness on polynomials of degree <= n
        for (unsigned int p = 0; p <= n; ++p)
          {
            long double t = 0, s = 0, mag = 0;
            for (unsigned int i = 0; i <= n; ++i)
              {
                const long double v = p == 0 ? 1.L : std::pow(t, static_cast<long double>(p));
                s += w[i] * v;
                mag += std::abs(w[i] * v);
                if (i < n)
                  t -= m.dt[i];
              }
            c.check(std::abs(s - (p == 1 ? 1.L : 0.L)) <= 1e-9L * (mag + (p == 1)),
                    what, ": derivative of t^", p, " is ", static_cast<double>(s));
          }
      }
    c.check(d.get_algebraic_weight() == 1., what, ": algebraic weight");
  }
} // namespace

PBT_PROPERTY(bdf_bookkeeping)
{
  const double base = c.s.logreal(1e-6, 1e3);
  auto         step = [&]() {
    return c.s.coin(0.2) ? base : base * c.s.logreal(0.05, 20.);
  };
  Model        m;
  m.order      = c.s.range(1, 3);
  m.dt.assign(m.order, 0.);
  TD d(scheme(m.order));
  c.desc << "BDF" << m.order << " ";
  if (c.s.coin())
    {
      const double h = step();
      d              = TD(scheme(m.order), h);
      m.dt[0]        = h;
    }
  const unsigned int n_ops = c.s.range(1, 12);
  unsigned int       n_upd = 0;
  std::set<unsigned int> kinds;
  for (unsigned int i = 0; i < n_ops; ++i)
    {
      const unsigned int op = c.s.draw(9);
      std::string        name;
      kinds.insert(op);
      switch (op)
        {
          case 0:
          case 1:
            {
              const double h = step();
              name           = "update_dt";
              d.update_dt(h);
              for (unsigned int j = m.order - 1; j > 0; --j)
                m.dt[j] = m.dt[j - 1];
              m.dt[0] = h;
              n_upd++;
              break;
            }
          case 2:
            {
              const double h = step();
              name           = "replace_dt";
              d.replace_dt(h);
              m.dt[0] = h;
              break;
            }
          case 3:
            {
              name = "copy";
              TD e(d);
              compare(c, e, m, "copy");
              e.update_dt(step()); // must not influence the original
              e.set_current_time(-1.);
              break;
            }
          case 4:
            {
              name = "assign";
              TD e(scheme(c.s.range(1, 3)), step());
              e = d;
              d.replace_dt(m.dt[0] > 0 ? m.dt[0] : base);
              if (!(m.dt[0] > 0))
                m.dt[0] = base, e.replace_dt(base);
              d = e;
              break;
            }
          case 5:
            {
              name                 = "change scheme";
              const unsigned int o = c.s.range(1, 3);
              TD                 e(d, scheme(o));
              Model              mm;
              mm.order = o;
              mm.dt.assign(o, 0.);
              for (unsigned int j = 0; j < std::min(o, m.order); ++j)
                mm.dt[j] = m.dt[j];
              mm.time = e.get_current_time(); // not specified
              compare(c, e, mm, "change scheme");
              e.set_current_time(m.time);
              mm.time = m.time;
              d       = e;
              m       = mm;
              break;
            }
          case 6:
            {
              name            = "save/load";
              const bool text = c.s.coin();
              TD         e(scheme(m.order));
              if (text)
                {
                  std::stringstream ss;
                  {
                    boost::archive::text_oarchive a(ss);
                    a << d;
                  }
                  boost::archive::text_iarchive a(ss);
                  a >> e;
                }
              else
                {
                  std::stringstream ss;
                  {
                    boost::archive::binary_oarchive a(ss);
                    a << d;
                  }
                  boost::archive::binary_iarchive a(ss);
                  a >> e;
                }
              e.set_current_time(m.time);
              if (text)
                for (unsigned int j = 0; j < m.order; ++j)
                  c.close(e.get_all_dt()[j], m.dt[j], 1e-15, 0, "text archive dt");
              else
                compare(c, e, m, "save/load");
              break;
            }
          case 7:
            {
              name = "copy_all_dt";
              TD e(scheme(m.order));
              e.copy_all_dt(d);
              e.set_current_time(m.time);
              compare(c, e, m, "copy_all_dt");
              break;
            }
          case 8:
            {
              name           = "time";
              const double h = step();
              if (c.s.coin())
                {
                  d.set_current_time(h);
                  m.time = h;
                }
              else
                {
                  d.update_current_time(h);
                  m.time += h;
                }
              break;
            }
        }
      c.desc << name << " ";
      c.label(name);
      compare(c, d, m, name);
      if (!c.errors.empty())
        return;
    }
  c.label("full order reached", n_upd >= m.order);
  c.label("start-up", n_upd < m.order);
  c.nontrivial = kinds.size() >= 2 && n_upd >= 1;
}

// ---------------------------------------------------------------------------
PBT_PROPERTY(solution_history)
{
  using DBV = LinearAlgebra::distributed::DynamicBlockVector<double>;
  using MV  = std::vector<std::vector<double>>;
  const unsigned int n  = c.s.range(1, 4);
  const unsigned int nb = c.s.range(1, 3);
  const unsigned int sz = c.s.range(1, 4);

  auto fill = [&](DBV &v, MV &m) {
    v.reinit(0);
    v.reinit(nb);
    m.assign(nb, std::vector<double>(sz));
    for (unsigned int b = 0; b < nb; ++b)
      {
        v.block(b).reinit(sz);
        for (unsigned int i = 0; i < sz; ++i)
          v.block(b)(i) = m[b][i] = static_cast<double>(c.s.range(-16, 16)) / 4;
      }
    v.collect_sizes();
  };
  auto same = [&](const DBV &v, const MV &m, const std::string &what) {
    if (!c.check(v.n_blocks() == m.size(), what, ": blocks"))
      return;
    for (unsigned int b = 0; b < m.size(); ++b)
      for (unsigned int i = 0; i < m[b].size(); ++i)
        c.close(v.block(b)(i), m[b][i], 1e-13, 1e-12, what);
  };

  SolutionHistory<DBV> h(n);
  std::vector<MV>      m(n);
  {
    auto all = h.get_all_solutions();
    c.check(all.size() == n, "history size");
    for (unsigned int i = 0; i < n; ++i)
      fill(*all[i], m[i]);
  }
  auto check_all = [&](const std::string &what) {
    auto all = h.get_all_solutions();
    for (unsigned int i = 0; i < n; ++i)
      same(*all[i], m[i], what + " solution " + std::to_string(i));
    auto old = h.get_old_solutions();
    if (!c.check(old.size() + 1 == n, what, ": old size"))
      return;
    for (unsigned int i = 1; i < n; ++i)
      c.check(old[i - 1] == all[i], what, ": old solution ", i);
    c.check(h.n_blocks_total() == n * nb, what, ": total blocks");
    auto bl = h.get_all_blocks();
    auto br = h.get_all_blocks_raw();
    c.check(bl.size() == n * nb && br.size() == n * nb, what, ": all blocks");
    for (unsigned int i = 0; i < n * nb && i < bl.size(); ++i)
      {
        c.check(bl[i].get() == &all[i / nb]->block(i % nb), what, ": block order");
        c.check(br[i] == bl[i].get(), what, ": raw block order");
      }
  };
  check_all("init");
  const unsigned int n_ops = c.s.range(1, 10);
  bool               shifted = false;
  for (unsigned int it = 0; it < n_ops; ++it)
    {
      const unsigned int op = c.s.draw(7);
      switch (op)
        {
          case 0:
            h.commit_old_solutions();
            for (unsigned int i = n - 1; i >= 2 && i < n; --i)
              {
                m[i]    = m[i - 1];
                shifted = true;
              }
            c.desc << "commit ";
            break;
          case 1:
            {
              if (n < 2)
                continue;
              DBV v;
              MV  mv;
              fill(v, mv);
              h.set_recent_old_solution(v);
              m[1] = mv;
              v *= 3.; // the history owns a copy
              c.desc << "set_recent ";
              same(h.get_recent_old_solution(), m[1], "recent");
              break;
            }
          case 2:
            {
              auto &cur = h.get_current_solution();
              cur.block(0)(0) += 1.;
              m[0][0][0] += 1.;
              c.desc << "modify_current ";
              break;
            }
          case 3:
            {
              const double f = static_cast<double>(c.s.range(-8, 8)) / 4;
              if (n < 2)
                continue;
              DBV dst;
              h.extrapolate(dst, f);
              MV e = m[0];
              for (unsigned int b = 0; b < nb; ++b)
                for (unsigned int i = 0; i < sz; ++i)
                  e[b][i] = m[0][b][i] + f * (m[0][b][i] - m[1][b][i]);
              same(dst, e, "extrapolate");
              c.desc << "extrapolate(" << f << ") ";
              break;
            }
          case 4:
            {
              const bool a = c.s.coin(), b = c.s.coin(), o = c.s.coin();
              auto       f   = h.filter(a, b, o);
              auto       all = h.get_all_solutions();
              std::vector<std::shared_ptr<DBV>> e;
              for (unsigned int i = 0; i < n; ++i)
                if ((i == 0 && a) || (i == 1 && b) || (i > 1 && o))
                  e.push_back(all[i]);
              c.check(f.get_all_solutions() == e, "filter(", a, ",", b, ",", o, ") keeps the wrong members");
              c.desc << "filter ";
              break;
            }
          case 5:
            {
              DBV dst(n * nb);
              for (unsigned int b = 0; b < n * nb; ++b)
                dst.block(b).reinit(sz);
              h.flatten(dst);
              for (unsigned int b = 0; b < n * nb; ++b)
                for (unsigned int i = 0; i < sz; ++i)
                  c.close(dst.block(b)(i), m[b / nb][b % nb][i], 0, 0, "flatten");
              c.desc << "flatten ";
              break;
            }
          case 6:
            {
              const bool blockwise = c.s.coin();
              unsigned   calls     = 0;
              if (blockwise)
                h.apply_blockwise([&](auto &b) {
                  b *= 2.;
                  calls++;
                });
              else
                h.apply([&](auto &v) {
                  v *= 2.;
                  calls++;
                });
              c.check(calls == (blockwise ? n * nb : n), "apply visits every member once");
              for (auto &s : m)
                for (auto &b : s)
                  for (auto &x : b)
                    x *= 2.;
              c.desc << "apply ";
              break;
            }
        }
      check_all("op" + std::to_string(op));
      if (!c.errors.empty())
        return;
    }
  c.label("shifted history", shifted);
  c.nontrivial = shifted || n_ops >= 3;
}

// ---------------------------------------------------------------------------
namespace
{
  using BV = LinearAlgebra::distributed::DynamicBlockVector<double>;

  // dy/dt = -f(t,y) for time dependent blocks; z = -g(t, y) for stationary
  // blocks (their residual is evaluated with the given algebraic weight 0)
  struct Ode
  {
    unsigned int                     n_blocks, n_dofs;
    std::vector<bool>                stationary;
    std::vector<std::vector<double>> A; // couplings, between blocks
    std::vector<double>              q, w, ph;

    std::vector<double>
    eval(double t, const std::vector<double> &y) const
    {
      std::vector<double> r(n_blocks * n_dofs, 0.);
      for (unsigned int b = 0; b < n_blocks; ++b)
        for (unsigned int i = 0; i < n_dofs; ++i)
          {
            double v = ph[b] * std::cos(w[b] * t + i);
            for (unsigned int k = 0; k < n_blocks; ++k)
              {
                // stationary equations only depend on time-dependent unknowns
                if (stationary[k] && stationary[b])
                  continue;
                v += A[b][k] * y[k * n_dofs + i];
                if (!stationary[k])
                  v += q[b] * A[k][b] * y[k * n_dofs + i] * y[k * n_dofs + i];
              }
            r[b * n_dofs + i] = v;
          }
      return r;
    }
  };

  struct OdeOperator
  {
    using value_type = double;
    struct Data
    {
      TimeIntegratorData<double> time_data;
    };
    const Ode  &ode;
    const Data &data;
    OdeOperator(const Ode &o, const Data &d)
      : ode(o)
      , data(d)
    {}

    template <int with_time_derivative>
    void
    evaluate_nonlinear_residual(
      BV       &dst,
      const BV &src,
      const std::function<void(const unsigned int, const unsigned int)> = {},
      const std::function<void(const unsigned int, const unsigned int)> = {}) const
    {
      std::vector<double> y(ode.n_blocks * ode.n_dofs);
      for (unsigned int b = 0; b < ode.n_blocks; ++b)
        for (unsigned int i = 0; i < ode.n_dofs; ++i)
          y[b * ode.n_dofs + i] = src.block(b)(i);
      const auto r = ode.eval(data.time_data.get_current_time(), y);
      for (unsigned int b = 0; b < ode.n_blocks; ++b)
        for (unsigned int i = 0; i < ode.n_dofs; ++i)
          dst.block(b)(i) = r[b * ode.n_dofs + i];
    }
    void
    initialize_dof_vector(BV &v) const
    {
      v.reinit(ode.n_blocks);
      for (unsigned int b = 0; b < ode.n_blocks; ++b)
        v.block(b).reinit(ode.n_dofs);
      v.collect_sizes();
    }
    const Data &
    get_data() const
    {
      return data;
    }
    unsigned int
    n_components() const
    {
      return ode.n_blocks;
    }
    EquationType
    equation_type(const unsigned int b) const
    {
      return ode.stationary[b] ? EquationType::Stationary :
                                 EquationType::TimeDependent;
    }
  };
} // namespace

PBT_PROPERTY(explicit_stepping)
{
  Ode o;
  o.n_blocks = c.s.range(1, 3);
  o.n_dofs   = c.s.range(1, 2);
  bool any_stat = false, any_time = false;
  for (unsigned int b = 0; b < o.n_blocks; ++b)
    {
      const bool st = b > 0 && c.s.coin(0.35);
      o.stationary.push_back(st);
      any_stat |= st;
      any_time |= !st;
    }
  for (unsigned int b = 0; b < o.n_blocks; ++b)
    {
      o.A.emplace_back();
      for (unsigned int k = 0; k < o.n_blocks; ++k)
        o.A[b].push_back(c.s.real(-1, 1));
      o.q.push_back(c.s.coin() ? c.s.real(-0.3, 0.3) : 0.);
      o.w.push_back(c.s.real(0, 2));
      o.ph.push_back(c.s.coin() ? c.s.real(-1, 1) : 0.);
    }
  const bool   rk4 = c.s.coin(0.7);
  const double dt  = c.s.logreal(1e-3, 0.2);
  const double t0  = c.s.real(0, 3);
  c.desc << (rk4 ? "RK4" : "FE") << " blocks=" << o.n_blocks << " stationary=" << any_stat << " dt=" << dt;

  OdeOperator::Data data;
  data.time_data.update_dt(dt);
  data.time_data.replace_dt(dt);
  OdeOperator op(o, data);
  NonLinearSolvers::ResidualWrapperDirect<double, OdeOperator, false> rw(op);
  AffineConstraints<double> constraints;
  constraints.close();
  NonLinearSolvers::NewtonSolverSolverControl stat(10, 1e-20, 1e-5);
  std::ostringstream                          sink;
  ConditionalOStream                          pc(sink, false);
  MyTimerOutput                       timer(pc.get_stream());
  auto v = create_time_scheme<double>(rk4 ? "RK4" : "FE");
  // memory with arbitrary previous content
  using TM = TimeMarchingExplicit<BV, OdeOperator, std::ostream>;
  std::vector<std::max_align_t> memory(sizeof(TM) / sizeof(std::max_align_t) + 1);
  std::memset(static_cast<void *>(memory.data()), 1, sizeof(TM));
  std::unique_ptr<TM, void (*)(TM *)> tmp(
    new (memory.data()) TM(op, rw, constraints, v.template try_take<ExplicitScheme>(), stat, timer, sink),
    [](TM *p) { p->~TM(); });
  TM &tm = *tmp;

  BV y;
  op.initialize_dof_vector(y);
  std::vector<double> ym(o.n_blocks * o.n_dofs);
  data.time_data.set_current_time(t0);
  for (unsigned int b = 0; b < o.n_blocks; ++b)
    for (unsigned int i = 0; i < o.n_dofs; ++i)
      if (!o.stationary[b])
        ym[b * o.n_dofs + i] = c.s.real(-1, 1);
  {
    // consistent algebraic unknowns
    const auto r = o.eval(t0, ym);
    for (unsigned int b = 0; b < o.n_blocks; ++b)
      if (o.stationary[b])
        for (unsigned int i = 0; i < o.n_dofs; ++i)
          ym[b * o.n_dofs + i] = -r[b * o.n_dofs + i];
  }
  for (unsigned int b = 0; b < o.n_blocks; ++b)
    for (unsigned int i = 0; i < o.n_dofs; ++i)
      y.block(b)(i) = ym[b * o.n_dofs + i];

  auto with_alg = [&](double t, std::vector<double> z) {
    const auto r = o.eval(t, z);
    for (unsigned int b = 0; b < o.n_blocks; ++b)
      if (o.stationary[b])
        for (unsigned int i = 0; i < o.n_dofs; ++i)
          z[b * o.n_dofs + i] = -r[b * o.n_dofs + i];
    return z;
  };
  auto rhs = [&](double t, const std::vector<double> &z) {
    auto r = o.eval(t, z);
    for (unsigned int b = 0; b < o.n_blocks; ++b)
      for (unsigned int i = 0; i < o.n_dofs; ++i)
        r[b * o.n_dofs + i] = o.stationary[b] ? 0. : -r[b * o.n_dofs + i];
    return r;
  };
  const unsigned int n_steps = c.s.range(1, 4);
  double             t       = t0;
  for (unsigned int s = 0; s < n_steps; ++s)
    {
      const double h = s > 0 && c.s.coin(0.5) ? dt * c.s.real(0.5, 1.5) : data.time_data.get_current_dt();
      data.time_data.replace_dt(h);
      data.time_data.set_current_time(t);
      if (c.s.coin(0.2))
        tm.clear();
      const auto before = stat.n_residual_evaluations();
      tm.make_step(y);
      const auto evals = stat.n_residual_evaluations() - before;
      c.check(evals >= (rk4 ? 4u : 1u), "too few residual evaluations");
      if (!any_stat)
        c.check(evals == (rk4 ? 4u : 1u), "one residual evaluation per stage, found ", evals);
      // textbook scheme
      auto axpy = [&](const std::vector<double> &a, double f, const std::vector<double> &b) {
        auto r = a;
        for (unsigned int i = 0; i < r.size(); ++i)
          r[i] += f * b[i];
        return r;
      };
      if (any_stat)
        {
          // only what is unambiguous for DAEs: the order of accuracy.
          // reference: fine RK4 on the reduced ODE
          const unsigned int nf = 64;
          const double       hf = h / nf;
          auto               z  = ym;
          double             tt = t;
          auto g = [&](double t_, const std::vector<double> &z_) { return rhs(t_, with_alg(t_, z_)); };
          for (unsigned int k = 0; k < nf; ++k, tt += hf)
            {
              const auto k1 = g(tt, z), k2 = g(tt + hf / 2, axpy(z, hf / 2, k1)),
                         k3 = g(tt + hf / 2, axpy(z, hf / 2, k2)), k4 = g(tt + hf, axpy(z, hf, k3));
              z = axpy(axpy(axpy(axpy(z, hf / 6, k1), hf / 3, k2), hf / 3, k3), hf / 6, k4);
            }
          z = with_alg(t + h, z);
          double mag = 1;
          for (const auto x : z)
            mag = std::max(mag, std::abs(x));
          // algebraic unknowns consistent with the differential ones at t+h
          std::vector<double> yy(ym.size());
          for (unsigned int b = 0; b < o.n_blocks; ++b)
            for (unsigned int i = 0; i < o.n_dofs; ++i)
              yy[b * o.n_dofs + i] = y.block(b)(i);
          const auto ya = with_alg(t + h, yy);
          for (unsigned int i = 0; i < ya.size(); ++i)
            {
              c.close(yy[i], ya[i], 1e-10, 1e-10 * mag, "algebraic consistency");
              c.close(yy[i], z[i], 0, 400 * mag * mag * mag * h * h, "DAE step accuracy");
            }
          ym = yy;
        }
      else
        {
          std::vector<double> z;
          const auto          k1 = rhs(t, ym);
          if (rk4)
            {
              const auto k2 = rhs(t + h / 2, axpy(ym, h / 2, k1));
              const auto k3 = rhs(t + h / 2, axpy(ym, h / 2, k2));
              const auto k4 = rhs(t + h, axpy(ym, h, k3));
              z = axpy(axpy(axpy(axpy(ym, h / 6, k1), h / 3, k2), h / 3, k3), h / 6, k4);
            }
          else
            z = axpy(ym, h, k1);
          for (unsigned int b = 0; b < o.n_blocks; ++b)
            for (unsigned int i = 0; i < o.n_dofs; ++i)
              c.close(y.block(b)(i), z[b * o.n_dofs + i], 1e-11, 1e-12, rk4 ? "RK4 step" : "FE step");
          ym = z;
        }
      t += h;
      c.close(data.time_data.get_current_time(), t, 1e-12, 1e-12, "time after step");
      double mx = 0;
      for (const double x : ym)
        mx = std::max(mx, std::abs(x));
      if (mx > 10 || !c.errors.empty())
        break;
    }
  c.label(rk4 ? "RK4" : "FE");
  c.label("DAE", any_stat);
  c.nontrivial = any_time;
}
