// Nonlinear and linear solvers, finite-difference Jacobian products.
#include <deal.II/base/mpi.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>
#include <deal.II/lac/trilinos_sparsity_pattern.h>

#include <pf-applications/lac/dynamic_block_vector.h>
#include <pf-applications/lac/jacobian_operator.h>
#include <pf-applications/lac/residual_wrapper.h>
#include <pf-applications/lac/solvers_linear.h>
#include <pf-applications/lac/solvers_nonlinear.h>

#include "pbt.h"

using namespace dealii;
using BV = LinearAlgebra::distributed::DynamicBlockVector<double>;
using SV = LinearAlgebra::distributed::Vector<double>;
using Dense = std::vector<double>;

#include <pf-applications/lac/newton.h>

namespace
{
  BV
  block_vector(const std::vector<unsigned int> &sizes)
  {
    BV v;
    v.reinit(sizes.size());
    for (unsigned int b = 0; b < sizes.size(); ++b)
      v.block(b).reinit(sizes[b]);
    return v;
  }

  Dense
  flat(const BV &v)
  {
    Dense r;
    for (unsigned int b = 0; b < v.n_blocks(); ++b)
      for (unsigned int i = 0; i < v.block(b).locally_owned_size(); ++i)
        r.push_back(v.block(b).local_element(i));
    return r;
  }

  void
  unflat(BV &v, const Dense &d)
  {
    unsigned int c = 0;
    for (unsigned int b = 0; b < v.n_blocks(); ++b)
      for (unsigned int i = 0; i < v.block(b).locally_owned_size(); ++i)
        v.block(b).local_element(i) = d[c++];
  }

  Dense
  flat(const SV &v)
  {
    return Dense(v.begin(), v.end());
  }

  void
  unflat(SV &v, const Dense &d)
  {
    for (unsigned int i = 0; i < d.size(); ++i)
      v.local_element(i) = d[i];
  }

  double
  norm(const Dense &v)
  {
    double s = 0;
    for (const auto x : v)
      s += x * x;
    return std::sqrt(s);
  }

  double
  diff(const Dense &a, const Dense &b)
  {
    double s = 0;
    for (unsigned int i = 0; i < a.size(); ++i)
      s = std::max(s, !(std::abs(a[i] - b[i]) <= 1e300) ? (a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]) ? 0. : 1e300) : std::abs(a[i] - b[i]));
    return s;
  }

  double
  maxabs(const Dense &a)
  {
    double s = 0;
    for (const auto x : a)
      s = std::max(s, std::abs(x));
    return s;
  }

  // dense solve with pivoting, false if singular
  bool
  lu_solve(std::vector<Dense> A, Dense b, Dense &x)
  {
    const unsigned int n = b.size();
    for (unsigned int k = 0; k < n; ++k)
      {
        unsigned int p = k;
        for (unsigned int i = k + 1; i < n; ++i)
          if (std::abs(A[i][k]) > std::abs(A[p][k]))
            p = i;
        if (!(std::abs(A[p][k]) > 1e-14))
          return false;
        std::swap(A[p], A[k]);
        std::swap(b[p], b[k]);
        for (unsigned int i = k + 1; i < n; ++i)
          {
            const double f = A[i][k] / A[k][k];
            for (unsigned int j = k; j < n; ++j)
              A[i][j] -= f * A[k][j];
            b[i] -= f * b[k];
          }
      }
    x.assign(n, 0.);
    for (int i = n - 1; i >= 0; --i)
      {
        double s = b[i];
        for (unsigned int j = i + 1; j < n; ++j)
          s -= A[i][j] * x[j];
        x[i] = s / A[i][i];
      }
    return true;
  }

  // a family of nonlinear systems: well behaved, rootless, with regions where
  // the residual is not a number, discontinuous
  struct System
  {
    unsigned int       n = 1;
    unsigned int       kind = 0;
    std::vector<Dense> A;
    Dense              b;
    double             c = 0, scale = 1;

    double
    phi(double x) const
    {
      switch (kind)
        {
          case 0:
            return 0;
          case 1:
            return x * x * x;
          case 2:
            return std::sin(3 * x);
          case 3:
            return x * x + 1;
          case 4:
            return std::sqrt(x); // NaN for negative arguments
          case 5:
            return std::log(x);
          case 6:
            return x > 0 ? 1 : -1; // jump
          case 7:
            return std::exp(std::min(x, 700.));
          default:
            return std::atan(4 * x);
        }
    }

    double
    dphi(double x) const
    {
      switch (kind)
        {
          case 0:
            return 0;
          case 1:
            return 3 * x * x;
          case 2:
            return 3 * std::cos(3 * x);
          case 3:
            return 2 * x;
          case 4:
            return 0.5 / std::sqrt(std::abs(x) + 1e-12);
          case 5:
            return 1 / (std::abs(x) + 1e-12);
          case 6:
            return 0;
          case 7:
            return std::exp(std::min(x, 700.));
          default:
            return 4 / (1 + 16 * x * x);
        }
    }

    Dense
    residual(const Dense &x) const
    {
      Dense r(n);
      for (unsigned int i = 0; i < n; ++i)
        {
          double s = -b[i] + c * phi(x[i]);
          for (unsigned int j = 0; j < n; ++j)
            s += A[i][j] * x[j];
          r[i] = scale * s;
        }
      return r;
    }

    std::vector<Dense>
    jacobian(const Dense &x) const
    {
      auto J = A;
      for (unsigned int i = 0; i < n; ++i)
        for (unsigned int j = 0; j < n; ++j)
          J[i][j] = scale * (A[i][j] + (i == j ? c * dphi(x[i]) : 0.));
      return J;
    }
  };

  System
  gen_system(pbt::Case &c, const unsigned int n)
  {
    System s;
    s.n     = n;
    s.kind  = c.s.draw(9);
    s.c     = s.kind == 0 ? 0. : c.s.real(-2, 2);
    s.scale = c.s.coin(0.2) ? c.s.logreal(1e-6, 1e6) : 1.;
    s.A.assign(n, Dense(n));
    s.b.assign(n, 0.);
    const bool pure = s.kind > 0 && c.s.coin(0.3);
    for (unsigned int i = 0; i < n; ++i)
      {
        for (unsigned int j = 0; j < n; ++j)
          s.A[i][j] = pure ? 0. : c.s.real(-1, 1) + (i == j ? 2. : 0.);
        s.b[i] = c.s.real(-2, 2);
      }
    if (pure && s.c == 0)
      s.c = 1;
    return s;
  }

  // what the callbacks saw
  struct Event
  {
    char   kind; // r(esidual) j(acobian) p(reconditioner) s(olve) c(heck)
    Dense  x, y;
    double value = 0;
    unsigned int step = 0, its = 0;
    int    status = 0;
  };

  double
  same_tol(const Dense &a)
  {
    return 1e-12 * (1e-12 + maxabs(a));
  }
} // namespace

PBT_PROPERTY(newton)
{
  std::vector<unsigned int> sizes(c.s.range(1, 2));
  unsigned int              n = 0;
  for (auto &s : sizes)
    n += (s = c.s.range(1, 2));

  const unsigned int max_iter = c.s.coin(0.15) ? c.s.range(0, 3) : c.s.range(4, 25);
  const double       abs_tol  = c.s.coin() ? 1e-20 : c.s.logreal(1e-14, 1e-1);
  const double       rel_tol  = c.s.coin(0.2) ? 0. : c.s.logreal(1e-12, 0.9);
  const bool         update   = !c.s.coin(0.15);
  const unsigned int thr_n    = c.s.coin(0.3) ? 1 : c.s.range(2, 8);
  const unsigned int thr_l    = c.s.range(0, 10);
  const bool         reuse    = c.s.coin();
  const bool         damping  = !c.s.coin(0.3);
  const bool         has_prec = !c.s.coin(0.2);
  const bool         has_user = c.s.coin(0.3);
  const double       inexact  = c.s.coin(0.4) ? c.s.real(0, 1.5) : 0.;
  const bool         wrapped  = c.s.coin(0.3);

  NonLinearSolvers::NewtonSolverSolverControl  control(max_iter, abs_tol, rel_tol);
  NonLinearSolvers::NewtonSolverAdditionalData data(update, thr_n, thr_l, reuse, damping);
  System                     sys;
  std::vector<Event>         ev;
  std::vector<unsigned int>  its_pool;
  for (unsigned int i = 0; i < 6; ++i)
    its_pool.push_back(c.s.range(0, 12));
  unsigned int               n_solves = 0;
  Dense                      lin_point;
  std::vector<double>        pert;
  for (unsigned int i = 0; i < 7; ++i)
    pert.push_back(c.s.real(-1, 1));
  // thresholds of the user's own criterion
  const double user_tol = c.s.logreal(1e-10, 10.);
  const unsigned int user_fail = has_user && c.s.coin(0.2) ? c.s.range(0, 4) : 1000;
  const double forced_fail     = c.s.coin(0.05) ? c.s.range(1, 4) : 0;
  bool         solve_threw     = false;

  auto configure = [&](auto &solver) {
    solver.reinit_vector = [&](BV &v) { v = block_vector(sizes); };
    solver.residual      = [&](const BV &src, BV &dst) {
      Event e{'r', flat(src), sys.residual(flat(src))};
      unflat(dst, e.y);
      e.value = dst.l2_norm();
      ev.push_back(e);
    };
    solver.setup_jacobian = [&](const BV &x) {
      ev.push_back({'j', flat(x), {}});
      lin_point = flat(x);
    };
    if (has_prec)
      solver.setup_preconditioner = [&](const BV &x) { ev.push_back({'p', flat(x), {}}); };
    solver.solve_with_jacobian = [&](const BV &rhs, BV &inc) -> unsigned int {
      Event e{'s', flat(rhs), flat(inc)};
      ++n_solves;
      if (forced_fail > 0 && n_solves == forced_fail)
        {
          solve_threw = true;
          throw SolverControl::NoConvergence(1, 1.);
        }
      Dense d;
      if (!lu_solve(sys.jacobian(lin_point), e.x, d))
        d = e.x;
      for (unsigned int i = 0; i < d.size(); ++i)
        d[i] *= 1 + inexact * pert[(n_solves + i) % pert.size()];
      unflat(inc, d);
      e.its   = its_pool[n_solves % its_pool.size()];
      e.value = 0;
      ev.push_back(e);
      ev.back().y = d; // the increment handed back
      // the increment has to be zero on entry (initial guess)
      if (maxabs(e.y) != 0)
        ev.back().status = 1;
      return ev.back().its;
    };
    if (has_user)
      solver.check_iteration_status =
        [&](const unsigned int step, const double v, const BV &x, const BV &) {
          Event e{'c', flat(x), {}, v, step};
          e.status = step >= user_fail ? 2 : (v < user_tol ? 1 : 0);
          ev.push_back(e);
          return e.status == 2 ? SolverControl::failure : (e.status == 1 ? SolverControl::success : SolverControl::iterate);
        };
  };

  std::unique_ptr<NonLinearSolvers::NewtonSolver<BV>> solver;
  if (wrapped)
    {
      NonLinearSolvers::DampedNewtonSolver<BV> inner(control, data);
      configure(inner);
      solver = std::make_unique<NonLinearSolvers::NonLinearSolverWrapper<BV, NonLinearSolvers::DampedNewtonSolver<BV>>>(std::move(inner));
    }
  else
    {
      auto inner = std::make_unique<NonLinearSolvers::DampedNewtonSolver<BV>>(control, data);
      configure(*inner);
      solver = std::move(inner);
    }

  c.desc << "max_iter=" << max_iter << " abs_tol=" << abs_tol << " rel_tol=" << rel_tol << " update=" << update << " thr=" << thr_n << "/" << thr_l
         << " reuse=" << reuse << " damping=" << damping << " user=" << has_user << " ";

  // state of the preconditioner history
  unsigned int h_newton = 0, h_linear = 0;

  const unsigned int n_runs = c.s.range(1, 3);
  for (unsigned int run = 0; run < n_runs; ++run)
    {
      sys = gen_system(c, n);
      Dense x0(n);
      for (auto &x : x0)
        x = c.s.real(-2, 2);
      if (c.s.coin(0.1)) // start from (nearly) a solution
        {
          Dense z = sys.residual(x0);
          for (unsigned int i = 0; i < n; ++i)
            sys.b[i] += z[i] / sys.scale;
        }
      if (run > 0 && c.s.coin(0.3))
        {
          solver->clear();
          h_newton = h_linear = 0;
        }
      if (!reuse)
        h_newton = h_linear = 0;
      if (c.s.coin(0.2))
        control.increment_linear_iterations(3); // stale statistics
      c.desc << "| kind " << sys.kind << " n=" << n << " c=" << sys.c << " ";
      ev.clear();
      solve_threw = false;
      BV x        = block_vector(sizes);
      unflat(x, x0);
      bool threw = false;
      try
        {
          solver->solve(x);
        }
      catch (const NonLinearSolvers::ExcNewtonDidNotConverge &)
        {
          threw = true;
        }
      catch (const SolverControl::NoConvergence &)
        {
          c.check(solve_threw, "unexpected linear failure");
          threw = true;
        }
      // ---- what the history has to look like
      const std::string tag = "solve " + std::to_string(run) + ": ";
      if (!c.check(!ev.empty() && ev[0].kind == 'r' && diff(ev[0].x, x0) == 0, tag, "the first residual is not that of the initial guess"))
        return;
      const double r0  = ev[0].value;
      Dense        cur = x0;
      double       rc  = r0;
      std::size_t  p   = 1;
      unsigned int it  = 0;
      bool         stopped_by_user = false, user_ok = !has_user;
      auto         take_check = [&]() {
        if (!has_user)
          return true;
        if (!c.check(p < ev.size() && ev[p].kind == 'c', tag, "the user's criterion was not consulted at iterate ", it))
          return false;
        c.check(ev[p].step == it, tag, "criterion told step ", ev[p].step, " instead of ", it);
        c.check(ev[p].value == rc || (rc != rc && ev[p].value != ev[p].value) || std::abs(ev[p].value - rc) <= 1e-13 * rc, tag, "criterion told residual ", ev[p].value, " instead of ", rc);
        c.check(diff(ev[p].x, cur) <= same_tol(cur), tag, "criterion told another iterate");
        user_ok         = ev[p].status == 1;
        stopped_by_user = ev[p].status == 2;
        ++p;
        return true;
      };
      // tolerance test; false is also the answer for NaN. Ratios within
      // rounding of the limits decide nothing.
      const auto   close_to = [](double a, double b) { return std::abs(a - b) <= 1e-9 * b; };
      auto         converged = [&]() { return rc <= abs_tol || rc / r0 <= rel_tol; };
      auto         unclear   = [&]() { return close_to(rc, abs_tol) || close_to(rc / r0, rel_tol); };
      bool         damping_failed = false;
      if (!take_check())
        return;
      while (p < ev.size() || solve_threw)
        {
          // an iteration is only started when needed and allowed
          c.check(!(converged() && user_ok) || unclear(), tag, "iterates although converged: residual ", rc, " of initially ", r0);
          c.check(!stopped_by_user, tag, "iterates although the user's criterion said failure");
          c.check(it < max_iter || (converged() && has_user), tag, "more than ", max_iter, " iterations");
          if (!c.check(p < ev.size() && ev[p].kind == 'j' && diff(ev[p].x, cur) <= same_tol(cur), tag, "Jacobian not set up at the current iterate ", it))
            return;
          ++p;
          const bool want = has_prec && update && (h_newton % thr_n == 0 || h_linear > thr_l);
          const bool have = p < ev.size() && ev[p].kind == 'p';
          if (!c.check(want == have, tag, "preconditioner ", have ? "" : "not ", "updated at iteration ", it, " (total ", h_newton, ", last linear ", h_linear, ")"))
            return;
          if (have)
            {
              c.check(diff(ev[p].x, cur) <= same_tol(cur), tag, "preconditioner set up at another point");
              ++p;
              c.label("preconditioner updated");
            }
          else
            c.label("preconditioner kept");
          if (p >= ev.size() && solve_threw)
            break;
          if (!c.check(p < ev.size() && ev[p].kind == 's', tag, "no linear solve in iteration ", it))
            return;
          {
            const auto rr = sys.residual(cur);
            Dense      neg(n);
            for (unsigned int i = 0; i < n; ++i)
              neg[i] = -rr[i];
            c.check(diff(ev[p].x, neg) <= 1e-12 * (maxabs(neg) + 1e-300) || diff(ev[p].x, neg) <= 1e-10 * maxabs(sys.b) * sys.scale, tag, "right-hand side is not minus the residual");
            c.check(ev[p].status == 0, tag, "increment not zero before the linear solve");
          }
          const Dense d = ev[p].y;
          h_linear      = ev[p].its;
          ++p;
          // trial steps
          double       omega = 1, rt = 0;
          unsigned int trials = 0;
          bool         acc    = false;
          Dense        xt;
          while (p < ev.size() && ev[p].kind == 'r')
            {
              Dense expect(n);
              for (unsigned int i = 0; i < n; ++i)
                expect[i] = cur[i] + omega * d[i];
              c.check(diff(ev[p].x, expect) <= 1e-12 * (maxabs(cur) + maxabs(d)), tag, "trial ", trials, " is not the ", omega, "-fold step");
              rt = ev[p].value;
              xt = ev[p].x;
              ++p;
              ++trials;
              omega /= 2;
              if (!damping)
                {
                  acc = true;
                  break;
                }
              // a step that clearly reduces the residual is taken, one that
              // does not reduce it is not
              const bool more = p < ev.size() && ev[p].kind == 'r';
              const bool last = !more;
              if (rt < 0.9 * rc && more)
                c.check(false, tag, "trial ", trials, " reduces the residual from ", rc, " to ", rt, " but is rejected");
              if (last)
                acc = true;
            }
          if (!c.check(trials > 0, tag, "no residual evaluated after the linear solve"))
            return;
          if (damping && !(rt < rc))
            {
              // damping gave up: this has to end in an exception
              damping_failed = true;
              c.check(trials >= 50 || !(rt < 1e300) || trials == 100, tag, "damping gave up after ", trials, " trials");
              c.check(p == ev.size(), tag, "continues after the damping failed");
              c.label("damping failed");
              break;
            }
          if (damping && p == ev.size() && threw && control.n_newton_iterations() == it)
            {
              damping_failed = true; // decrease not sufficient
              break;
            }
          (void)acc;
          if (trials > 1)
            c.label("damped step");
          cur = xt;
          rc  = rt;
          ++it;
          ++h_newton;
          if (!take_check())
            return;
        }
      // ---- outcome
      if (solve_threw || damping_failed)
        c.check(threw, tag, "failure of the linear solver or of the damping is not reported");
      else
        {
          c.check(diff(flat(x), cur) <= same_tol(cur), tag, "the returned vector is not the last iterate");
          c.check(control.n_newton_iterations() == it, tag, control.n_newton_iterations(), " iterations counted instead of ", it);
          const bool good = converged() && user_ok && !stopped_by_user;
          if (!unclear())
            c.check(threw == !good, tag, threw ? "exception although" : "returns although not", " converged: residual ", rc, " of initially ", r0, ", user criterion ", user_ok);
          if (!threw)
            {
              const double rr = norm(sys.residual(flat(x)));
              c.check(rr <= std::max(abs_tol, rel_tol * r0) * (1 + 1e-6) || (rr <= 1e-300), tag, "returned vector has residual ", rr, " of initially ", r0);
            }
          if (threw && it < max_iter && !stopped_by_user)
            c.check(!std::isfinite(rc) || !std::isfinite(r0) || (has_user && converged()), tag, "gave up after ", it, " of ", max_iter, " iterations");
          c.check(control.n_linear_iterations() == 0, tag, "statistics not reset");
        }
      c.label(threw ? "failure reported" : "converged");
      c.label("not a number", rc != rc);
      if (it >= 2)
        c.nontrivial = true;
    }
}

// ---- the scheme of the stand-alone programs --------------------------------
namespace
{
  struct LegacyOperator
  {
    System            *sys = nullptr;
    mutable Dense      lin;
    mutable unsigned int n_lin = 0;
    void
    initialize_dof_vector(SV &v) const
    {
      v.reinit(sys->n);
    }
    void
    evaluate_nonlinear_residual(SV &dst, const SV &src) const
    {
      unflat(dst, sys->residual(flat(src)));
    }
    void
    set_solution_linearization(const SV &x) const
    {
      lin = flat(x);
      ++n_lin;
    }
    void
    evaluate_newton_step(const SV &) const
    {}
  };

  struct LegacyLinear
  {
    const LegacyOperator *op = nullptr;
    std::vector<bool>     updates;
    unsigned int
    solve(SV &dst, const SV &src, const bool do_update)
    {
      updates.push_back(do_update);
      Dense d;
      if (!lu_solve(op->sys->jacobian(op->lin), flat(src), d))
        d = flat(src);
      unflat(dst, d);
      return 3;
    }
  };
} // namespace

PBT_PROPERTY(newton_legacy)
{
  const unsigned int n        = c.s.range(1, 3);
  System             sys      = gen_system(c, n);
  const unsigned int max_iter = c.s.range(0, 20);
  const double       abs_tol  = c.s.coin() ? 1e-20 : c.s.logreal(1e-14, 1e-1);
  const double       rel_tol  = c.s.coin(0.2) ? 0. : c.s.logreal(1e-12, 0.9);
  LegacyOperator     op;
  op.sys = &sys;
  LegacyLinear lin;
  lin.op = &op;
  ::NewtonSolver<SV, LegacyOperator, LegacyLinear> solver(op, lin, ::NewtonSolverData(max_iter, abs_tol, rel_tol));
  Dense x0(n);
  for (auto &x : x0)
    x = c.s.real(-2, 2);
  SV x(n), rhs;
  unflat(x, x0);
  Dense rv(n, 0.);
  if (c.s.coin())
    {
      rhs.reinit(n);
      for (auto &r : rv)
        r = sys.scale * c.s.real(-1, 1);
      unflat(rhs, rv);
    }
  auto res = [&](const Dense &y) {
    auto r = sys.residual(y);
    for (unsigned int i = 0; i < n; ++i)
      r[i] -= rv[i];
    return norm(r);
  };
  const double r0    = res(x0);
  const bool   upd   = !c.s.coin(0.2);
  const unsigned int every = c.s.range(1, 4);
  c.desc << "kind " << sys.kind << " n=" << n << " max_iter=" << max_iter << " abs_tol=" << abs_tol << " rel_tol=" << rel_tol;
  bool threw = false;
  try
    {
      const auto st = solver.solve(x, rhs, upd, every);
      c.check(st.newton_iterations <= max_iter, st.newton_iterations, " iterations");
      c.check(st.newton_iterations == lin.updates.size(), "iteration count");
      c.check(st.linear_iterations == 3 * lin.updates.size(), "linear iteration count");
      for (unsigned int i = 0; i < lin.updates.size(); ++i)
        c.check(lin.updates[i] == (upd && i % every == 0), "preconditioner update in iteration ", i);
      if (st.newton_iterations >= 2)
        c.nontrivial = true;
      const double r = res(flat(x));
      c.check(r <= std::max(abs_tol, rel_tol * r0) * (1 + 1e-6), "returned vector has residual ", r, " of initially ", r0);
    }
  catch (const ExceptionBase &)
    {
      threw = true;
      const double r = res(flat(x));
      c.check(!(r <= abs_tol * (1 - 1e-9) || r / r0 <= rel_tol * (1 - 1e-9)) , "exception although converged: ", r, " of ", r0);
    }
  c.label(threw ? "failure reported" : "converged");
}

// ---- linear solvers ----------------------------------------------------------
namespace
{
  struct DenseOperator : public Subscriptor
  {
    using value_type      = double;
    using vector_type     = SV;
    using VectorType      = SV;
    using BlockVectorType = BV;

    std::vector<Dense>             A;
    mutable unsigned int           n_vmult = 0;
    TrilinosWrappers::SparseMatrix M;
    std::shared_ptr<Utilities::MPI::Partitioner> part;

    template <typename V>
    void
    vmult(V &dst, const V &src) const
    {
      ++n_vmult;
      const auto s = flat(src);
      Dense      d(s.size(), 0.);
      for (unsigned int i = 0; i < s.size(); ++i)
        for (unsigned int j = 0; j < s.size(); ++j)
          d[i] += A[i][j] * s[j];
      unflat(dst, d);
    }
    template <typename V>
    void
    Tvmult(V &dst, const V &src) const
    {
      const auto s = flat(src);
      Dense      d(s.size(), 0.);
      for (unsigned int i = 0; i < s.size(); ++i)
        for (unsigned int j = 0; j < s.size(); ++j)
          d[i] += A[j][i] * s[j];
      unflat(dst, d);
    }
    types::global_dof_index
    m() const
    {
      return A.size();
    }
    const TrilinosWrappers::SparseMatrix &
    get_system_matrix() const
    {
      return M;
    }
    std::shared_ptr<const Utilities::MPI::Partitioner>
    get_system_partitioner() const
    {
      return part;
    }
  };

  struct Diagonal : public Subscriptor
  {
    Dense d;
    template <typename V>
    void
    vmult(V &dst, const V &src) const
    {
      auto s = flat(src);
      for (unsigned int i = 0; i < s.size(); ++i)
        s[i] *= d[i];
      unflat(dst, s);
    }
    template <typename V>
    void
    Tvmult(V &dst, const V &src) const
    {
      vmult(dst, src);
    }
  };
} // namespace

PBT_PROPERTY(linear_solvers)
{
  using namespace LinearSolvers;
  const unsigned int        nb = c.s.range(1, 3);
  std::vector<unsigned int> sizes(nb, c.s.range(1, 4));
  const unsigned int        bs = sizes[0], n = nb * bs;
  DenseOperator             op;
  op.A.assign(n, Dense(n));
  const bool   spd    = c.s.coin(0.4);
  const double scale  = c.s.coin(0.2) ? c.s.logreal(1e-4, 1e4) : 1.;
  const double spread = c.s.coin(0.3) ? c.s.logreal(1., 100.) : 1.;
  // structured systems end the iterations early by exact breakdowns inside the
  // library: convergence is only demanded of the others
  const bool structured = c.s.coin(0.2);
  auto       num        = [&](double lo, double hi) { return structured ? c.s.real(lo, hi) : c.s.generic(lo, hi); };
  // strictly diagonally dominant: condition bounded by construction
  double ratio = 0;
  for (unsigned int i = 0; i < n; ++i)
    for (unsigned int j = 0; j < n; ++j)
      op.A[i][j] = c.s.coin(0.3) ? 0. : num(-1, 1);
  if (spd)
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = 0; j < i; ++j)
        op.A[i][j] = op.A[j][i];
  std::vector<double> rows(n);
  for (unsigned int i = 0; i < n; ++i)
    {
      double s = 0;
      for (unsigned int j = 0; j < n; ++j)
        if (i != j)
          s += std::abs(op.A[i][j]);
      op.A[i][i] = (s + num(0.3, 3)) * (!spd && c.s.coin(0.3) ? -1. : 1.) * (c.s.coin(0.3) ? spread : 1.);
      ratio      = std::max(ratio, std::abs(op.A[i][i]));
    }
  for (auto &r : op.A)
    for (auto &a : r)
      a *= scale;

  Diagonal prec;
  prec.d.assign(n, 1.);
  const unsigned int pk = c.s.draw(3);
  for (unsigned int i = 0; i < n; ++i)
    prec.d[i] = pk == 0 ? 1. : pk == 1 ? 1. / op.A[i][i] : c.s.logreal(0.3, 3.);
  if (spd && pk == 1)
    for (auto &d : prec.d)
      d = std::abs(d);

  Dense b(n), x0(n, 0.), xs;
  for (auto &v : b)
    v = scale * num(-1, 1);
  if (c.s.coin(0.1))
    b.assign(n, 0.);
  if (c.s.coin())
    for (auto &v : x0)
      v = num(-1, 1);
  lu_solve(op.A, b, xs);

  std::vector<std::string> names{"GMRES", "Bicgstab", "IDR", "Relaxation", "Direct"};
  if (spd)
    names.push_back("CG");
  const std::string name = c.s.pick(names);
  NonLinearSolvers::NonLinearData params;
  params.gmres_data.orthogonalization_strategy = c.s.coin() ? "classical gram schmidt" : "modified gram schmidt";
  params.l_bisgstab_tries                      = c.s.coin(0.6) ? c.s.range(1, 4) : c.s.range(5, 200);

  const double r_init = [&]() {
    Dense r(n);
    for (unsigned int i = 0; i < n; ++i)
      {
        r[i] = b[i];
        for (unsigned int j = 0; j < n; ++j)
          r[i] -= op.A[i][j] * x0[j];
      }
    return norm(r);
  }();
  const bool         few     = c.s.coin(0.2);
  const unsigned int max_its = few ? c.s.range(1, 3) : 200;
  const bool         reduce  = c.s.coin();
  const double       rel     = reduce ? c.s.logreal(1e-6, 0.5) : 0.;
  const double       tol     = reduce ? 1e-14 * scale : scale * c.s.logreal(1e-6, 1e-1);
  std::unique_ptr<SolverControl> control;
  if (reduce)
    control = std::make_unique<ReductionControl>(max_its, tol, rel);
  else
    control = std::make_unique<SolverControl>(max_its, tol);
  control->log_result(false);

  const bool loose = (name == "GMRES" || name == "Bicgstab") && params.gmres_data.orthogonalization_strategy[0] == 'c' &&
                     std::max(tol, rel * r_init) < 1e-4 * r_init;
  const bool block = c.s.coin(0.7) || nb > 1;
  c.desc << name << " " << params.gmres_data.orthogonalization_strategy << (structured ? " structured" : "") << (block ? " block " : " ") << nb << " n=" << n << (spd ? " spd" : "") << " prec=" << pk << " max_its=" << max_its << " tol=" << tol << " rel=" << rel << " tries=" << params.l_bisgstab_tries;

  std::unique_ptr<LinearSolverBase<double>> solver;
  if (name == "Direct")
    {
      op.part = std::make_shared<Utilities::MPI::Partitioner>(complete_index_set(n), MPI_COMM_SELF);
      TrilinosWrappers::SparsityPattern sp(complete_index_set(n), MPI_COMM_SELF, n);
      // unknowns of the blocks interleaved
      for (unsigned int i = 0; i < n; ++i)
        for (unsigned int j = 0; j < n; ++j)
          sp.add(i, j);
      sp.compress();
      op.M.reinit(sp);
      auto pos = [&](unsigned int k) { return block ? (k % bs) * nb + k / bs : k; };
      for (unsigned int i = 0; i < n; ++i)
        for (unsigned int j = 0; j < n; ++j)
          op.M.set(pos(i), pos(j), op.A[i][j]);
      op.M.compress(VectorOperation::insert);
      if (c.s.coin())
        solver = create(op, prec, op, *control, params, name);
      else
        solver = std::make_unique<SolverDirectWrapper<DenseOperator>>(op, *control);
    }
  else if (name == "CG")
    solver = std::make_unique<SolverCGWrapper<DenseOperator, Diagonal>>(op, prec, *control);
  else if (c.s.coin())
    solver = create(op, prec, *control, params, name);
  else
    solver = create(op, prec, op, *control, params, name);

  const unsigned int n_solves = c.s.range(1, 2);
  for (unsigned int k = 0; k < n_solves; ++k)
    {
      unsigned int its   = 0;
      bool         threw = false;
      Dense        x, bb;
      op.n_vmult = 0;
      try
        {
          if (block)
            {
              BV dst = block_vector(sizes), src = block_vector(sizes);
              unflat(dst, x0);
              unflat(src, b);
              its = solver->solve(dst, src);
              x   = flat(dst);
              bb  = flat(src);
            }
          else
            {
              SV dst(n), src(n);
              unflat(dst, x0);
              unflat(src, b);
              its = solver->solve(dst, src);
              x   = flat(dst);
              bb  = flat(src);
            }
        }
      catch (const SolverControl::NoConvergence &)
        {
          threw = true;
        }
      catch (const ExceptionBase &e)
        {
          if (name == "Bicgstab" || name == "IDR" || name == "CG")
            throw pbt::Discard(); // breakdown inside the library's iteration
          throw;
        }
      c.check(control->max_steps() == max_its, "iteration limit changed from ", max_its, " to ", control->max_steps());
      c.label(name + (threw ? " not converged" : " converged"));
      if (threw)
        {
          // these have to converge when they are given enough iterations
          c.check(few || structured || name == "IDR" || loose, name, " does not converge within ", max_its, " iterations for ", n, " unknowns");
          continue;
        }
      c.check(diff(bb, b) == 0, "right-hand side modified");
      Dense r(n), pr(n);
      for (unsigned int i = 0; i < n; ++i)
        {
          r[i] = b[i];
          for (unsigned int j = 0; j < n; ++j)
            r[i] -= op.A[i][j] * x[j];
          pr[i] = prec.d[i] * r[i];
        }
      const double round = 1e-12 * (norm(b) + scale * ratio * n * (norm(x0) + norm(x)));
      if (name == "Relaxation")
        {
          Dense e(n);
          for (unsigned int i = 0; i < n; ++i)
            e[i] = prec.d[i] * b[i];
          c.check(diff(x, e) <= 1e-13 * maxabs(e), "one relaxation step is not the preconditioner applied to the right-hand side");
          c.check(its == 1, "relaxation reports ", its, " steps");
        }
      else if (name == "Direct")
        {
          c.check(norm(r) <= round * 10, "direct solve leaves residual ", norm(r));
          c.nontrivial = n > 1;
        }
      else
        {
          // solvers monitor the plain or the preconditioned residual
          Dense pr0(n);
          double mp = 0;
          for (const auto d : prec.d)
            mp = std::max(mp, std::abs(d));
          double p0 = 0;
          {
            Dense q(n);
            for (unsigned int i = 0; i < n; ++i)
              {
                q[i] = b[i];
                for (unsigned int j = 0; j < n; ++j)
                  q[i] -= op.A[i][j] * x0[j];
                q[i] *= prec.d[i];
              }
            p0 = norm(q);
          }
          // left-preconditioned Krylov iterations estimate the residual by
          // recurrences; the estimate may be off by this much of the first one
          // (classical Gram-Schmidt loses orthogonality when the space is nearly
          // exhausted, the library checks for that only every fifth iteration)
          const double drift = loose ? 1e-4 : 1e-6;
          const bool ok = norm(r) <= drift * r_init || norm(pr) <= drift * p0 || norm(r) <= 3 * std::max(tol, rel * r_init) + round || norm(pr) <= 3 * std::max(tol, rel * p0) + round * mp;
          // (an exact breakdown may also leave a slightly wrong estimate)
          c.check(ok || (structured && (name == "GMRES" || name == "Bicgstab") && norm(r) <= 1e-3 * r_init), name, " returns with residual ", norm(r), " (preconditioned ", norm(pr), "), initially ", r_init, " (", p0, ")");
          if (name != "Bicgstab")
            c.check(its == control->last_step(), name, " reports ", its, " iterations instead of ", control->last_step());
          else
            {
              const bool fallback = its > params.l_bisgstab_tries;
              c.check(its == control->last_step() || its == control->last_step() + params.l_bisgstab_tries, "reports ", its, " iterations, last step ", control->last_step());
              c.label(fallback ? "fell back to GMRES" : "no fall back");
              // work bounds: the first attempt respects its own limit
              c.check(op.n_vmult <= 3 * params.l_bisgstab_tries + 10 + 2 * max_its + 4, op.n_vmult, " operator applications");
              if (!fallback)
                c.check(op.n_vmult <= 3 * params.l_bisgstab_tries + 10, op.n_vmult, " operator applications without a fall back");
              else
                c.check(op.n_vmult + 1 >= params.l_bisgstab_tries, "fall back after ", op.n_vmult, " operator applications");
            }
          c.check(its <= max_its + (name == "Bicgstab" ? params.l_bisgstab_tries : 0), its, " iterations");
          if (its > 1)
            c.nontrivial = true;
        }
    }
  // unknown names are refused
  if (c.s.coin(0.05))
    {
      bool threw = false;
      try
        {
          create(op, prec, *control, params, name + "x");
        }
      catch (const ExceptionBase &)
        {
          threw = true;
        }
      c.check(threw, "unknown solver name accepted");
    }
}

// ---- matrix-free Jacobian products --------------------------------------------
namespace
{
  struct ResidualOperator
  {
    System       *sys = nullptr;
    mutable std::vector<Dense> seen;
    bool          full_range = true;

    template <int w>
    void
    evaluate_nonlinear_residual(BV &dst, const BV &src) const
    {
      seen.push_back(flat(src));
      unflat(dst, sys->residual(flat(src)));
    }
  };

  // an operator that supports the fused pre/post operations, applied to the
  // index range in pieces
  struct FusedOperator : public NonLinearSolvers::ResidualWrapper<double>
  {
    System *sys = nullptr;
    mutable std::vector<Dense> seen;
    unsigned int cut = 0;
    mutable unsigned int which = 0;

    void
    both(BV &dst, const BV &src, const std::function<void(const unsigned int, const unsigned int)> &pre, const std::function<void(const unsigned int, const unsigned int)> &post) const
    {
      const unsigned int n = src.block(0).locally_owned_size();
      if (pre)
        {
          pre(0, std::min(cut, n));
          if (cut < n)
            pre(cut, n);
        }
      seen.push_back(flat(src));
      unflat(dst, sys->residual(flat(src)));
      if (post)
        {
          if (cut < n)
            post(cut, n);
          post(0, std::min(cut, n));
        }
    }
    void
    evaluate_for_residual(BV &dst, const BV &src, const std::function<void(const unsigned int, const unsigned int)> pre, const std::function<void(const unsigned int, const unsigned int)> post) const override
    {
      which |= 2;
      both(dst, src, pre, post);
    }
    void
    evaluate_for_jacobian(BV &dst, const BV &src, const std::function<void(const unsigned int, const unsigned int)> pre, const std::function<void(const unsigned int, const unsigned int)> post) const override
    {
      which |= 1;
      both(dst, src, pre, post);
    }
  };

  template <typename Op>
  void
  jacobian_free_case(pbt::Case &c, Op &op, System &sys, const std::vector<unsigned int> &sizes)
  {
    const std::string                                algo = c.s.coin() ? "pw" : "bs";
    NonLinearSolvers::JacobianFree<double, Op>       J(op, algo);
    const unsigned int                               n = sys.n;
    c.desc << algo << " kind " << sys.kind << " n=" << n << " ";
    const unsigned int n_points = c.s.range(1, 2);
    for (unsigned int k = 0; k < n_points; ++k)
      {
        Dense x(n);
        for (auto &v : x)
          v = c.s.coin(0.2) ? 0. : c.s.real(0.2, 2) * (sys.kind == 4 || sys.kind == 5 || c.s.coin() ? 1. : -1.);
        BV u = block_vector(sizes);
        unflat(u, x);
        for (unsigned int i = 0; i < n; ++i)
          if (x[i] == 0 && (sys.kind == 4 || sys.kind == 5))
            x[i] = 0.7;
        unflat(u, x);
        op.seen.clear();
        J.reinit(u);
        c.check(diff(flat(u), x) == 0, "linearization point modified by the set-up");
        const auto         jac   = sys.jacobian(x);
        const unsigned int n_mult = c.s.range(1, 6);
        Dense              first_d, first_r;
        for (unsigned int m = 0; m < n_mult; ++m)
          {
            Dense d(n);
            const double mag = c.s.coin(0.3) ? c.s.logreal(1e-5, 1e5) : 1.;
            for (auto &v : d)
              v = c.s.coin(0.2) ? 0. : mag * c.s.real(-1, 1);
            if (c.s.coin(0.05))
              d.assign(n, 0.);
            if (m + 1 == n_mult && m > 0)
              d = first_d; // repeated product
            BV src = block_vector(sizes), dst = block_vector(sizes);
            unflat(src, d);
            for (unsigned int b = 0; b < dst.n_blocks(); ++b)
              dst.block(b) = c.s.real(-3, 3); // overwritten
            op.seen.clear();
            J.vmult(dst, src);
            c.check(diff(flat(src), d) == 0, "direction modified");
            const auto r  = flat(dst);
            const auto dn = norm(d);
            if (dn == 0)
              {
                c.check(maxabs(r) == 0, "product with zero is ", maxabs(r));
                c.label("zero direction");
              }
            else
              {
                // the perturbed state
                double h = 0;
                if (c.check(op.seen.size() == 1, op.seen.size(), " residual evaluations"))
                  {
                    Dense e(n);
                    for (unsigned int i = 0; i < n; ++i)
                      e[i] = op.seen[0][i] - x[i];
                    unsigned int im = 0;
                    for (unsigned int i = 0; i < n; ++i)
                      if (std::abs(d[i]) > std::abs(d[im]))
                        im = i;
                    h = e[im] / d[im];
                    Dense q(n);
                    for (unsigned int i = 0; i < n; ++i)
                      q[i] = h * d[i];
                    c.check(diff(e, q) <= 1e-14 * (1 + maxabs(x)) + 1e-6 * std::abs(h) * maxabs(d), "evaluated state is not on the line through the linearization point");
                  }
                const double hh = std::abs(h) * dn; // length of the perturbation
                // near a kink of the residual the derivative does not exist
                bool smooth = sys.kind != 6;
                for (unsigned int i = 0; i < n; ++i)
                  if ((sys.kind == 4 || sys.kind == 5) && x[i] < 0.1)
                    smooth = false;
                double rs = norm(sys.residual(x));
                double sc = 0;
                for (unsigned int i = 0; i < n; ++i)
                  {
                    sc = std::max(sc, sys.scale * (std::abs(sys.b[i]) + std::abs(sys.c * sys.phi(x[i]))));
                    for (unsigned int j = 0; j < n; ++j)
                      sc = std::max(sc, sys.scale * std::abs(sys.A[i][j] * x[j]));
                  }
                (void)rs;
                if (smooth && hh > 0)
                  {
                    // second derivatives are bounded by 40 on the range used
                    const double curv = sys.scale * std::abs(sys.c) * (sys.kind == 7 ? 60. : 60.);
                    const double tol  = (1e-15 * 20 * n * (sc + sys.scale) / hh + curv * hh + 1e-7 * sys.scale * 10) * dn;
                    double       err  = 0;
                    Dense        e(n, 0.);
                    for (unsigned int i = 0; i < n; ++i)
                      {
                        for (unsigned int j = 0; j < n; ++j)
                          e[i] += jac[i][j] * d[j];
                        err = std::max(err, std::abs(e[i] - r[i]));
                      }
                    // the perturbation has to be small enough to be a
                    // derivative and large enough to be meaningful
                    c.check(err <= tol, "product off by ", err, ", allowed ", tol, ", perturbation ", hh);
                    if (algo == "pw")
                      c.check(hh <= 1e-6 * (1 + norm(x)) && hh >= 1e-10, "perturbation of length ", hh);
                    c.nontrivial = n > 1;
                  }
              }
            if (m == 0)
              {
                first_d = d;
                first_r = r;
              }
            else if (m + 1 == n_mult && dn > 0)
              {
                // repeated product: only rounding differences
                const double hh  = 1e-8;
                const double sc  = sys.scale * (10 + std::abs(sys.c) * 10);
                const double tol = algo == "pw" ? 1e-14 * 40 * n * sc * dn / hh : 1e300;
                c.check(diff(r, first_r) <= tol, "the same product gives different results: ", diff(r, first_r), ", allowed ", tol);
              }
          }
      }
  }
} // namespace

PBT_PROPERTY(jacobian_free)
{
  std::vector<unsigned int> sizes(c.s.range(1, 2), c.s.range(1, 3));
  System                    sys = gen_system(c, sizes.size() * sizes[0]);
  if (c.s.coin())
    {
      FusedOperator op;
      op.sys = &sys;
      op.cut = c.s.range(0, sizes[0]);
      c.label("fused");
      using Base = NonLinearSolvers::ResidualWrapper<double>;
      // used through the interface of the driver
      struct Seen
      {
      };
      NonLinearSolvers::JacobianFree<double, Base> dummy(op);
      (void)dummy;
      jacobian_free_case(c, op, sys, sizes);
      c.check(op.which == 1, "products use the wrong residual");
    }
  else
    {
      ResidualOperator op;
      op.sys = &sys;
      jacobian_free_case(c, op, sys, sizes);
    }
}
