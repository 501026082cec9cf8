// Residual and tangent of the grain growth and the grand potential operators.
#include <pf-applications/sintering/operator_grain_growth.h>
#include <pf-applications/sintering/operator_grand_potential_greenquist.h>

#include <pf-applications/time_integration/time_integrators.h>

#include "mesh.h"

using namespace dealii;
using namespace hpsint;
using namespace Sintering;
using namespace pbtmesh;
using VA = VectorizedArray<double>;

namespace
{
  constexpr int dim = OPDIM;
  using Data        = SinteringOperatorData<dim, VA>;
  using Adv         = AdvectionMechanism<dim, double, VA>;
  using T1          = Tensor<1, dim>;

  struct D
  {
    double v = 0, d = 0;
    D()      = default;
    D(double v, double d = 0)
      : v(v)
      , d(d)
    {}
  };
  D operator+(const D &a, const D &b) { return {a.v + b.v, a.d + b.d}; }
  D operator-(const D &a, const D &b) { return {a.v - b.v, a.d - b.d}; }
  D operator*(const D &a, const D &b) { return {a.v * b.v, a.d * b.v + a.v * b.d}; }
  struct GT
  {
    T1 v, d;
  };
  GT operator*(const D &a, const GT &g) { return {a.v * g.v, a.d * g.v + a.v * g.d}; }

  struct Params
  {
    double A, B, kp, L, Mvol, Mvap, Msurf, Mgb;
  };

  // pointwise weak form: values and gradients tested with values, gradients
  using Form = std::function<void(const std::vector<D> &, const std::vector<GT> &, const std::vector<D> &, std::vector<D> &, std::vector<GT> &)>;

  struct GG
  {
    using Op                           = GrainGrowthOperator<dim, double, VA>;
    using FE                           = GrainGrowthFreeEnergy<VA>;
    static constexpr unsigned int off  = 0;
    static constexpr double       rtol = 1e-11;
    static Form
    form(const Params &p)
    {
      return [p](const auto &x, const auto &g, const auto &xt, auto &rv, auto &rg) {
        D s;
        for (const auto &e : x)
          s = s + e * e;
        for (unsigned int i = 0; i < x.size(); ++i)
          {
            const D e = x[i];
            rv[i]     = xt[i] + D(p.L) * (D(-p.A) * e + D(p.B) * e * e * e + D(2) * e * (s - e * e));
            rg[i]     = D(p.L * p.kp) * g[i];
          }
      };
    }
  };

  struct GP
  {
    using Op                           = GreenquistGrandPotentialOperator<dim, double, VA>;
    using FE                           = GreenquistFreeEnergy<VA>;
    static constexpr unsigned int off  = 2;
    static constexpr double       rtol = 1e-10;
    static D
    H(const D &p, const double p0, const int der = 0)
    {
      if (p.v < 0)
        return D(0);
      if (p.v > p0)
        return D(der == 0 ? 1 : 0);
      const D z = p * D(1 / p0);
      if (der == 0)
        return z * z * z * (D(10) - D(15) * z + D(6) * z * z);
      return D(30 / p0) * z * z * (D(1) - z) * (D(1) - z);
    }
    static Form
    form(const Params &p)
    {
      return [p](const auto &x, const auto &g, const auto &xt, auto &rv, auto &rg) {
        const double kB = 8.617333262145e-5, T = 1816, km = 157.16 - 0.0025 * T, kb = 10 * km, Va = 0.04092, width = 60;
        const double Mv = 1.476e9 * std::exp(-2.77 / (kB * 2294)), Ms = 1.476e9 * std::exp(-2.77 / (kB * T));
        const double Lphi = 4. / 3. * Mv / width, L = 4. / 3. * Ms / width;
        const double eps_s = 6 * 19.72 / width, eps_gb = 6 * 9.86 / width, ks = 0.75 * 19.72 * width, kgb = 0.75 * 9.86 * width;
        const double cB = std::exp(-2.69 / (kB * T)), cGB = 0.189, cbeq = 1., gamma = 1.5;
        const D      phi = x[0], mu = x[1];
        std::vector<D> ph{phi};
        for (unsigned int i = 2; i < x.size(); ++i)
          ph.push_back(x[i]);
        D s2, s4, mix;
        for (unsigned int i = 0; i < ph.size(); ++i)
          {
            s2 = s2 + ph[i] * ph[i];
            s4 = s4 + ph[i] * ph[i] * ph[i] * ph[i];
            for (unsigned int j = i + 1; j < ph.size(); ++j)
              mix = mix + ph[i] * ph[i] * ph[j] * ph[j];
          }
        const D hb = H(phi, 1), hm = D(1) - hb, dhb = H(phi, 1, 1), dhm = D(0) - dhb;
        const D chi = D(1 / (Va * Va)) * (hb * D(1 / kb) + hm * D(1 / km));
        const D h3 = H(phi, 0.3), dh3 = H(phi, 0.3, 1);
        const D eps = D(eps_s) * h3 + D(eps_gb) * (D(1) - h3), deps = D(eps_s - eps_gb) * dh3;
        const D kappa = D(ks) * h3 + D(kgb) * (D(1) - h3);
        const D cm    = D(cB) + D(4 * (cGB - cB)) * (D(1) - s2) * (D(1) - s2);
        const auto dcm   = [&](const D &e) { return D(-16 * (cGB - cB)) * (D(1) - s2) * e; };
        const auto dzeta = [&](const D &e) { return e * e * e - e + D(2 * gamma) * e * (s2 - e * e); };
        // the derivative of the multi-well is not that of its value (known
        // finding, see the property grand_potential_energy)
        D zeta((s4 + D(2 * gamma) * mix + D(0.25)).v);
        for (const auto &e : ph)
          zeta.d += dzeta(D(e.v)).v * e.d;
        const D ob    = D(-1 / (2 * Va * Va * kb)) * mu * mu - D(cbeq / Va) * mu;
        const D om    = D(-1 / (2 * Va * Va * km)) * mu * mu - D(1 / Va) * cm * mu;
        const D dob   = D(-1 / (Va * Va * kb)) * mu - D(cbeq / Va);
        const D dom   = D(-1 / (Va * Va * km)) * mu - D(1 / Va) * cm;
        rv[0] = xt[0] + D(Lphi) * (dhb * ob + dhm * om + hm * D(-1 / Va) * dcm(phi) * mu + deps * zeta + eps * dzeta(phi));
        rg[0] = D(Lphi) * kappa * g[0];
        rv[1] = chi * xt[1] - xt[0] * (dhb * dob + dhm * dom + hm * D(-1 / Va) * dcm(phi));
        D M   = D(p.Mvol) + D(4 * p.Msurf) * phi * phi * (D(1) - phi) * (D(1) - phi);
        for (unsigned int i = 2; i < x.size(); ++i)
          for (unsigned int j = 2; j < i; ++j)
            M = M + D(2 * p.Mgb) * x[i] * x[j];
        rg[1] = chi * M * g[1];
        for (unsigned int i = 2; i < x.size(); ++i)
          {
            rv[i] = xt[i] + D(L) * (hm * D(-1 / Va) * dcm(x[i]) * mu + eps * dzeta(x[i]));
            rg[i] = D(L) * kappa * g[i];
          }
      };
    }
  };

  template <typename M>
  struct Setup
  {
    Mesh<dim>                                             m;
    unsigned int                                          n_grains, n;
    Params                                                p;
    std::unique_ptr<typename M::FE>                       fe;
    std::unique_ptr<Data>                                 data;
    std::unique_ptr<TimeIntegration::SolutionHistory<BV>> history;
    Adv                                                   adv{false, 0., 0.};
    BV                                                    solution;
    Form                                                  form;

    static MeshOptions
    opts()
    {
      MeshOptions o;
      o.max_cells = dim == 2 ? 120 : 80;
      return o;
    }

    void
    fill(pbt::Case &c, BV &v)
    {
      for (unsigned int b = 0; b < v.n_blocks(); ++b)
        {
          const std::uint64_t key = c.s.draw(1ull << 40);
          const double        amp = b == 1 && M::off == 2 ? c.s.logreal(0.1, 10.) : 1.;
          m.fill(v.block(b), [&](const Point<dim> &q) {
            std::uint64_t h = key;
            for (unsigned int d = 0; d < dim; ++d)
              h = pbt::mix(h ^ static_cast<std::uint64_t>(std::llround((q[d] + 10.) * 1e7)));
            const double x = hash01(h);
            return b == 1 && M::off == 2 ? amp * (2 * x - 1) : 0.02 + 0.96 * x;
          });
          m.constraints.distribute(v.block(b));
        }
    }

    Setup(pbt::Case &c)
      : m(c, FE_DEGREE, N_Q_POINTS_1D, opts())
    {
      n_grains = c.s.range(M::off == 0 ? 2 : 1, MAX_SINTERING_GRAINS);
      n        = n_grains + M::off;
      for (double *x : {&p.A, &p.B, &p.kp, &p.L, &p.Mvol, &p.Mvap, &p.Msurf, &p.Mgb})
        *x = c.s.coin(0.1) ? 0. : c.s.logreal(0.1, 20.);
      fe = std::make_unique<typename M::FE>(p.A, p.B);
      std::unique_ptr<TimeIntegration::ImplicitScheme<double>> scheme;
      const unsigned int                                       order = c.s.range(1, 3);
      if (order == 1)
        scheme = std::make_unique<TimeIntegration::BDF1Scheme<double>>();
      else if (order == 2)
        scheme = std::make_unique<TimeIntegration::BDF2Scheme<double>>();
      else
        scheme = std::make_unique<TimeIntegration::BDF3Scheme<double>>();
      data = std::make_unique<Data>(1., p.kp, std::make_shared<ProviderAbstract>(p.Mvol, p.Mvap, p.Msurf, p.Mgb, p.L),
                                    TimeIntegration::TimeIntegratorData<double>(std::move(scheme)), M::off);
      const unsigned int steps = c.s.range(1, 4);
      for (unsigned int i = 0; i < steps; ++i)
        data->time_data.update_dt(c.s.logreal(0.05, 5.));
      data->set_n_components(n);
      history  = std::make_unique<TimeIntegration::SolutionHistory<BV>>(order + 1);
      solution = m.vector(n);
      fill(c, solution);
      unsigned int k = 0;
      history->apply([&](BV &v) {
        v = m.vector(n);
        if (k++ == 0)
          v = solution;
        else
          fill(c, v);
        v.update_ghost_values();
      });
      form = M::form(p);
      c.desc << "grains=" << n_grains << " order=" << order << " ";
    }

    struct Result
    {
      BV                  v;
      std::vector<double> mag;
    };

    Result
    assemble(const BV *dir, const bool time) const
    {
      Result r;
      r.v = BV(n);
      for (unsigned int b = 0; b < n; ++b)
        r.v.block(b).reinit(m.partitioner);
      r.v.collect_sizes();
      BV mags = r.v;
      std::vector<Block> s, ds, hist;
      for (unsigned int b = 0; b < n; ++b)
        {
          s.push_back(m.ghosted(solution.block(b)));
          if (dir)
            ds.push_back(m.ghosted(dir->block(b)));
        }
      const auto &w   = data->time_data.get_weights();
      const auto  old = history->get_old_solutions();
      for (unsigned int b = 0; b < n; ++b)
        {
          Block sum(m.partitioner);
          for (unsigned int i = 0; i < data->time_data.get_order(); ++i)
            {
              Block x(m.partitioner);
              x.copy_locally_owned_data_from(old[i]->block(b));
              sum.add(w[i + 1], x);
            }
          hist.push_back(sum);
        }
      for (auto *l : {&s, &ds, &hist})
        for (auto &x : *l)
          x.update_ghost_values();
      const QGauss<dim>  q(N_Q_POINTS_1D);
      FEValues<dim>      fv(m.mapping, m.fe, q, update_values | update_gradients | update_JxW_values);
      const unsigned int nd = m.fe.n_dofs_per_cell();
      std::vector<types::global_dof_index> ind(nd);
      std::vector<Vector<double>>          local(n, Vector<double>(nd)), lmag(n, Vector<double>(nd));
      std::vector<std::vector<double>>     vals(n), dvals(n), hvals(n);
      std::vector<std::vector<T1>>         grads(n), dgrads(n);
      for (const auto &cell : m.dof.active_cell_iterators())
        if (cell->is_locally_owned())
          {
            fv.reinit(cell);
            cell->get_dof_indices(ind);
            for (unsigned int b = 0; b < n; ++b)
              {
                vals[b].resize(q.size());
                grads[b].resize(q.size());
                hvals[b].resize(q.size());
                dvals[b].assign(q.size(), 0.);
                dgrads[b].assign(q.size(), T1());
                fv.get_function_values(s[b], vals[b]);
                fv.get_function_gradients(s[b], grads[b]);
                fv.get_function_values(hist[b], hvals[b]);
                if (dir)
                  {
                    fv.get_function_values(ds[b], dvals[b]);
                    fv.get_function_gradients(ds[b], dgrads[b]);
                  }
                local[b] = 0.;
                lmag[b]  = 0.;
              }
            for (unsigned int k = 0; k < q.size(); ++k)
              {
                std::vector<D>  x(n), xt(n), rv(n);
                std::vector<GT> g(n), rg(n);
                for (unsigned int b = 0; b < n; ++b)
                  {
                    x[b] = {vals[b][k], dvals[b][k]};
                    g[b] = {grads[b][k], dgrads[b][k]};
                    if (time)
                      xt[b] = D(w[0]) * x[b] + D(hvals[b][k]);
                  }
                form(x, g, xt, rv, rg);
                for (unsigned int b = 0; b < n; ++b)
                  for (unsigned int i = 0; i < nd; ++i)
                    {
                      const double a  = (dir ? rv[b].d : rv[b].v) * fv.shape_value(i, k) * fv.JxW(k);
                      const double gg = (dir ? rg[b].d : rg[b].v) * fv.shape_grad(i, k) * fv.JxW(k);
                      local[b][i] += a + gg;
                      lmag[b][i] += std::abs(a) + (dir ? rg[b].d : rg[b].v).norm() * fv.shape_grad(i, k).norm() * fv.JxW(k);
                    }
              }
            for (unsigned int b = 0; b < n; ++b)
              {
                m.constraints.distribute_local_to_global(local[b], ind, r.v.block(b));
                m.constraints.distribute_local_to_global(lmag[b], ind, mags.block(b));
              }
          }
      r.v.compress(VectorOperation::add);
      mags.compress(VectorOperation::add);
      for (unsigned int b = 0; b < n; ++b)
        r.mag.push_back(mags.block(b).linfty_norm() + 1e-10);
      return r;
    }

    void
    compare(pbt::Case &c, const BV &got, const Result &ref, const std::string &what, const double rtol, const bool matrix = false) const
    {
      const double mm = matrix ? *std::max_element(ref.mag.begin(), ref.mag.end()) : 0.;
      for (unsigned int b = 0; b < n; ++b)
        for (const auto i : m.dof.locally_owned_dofs())
          if (!m.constraints.is_constrained(i))
            if (!(std::abs(got.block(b)[i] - ref.v.block(b)[i]) <= rtol * std::max(ref.mag[b], mm)))
              {
                c.check(false, what, ", block ", b, " unknown ", i, ": ", got.block(b)[i], " instead of ", ref.v.block(b)[i], " (magnitude ", ref.mag[b], ")");
                return;
              }
    }
  };

  template <typename S>
  void
  set_random(pbt::Case &c, const S &s, BV &v)
  {
    for (unsigned int b = 0; b < v.n_blocks(); ++b)
      {
        const std::uint64_t key = c.s.draw(1ull << 40);
        for (const auto i : s.m.dof.locally_owned_dofs())
          v.block(b)[i] = 2 * hash01(key + i) - 1;
      }
  }

  template <typename M>
  void
  run(pbt::Case &c)
  {
    Setup<M> s(c);
    c.nontrivial      = s.n_grains > 1;
    const bool matrix = c.s.coin(0.4);
    auto       op     = M::Op::create(s.m.mf, s.m.constraints, *s.fe, *s.data, *s.history, s.adv, matrix);
    {
      const int time = c.s.range(0, 2);
      BV        dst  = s.m.vector(s.n);
      set_random(c, s, dst);
      if (time == 0)
        op.template evaluate_nonlinear_residual<0>(dst, s.solution);
      else if (time == 1)
        op.template evaluate_nonlinear_residual<1>(dst, s.solution);
      else
        op.template evaluate_nonlinear_residual<2>(dst, s.solution);
      s.compare(c, dst, s.assemble(nullptr, time > 0), "residual", M::rtol);
    }
    if (c.s.coin(0.2))
      {
        BV other = s.m.vector(s.n);
        s.fill(c, other);
        s.data->fill_quadrature_point_values(s.m.mf, other, M::FE::save_gradients, false);
        if (matrix)
          op.initialize_system_matrix(true, false);
      }
    s.data->fill_quadrature_point_values(s.m.mf, s.solution, c.s.coin() || M::FE::save_gradients, c.s.coin());
    BV src = s.m.vector(s.n), dst = s.m.vector(s.n);
    set_random(c, s, src);
    set_random(c, s, dst);
    BV dir = src;
    for (unsigned int b = 0; b < s.n; ++b)
      {
        s.m.constraints.set_zero(dir.block(b));
        s.m.constraints.distribute(dir.block(b));
      }
    if (matrix)
      op.initialize_system_matrix(true, false);
    op.vmult(dst, src);
    const auto ref = s.assemble(&dir, true);
    s.compare(c, dst, ref, matrix ? "product with the system matrix" : "matrix-free product", matrix ? 5e-9 : M::rtol, matrix);
    c.label(matrix ? "matrix-based" : "matrix-free");
  }
} // namespace

PBT_PROPERTY(grain_growth)
{
  run<GG>(c);
}

PBT_PROPERTY(grand_potential)
{
  run<GP>(c);
}

// the multi-well and its derivatives
PBT_PROPERTY(grand_potential_energy)
{
  const unsigned int n = c.s.range(1, 3);
  std::vector<VA>    x;
  for (unsigned int i = 0; i < n + 2; ++i)
    x.push_back(VA(c.s.real(-0.2, 1.2)));
  const GreenquistFreeEnergy<VA> fe(1, 1);
  const auto                     eval = [&](const std::vector<VA> &y) { return fe.template eval<EnergyAll>(y.data(), n); };
  const auto                     e    = eval(x);
  // five-point stencil: exact for quartic functions
  const auto derivative = [&](const unsigned int i, const auto &f) {
    const double h = 0.25, w[4] = {1, -8, 8, -1}, t[4] = {-2, -1, 1, 2};
    double       r = 0;
    for (unsigned int k = 0; k < 4; ++k)
      {
        auto y = x;
        y[i] += t[k] * h;
        r += w[k] * f(eval(y), y) / (12 * h);
      }
    return r;
  };
  const auto phase = [&](const unsigned int k) { return k == 0 ? 0 : k + 1; };
  for (unsigned int a = 0; a <= n; ++a)
    {
      const unsigned int i = phase(a);
      const double       z = derivative(i, [](const auto &v, const auto &) { return v.zeta()[0]; });
      if (std::abs(e.dzeta_dphasei(x[i])[0] - z) > 1e-9)
        c.known.insert("multi-well");
      c.close(e.domega_m_dphasei(x[i])[0], derivative(i, [](const auto &v, const auto &) { return v.omega_m()[0]; }), 1e-10, 1e-9, "derivative of the matrix potential");
      for (unsigned int b = 0; b <= n; ++b)
        {
          const unsigned int j  = phase(b);
          const double       zz = derivative(j, [&](const auto &v, const auto &y) { return v.dzeta_dphasei(y[i])[0]; });
          const double       oo = derivative(j, [&](const auto &v, const auto &y) { return v.domega_m_dphasei(y[i])[0]; });
          const double       om = derivative(j, [&](const auto &v, const auto &y) { return v.d2omega_m_dmudphasei(y[i])[0]; });
          c.close(i == j ? e.d2zeta_dphasei2(x[i])[0] : e.d2zeta_dphaseidphasej(x[i], x[j])[0], zz, 1e-10, 1e-9, "second derivative of the multi-well");
          c.close(i == j ? e.d2omega_m_dphasei2(x[i])[0] : e.d2omega_m_dphaseidphasej(x[i], x[j])[0], oo, 1e-10, 1e-8, "second derivative of the matrix potential");
          c.close(i == j ? e.d3omega_m_dmudphasei2(x[i])[0] : e.d3omega_m_dmudphaseidphasej(x[i], x[j])[0], om, 1e-10, 1e-8, "third derivative of the matrix potential");
        }
    }
  c.close(e.domega_m_dmu()[0], derivative(1, [](const auto &v, const auto &) { return v.omega_m()[0]; }), 1e-10, 1e-9, "concentration of the matrix");
  c.close(e.domega_b_dmu()[0], derivative(1, [](const auto &v, const auto &) { return v.omega_b()[0]; }), 1e-10, 1e-9, "concentration of the bubble");
  c.close(e.d2omega_b_dmu2()[0], derivative(1, [](const auto &v, const auto &) { return v.domega_b_dmu()[0]; }), 1e-10, 1e-9, "susceptibility of the bubble");
  c.close(e.d2omega_m_dmu2(x[1])[0], derivative(1, [](const auto &v, const auto &) { return v.domega_m_dmu()[0]; }), 1e-10, 1e-9, "susceptibility of the matrix");
  c.nontrivial = n > 1;
}
