// Pointwise constitutive relations: free energy, mobilities, temperature.
#include <deal.II/base/vectorization.h>

#include <pf-applications/numerics/functions.h>
#include <pf-applications/sintering/free_energy.h>
#include <pf-applications/sintering/mobility.h>

#include "pbt.h"

using namespace dealii;
using namespace hpsint;
using namespace Sintering;
using LD = long double;
using VA = VectorizedArray<double>;
constexpr unsigned int NL = VA::size();

namespace
{
  // ---- free energy -----------------------------------------------------
  LD
  F(LD A, LD B, const std::vector<LD> &s)
  {
    const LD c  = s[0];
    LD       p2 = 0, p3 = 0;
    for (unsigned int i = 2; i < s.size(); ++i)
      p2 += s[i] * s[i], p3 += s[i] * s[i] * s[i];
    return A * c * c * (1 - c) * (1 - c) +
           B * (c * c + 6 * (1 - c) * p2 - 4 * (2 - c) * p3 + 3 * p2 * p2);
  }

  // the polynomial has degree four in every variable: central differences with
  // Richardson extrapolation are exact
  LD
  dF(LD A, LD B, std::vector<LD> s, unsigned int i)
  {
    const LD h  = 0.25L;
    auto     at = [&](LD d) {
      auto t = s;
      t[i] += d;
      return F(A, B, t);
    };
    return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h);
  }
  LD
  ddF(LD A, LD B, std::vector<LD> s, unsigned int i, unsigned int j)
  {
    const LD h  = 0.25L;
    auto     at = [&](LD d) {
      auto t = s;
      t[i] += d;
      return dF(A, B, t, j);
    };
    return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h);
  }

  struct Energy
  {
    std::vector<double> v; // f, dfdc, d2fdc2, then per grain: dfdeta, dcdeta, deta2, and all pairs
  };

  template <bool zero, bool first, bool second, typename E>
  void
  collect(pbt::Case &c, const E &e, const std::vector<VA> &state, unsigned int n, double A, double B, const std::string &what)
  {
    for (unsigned int l = 0; l < NL; ++l)
      {
        std::vector<LD> s;
        for (const auto &x : state)
          s.push_back(x[l]);
        LD mag = 1;
        for (const auto x : s)
          mag = std::max(mag, std::abs(x));
        const double tol = 1e-12 * double((A + B) * mag * mag * mag * mag) * (n + 2) * (n + 2) * 10;
        auto         cmp = [&](double x, LD y, const std::string &w) {
          c.check(std::abs(x - double(y)) <= tol, what, ": ", w, " is ", x, " instead of ", double(y), " in lane ", l, " for ", n, " grains");
        };
        if constexpr (zero)
          cmp(e.f()[l], F(A, B, s), "f");
        if constexpr (first || zero)
          cmp(e.df_dc()[l], dF(A, B, s, 0), "df/dc");
        if constexpr (second)
          cmp(e.d2f_dc2()[l], ddF(A, B, s, 0, 0), "d2f/dc2");
        for (unsigned int i = 0; i < n; ++i)
          {
            if constexpr (first)
              cmp(e.df_detai(state[2 + i])[l], dF(A, B, s, 2 + i), "df/deta_" + std::to_string(i));
            if constexpr (second)
              {
                cmp(e.d2f_dcdetai(state[2 + i])[l], ddF(A, B, s, 0, 2 + i), "d2f/dcdeta_" + std::to_string(i));
                cmp(e.d2f_detai2(state[2 + i])[l], ddF(A, B, s, 2 + i, 2 + i), "d2f/deta2_" + std::to_string(i));
                for (unsigned int j = 0; j < n; ++j)
                  if (j != i)
                    cmp(e.d2f_detaidetaj(state[2 + i], state[2 + j])[l],
                        ddF(A, B, s, 2 + i, 2 + j),
                        "d2f/deta_" + std::to_string(i) + "deta_" + std::to_string(j));
              }
          }
      }
  }

  template <unsigned int n>
  void
  energy_n(pbt::Case &c, double A, double B, const std::vector<VA> &state)
  {
    const FreeEnergy<VA>   fe(A, B);
    std::array<VA, n + 2>  arr;
    Tensor<1, n + 2, VA>   ten;
    for (unsigned int i = 0; i < n + 2; ++i)
      arr[i] = ten[i] = state[i];

    // sums of powers
    {
      std::array<VA, n>  ea;
      Tensor<1, n, VA>   et;
      std::vector<VA>    ev(n);
      std::array<VA, 4>  sum{};
      for (unsigned int i = 0; i < n; ++i)
        {
          ea[i] = et[i] = ev[i] = state[2 + i];
          sum[2] += ea[i] * ea[i];
          sum[3] += ea[i] * ea[i] * ea[i];
        }
      const auto same = [&](const VA &x, const VA &y, const char *what) {
        for (unsigned int l = 0; l < VA::size(); ++l)
          {
            double mag = 0;
            for (unsigned int i = 0; i < n; ++i)
              mag += std::pow(1 + std::abs(state[2 + i][l]), 3);
            c.close(x[l], y[l], 1e-13, 1e-13 * mag, std::string("sum of powers, ") + what);
          }
      };
      same(PowerHelper<n, 2>::power_sum(ea), sum[2], "array");
      same(PowerHelper<n, 3>::power_sum(ea), sum[3], "array");
      same(PowerHelper<n, 2>::power_sum(ea.data()), sum[2], "pointer");
      same(PowerHelper<n, 3>::power_sum(ea.data()), sum[3], "pointer");
      same(PowerHelper<n, 2>::power_sum(et), sum[2], "tensor");
      same(PowerHelper<n, 3>::power_sum(et), sum[3], "tensor");
      same(PowerHelper<0, 2>::power_sum(ev), sum[2], "vector");
      same(PowerHelper<0, 3>::power_sum(ev), sum[3], "vector");
    }

    // all ways of passing the state and all requests
    collect<true, true, true>(c, fe.template eval<EnergyAll, int(n)>(state.data()), state, n, A, B, "pointer, fixed");
    collect<true, true, true>(c, fe.template eval<EnergyAll>(state.data(), n), state, n, A, B, "pointer, runtime");
    collect<true, true, true>(c, fe.template eval<EnergyAll>(state, n), state, n, A, B, "vector, runtime");
    collect<true, true, true>(c, fe.template eval<EnergyAll, int(n)>(ten), state, n, A, B, "tensor, fixed");
    collect<true, true, true>(c, fe.template eval<EnergyAll>(ten), state, n, A, B, "tensor");
    collect<true, true, true>(c, fe.template eval<EnergyAll>(arr), state, n, A, B, "array");
    collect<true, false, false>(c, fe.template eval<EnergyZero>(arr), state, n, A, B, "only value");
    collect<false, true, false>(c, fe.template eval<EnergyFirst>(ten), state, n, A, B, "only first");
    collect<false, false, true>(c, fe.template eval<EnergySecond, int(n)>(state.data()), state, n, A, B, "only second");
    collect<false, false, true>(c, fe.template eval<EnergySecond>(state, n), state, n, A, B, "only second, runtime");
    collect<false, true, true>(
      c,
      fe.template eval<Mask<to_underlying(EnergyEvaluation::first), to_underlying(EnergyEvaluation::second)>>(ten),
      state,
      n,
      A,
      B,
      "first and second");
  }
} // namespace

PBT_PROPERTY(free_energy)
{
  const unsigned int n    = c.s.range(1, 8);
  const double       A    = c.s.coin(0.1) ? 0. : c.s.logreal(1e-3, 1e3);
  const double       B    = c.s.coin(0.1) ? 0. : c.s.logreal(1e-3, 1e3);
  const double       span = c.s.pick(std::vector<double>{1., 1., 2., 10.});
  std::vector<VA>    state(n + 2);
  for (auto &x : state)
    for (unsigned int l = 0; l < NL; ++l)
      x[l] = span == 1. ? c.s.real(0, 1) : c.s.real(-span, span);
  c.nontrivial = n > 1;
  c.label(n > 1 ? "several grains" : "one grain");
  if (A == 0. || B == 0.)
    c.label("degenerate coefficient");

  switch (n)
    {
      case 1: energy_n<1>(c, A, B, state); break;
      case 2: energy_n<2>(c, A, B, state); break;
      case 3: energy_n<3>(c, A, B, state); break;
      case 4: energy_n<4>(c, A, B, state); break;
      case 5: energy_n<5>(c, A, B, state); break;
      case 6: energy_n<6>(c, A, B, state); break;
      case 7: energy_n<7>(c, A, B, state); break;
      case 8: energy_n<8>(c, A, B, state); break;
    }

  const FreeEnergy<VA> fe(A, B);

  // without any grain
  {
    std::vector<VA> s0(state.begin(), state.begin() + 2);
    const auto      e = fe.template eval<EnergyAll>(s0, 0);
    collect<true, true, true>(c, e, s0, 0, A, B, "no grains");
  }

  // product of the mixed second derivatives with a direction
  {
    const double    L = c.s.real(0, 10);
    std::vector<VA> dir(n), res(n), res0(n);
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int l = 0; l < NL; ++l)
        dir[i][l] = c.s.real(-1, 1), res0[i][l] = c.s.real(-1, 1);
    res = res0;
    fe.apply_d2f_detaidetaj(VA(L), state.data() + 2, n, dir.data(), res.data());
    for (unsigned int l = 0; l < NL; ++l)
      {
        std::vector<LD> s;
        LD              mag = 1;
        for (const auto &x : state)
          s.push_back(x[l]), mag = std::max(mag, std::abs(LD(x[l])));
        for (unsigned int i = 0; i < n; ++i)
          {
            LD sum = res0[i][l];
            for (unsigned int j = 0; j < n; ++j)
              if (i != j)
                sum += L * 24 * B * s[2 + i] * s[2 + j] * LD(dir[j][l]);
            c.check(std::abs(res[i][l] - double(sum)) <= 1e-12 * (1 + L * 24 * B * double(mag * mag) * n * n),
                    "product with mixed derivatives of grain ", i, " is ", res[i][l], " instead of ", double(sum));
          }
      }
  }

  // void and grain interior are the ground states
  {
    std::vector<VA> s(n + 2);
    for (auto &x : s)
      x = 0.;
    s[1] = 3.; // the energy does not depend on the chemical potential
    for (const int g : {-1, int(c.s.range(0, n - 1))})
      {
        if (g >= 0)
          s[0] = 1., s[2 + g] = 1.;
        const auto e = fe.template eval<EnergyAll>(s, n);
        c.check(std::abs(e.f()[0]) <= 1e-12 * (A + B) && std::abs(e.df_dc()[0]) <= 1e-12 * (A + B), "ground state ", g, " has energy ", e.f()[0]);
        for (unsigned int i = 0; i < n; ++i)
          c.check(std::abs(e.df_detai(s[2 + i])[0]) <= 1e-12 * (A + B), "ground state ", g, " is not in equilibrium");
      }
  }
}

// ---- mobility ----------------------------------------------------------------
namespace
{
  struct Coef
  {
    double vol, vap, surf, gb, L;
  };

  using LV = std::vector<LD>;

  LD
  dot(const LV &a, const LV &b)
  {
    LD s = 0;
    for (unsigned int i = 0; i < a.size(); ++i)
      s += a[i] * b[i];
    return s;
  }

  LD
  phi_of(LD c)
  {
    const LD p = c * c * c * (10 - 15 * c + 6 * c * c);
    return std::min<LD>(1, std::max<LD>(0, p));
  }

  struct State
  {
    LD              c;
    LV              eta;
    LV              gc, gmu;
    std::vector<LV> geta;
  };

  LV
  flux(const State &s, const Coef &k, bool tensorial, LD scale, const std::vector<LV> *frozen = nullptr)
  {
    const unsigned int dim  = s.gc.size();
    const LD           iso  = k.vol * phi_of(s.c) + k.vap * (1 - phi_of(s.c));
    const LD           surf = 4 * k.surf * s.c * s.c * (1 - s.c) * (1 - s.c);
    LV                 r(dim, 0);
    for (unsigned int d = 0; d < dim; ++d)
      r[d] += iso * s.gmu[d];
    // surface
    {
      const LD n2 = dot(s.gc, s.gc);
      for (unsigned int d = 0; d < dim; ++d)
        r[d] += surf * (tensorial ? scale : LD(1)) * s.gmu[d];
      if (tensorial && std::sqrt(n2) > 1e-10L)
        for (unsigned int d = 0; d < dim; ++d)
          r[d] -= surf * s.gc[d] * dot(s.gc, s.gmu) / n2;
    }
    for (unsigned int i = 0; i < s.eta.size(); ++i)
      for (unsigned int j = 0; j < i; ++j)
        {
          const LD f = 2 * k.gb * s.eta[i] * s.eta[j];
          LV       n(dim);
          for (unsigned int d = 0; d < dim; ++d)
            n[d] = frozen ? (*frozen)[i][d] - (*frozen)[j][d] : s.geta[i][d] - s.geta[j][d];
          const LD n2 = dot(n, n);
          for (unsigned int d = 0; d < dim; ++d)
            r[d] += f * (s.gmu[d] - (tensorial && std::sqrt(n2) > 1e-10L ? n[d] * dot(n, s.gmu) / n2 : 0));
        }
    return r;
  }

  template <int dim>
  Tensor<1, dim, double>
  mul(const VA &m, const Tensor<1, dim, VA> &g, unsigned int l)
  {
    Tensor<1, dim, double> r;
    for (unsigned int d = 0; d < dim; ++d)
      r[d] = m[l] * g[d][l];
    return r;
  }
  template <int dim>
  Tensor<1, dim, double>
  mul(const Tensor<2, dim, VA> &m, const Tensor<1, dim, VA> &g, unsigned int l)
  {
    Tensor<1, dim, double> r;
    for (unsigned int d = 0; d < dim; ++d)
      for (unsigned int e = 0; e < dim; ++e)
        r[d] += m[d][e][l] * g[e][l];
    return r;
  }

  template <int dim, typename Mob, bool tensorial>
  void
  mobility_dim(pbt::Case &c)
  {
    Coef k;
    for (double *x : {&k.vol, &k.vap, &k.surf, &k.gb, &k.L})
      *x = c.s.coin(0.15) ? 0. : c.s.logreal(1e-2, 1e2);
    // the user may supply coefficients which vary in time
    struct Provider : public MobilityProvider
    {
      Coef   k;
      double rate;
      MobilityCoefficients
      calculate(const double t) const override
      {
        const double f = 1 + rate * t;
        return {k.vol * f, k.vap * f, k.surf * f, k.gb * f, k.L * f};
      }
    };
    auto p  = std::make_shared<Provider>();
    p->k    = k;
    p->rate = c.s.coin(0.3) ? c.s.real(0, 1) : 0.;
    std::shared_ptr<MobilityProvider> provider = p;
    if (p->rate == 0. && c.s.coin())
      provider = std::make_shared<ProviderAbstract>(k.vol, k.vap, k.surf, k.gb, k.L);
    Mob mob(provider);
    if (p->rate > 0)
      {
        const double t = c.s.real(0, 2), f = 1 + p->rate * t;
        mob.update(c.s.real(0, 2));
        mob.update(t);
        k = {k.vol * f, k.vap * f, k.surf * f, k.gb * f, k.L * f};
      }
    c.close(mob.Lgb(), k.L, 1e-13, 0, "grain boundary mobility");
    const double kmax = std::max({k.vol, k.vap, k.surf, k.gb});

    const unsigned int n = c.s.range(1, 4);
    const bool         inside = c.s.coin(0.8);
    std::vector<VA>                 val(n + 2), dval(n + 2);
    std::vector<Tensor<1, dim, VA>> grad(n + 2), dgrad(n + 2);
    const double                    gscale = c.s.logreal(1e-1, 1e1);
    for (unsigned int l = 0; l < NL; ++l)
      {
        for (unsigned int i = 0; i < n + 2; ++i)
          {
            val[i][l]  = inside || i == 1 ? c.s.real(0, 1) : c.s.real(-0.2, 1.2);
            dval[i][l] = c.s.real(-1, 1);
            const bool zero = c.s.coin(0.1);
            for (unsigned int d = 0; d < dim; ++d)
              {
                grad[i][d][l]  = zero ? 0. : gscale * c.s.real(-1, 1);
                dgrad[i][d][l] = gscale * c.s.real(-1, 1);
              }
          }
        if (n > 1 && c.s.coin(0.1)) // equal gradients have no normal
          for (unsigned int d = 0; d < dim; ++d)
            grad[3][d][l] = grad[2][d][l];
      }
    c.nontrivial = n > 1 && k.gb > 0;
    c.label(inside ? "concentration in [0,1]" : "beyond [0,1]");

    auto gather = [&](const std::vector<VA> &v, const std::vector<Tensor<1, dim, VA>> &g, unsigned int l) {
      State s;
      s.c    = v[0][l];
      auto t = [&](const Tensor<1, dim, VA> &x) {
        LV r;
        for (unsigned int d = 0; d < dim; ++d)
          r.push_back(x[d][l]);
        return r;
      };
      s.gc  = t(g[0]);
      s.gmu = t(g[1]);
      for (unsigned int i = 2; i < v.size(); ++i)
        s.eta.push_back(v[i][l]), s.geta.push_back(t(g[i]));
      return s;
    };
    const LD scale = tensorial ? 1.001L : 1.L;

    // flux and its parts
    const auto fl = mob.apply_M(val[0], &val[2], n, grad[0], &grad[2], grad[1]);
    const auto pv = mob.M_vol(val[0]);
    const auto pp = mob.M_vap(val[0]);
    const auto ps = mob.M_surf(val[0], grad[0]);
    const auto pg = mob.M_gb(&val[2], n, &grad[2]);
    const auto dv = mob.apply_M_derivative(val.data(), grad.data(), n, dval.data(), dgrad.data());

    for (unsigned int l = 0; l < NL; ++l)
      {
        const State  s   = gather(val, grad, l);
        const double mag = 5 * kmax * n * n * (double(std::sqrt(dot(s.gmu, s.gmu))) + 1e-3);
        const LV     ref = flux(s, k, tensorial, scale);
        for (unsigned int d = 0; d < dim; ++d)
          c.check(std::abs(fl[d][l] - double(ref[d])) <= 1e-12 * mag, "flux component ", d, " is ", fl[d][l], " instead of ", double(ref[d]));

        const Coef parts[4] = {{k.vol, 0, 0, 0, 0}, {0, k.vap, 0, 0, 0}, {0, 0, k.surf, 0, 0}, {0, 0, 0, k.gb, 0}};
        const Tensor<1, dim, double> got[4] = {mul<dim>(pv, grad[1], l), mul<dim>(pp, grad[1], l), mul<dim>(ps, grad[1], l), mul<dim>(pg, grad[1], l)};
        const char *names[4] = {"bulk", "vapour", "surface", "grain boundary"};
        for (unsigned int q = 0; q < 4; ++q)
          {
            const LV r = flux(s, parts[q], tensorial, 1.L);
            for (unsigned int d = 0; d < dim; ++d)
              c.check(std::abs(got[q][d] - double(r[d])) <= 1e-12 * mag, names[q], " flux component ", d, " is ", got[q][d], " instead of ", double(r[d]));
          }

        // dissipation
        if (inside)
          {
            LD diss = dot(ref, s.gmu);
            for (const auto e : s.eta)
              if (e < 0)
                diss = 0;
            double got_diss = 0;
            for (unsigned int d = 0; d < dim; ++d)
              got_diss += fl[d][l] * grad[1][d][l];
            c.check(got_diss >= -1e-11 * mag * gscale, "matter flows up the chemical potential, ", got_diss);
          }

        // tangent; normals of grain boundaries are kept, filtered parts give
        // the tolerance
        if (!inside)
          continue;
        const LD ngc  = std::sqrt(dot(s.gc, s.gc));
        const LD surf = 4 * k.surf * s.c * s.c * (1 - s.c) * (1 - s.c);
        if (tensorial && ngc > 0 && ngc < 2e-3)
          continue;
        LD   slack = 0;
        const State dir = gather(dval, dgrad, l);
        LD   ndir  = std::abs(dir.c) + std::sqrt(dot(dir.gc, dir.gc)) / (ngc > 0 ? ngc : 1);
        if (tensorial && surf <= 1.0001e-6L)
          slack = 3 * std::sqrt(dot(s.gmu, s.gmu)) * (8 * std::sqrt(k.surf * 1e-6L) + 1e-6L) * ndir;
        const auto frozen = s.geta;
        auto       at     = [&](LD h) {
          State t = s;
          t.c += h * dir.c;
          for (unsigned int i = 0; i < n; ++i)
            t.eta[i] += h * dir.eta[i];
          for (unsigned int d = 0; d < dim; ++d)
            {
              if (ngc > 0)
                t.gc[d] += h * dir.gc[d];
              t.gmu[d] += h * dir.gmu[d];
            }
          return flux(t, k, tensorial, scale, &frozen);
        };
        const LD h  = 1e-5L * (tensorial && ngc > 0 ? std::min<LD>(1, ngc / (1e-10L + std::sqrt(dot(dir.gc, dir.gc)))) : 1);
        const LV p1 = at(h), m1 = at(-h), p2 = at(2 * h), m2 = at(-2 * h);
        for (unsigned int d = 0; d < dim; ++d)
          {
            const LD r = (8 * (p1[d] - m1[d]) - (p2[d] - m2[d])) / (12 * h);
            c.check(std::abs(dv[d][l] - double(r)) <=
                      1e-9 * (mag + 5 * kmax * n * n * gscale + std::abs(double(r))) * (1 + double(ndir)) + double(slack),
                    "tangent of the flux, component ", d, ", is ", dv[d][l], " instead of ", double(r));
          }

        // separate derivatives
        {
          auto rows = [&](const std::string &w, const Tensor<1, dim, double> &g, const std::function<LV(LD)> &f, double sl) {
            const LD h  = 1e-5L;
            const LV p1 = f(h), m1 = f(-h), p2 = f(2 * h), m2 = f(-2 * h);
            for (unsigned int d = 0; d < dim; ++d)
              {
                const LD r = (8 * (p1[d] - m1[d]) - (p2[d] - m2[d])) / (12 * h);
                c.check(std::abs(g[d] - double(r)) <= 1e-9 * mag + sl, w, ", component ", d, ", is ", g[d], " instead of ", double(r));
              }
          };
          const double sl = tensorial && surf <= 1.0001e-6L ? double(3 * std::sqrt(dot(s.gmu, s.gmu)) * (8 * std::sqrt(k.surf * 1e-6L) + 1e-6L)) : 0.;
          auto         shift_c = [&](const Coef &kk) {
            return [&, kk](LD h) {
              State t = s;
              t.c += h;
              return flux(t, kk, tensorial, scale);
            };
          };
          rows("dM/dc", mul<dim>(mob.dM_dc(val[0], &val[2], grad[0], &grad[2]), grad[1], l), shift_c(k), sl);
          rows("dMvol/dc", mul<dim>(mob.dM_vol_dc(val[0]), grad[1], l), shift_c({k.vol, 0, 0, 0, 0}), 0.);
          rows("dMsurf/dc", mul<dim>(mob.dM_surf_dc(val[0], grad[0]), grad[1], l), shift_c({0, 0, k.surf, 0, 0}), sl);
          for (unsigned int i = 0; i < n; ++i)
            rows("dM/deta",
                 mul<dim>(mob.dM_detai(val[0], &val[2], n, grad[0], &grad[2], i), grad[1], l),
                 [&](LD h) {
                   State t = s;
                   t.eta[i] += h;
                   return flux(t, k, tensorial, scale);
                 },
                 0.);
          if (!tensorial || ngc > 0)
            {
              const auto   dm = mob.dM_dgrad_c(val[0], grad[0], grad[1]);
              const double g0 = tensorial ? double(ngc) : 1.;
              for (unsigned int e = 0; e < dim; ++e)
                {
                  Tensor<1, dim, double> g;
                  for (unsigned int d = 0; d < dim; ++d)
                    g[d] = dm[d][e][l] * g0;
                  rows("dM/dgrad c",
                       g,
                       [&](LD h) {
                         State t = s;
                         t.gc[e] += h * g0;
                         return flux(t, k, tensorial, scale);
                       },
                       sl);
                }
            }
        }
      }
  }
} // namespace

PBT_PROPERTY(mobility)
{
  const bool d3 = c.s.coin(), tens = c.s.coin();
  c.label(tens ? "tensorial" : "scalar");
  if (!d3 && !tens)
    mobility_dim<2, MobilityScalar<2, VA>, false>(c);
  else if (!tens)
    mobility_dim<3, MobilityScalar<3, VA>, false>(c);
  else if (!d3)
    mobility_dim<2, MobilityTensorial<2, VA>, true>(c);
  else
    mobility_dim<3, MobilityTensorial<3, VA>, true>(c);
}

// ---- temperature dependent coefficients ---------------------------------------
namespace
{
  LD
  piecewise(const std::map<double, double> &m, double x, bool linear)
  {
    if (m.empty())
      return 0;
    std::vector<std::pair<LD, LD>> v(m.begin(), m.end());
    if (v.size() == 1)
      return v[0].second;
    unsigned int i = 0;
    while (i + 2 < v.size() && x > v[i + 1].first)
      ++i;
    if (!linear && x <= v.front().first)
      return v.front().second;
    if (!linear && x >= v.back().first)
      return v.back().second;
    return v[i].second + (v[i + 1].second - v[i].second) * (x - v[i].first) / (v[i + 1].first - v[i].first);
  }
} // namespace

PBT_PROPERTY(temperature)
{
  const unsigned int       n      = c.s.range(0, 6);
  const bool               linear = c.s.coin();
  std::map<double, double> m;
  const double             xs = c.s.logreal(1e-2, 1e4);
  std::vector<std::pair<double, double>> order;
  for (unsigned int i = 0; i < n; ++i)
    {
      const double x = xs * c.s.range(-10, 10) / 10., y = c.s.real(200, 2000);
      if (m.emplace(x, y).second)
        order.emplace_back(x, y);
    }
  std::shared_ptr<Function1D<double>> f;
  if (c.s.coin())
    f = std::make_shared<Function1DPiecewise<double>>(m, linear);
  else
    {
      auto g = std::make_shared<Function1DPiecewise<double>>(linear);
      for (const auto &[x, y] : order)
        g->add_pair(x, y);
      f = g;
    }
  c.nontrivial = m.size() > 2;
  c.label(m.empty() ? "empty" : m.size() == 1 ? "one value" : "several values");
  double T = 0, t = 0;
  for (unsigned int q = 0; q < 6; ++q)
    {
      double x = xs * c.s.real(-1.5, 1.5);
      if (!m.empty() && c.s.coin(0.3))
        {
          auto it = m.begin();
          std::advance(it, c.s.range(0, m.size() - 1));
          x = it->first;
          if (m.size() > 1 || !linear)
            c.close(f->value(x), it->second, 1e-10, 1e-9, "given value at its abscissa");
        }
      const double r = double(piecewise(m, x, linear));
      c.close(f->value(x), r, 1e-10, 1e-7, "temperature at " + std::to_string(x));
      if (r > 100)
        T = r, t = x;
    }
  const double cv = c.s.real(-5, 5);
  c.check(Function1DConstant<double>(cv).value(c.s.real(-1, 1)) == cv, "constant function");
  if (T == 0)
    return;

  // Arrhenius relation
  const bool   gas = c.s.coin();
  double       D[5], Q[5];
  for (auto &x : D)
    x = c.s.logreal(1e-6, 1e2);
  for (auto &x : Q)
    x = gas ? c.s.real(0, 50e3) : c.s.real(0, 0.5);
  const double omega = c.s.logreal(1e-3, 1e3), width = c.s.logreal(0.1, 10), ts = c.s.logreal(1e-3, 1e3), ls = c.s.logreal(1e-2, 1e2),
               es = c.s.logreal(1e-3, 1e3);
  ProviderRealistic p(omega, D[0], D[1], D[2], D[3], Q[0], Q[1], Q[2], Q[3], D[4], Q[4], width, ts, ls, es, f,
                      gas ? ProviderRealistic::ArrheniusUnit::Gas : ProviderRealistic::ArrheniusUnit::Boltzmann);
  const auto   r  = p.calculate(t);
  const LD     kT = (gas ? 8.314L : 8.617343e-5L) * LD(T);
  const double got[5] = {r.Mvol, r.Mvap, r.Msurf, r.Mgb, r.L};
  const char  *nm[5]  = {"bulk", "vapour", "surface", "grain boundary diffusion", "grain boundary mobility"};
  for (unsigned int i = 0; i < 5; ++i)
    {
      const LD ar  = D[i] * std::exp(-LD(Q[i]) / kT);
      const LD ref = i < 4 ? ar * ts / (LD(ls) * ls) * (omega / (LD(ls) * ls * ls)) / kT * es :
                             LD(4) / 3 * ar * ts * es / (LD(ls) * ls * ls * ls) / width;
      c.close(got[i], double(ref), 1e-8, 0, nm[i]);
    }
  // a mobility follows the temperature
  MobilityScalar<2, VA> mob(std::make_shared<ProviderRealistic>(p));
  mob.update(t);
  c.close(mob.Lgb(), r.L, 1e-13, 0, "mobility at the requested time");
  c.close(mob.M_vol(VA(1.))[0], r.Mvol, 1e-13, 0, "bulk mobility at the requested time");
  c.close(mob.M_vap(VA(0.))[0], r.Mvap, 1e-13, 0, "vapour mobility at the requested time");
}
