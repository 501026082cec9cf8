// Residual, tangent, matrices and cut-off of the sintering operator.
#include <pf-applications/sintering/operator_sintering_generic.h>

#include <pf-applications/grid/bounding_box_filter.h>
#include <pf-applications/sintering/operator_postproc.h>
#include <pf-applications/sintering/preconditioners.h>
#include <pf-applications/time_integration/time_integrators.h>

#include <deal.II/fe/fe_dgq.h>
#include <deal.II/fe/fe_tools.h>

#include "mesh.h"

#ifndef OPDIM
#  define OPDIM 2
#endif

using namespace dealii;
using namespace hpsint;
using namespace Sintering;
using namespace pbtmesh;
using VA = VectorizedArray<double>;

namespace
{
  constexpr int dim = OPDIM;
  using Data        = SinteringOperatorData<dim, VA>;
  using Op          = SinteringOperatorGeneric<dim, double, VA>;
  using Adv         = AdvectionMechanism<dim, double, VA>;
  using T1          = Tensor<1, dim>;

  // value and derivative along one direction
  struct D
  {
    double v = 0, d = 0;
    D()      = default;
    D(double v, double d = 0)
      : v(v)
      , d(d)
    {}
  };
  D operator+(const D &a, const D &b) { return {a.v + b.v, a.d + b.d}; }
  D operator-(const D &a, const D &b) { return {a.v - b.v, a.d - b.d}; }
  D operator*(const D &a, const D &b) { return {a.v * b.v, a.d * b.v + a.v * b.d}; }

  struct GT // gradient with derivative
  {
    T1 v, d;
  };
  GT operator*(const D &a, const GT &g) { return {a.v * g.v, a.d * g.v + a.v * g.d}; }
  GT operator+(const GT &a, const GT &b) { return {a.v + b.v, a.d + b.d}; }

  // the normal projector of the tensorial mobility amplifies rounding errors
  // where gradients are small
  constexpr double tangent_tol = Data::use_tensorial_mobility ? 1e-9 : 1e-11;

  struct Setup
  {
    Mesh<dim>                                    m;
    unsigned int                                 n_grains;
    double                                       A, B, kc, kp, Mvol, Mvap, Msurf, Mgb, L;
    std::unique_ptr<FreeEnergy<VA>>              fe;
    std::unique_ptr<Data>                        data;
    std::unique_ptr<TimeIntegration::SolutionHistory<BV>> history;
    std::unique_ptr<Adv>                         adv;
    BV                                           solution;
    double                                       mt = 0, mr = 0;
    bool                                         with_adv = false, supports = false;
    std::string                                  block_scaling;
    // per grain: region outside of which the order parameter vanishes
    std::vector<std::pair<Point<dim>, double>> support;
    // advection: per cell and grain the segment or -1
    std::map<CellId, std::vector<int>> segment;
    std::vector<std::vector<double>>   seg_data; // centre, volume, force, torque

    static MeshOptions
    opts()
    {
      MeshOptions o;
      o.max_cells = dim == 2 ? 150 : 80;
      return o;
    }

    double
    random_value(pbt::Case &c)
    {
      return c.s.real(-1, 1);
    }

    // nodal values: noise around a level, zero outside the support
    void
    fill(pbt::Case &c, BV &v, const double clo, const double chi)
    {
      for (unsigned int b = 0; b < v.n_blocks(); ++b)
        {
          const std::uint64_t key = c.s.draw(1ull << 40);
          const double        amp = b == 1 ? c.s.logreal(0.1, 10.) : 1.;
          m.fill(v.block(b), [&](const Point<dim> &p) {
            std::uint64_t h = key;
            for (unsigned int d = 0; d < dim; ++d)
              h = pbt::mix(h ^ static_cast<std::uint64_t>(std::llround((p[d] + 10.) * 1e7)));
            const double x = hash01(h);
            if (b == 1)
              return amp * (2 * x - 1);
            if (b >= 2 && b - 2 < support.size() && (p - support[b - 2].first).norm_square() > support[b - 2].second * support[b - 2].second)
              return 0.;
            return clo + (chi - clo) * x;
          });
          m.constraints.distribute(v.block(b));
        }
    }

    Setup(pbt::Case &c, const bool with_supports, const bool inside)
      : m(c, FE_DEGREE, N_Q_POINTS_1D, opts())
      , supports(with_supports)
    {
      n_grains = c.s.range(1, MAX_SINTERING_GRAINS);
      for (double *x : {&A, &B, &kc, &kp, &Mvol, &Mvap, &Msurf, &Mgb, &L})
        *x = c.s.coin(0.1) ? 0. : c.s.logreal(0.1, 20.);
      fe = std::make_unique<FreeEnergy<VA>>(A, B);
      std::unique_ptr<TimeIntegration::ImplicitScheme<double>> scheme;
      const unsigned int                                       order = c.s.range(1, 3);
      if (order == 1)
        scheme = std::make_unique<TimeIntegration::BDF1Scheme<double>>();
      else if (order == 2)
        scheme = std::make_unique<TimeIntegration::BDF2Scheme<double>>();
      else
        scheme = std::make_unique<TimeIntegration::BDF3Scheme<double>>();
      data = std::make_unique<Data>(kc, kp, std::make_shared<ProviderAbstract>(Mvol, Mvap, Msurf, Mgb, L),
                                    TimeIntegration::TimeIntegratorData<double>(std::move(scheme)));
      const unsigned int steps = c.s.range(1, 4);
      for (unsigned int i = 0; i < steps; ++i)
        data->time_data.update_dt(c.s.logreal(0.05, 5.));
      data->set_n_components(n_grains + 2);
      history = std::make_unique<TimeIntegration::SolutionHistory<BV>>(order + 1);
      if (with_supports)
        for (unsigned int g = 0; g < n_grains; ++g)
          {
            Point<dim> p;
            for (unsigned int d = 0; d < dim; ++d)
              p[d] = c.s.generic(m.lo[d], m.hi[d]);
            support.emplace_back(p, c.s.coin(0.15) ? 0. : c.s.generic(0.2, 1.6));
          }
      const double lo = inside ? 0.02 : -0.3, hi = inside ? 0.98 : 1.3;
      solution = m.vector(n_grains + 2);
      fill(c, solution, lo, hi);
      unsigned int k = 0;
      history->apply([&](BV &v) {
        v = m.vector(n_grains + 2);
        if (k++ == 0)
          v = solution;
        else
          fill(c, v, lo, hi);
        v.update_ghost_values();
      });
      c.desc << "grains=" << n_grains << " order=" << order << " ";
    }

    // random velocities, not connected to any grains
    void
    init_advection(pbt::Case &c)
    {
      with_adv = c.s.coin(0.5);
      mt       = c.s.coin(0.15) ? 0. : c.s.logreal(0.1, 10);
      mr       = c.s.coin(0.15) ? 0. : c.s.logreal(0.1, 10);
      adv      = std::make_unique<Adv>(with_adv, mt, mr);
      if (!with_adv)
        return;
      c.label("advection");
      const unsigned int n_seg = c.s.range(1, 4);
      for (unsigned int s = 0; s < n_seg; ++s)
        {
          std::vector<double> x;
          for (unsigned int d = 0; d < dim; ++d)
            x.push_back(c.s.generic(m.lo[d], m.hi[d]));
          x.push_back(c.s.logreal(0.1, 10));
          for (unsigned int d = 0; d < dim + (dim == 3 ? 3 : 1); ++d)
            x.push_back(c.s.real(-2, 2));
          seg_data.push_back(x);
        }
      const std::uint64_t key     = c.s.draw(1ull << 40);
      const double        density = c.s.pick(std::vector<double>{0.7, 1., 0.2});
      std::vector<Block> etas;
      for (unsigned int g = 0; g < n_grains; ++g)
        etas.push_back(m.ghosted(solution.block(2 + g)));
      for (auto &x : etas)
        x.update_ghost_values();
      Vector<double> values(m.fe.n_dofs_per_cell());
      for (const auto &cell : m.dof.active_cell_iterators())
        if (cell->is_locally_owned())
          {
            std::uint64_t h = pbt::mix(key ^ static_cast<std::uint64_t>(std::llround(cell->center()[0] * 1e6)));
            for (unsigned int d = 1; d < dim; ++d)
              h = pbt::mix(h ^ static_cast<std::uint64_t>(std::llround(cell->center()[d] * 1e6)));
            auto &s = segment[cell->id()];
            for (unsigned int g = 0; g < n_grains; ++g)
              {
                // only cells of a grain move
                cell->get_dof_values(etas[g], values);
                s.push_back(hash01(h + 17 * g) < density && (!supports || values.linfty_norm() > 1e-5) ? int(pbt::mix(h + 1000 + g) % n_seg) : -1);
              }
          }
      fill_advection();
    }

    void
    fill_advection()
    {
      if (!with_adv)
        return;
      adv->nullify_data(seg_data.size());
      for (unsigned int s = 0; s < seg_data.size(); ++s)
        {
          for (unsigned int d = 0; d < dim; ++d)
            adv->grain_center(s)[d] = seg_data[s][d];
          for (unsigned int d = 0; d < Adv::n_comp_volume_force_torque; ++d)
            adv->grain_data(s)[d] = seg_data[s][dim + d];
        }
      for (unsigned int cell = 0; cell < m.mf.n_cell_batches(); ++cell)
        {
          const auto rel = data->get_grain_to_relevant_grain(cell);
          for (unsigned int g = 0; g < n_grains; ++g)
            if (rel[g] != 255)
              for (unsigned int v = 0; v < VA::size(); ++v)
                {
                  int s = -1;
                  if (v < m.mf.n_active_entries_per_cell_batch(cell))
                    s = segment.at(m.mf.get_cell_iterator(cell, v)->id())[g];
                  adv->get_index_values().push_back(s < 0 ? numbers::invalid_unsigned_int : s);
                }
          adv->get_index_ptr().push_back(adv->get_index_values().size());
        }
    }

    T1
    velocity(const CellId &id, const unsigned int g, const Point<dim> &p) const
    {
      T1 v;
      if (!with_adv)
        return v;
      const int s = segment.at(id)[g];
      if (s < 0)
        return v;
      const auto  &x = seg_data[s];
      const double V = x[dim];
      T1           r;
      for (unsigned int d = 0; d < dim; ++d)
        {
          v[d] += mt * x[dim + 1 + d] / V;
          r[d] = p[d] - x[d];
        }
      const double *t = &x[2 * dim + 1];
      if (dim == 2)
        {
          v[0] += mr / V * t[0] * -r[1];
          v[1] += mr / V * t[0] * r[0];
        }
      else
        for (unsigned int d = 0; d < dim; ++d)
          v[d] += mr / V * (t[(d + 1) % 3] * r[(d + 2) % 3] - t[(d + 2) % 3] * r[(d + 1) % 3]);
      return v;
    }

    struct Result
    {
      BV                  v; // derivative or value
      std::vector<double> mag;
    };

    // Quadrature over all cells. dir: derivative along a direction, otherwise
    // the values. time: 0 none, 1 current state only, 2 with history
    Result
    assemble(const BV &sol, const BV *dir, const int time) const
    {
      const unsigned int n = n_grains + 2;
      Result             r;
      r.v = BV(n);
      for (unsigned int b = 0; b < n; ++b)
        r.v.block(b).reinit(m.partitioner);
      r.v.collect_sizes();
      BV mags = r.v;

      std::vector<Block> s, ds;
      std::vector<Block> hist;
      for (unsigned int b = 0; b < n; ++b)
        {
          s.push_back(m.ghosted(sol.block(b)));
          if (dir)
            ds.push_back(m.ghosted(dir->block(b)));
        }
      for (auto *l : {&s, &ds}) // copies have no ghost values
        for (auto &x : *l)
          x.update_ghost_values();
      const auto &w   = data->time_data.get_weights();
      const auto  old = history->get_old_solutions();
      if (time == 2)
        for (unsigned int b = 0; b < n; ++b)
          {
            Block sum(m.partitioner);
            for (unsigned int i = 0; i < data->time_data.get_order(); ++i)
              {
                Block x(m.partitioner);
                x.copy_locally_owned_data_from(old[i]->block(b));
                sum.add(w[i + 1], x);
              }
            hist.push_back(sum);
          }
      for (auto &x : hist)
        x.update_ghost_values();

      const QGauss<dim>  q(N_Q_POINTS_1D);
      FEValues<dim>      fv(m.mapping, m.fe, q, update_values | update_gradients | update_quadrature_points | update_JxW_values);
      const unsigned int nd = m.fe.n_dofs_per_cell();
      std::vector<types::global_dof_index> ind(nd);
      std::vector<Vector<double>>          local(n, Vector<double>(nd)), lmag(n, Vector<double>(nd));
      std::vector<std::vector<double>>     vals(n), dvals(n), hvals(n);
      std::vector<std::vector<T1>>         grads(n), dgrads(n);
      for (const auto &cell : m.dof.active_cell_iterators())
        if (cell->is_locally_owned())
          {
            fv.reinit(cell);
            cell->get_dof_indices(ind);
            for (unsigned int b = 0; b < n; ++b)
              {
                vals[b].resize(q.size());
                grads[b].resize(q.size());
                dvals[b].assign(q.size(), 0.);
                dgrads[b].assign(q.size(), T1());
                hvals[b].assign(q.size(), 0.);
                fv.get_function_values(s[b], vals[b]);
                fv.get_function_gradients(s[b], grads[b]);
                if (dir)
                  {
                    fv.get_function_values(ds[b], dvals[b]);
                    fv.get_function_gradients(ds[b], dgrads[b]);
                  }
                if (time == 2)
                  fv.get_function_values(hist[b], hvals[b]);
                local[b] = 0.;
                lmag[b]  = 0.;
              }
            for (unsigned int p = 0; p < q.size(); ++p)
              {
                std::vector<D>  x(n);
                std::vector<GT> g(n);
                for (unsigned int b = 0; b < n; ++b)
                  {
                    x[b] = {vals[b][p], dvals[b][p]};
                    g[b] = {grads[b][p], dgrads[b][p]};
                  }
                std::vector<D>  rv(n);
                std::vector<GT> rg(n);
                // flux
                rg[0] = flux(x, g);
                // energy derivatives
                const D c = x[0];
                D       s2, s3;
                for (unsigned int i = 0; i < n_grains; ++i)
                  {
                    s2 = s2 + x[2 + i] * x[2 + i];
                    s3 = s3 + x[2 + i] * x[2 + i] * x[2 + i];
                  }
                const D df_dc = D(A) * D(2) * c * (D(1) - c) * (D(1) - D(2) * c) + D(B) * (D(2) * c - D(6) * s2 + D(4) * s3);
                if (time >= 1)
                  rv[0] = D(w[0]) * c + D(hvals[0][p]);
                rv[1] = x[1] - df_dc;
                rg[1] = D(-kc) * g[0];
                for (unsigned int i = 0; i < n_grains; ++i)
                  {
                    const D e  = x[2 + i];
                    const D fe = D(B) * (D(12) * (D(1) - c) * e - D(12) * (D(2) - c) * e * e + D(12) * s2 * e);
                    rv[2 + i]  = D(L) * fe;
                    if (!block_scaling.empty())
                      {
                        // all order parameters with one common coefficient
                        double sum = 0, max = 0;
                        for (unsigned int j = 0; j < n_grains; ++j)
                          {
                            const double ej = x[2 + j].v;
                            const double k  = B * (12 * (1 - c.v) - 24 * (2 - c.v) * ej + 12 * s2.v + 24 * ej * ej);
                            sum += k / n_grains;
                            if (std::abs(k) > std::abs(max))
                              max = k;
                          }
                        rv[2 + i] = D(0, L * (block_scaling == "avg" ? sum : block_scaling == "max" ? max : 0.) * x[2 + i].d);
                      }
                    if (time >= 1)
                      rv[2 + i] = rv[2 + i] + D(w[0]) * e + D(hvals[2 + i][p]);
                    rg[2 + i]    = D(L * kp) * g[2 + i];
                    const auto v = velocity(cell->id(), i, fv.quadrature_point(p));
                    rg[0]        = rg[0] + D(-1) * (c * GT{v, T1()});
                    rg[2 + i]    = rg[2 + i] + D(-1) * (e * GT{v, T1()});
                  }
                for (unsigned int b = 0; b < n; ++b)
                  for (unsigned int i = 0; i < nd; ++i)
                    {
                      const double a  = (dir ? rv[b].d : rv[b].v) * fv.shape_value(i, p) * fv.JxW(p);
                      const double gg = (dir ? rg[b].d : rg[b].v) * fv.shape_grad(i, p) * fv.JxW(p);
                      local[b][i] += a + gg;
                      lmag[b][i] += std::abs(a) + (dir ? rg[b].d : rg[b].v).norm() * fv.shape_grad(i, p).norm() * fv.JxW(p);
                    }
              }
            for (unsigned int b = 0; b < n; ++b)
              {
                m.constraints.distribute_local_to_global(local[b], ind, r.v.block(b));
                m.constraints.distribute_local_to_global(lmag[b], ind, mags.block(b));
              }
          }
      r.v.compress(VectorOperation::add);
      mags.compress(VectorOperation::add);
      for (unsigned int b = 0; b < n; ++b)
        r.mag.push_back(mags.block(b).linfty_norm() + 1e-10);
      return r;
    }

    GT
    flux(const std::vector<D> &x, const std::vector<GT> &g) const
    {
      if (Data::use_tensorial_mobility)
        {
          // the pointwise laws are decided elsewhere
          std::vector<VA>                 v, dv;
          std::vector<Tensor<1, dim, VA>> gr, dg;
          for (unsigned int b = 0; b < x.size(); ++b)
            {
              v.push_back(x[b].v);
              dv.push_back(x[b].d);
              Tensor<1, dim, VA> a, e;
              for (unsigned int d = 0; d < dim; ++d)
                a[d] = g[b].v[d], e[d] = g[b].d[d];
              gr.push_back(a);
              dg.push_back(e);
            }
          const auto &mob = data->get_mobility();
          const auto  f   = mob.apply_M(v[0], &v[2], n_grains, gr[0], &gr[2], gr[1]);
          const auto  df  = mob.apply_M_derivative(v.data(), gr.data(), n_grains, dv.data(), dg.data());
          GT          r;
          for (unsigned int d = 0; d < dim; ++d)
            r.v[d] = f[d][0], r.d[d] = df[d][0];
          return r;
        }
      const D c   = x[0];
      D       phi = c * c * c * (D(10) - D(15) * c + D(6) * c * c);
      if (phi.v < 0)
        phi = D(0);
      if (phi.v > 1)
        phi = D(1);
      D M = D(Mvol) * phi + D(Mvap) * (D(1) - phi) + D(4 * Msurf) * c * c * (D(1) - c) * (D(1) - c);
      for (unsigned int i = 0; i < n_grains; ++i)
        for (unsigned int j = 0; j < i; ++j)
          M = M + D(2 * Mgb) * x[2 + i] * x[2 + j];
      return M * g[1];
    }

    bool
    constrained(const types::global_dof_index i) const
    {
      return m.constraints.is_constrained(i);
    }

    void
    compare(pbt::Case &c, const BV &got, const Result &ref, const std::string &what, const double rtol = 1e-11, const int only_block = -1) const
    {
      // assembled matrices drop entries relative to the largest one of a cell,
      // whatever block it belongs to
      const double max_mag = rtol > 3e-9 ? *std::max_element(ref.mag.begin(), ref.mag.end()) : 0.;
      for (unsigned int b = 0; b < n_grains + 2; ++b)
        if (only_block < 0 || b == static_cast<unsigned int>(only_block))
          for (const auto i : m.dof.locally_owned_dofs())
            if (!constrained(i))
              if (!(std::abs(got.block(b)[i] - ref.v.block(b)[i]) <= rtol * std::max(ref.mag[b], max_mag)))
                {
                  c.check(false, what, ", block ", b, " unknown ", i, ": ", got.block(b)[i], " instead of ", ref.v.block(b)[i]);
                  return;
                }
    }
  };

  template <typename V>
  void
  set_random(pbt::Case &c, Setup &s, V &v)
  {
    (void)s;
    for (unsigned int b = 0; b < v.n_blocks(); ++b)
      {
        const std::uint64_t key = c.s.draw(1ull << 40);
        for (const auto i : v.block(b).locally_owned_elements())
          v.block(b)[i] = 2 * hash01(key + i) - 1;
      }
  }

  BV
  resolved(const Setup &s, const BV &src)
  {
    BV d = src;
    for (unsigned int b = 0; b < d.n_blocks(); ++b)
      {
        s.m.constraints.set_zero(d.block(b));
        s.m.constraints.distribute(d.block(b));
      }
    return d;
  }
} // namespace

PBT_PROPERTY(residual)
{
  Setup s(c, false, c.s.coin(0.5));
  s.init_advection(c);
  Op op = Op::create(s.m.mf, s.m.constraints, *s.fe, *s.data, *s.history, *s.adv, false, false);
  const int time = c.s.range(0, 2);
  BV        dst  = s.m.vector(s.n_grains + 2);
  set_random(c, s, dst); // whatever the vector contains is overwritten
  if (time == 0)
    op.evaluate_nonlinear_residual<0>(dst, s.solution);
  else if (time == 1)
    op.evaluate_nonlinear_residual<1>(dst, s.solution);
  else
    op.evaluate_nonlinear_residual<2>(dst, s.solution);
  const auto ref = s.assemble(s.solution, nullptr, time);
  s.compare(c, dst, ref, "residual");
  for (unsigned int b = 0; b < s.n_grains + 2; ++b)
    for (const auto i : s.m.dof.locally_owned_dofs())
      if (s.constrained(i))
        c.check(dst.block(b)[i] == 0, "residual of a constrained unknown is ", dst.block(b)[i]);
  // no matter is created or lost by diffusion and advection
  {
    double sum = 0;
    for (const auto i : s.m.dof.locally_owned_dofs())
      sum += dst.block(0)[i];
    sum = Utilities::MPI::sum(sum, MPI_COMM_WORLD);
    if (time == 0)
      c.check(std::abs(sum) <= 1e-11 * ref.mag[0] * s.m.dof.n_dofs(), "fluxes change the mass by ", sum);
  }
  c.label("time " + std::to_string(time));
  c.nontrivial = s.n_grains > 1;
}

PBT_PROPERTY(tangent)
{
  Setup      s(c, false, true);
  s.init_advection(c);
  const bool save_grad = c.s.coin(), save_all = c.s.coin(), fly = c.s.coin(0.3);
  const bool matrix = c.s.coin(0.4);
  Op         op = Op::create(s.m.mf, s.m.constraints, *s.fe, *s.data, *s.history, *s.adv, matrix, fly);
  if (c.s.coin(0.2)) // an earlier state must not matter
    {
      BV other = s.m.vector(s.n_grains + 2);
      s.fill(c, other, 0.1, 0.9);
      s.data->fill_quadrature_point_values(s.m.mf, other, save_grad, save_all);
      if (matrix)
        op.initialize_system_matrix(true, false);
    }
  s.data->fill_quadrature_point_values(s.m.mf, s.solution, save_grad, save_all);
  BV src = s.m.vector(s.n_grains + 2), dst = s.m.vector(s.n_grains + 2);
  set_random(c, s, src);
  set_random(c, s, dst);
  const BV src0 = src;
  const BV dir  = resolved(s, src);
  auto     ref  = s.assemble(s.solution, &dir, 1);
  if (matrix)
    op.initialize_system_matrix(true, false);
  op.vmult(dst, src);
  s.compare(c, dst, ref, matrix ? "product with the system matrix" : "matrix-free product", matrix ? 5e-9 : tangent_tol);
  for (unsigned int b = 0; b < s.n_grains + 2; ++b)
    for (const auto i : s.m.dof.locally_owned_dofs())
      {
        c.check(src.block(b)[i] == src0.block(b)[i], "the product changed the direction");
        if (!matrix && s.constrained(i))
          c.check(dst.block(b)[i] == src.block(b)[i], "a constrained unknown is mapped to ", dst.block(b)[i], " instead of itself");
      }
  c.label(matrix ? "matrix-based" : "matrix-free");
  c.label("gradients saved", save_grad);
  c.nontrivial = s.n_grains > 1;

  // diagonal: sampled with unit vectors
  if (c.s.coin(0.5))
    {
      BV diag = s.m.vector(s.n_grains + 2);
      op.compute_inverse_diagonal(diag);
      const unsigned int n_samples = 4;
      for (unsigned int k = 0; k < n_samples; ++k)
        {
          const unsigned int b = c.s.range(0, s.n_grains + 1);
          const auto         i = c.s.draw(s.m.dof.n_dofs());
          BV                 e = s.m.vector(s.n_grains + 2);
          const bool         own = s.m.dof.locally_owned_dofs().is_element(i);
          const bool         con = Utilities::MPI::max(unsigned(own && s.constrained(i)), MPI_COMM_WORLD);
          if (con)
            continue;
          if (own)
            e.block(b)[i] = 1.;
          const BV   ed = resolved(s, e);
          const auto r  = s.assemble(s.solution, &ed, 1);
          if (own)
            {
              const double a = r.v.block(b)[i];
              const double x = diag.block(b)[i];
              if (std::abs(a) > 2e-10)
                c.check(std::abs(x * a - 1) <= 1e-9 * r.mag[b] / std::abs(a), "inverse diagonal ", x, " of ", a);
              else if (std::abs(a) < 0.5e-10)
                c.check(x == 1., "inverse of a vanishing diagonal entry is ", x);
            }
        }
    }
  // diagonal blocks
  if (c.s.coin(0.5))
    {
      op.initialize_block_system_matrix(true, false);
      const auto &mats = op.get_block_system_matrix();
      c.require(mats.size() == s.n_grains + 2, "number of block matrices");
      const unsigned int b = c.s.range(0, s.n_grains + 1);
      BV                 e = s.m.vector(s.n_grains + 2);
      e.block(b)           = src.block(b);
      const BV   ed        = resolved(s, e);
      const auto r         = s.assemble(s.solution, &ed, 1);
      BV         y         = s.m.vector(s.n_grains + 2);
      mats[b]->vmult(y.block(b), src.block(b));
      s.compare(c, y, r, "product with a diagonal block", 5e-9, b);
    }
}

PBT_PROPERTY(cut_off)
{
  Setup s(c, true, true);
  s.init_advection(c);
  const bool save_grad = c.s.coin(), save_all = c.s.coin(), fly = c.s.coin(0.3);
  Op         op = Op::create(s.m.mf, s.m.constraints, *s.fe, *s.data, *s.history, *s.adv, false, fly);
  const double tol = c.s.coin() ? 0. : 1e-5;
  if (c.s.coin(0.3)) // a mask for another state is replaced
    {
      BV other = s.m.vector(s.n_grains + 2);
      s.fill(c, other, 0.1, 0.9);
      if (s.n_grains > 1)
        other.block(2) = 0.;
      std::ostringstream sink;
      auto *old = std::cout.rdbuf(sink.rdbuf());
      s.data->set_component_mask(s.m.mf, other, save_grad, save_all, tol);
      std::cout.rdbuf(old);
      s.data->fill_quadrature_point_values(s.m.mf, other, save_grad, save_all);
    }
  {
    std::ostringstream sink;
    auto *old = std::cout.rdbuf(sink.rdbuf());
    s.data->set_component_mask(s.m.mf, s.solution, save_grad, save_all, tol);
    std::cout.rdbuf(old);
  }
  s.fill_advection();
  s.data->fill_quadrature_point_values(s.m.mf, s.solution, save_grad, save_all);
  // the mask itself: batches of cells with values beyond the tolerance
  unsigned int n_masked = 0, n_relevant = 0;
  {
    std::vector<Block> g;
    for (unsigned int b = 0; b < s.n_grains; ++b)
      g.push_back(s.m.ghosted(s.solution.block(2 + b)));
    for (auto &x : g)
      x.update_ghost_values();
    Vector<double> values(s.m.fe.n_dofs_per_cell());
    for (unsigned int cell = 0; cell < s.m.mf.n_cell_batches(); ++cell)
      {
        std::set<unsigned int> want;
        for (unsigned int v = 0; v < s.m.mf.n_active_entries_per_cell_batch(cell); ++v)
          for (unsigned int b = 0; b < s.n_grains; ++b)
            {
              s.m.mf.get_cell_iterator(cell, v)->get_dof_values(g[b], values);
              if (values.linfty_norm() > tol)
                want.insert(b);
            }
        std::set<unsigned int> got;
        for (const auto b : s.data->get_relevant_grains(cell))
          got.insert(b);
        c.check(got == want, "relevant grains of a cell batch: ", got.size(), " instead of ", want.size());
        n_masked += s.n_grains - want.size();
        n_relevant += want.size();
      }
  }
  c.nontrivial = n_masked > 0 && n_relevant > 0;
  if (!c.errors.empty())
    return;

  // order parameters vanish outside of their supports: no difference
  // histories and directions are restricted to relevant cells
  const int time = c.s.range(0, 2);
  BV        dst  = s.m.vector(s.n_grains + 2);
  set_random(c, s, dst);
  if (time == 2)
    {
      // the history has the same support
      unsigned int k = 0;
      s.history->apply([&](BV &v) {
        if (k++ > 0)
          {
            v.zero_out_ghost_values();
            for (unsigned int b = 2; b < v.n_blocks(); ++b)
              for (const auto i : s.m.dof.locally_owned_dofs())
                if (s.solution.block(b)[i] == 0.)
                  v.block(b)[i] = 0.;
            for (unsigned int b = 0; b < v.n_blocks(); ++b)
              s.m.constraints.distribute(v.block(b));
            v.update_ghost_values();
          }
      });
      op.evaluate_nonlinear_residual<2>(dst, s.solution);
    }
  else if (time == 1)
    op.evaluate_nonlinear_residual<1>(dst, s.solution);
  else
    op.evaluate_nonlinear_residual<0>(dst, s.solution);
  const auto ref = s.assemble(s.solution, nullptr, time);
  s.compare(c, dst, ref, "residual with cut-off");

  BV src = s.m.vector(s.n_grains + 2);
  set_random(c, s, src);
  for (unsigned int b = 2; b < src.n_blocks(); ++b)
    {
      Block sol = s.solution.block(b);
      for (const auto i : s.m.dof.locally_owned_dofs())
        if (sol[i] == 0.)
          src.block(b)[i] = 0.;
    }
  const BV dir  = resolved(s, src);
  auto     ref2 = s.assemble(s.solution, &dir, 1);
  BV       y    = s.m.vector(s.n_grains + 2);
  set_random(c, s, y);
  op.vmult(y, src);
  s.compare(c, y, ref2, "matrix-free product with cut-off", tangent_tol);

  // kernels on all grains
  if (c.s.coin(0.5))
    {
      op.initialize_block_system_matrix(true, false);
      const auto &mats = op.get_block_system_matrix();
      const unsigned int b = c.s.range(0, s.n_grains + 1);
      BV                 e = s.m.vector(s.n_grains + 2);
      e.block(b)           = src.block(b);
      const BV   ed        = resolved(s, e);
      const auto r         = s.assemble(s.solution, &ed, 1);
      BV         z         = s.m.vector(s.n_grains + 2);
      mats[b]->vmult(z.block(b), src.block(b));
      s.compare(c, z, r, "product with a diagonal block and cut-off", 5e-9, b);
    }
}

// operators of the block preconditioner: diagonal blocks of the tangent
PBT_PROPERTY(block_operators)
{
  const bool cut = c.s.coin(0.3);
  Setup      s(c, cut, true);
  s.init_advection(c);
  Op         op = Op::create(s.m.mf, s.m.constraints, *s.fe, *s.data, *s.history, *s.adv, false, false);
  if (cut)
    {
      std::ostringstream sink;
      auto *old = std::cout.rdbuf(sink.rdbuf());
      s.data->set_component_mask(s.m.mf, s.solution, true, true, c.s.coin() ? 0. : 1e-5);
      std::cout.rdbuf(old);
      s.fill_advection();
    }
  // the block preconditioner works with complete data
  s.data->fill_quadrature_point_values(s.m.mf, s.solution, true, true);

  const unsigned int n   = s.n_grains + 2;
  BV                 src = s.m.vector(n);
  set_random(c, s, src);
  if (cut)
    for (unsigned int b = 2; b < n; ++b)
      for (const auto i : s.m.dof.locally_owned_dofs())
        if (s.solution.block(b)[i] == 0.)
          src.block(b)[i] = 0.;
  const unsigned int kind = c.s.range(0, s.n_grains > 1 ? 2 : 0);
  c.nontrivial            = s.n_grains > 1;

  const auto part = [&](const unsigned int from, const unsigned int to) {
    BV e = s.m.vector(n);
    for (unsigned int b = from; b < to; ++b)
      e.block(b) = src.block(b);
    return e;
  };
  const auto sub = [&](const BV &v, const unsigned int from, const unsigned int to) {
    BV e = s.m.vector(to - from);
    for (unsigned int b = from; b < to; ++b)
      e.block(b - from) = v.block(b);
    return e;
  };
  const auto check_product = [&](const auto &o, const unsigned int from, const unsigned int to, const std::string &what) {
    const BV e   = part(from, to);
    const BV dir = resolved(s, e);
    const auto ref = s.assemble(s.solution, &dir, 1);
    BV x = sub(src, from, to), y = sub(src, from, to), full = s.m.vector(n);
    o.vmult(y, x);
    for (unsigned int b = from; b < to; ++b)
      full.block(b) = y.block(b - from);
    for (unsigned int b = from; b < to; ++b)
      s.compare(c, full, ref, what + ", matrix-free product", tangent_tol, b);
    // product with the assembled matrix
    o.initialize_system_matrix(true, false);
    const auto &A = o.get_system_matrix();
    TrilinosWrappers::MPI::Vector vx(A.locally_owned_domain_indices(), MPI_COMM_WORLD), vy(vx);
    const unsigned int nb = to - from;
    for (unsigned int b = from; b < to; ++b)
      for (const auto i : s.m.dof.locally_owned_dofs())
        vx[i * nb + b - from] = src.block(b)[i];
    vx.compress(VectorOperation::insert);
    A.vmult(vy, vx);
    for (unsigned int b = from; b < to; ++b)
      for (const auto i : s.m.dof.locally_owned_dofs())
        full.block(b)[i] = vy[i * nb + b - from];
    for (unsigned int b = from; b < to; ++b)
      s.compare(c, full, ref, what + ", product with the matrix", 5e-9, b);
  };

  if (kind == 0)
    {
      c.label("concentration and potential");
      OperatorCahnHilliard<dim, double, VA, SinteringOperatorGeneric> o(op, s.m.mf, s.m.constraints, *s.data, *s.adv);
      check_product(o, 0, 2, "concentration and potential");
    }
  else if (kind == 1)
    {
      c.label("order parameters");
      OperatorAllenCahn<dim, double, VA, SinteringOperatorGeneric> o(op, s.m.mf, s.m.constraints, *s.data, *s.adv);
      check_product(o, 2, n, "order parameters");
    }
  else
    {
      c.label("single order parameters");
      const std::string label = c.s.pick(std::vector<std::string>{"all", "all", "const", "max", "avg"});
      c.label(label);
      OperatorAllenCahnBlocked<dim, double, VA, SinteringOperatorGeneric> o(op, s.m.mf, s.m.constraints, *s.data, *s.adv, label);
      const auto &mats = o.get_block_system_matrix();
      c.require(mats.size() == (label == "all" ? s.n_grains : 1), "number of block matrices");
      if (label == "all")
        for (unsigned int b = 2; b < n; ++b)
          {
            const BV   e   = part(b, b + 1);
            const BV   dir = resolved(s, e);
            const auto ref = s.assemble(s.solution, &dir, 1);
            BV         y   = s.m.vector(n);
            mats[b - 2]->vmult(y.block(b), src.block(b));
            s.compare(c, y, ref, "matrix of a single order parameter", 5e-9, b);
          }
      else
        {
          // one matrix for all order parameters
          s.block_scaling = label;
          s.with_adv      = false;
          const BV   e   = part(2, 3);
          const BV   dir = resolved(s, e);
          const auto ref = s.assemble(s.solution, &dir, 1);
          BV         y   = s.m.vector(n);
          mats[0]->vmult(y.block(2), src.block(2));
          s.compare(c, y, ref, "common matrix (" + label + ") of the order parameters", 5e-9, 2);
        }
    }
}

// Integrals over the domain or over a box
PBT_PROPERTY(integrals)
{
  Setup s(c, c.s.coin(0.3), c.s.coin(0.6));
  s.init_advection(c);
  Op op = Op::create(s.m.mf, s.m.constraints, *s.fe, *s.data, *s.history, *s.adv, false, false);

  const std::vector<std::string> all{"solid_vol", "surf_area", "gb_area", "avg_grain_size", "surf_area_nrm", "free_energy",
                                     "bulk_energy", "interface_energy", "order_params", "control_vol"};
  std::vector<std::string>       labels;
  const unsigned int             n_labels = c.s.range(1, all.size());
  for (unsigned int i = 0; i < n_labels; ++i)
    {
      const auto &l = c.s.pick(all);
      if (std::find(labels.begin(), labels.end(), l) == labels.end())
        labels.push_back(l);
    }
  auto [names, evaluators] = op.build_domain_quantities_evaluators(labels);

  // box: anywhere, also outside of the domain
  const bool                          boxed = c.s.coin(0.6);
  std::shared_ptr<BoundingBox<dim>>   box;
  std::unique_ptr<BoundingBoxFilter<dim>> filter;
  if (boxed)
    {
      Point<dim> a, b;
      for (unsigned int d = 0; d < dim; ++d)
        {
          const double w = s.m.hi[d] - s.m.lo[d];
          a[d]           = c.s.generic(s.m.lo[d] - 0.3 * w, s.m.hi[d]);
          b[d]           = a[d] + c.s.generic(0.05 * w, 1.2 * w);
        }
      box    = std::make_shared<BoundingBox<dim>>(std::make_pair(a, b));
      filter = std::make_unique<BoundingBoxFilter<dim>>(*box);
    }

  const BV            before = s.solution;
  std::vector<double> got;
  if (boxed)
    {
      std::function<VA(const Point<dim, VA> &)> predicate = [&](const Point<dim, VA> &p) { return filter->filter(p); };
      got = op.calc_domain_quantities(evaluators, s.solution, predicate, EvaluationFlags::values | EvaluationFlags::gradients);
    }
  else
    got = op.calc_domain_quantities(evaluators, s.solution);
  for (unsigned int b = 0; b < before.n_blocks(); ++b)
    for (const auto i : s.m.dof.locally_owned_dofs())
      c.check(before.block(b)[i] == s.solution.block(b)[i], "integrals change the solution");

  std::vector<std::string> want_names;
  for (const auto &l : labels)
    if (l == "order_params")
      for (unsigned int i = 0; i < MAX_SINTERING_GRAINS; ++i)
        want_names.push_back("op_" + std::to_string(i));
    else
      want_names.push_back(l);
  c.require(want_names == names, "names of the integrals");
  c.require(got.size() == names.size(), got.size(), " values for ", names.size(), " integrals");

  std::map<std::string, double> sum, mag;
  const unsigned int            n = s.n_grains + 2;
  std::vector<Block>            sol;
  for (unsigned int b = 0; b < n; ++b)
    sol.push_back(s.m.ghosted(s.solution.block(b)));
  for (auto &x : sol)
    x.update_ghost_values();
  const QGauss<dim>                q(N_Q_POINTS_1D);
  FEValues<dim>                    fv(s.m.mapping, s.m.fe, q, update_values | update_gradients | update_quadrature_points | update_JxW_values);
  std::vector<std::vector<double>> vals(n, std::vector<double>(q.size()));
  std::vector<std::vector<T1>>     grads(n, std::vector<T1>(q.size()));
  bool                             near_level = false;
  double                           in = 0, out = 0;
  for (const auto &cell : s.m.dof.active_cell_iterators())
    if (cell->is_locally_owned())
      {
        fv.reinit(cell);
        for (unsigned int b = 0; b < n; ++b)
          {
            fv.get_function_values(sol[b], vals[b]);
            fv.get_function_gradients(sol[b], grads[b]);
          }
        for (unsigned int p = 0; p < q.size(); ++p)
          {
            const double w = fv.JxW(p);
            if (boxed)
              {
                bool inside = true, close = false;
                for (unsigned int d = 0; d < dim; ++d)
                  {
                    const auto &bp = box->get_boundary_points();
                    const double x = fv.quadrature_point(p)[d];
                    inside &= x > bp.first[d] && x < bp.second[d];
                    close |= std::abs(x - bp.first[d]) < 1e-9 || std::abs(x - bp.second[d]) < 1e-9;
                  }
                near_level |= close;
                (inside ? in : out) += w;
                if (!inside)
                  continue;
              }
            const double cc = vals[0][p];
            double       s2 = 0, s3 = 0, gb = 0, ge = 0;
            for (unsigned int i = 0; i < s.n_grains; ++i)
              {
                const double e = vals[2 + i][p];
                s2 += e * e;
                s3 += e * e * e;
                ge += grads[2 + i][p].norm_square();
                for (unsigned int j = 0; j < i; ++j)
                  gb += e * vals[2 + j][p];
              }
            const double bulk  = s.A * cc * cc * (1 - cc) * (1 - cc) + s.B * (cc * cc + 6 * (1 - cc) * s2 - 4 * (2 - cc) * s3 + 3 * s2 * s2);
            const double iface = 0.5 * s.kc * grads[0][p].norm_square() + 0.5 * s.kp * ge;
            near_level |= std::abs(cc - 0.45) < 1e-9 || std::abs(cc - 0.55) < 1e-9;
            const auto add = [&](const std::string &l, const double x, const double scale = 0) {
              sum[l] += x * w;
              mag[l] += std::max(std::abs(x), scale) * w;
            };
            const double big = s.A + s.B * (1 + 6 * (2 + std::abs(cc)) * s2 + 4 * (2 + std::abs(cc)) * std::abs(s3) + 3 * s2 * s2);
            add("solid_vol", cc);
            add("surf_area", cc * (1 - cc));
            add("gb_area", gb, s2);
            add("avg_grain_size", s2);
            add("surf_area_nrm", cc >= 0.45 && cc <= 0.55);
            add("free_energy", bulk + iface, big);
            add("bulk_energy", bulk, big);
            add("interface_energy", iface);
            add("control_vol", 1);
            for (unsigned int i = 0; i < MAX_SINTERING_GRAINS; ++i)
              add("op_" + std::to_string(i), i < s.n_grains ? vals[2 + i][p] : 0.);
          }
      }
  near_level = Utilities::MPI::max(unsigned(near_level), MPI_COMM_WORLD);
  if (near_level)
    throw pbt::Discard(); // a quadrature point at the limit
  for (unsigned int i = 0; i < names.size(); ++i)
    {
      const double want = Utilities::MPI::sum(sum[names[i]], MPI_COMM_WORLD), scale = Utilities::MPI::sum(mag[names[i]], MPI_COMM_WORLD);
      c.check(std::abs(got[i] - want) <= 1e-12 * scale + 1e-14, "integral ", names[i], " is ", got[i], " instead of ", want);
    }
  in  = Utilities::MPI::sum(in, MPI_COMM_WORLD);
  out = Utilities::MPI::sum(out, MPI_COMM_WORLD);
  c.label("box", boxed);
  c.label("box cuts the domain", in > 0 && out > 0);
  c.nontrivial = s.n_grains > 1 && (!boxed || in > 0);
}

namespace
{
  struct Patches : public DataOut<dim>
  {
    const auto &
    patches() const
    {
      return this->get_patches();
    }
    auto
    names() const
    {
      return this->get_dataset_names();
    }
  };
} // namespace

// Fields written next to the solution and divergences of the fluxes
PBT_PROPERTY(fields)
{
  Setup s(c, c.s.coin(0.3), c.s.coin(0.6));
  s.init_advection(c);
  Op                 op  = Op::create(s.m.mf, s.m.constraints, *s.fe, *s.data, *s.history, *s.adv, false, false);
  const auto        &mob = s.data->get_mobility();
  const unsigned int n = s.n_grains + 2, ng = s.n_grains;
  // fields are derived from nodal values, at constrained nodes as well
  for (unsigned int b = 0; b < n; ++b)
    {
      s.m.constraints.distribute(s.solution.block(b));
      s.m.constraints.distribute(s.solution.block(b));
    }
  std::vector<Block> sol;
  for (unsigned int b = 0; b < n; ++b)
    sol.push_back(s.m.ghosted(s.solution.block(b)));
  for (auto &x : sol)
    x.update_ghost_values();

  std::set<std::string>          list;
  const std::vector<std::string> all{"bnds", "gb", "d2f", "kappa", "L", "energy", "flux", "M", "dM"};
  for (const auto &l : all)
    if (c.s.coin(0.5) && !(Data::use_tensorial_mobility && (l == "M" || l == "dM")))
      list.insert(l);

  // values at a point, in the order of the output
  std::vector<std::string> names;
  const auto               pointwise = [&](const std::vector<double> &x, const std::vector<T1> &g, const bool with_names) {
    std::vector<double> r;
    const auto          put = [&](const std::string &name, const double v) {
      r.push_back(v);
      if (with_names)
        names.push_back(name);
    };
    const double cc = x[0];
    double       s2 = 0, s3 = 0, gb = 0;
    for (unsigned int i = 0; i < ng; ++i)
      {
        s2 += x[2 + i] * x[2 + i];
        s3 += x[2 + i] * x[2 + i] * x[2 + i];
        for (unsigned int j = 0; j < i; ++j)
          gb += x[2 + i] * x[2 + j];
      }
    std::vector<VA>                 e;
    std::vector<Tensor<1, dim, VA>> ge;
    Tensor<1, dim, VA>              gc, gmu;
    for (unsigned int d = 0; d < dim; ++d)
      gc[d] = g[0][d], gmu[d] = g[1][d];
    for (unsigned int i = 0; i < ng; ++i)
      {
        e.push_back(x[2 + i]);
        Tensor<1, dim, VA> t;
        for (unsigned int d = 0; d < dim; ++d)
          t[d] = g[2 + i][d];
        ge.push_back(t);
      }
    if (list.count("bnds"))
      put("bnds", s2);
    if (list.count("gb"))
      put("gb", gb);
    if (list.count("d2f"))
      {
        put("d2f_dc2", s.A * (2 - 12 * cc + 12 * cc * cc) + 2 * s.B);
        for (unsigned int i = 0; i < ng; ++i)
          put("d2f_dcdeta" + std::to_string(i), s.B * (-12 * x[2 + i] + 12 * x[2 + i] * x[2 + i]));
        for (unsigned int i = 0; i < ng; ++i)
          put("d2f_deta" + std::to_string(i) + "2", s.B * (12 * (1 - cc) - 24 * (2 - cc) * x[2 + i] + 12 * s2 + 24 * x[2 + i] * x[2 + i]));
        for (unsigned int i = 0; i < ng; ++i)
          for (unsigned int j = i + 1; j < ng; ++j)
            put("d2f_deta" + std::to_string(i) + "deta" + std::to_string(j), s.B * 24 * x[2 + i] * x[2 + j]);
      }
    if constexpr (!Data::use_tensorial_mobility)
      {
        double phi = cc * cc * cc * (10 - 15 * cc + 6 * cc * cc);
        phi        = std::min(1., std::max(0., phi));
        if (list.count("M"))
          put("M", s.Mvol * phi + s.Mvap * (1 - phi) + 4 * s.Msurf * cc * cc * (1 - cc) * (1 - cc) + 2 * s.Mgb * gb);
        if (list.count("dM"))
          {
            const VA c_(cc);
            put("nrm_dM_dc_x_mu_grad", (mob.dM_dc(c_, e, gc, ge) * gmu).norm()[0]);
            put("nrm_dM_dgrad_c", 0.);
            for (unsigned int i = 0; i < ng; ++i)
              {
                double o = 0;
                for (unsigned int j = 0; j < ng; ++j)
                  if (j != i)
                    o += x[2 + j];
                put("nrm_dM_deta" + std::to_string(i) + "_x_mu_grad", std::abs(2 * s.Mgb * o) * g[1].norm());
              }
          }
      }
    if (list.count("kappa"))
      {
        put("kappa_c", s.kc);
        put("kappa_p", s.kp);
      }
    if (list.count("L"))
      put("L", s.L);
    if (list.count("energy"))
      {
        put("f", s.A * cc * cc * (1 - cc) * (1 - cc) + s.B * (cc * cc + 6 * (1 - cc) * s2 - 4 * (2 - cc) * s3 + 3 * s2 * s2));
        put("df_dc", s.A * 2 * cc * (1 - cc) * (1 - 2 * cc) + s.B * (2 * cc - 6 * s2 + 4 * s3));
      }
    std::array<Tensor<1, dim, VA>, 4> j;
    j[0] = -mob.M_vol(VA(cc)) * gmu;
    j[1] = -mob.M_vap(VA(cc)) * gmu;
    j[2] = -mob.M_surf(VA(cc), gc) * gmu;
    j[3] = -mob.M_gb(e, ng, ge) * gmu;
    const std::array<std::string, 4> fluxes{{"flux_vol", "flux_vap", "flux_surf", "flux_gb"}};
    if (list.count("flux"))
      for (unsigned int k = 0; k < 4; ++k)
        for (unsigned int d = 0; d < dim; ++d)
          put(fluxes[k], j[k][d][0]);
    return std::make_pair(r, j);
  };
  pointwise(std::vector<double>(n, 0.5), std::vector<T1>(n), true);

  Patches data_out;
  data_out.attach_dof_handler(s.m.dof);
  const BV before = s.solution;
  op.add_data_vectors(data_out, s.solution, list);
  for (unsigned int b = 0; b < before.n_blocks(); ++b)
    for (const auto i : s.m.dof.locally_owned_dofs())
      c.check(before.block(b)[i] == s.solution.block(b)[i], "output changes the solution");

  // divergences: weak form
  PostprocOperator<dim, double, VA> post(s.m.mf, s.m.constraints, *s.data, false);
  BV                                div = s.m.vector(4);
  set_random(c, s, div);
  post.evaluate_rhs(div, s.solution);
  c.check(post.n_components() == 4, "four divergences");

  const QGauss<1>                      q1(N_Q_POINTS_1D);
  const QGauss<dim>                    q(N_Q_POINTS_1D);
  const FE_DGQArbitraryNodes<dim>      gauss(q1);
  const unsigned int                   nd = s.m.fe.n_dofs_per_cell();
  FEValues<dim>                        fv(s.m.mapping, s.m.fe, q, update_values | update_gradients | update_JxW_values);
  std::vector<std::vector<double>>     vals(n, std::vector<double>(q.size()));
  std::vector<std::vector<T1>>         grads(n, std::vector<T1>(q.size()));
  std::vector<types::global_dof_index> ind(nd);
  // all values a node may have, per field
  std::map<types::global_dof_index, std::vector<std::vector<double>>> candidates;
  std::vector<double>                                                 scale(names.size(), 0.);
  BV                                                                  ref = s.m.vector(4);
  std::vector<double>                                                 div_scale(4, 1e-12);
  for (const auto &cell : s.m.dof.active_cell_iterators())
    if (!cell->is_artificial())
      {
        fv.reinit(cell);
        cell->get_dof_indices(ind);
        for (unsigned int b = 0; b < n; ++b)
          {
            fv.get_function_values(sol[b], vals[b]);
            fv.get_function_gradients(sol[b], grads[b]);
          }
        std::vector<std::vector<double>> at_q;
        std::vector<Vector<double>>      local(4, Vector<double>(nd));
        for (unsigned int p = 0; p < q.size(); ++p)
          {
            std::vector<double> x(n);
            std::vector<T1>     g(n);
            for (unsigned int b = 0; b < n; ++b)
              x[b] = vals[b][p], g[b] = grads[b][p];
            const auto [r, j] = pointwise(x, g, false);
            at_q.push_back(r);
            for (unsigned int k = 0; k < 4; ++k)
              for (unsigned int i = 0; i < nd; ++i)
                {
                  double y = 0, z = 0;
                  for (unsigned int d = 0; d < dim; ++d)
                    {
                      y += j[k][d][0] * fv.shape_grad(i, p)[d];
                      z += std::abs(j[k][d][0] * fv.shape_grad(i, p)[d]);
                    }
                  local[k][i] += y * fv.JxW(p);
                  div_scale[k] = std::max(div_scale[k], z * fv.JxW(p));
                }
          }
        if (cell->is_locally_owned())
          for (unsigned int k = 0; k < 4; ++k)
            s.m.constraints.distribute_local_to_global(local[k], ind, ref.block(k));
        for (unsigned int i = 0; i < nd; ++i)
          {
            std::vector<double> v(names.size(), 0.);
            for (unsigned int p = 0; p < q.size(); ++p)
              {
                const double w = gauss.shape_value(p, s.m.fe.get_unit_support_points()[i]);
                for (unsigned int f = 0; f < names.size(); ++f)
                  {
                    v[f] += w * at_q[p][f];
                    scale[f] = std::max(scale[f], std::abs(w * at_q[p][f]));
                  }
              }
            candidates[ind[i]].push_back(v);
          }
      }
  ref.compress(VectorOperation::add);
  // nodes at periodic boundaries have cells on both sides
  {
    std::map<types::global_dof_index, std::vector<std::vector<double>>> other;
    for (const auto &[i, v] : candidates)
      if (s.constrained(i))
        {
          const auto *entries = s.m.constraints.get_constraint_entries(i);
          if (entries->size() == 1 && (*entries)[0].second == 1.)
            for (const auto &x : v)
              other[(*entries)[0].first].push_back(x);
        }
    for (const auto &o : Utilities::MPI::all_gather(MPI_COMM_WORLD, other))
      for (const auto &[i, v] : o)
        for (const auto &x : v)
          candidates[i].push_back(x);
  }
  for (unsigned int k = 0; k < 4; ++k)
    for (const auto i : s.m.dof.locally_owned_dofs())
      if (!s.constrained(i))
        c.check(std::abs(div.block(k)[i] - ref.block(k)[i]) <= 1e-9 * div_scale[k] + 1e-14, "divergence ", k, " of a flux is ", div.block(k)[i], " instead of ", ref.block(k)[i]);
      else
        c.check(div.block(k)[i] == 0., "divergence at a constrained node is ", div.block(k)[i]);

  // the fields as written
  const bool with_div = c.s.coin(0.3);
  if (with_div)
    {
      post.add_data_vectors(data_out, div, {});
      for (const std::string x : {"div_vol", "div_vap", "div_surf", "div_gb"})
        names.push_back(x);
    }
  if (names.empty())
    {
      c.label("nothing to write");
      return;
    }
  data_out.build_patches(s.m.mapping, s.m.fe.degree);
  auto got_names = data_out.names();
  c.require(got_names == names, "names of the fields: ", got_names.size(), " instead of ", names.size());
  const auto lex = FETools::hierarchic_to_lexicographic_numbering<dim>(s.m.fe.degree);
  auto       patch = data_out.patches().begin();
  std::map<types::global_dof_index, std::vector<double>> written;
  bool                                                   unique = true;
  for (const auto &cell : s.m.dof.active_cell_iterators())
    if (cell->is_locally_owned())
      {
        c.require(patch != data_out.patches().end(), "cells missing in the output");
        c.require(patch->vertices[0].distance(cell->vertex(0)) < 1e-10, "order of the cells in the output");
        cell->get_dof_indices(ind);
        for (unsigned int i = 0; i < nd; ++i)
          {
            std::vector<double> v;
            for (unsigned int f = 0; f < names.size(); ++f)
              v.push_back(patch->data(f, lex[i]));
            const auto it = written.find(ind[i]);
            if (it != written.end())
              unique &= it->second == v;
            written[ind[i]] = v;
          }
        ++patch;
      }
  c.check(unique, "a node has different values in adjacent cells");
  unsigned int n_constrained = 0;
  for (const auto &[i, v] : written)
    if (!s.constrained(i))
      for (unsigned int f = 0; f < scale.size(); ++f)
        {
          bool ok = false;
          for (const auto &x : candidates[i])
            ok |= std::abs(x[f] - v[f]) <= 1e-7 * std::abs(x[f]) + 1e-11 * scale[f] + 1e-14; // written in single precision
          c.check(ok, "field ", names[f], " at node ", i, " is ", v[f], ", not a value of one of its ", candidates[i].size(), " cells, e.g. ", candidates[i][0][f]);
        }
    else
      {
        ++n_constrained;
        // interpolated from other nodes, if these are visible here
        const auto *entries = s.m.constraints.get_constraint_entries(i);
        bool        visible = true;
        for (const auto &[k, w] : *entries)
          visible &= written.count(k) > 0;
        if (visible)
          for (unsigned int f = 0; f < scale.size(); ++f)
            {
              double x = 0;
              for (const auto &[k, w] : *entries)
                x += w * written[k][f];
              c.check(std::abs(x - v[f]) <= 3e-7 * scale[f] + 1e-14, "field ", names[f], " at a constrained node is ", v[f], " instead of ", x);
            }
      }
  if (with_div)
    for (const auto &[i, v] : written)
      if (s.m.dof.locally_owned_dofs().is_element(i))
        for (unsigned int k = 0; k < 4; ++k)
          c.check(v[scale.size() + k] == static_cast<float>(div.block(k)[i]), "written divergence ", k, " is ", v[scale.size() + k], " instead of ", div.block(k)[i]);
  c.label("constrained nodes", n_constrained > 0);
  c.nontrivial = ng > 1 && list.size() > 0;
}
