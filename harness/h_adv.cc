// Forces, torques and velocities of grains moving as rigid bodies.
#include <pf-applications/sintering/cfl_checker.h>
#include <pf-applications/sintering/operator_advection.h>
#include <pf-applications/sintering/operator_sintering_generic.h>
#include <pf-applications/sintering/residual_wrapper.h>

#include <pf-applications/time_integration/time_integrators.h>

#include "mesh.h"

#ifndef OPDIM
#  define OPDIM 2
#endif

using namespace dealii;
using namespace hpsint;
using namespace Sintering;
using namespace pbtmesh;
using VA = VectorizedArray<double>;

namespace
{
  constexpr int dim = OPDIM;
  using Data        = SinteringOperatorData<dim, VA>;
  using Op          = SinteringOperatorGeneric<dim, double, VA>;
  using Adv         = AdvectionMechanism<dim, double, VA>;
  using Trk         = GrainTracker::Tracker<dim, double>;
  using T1          = Tensor<1, dim>;
  constexpr unsigned int nt = dim == 3 ? 3 : 1;

  struct Quiet
  {
    std::ostringstream sink;
    std::streambuf    *old;
    Quiet()
      : old(std::cout.rdbuf(sink.rdbuf()))
    {}
    ~Quiet()
    {
      std::cout.rdbuf(old);
    }
  };

  struct Blob
  {
    unsigned int op;
    Point<dim>   p;
    double       r, w;
  };

  struct Case
  {
    Mesh<dim>                m;
    unsigned int             n_op;
    std::vector<Blob>        blobs;
    BV                       sol;
    std::unique_ptr<Data>    data;
    std::unique_ptr<Trk>     trk;
    std::unique_ptr<Adv>     adv;
    bool                     weighted, cut_off;
    double                   k, cgb, ceq, smooth, mt, mr;
    std::unique_ptr<AdvectionOperator<double>> op;
    double                   thr = 0.01;

    static MeshOptions
    opts()
    {
      MeshOptions o;
      o.max_cells = dim == 2 ? 200 : 120;
      o.min_ref   = dim == 2 ? 2 : 1;
      o.max_ref   = dim == 2 ? 3 : 2;
      return o;
    }

    void
    fill_state(pbt::Case &c, BV &v, const double noise)
    {
      for (unsigned int b = 0; b < n_op + 2; ++b)
        {
          const std::uint64_t key = c.s.draw(1ull << 40);
          m.fill(v.block(b), [&](const Point<dim> &p) {
            std::uint64_t h = key;
            for (unsigned int d = 0; d < dim; ++d)
              h = pbt::mix(h ^ static_cast<std::uint64_t>(std::llround((p[d] + 10.) * 1e7)));
            const double x = hash01(h);
            double       s = 0;
            for (const auto &B : blobs)
              if (b < 2 || B.op == b - 2)
                {
                  const double dist = p.distance(B.p);
                  double       y    = dist < B.r ? 1. : (dist < B.r + B.w ? 1. - (dist - B.r) / B.w : 0.);
                  s                 = std::max(s, y);
                }
            if (b == 1)
              return 2 * x - 1;
            return s > 0 ? s * (1 - noise * x) : 0.;
          });
          m.constraints.distribute(v.block(b));
        }
    }

    Case(pbt::Case &c)
      : m(c, 1, 2, opts())
    {
      n_op                       = c.s.range(1, MAX_SINTERING_GRAINS);
      const unsigned int n_blobs = c.s.range(1, dim == 2 ? 6 : 4);
      const double       L       = (m.hi - m.lo).norm();
      for (unsigned int i = 0; i < n_blobs; ++i)
        {
          Blob B;
          B.op = i < n_op ? i : c.s.draw(n_op);
          for (unsigned int d = 0; d < dim; ++d)
            B.p[d] = c.s.generic(m.lo[d], m.hi[d]);
          B.r = c.s.generic(0.08, 0.3) * L;
          B.w = c.s.generic(0.05, 0.3) * L;
          blobs.push_back(B);
        }
      data = std::make_unique<Data>(c.s.logreal(0.1, 10), c.s.logreal(0.1, 10), std::make_shared<ProviderAbstract>(1., 0.1, 2., 3., 1.5),
                                    TimeIntegration::TimeIntegratorData<double>(std::make_unique<TimeIntegration::BDF1Scheme<double>>()));
      data->time_data.update_dt(c.s.logreal(0.1, 10));
      data->set_n_components(n_op + 2);
      sol = m.vector(n_op + 2);
      fill_state(c, sol, c.s.pick(std::vector<double>{0., 0.1, 0.5}));

      cut_off = c.s.coin(0.4);
      sol.update_ghost_values();
      Quiet q;
      trk = std::make_unique<Trk>(m.dof, m.tria, false, true, false, 100, GrainTracker::GrainRepresentation::spherical, thr, 2 * thr, 0.05, 0., 2, false, false, false);
      trk->initial_setup(sol, n_op, true);
      sol.zero_out_ghost_values();
      if (cut_off)
        data->set_component_mask(m.mf, sol, false, false, c.s.pick(std::vector<double>{0., 1e-5}));
      weighted = c.s.coin(0.4);
      k        = c.s.coin(0.1) ? 0. : c.s.logreal(0.1, 100);
      cgb      = c.s.coin(0.4) ? c.s.pick(std::vector<double>{0., -1.}) : c.s.generic(0.02, 0.3);
      smooth   = c.s.coin(0.4) ? c.s.pick(std::vector<double>{0., -1.}) : c.s.logreal(1, 200);
      ceq      = c.s.generic(0., 1.5);
      mt       = c.s.coin(0.15) ? 0. : c.s.logreal(0.1, 10);
      mr       = c.s.coin(0.15) ? 0. : c.s.logreal(0.1, 10);
      adv      = std::make_unique<Adv>(true, mt, mr);
      if (weighted)
        op = std::make_unique<AdvectionOperatorWeighted<dim, double, VA>>(k, cgb, ceq, smooth, m.mf, *data, *trk, *adv);
      else
        op = std::make_unique<AdvectionOperatorGeneric<dim, double, VA>>(k, cgb, ceq, smooth, m.mf, *data, *trk, *adv);
      c.desc << "fields=" << n_op << " grains=" << trk->get_grains().size() << " segments=" << trk->n_segments() << (weighted ? " weighted" : " generic") << (cut_off ? " cut-off" : "") << " k=" << k
             << " cgb=" << cgb << " s=" << smooth << " ceq=" << ceq << " ";
      c.label(weighted ? "weighted" : "generic");
      c.label("cut-off", cut_off);
      c.label("filter: product", cgb <= 0);
      c.label("filter: sigmoid", cgb > 0 && smooth > 0);
      c.label("filter: step", cgb > 0 && smooth <= 0);
    }

    // segment of a cell and order parameter: (global index, grain, segment)
    bool
    segment(const unsigned int g, const unsigned int cell, unsigned int &index, Point<dim> &rc) const
    {
      const auto pid = trk->get_particle_index(g, cell);
      if (pid == numbers::invalid_unsigned_int)
        return false;
      const auto [gid, sid] = trk->get_grain_and_segment(g, pid);
      if (gid == numbers::invalid_unsigned_int)
        return false;
      index = trk->get_grain_segment_index(gid, sid);
      rc    = trk->get_grains().at(gid).get_segments()[sid].get_center();
      return true;
    }

    struct Oracle
    {
      std::vector<std::vector<double>> val, tol; // volume, force, torque
      bool                             ambiguous = false;
    };

    Oracle
    forces(const BV &state) const
    {
      const unsigned int n_seg  = trk->n_segments();
      const unsigned int ncomp  = 1 + dim + nt;
      std::vector<double> v(n_seg * ncomp), t(n_seg * ncomp);
      std::vector<double> pf(n_seg * n_seg * (dim + 1)), pt(n_seg * n_seg * (dim + 1));
      std::vector<Block>  s;
      for (unsigned int b = 0; b < n_op + 2; ++b)
        s.push_back(m.ghosted(state.block(b)));
      for (auto &x : s)
        x.update_ghost_values();
      const QGauss<dim> quad(2);
      FEValues<dim>     fv(m.mapping, m.fe, quad, update_values | update_gradients | update_quadrature_points | update_JxW_values);
      std::vector<std::vector<double>> val(n_op + 2, std::vector<double>(quad.size()));
      std::vector<std::vector<T1>>     grad(n_op + 2, std::vector<T1>(quad.size()));
      for (const auto &cell : m.dof.active_cell_iterators())
        if (cell->is_locally_owned())
          {
            fv.reinit(cell);
            for (unsigned int b = 0; b < n_op + 2; ++b)
              {
                fv.get_function_values(s[b], val[b]);
                fv.get_function_gradients(s[b], grad[b]);
              }
            for (unsigned int i = 0; i < n_op; ++i)
              {
                unsigned int si = 0;
                Point<dim>   rc;
                if (!segment(i, cell->global_active_cell_index(), si, rc))
                  continue;
                for (unsigned int q = 0; q < quad.size(); ++q)
                  {
                    const double w = fv.JxW(q);
                    v[si * ncomp] += w * val[2 + i][q];
                    t[si * ncomp] += w * std::abs(val[2 + i][q]);
                    for (unsigned int j = 0; j < n_op; ++j)
                      if (j != i)
                        {
                          const double prod   = val[2 + i][q] * val[2 + j][q];
                          double       filter = 4. * prod;
                          bool         amb    = false;
                          if (cgb > 0)
                            {
                              if (smooth > 0)
                                filter = 1. / (1. + std::exp(-smooth * (prod - cgb)));
                              else
                                {
                                  filter = prod > cgb;
                                  amb    = std::abs(prod - cgb) < 1e-11;
                                }
                            }
                          const T1 dir = k * (val[0][q] - ceq) * (grad[2 + i][q] - grad[2 + j][q]);
                          // cells in which one of the grains is absent are skipped
                          // under cut-off: a smooth filter is not zero there
                          if (cut_off && cgb > 0 && smooth > 0 && !relevant(cell, i, j))
                            continue;
                          const T1     F   = filter * dir;
                          const T1     r   = fv.quadrature_point(q) - rc;
                          const double tol = (amb ? 1. : 1e-12) * dir.norm() * w;
                          for (unsigned int d = 0; d < dim; ++d)
                            {
                              v[si * ncomp + 1 + d] += F[d] * w;
                              t[si * ncomp + 1 + d] += tol;
                            }
                          if (dim == 2)
                            {
                              v[si * ncomp + 3] += (r[0] * F[1] - r[1] * F[0]) * w;
                              t[si * ncomp + 3] += tol * r.norm();
                            }
                          else
                            for (unsigned int d = 0; d < 3; ++d)
                              {
                                v[si * ncomp + 1 + dim + d] += (r[(d + 1) % 3] * F[(d + 2) % 3] - r[(d + 2) % 3] * F[(d + 1) % 3]) * w;
                                t[si * ncomp + 1 + dim + d] += tol * r.norm();
                              }
                          unsigned int sj;
                          Point<dim>   rj;
                          if (segment(j, cell->global_active_cell_index(), sj, rj))
                            {
                              double *p = &pf[(si * n_seg + sj) * (dim + 1)], *e = &pt[(si * n_seg + sj) * (dim + 1)];
                              for (unsigned int d = 0; d < dim; ++d)
                                p[d] += F[d] * w, e[d] += tol;
                              p[dim] += prod * w;
                              e[dim] += 1e-13 * std::abs(prod) * w;
                            }
                        }
                  }
              }
          }
      for (auto *x : {&v, &t, &pf, &pt})
        Utilities::MPI::sum(*x, MPI_COMM_WORLD, *x);
      Oracle o;
      for (unsigned int i = 0; i < n_seg; ++i)
        {
          o.val.emplace_back(v.begin() + i * ncomp, v.begin() + (i + 1) * ncomp);
          o.tol.emplace_back(t.begin() + i * ncomp, t.begin() + (i + 1) * ncomp);
          o.tol[i][0] *= 1e-12;
          if (weighted)
            {
              for (unsigned int d = 1; d < ncomp; ++d)
                o.val[i][d] = o.tol[i][d] = 0.;
              for (unsigned int j = 0; j < n_seg; ++j)
                {
                  const double *p = &pf[(i * n_seg + j) * (dim + 1)], *e = &pt[(i * n_seg + j) * (dim + 1)];
                  if (i != j)
                    {
                      o.ambiguous |= std::abs(std::abs(p[dim]) - 1e-10) < 1e-13;
                      if (std::abs(p[dim]) > 1e-10)
                        for (unsigned int d = 0; d < dim; ++d)
                          {
                            o.val[i][1 + d] += p[d] / p[dim];
                            o.tol[i][1 + d] += e[d] / std::abs(p[dim]) + std::abs(p[d]) * e[dim] / p[dim] / p[dim];
                          }
                    }
                }
            }
        }
      return o;
    }

    // cut-off: does the cell (batches are single cells here) contain both grains
    template <typename It>
    bool
    relevant(const It &cell, const unsigned int i, const unsigned int j) const
    {
      return mask.at(cell->id()).count(i) && mask.at(cell->id()).count(j);
    }
    std::map<CellId, std::set<unsigned int>> mask;

    void
    read_mask()
    {
      for (unsigned int cell = 0; cell < m.mf.n_cell_batches(); ++cell)
        for (unsigned int v = 0; v < m.mf.n_active_entries_per_cell_batch(cell); ++v)
          {
            auto &s = mask[m.mf.get_cell_iterator(cell, v)->id()];
            const auto rel = data->get_grain_to_relevant_grain(cell);
            for (unsigned int g = 0; g < n_op; ++g)
              if (rel[g] != 255)
                s.insert(g);
          }
    }
  };
} // namespace

PBT_PROPERTY(forces)
{
  Case s(c);
  if (s.trk->n_segments() == 0)
    throw pbt::Discard();
  s.read_mask();
  BV state = s.sol;
  if (c.s.coin(0.3)) // forces of an earlier state must not remain
    s.op->evaluate_forces(s.sol);
  if (c.s.coin(0.3) && !s.cut_off)
    s.fill_state(c, state, 0.7);
  const BV before = state;
  s.op->evaluate_forces(state);
  for (unsigned int b = 0; b < s.n_op + 2; ++b)
    for (const auto i : s.m.dof.locally_owned_dofs())
      c.check(state.block(b)[i] == before.block(b)[i], "the state was changed");
  const auto o = s.forces(state);
  if (o.ambiguous)
    throw pbt::Discard();
  const unsigned int n_seg = s.trk->n_segments();
  c.require(s.adv->get_grains_data().size() == n_seg * (1 + dim + nt), "size of the grain data");
  unsigned int pulled = 0;
  for (unsigned int i = 0; i < n_seg; ++i)
    {
      for (unsigned int d = 0; d < 1 + dim + nt; ++d)
        {
          const double got = s.adv->grain_data(i)[d];
          c.check(std::abs(got - o.val[i][d]) <= o.tol[i][d] + 1e-14, d == 0 ? "volume" : (d <= dim ? "force" : "torque"), " of segment ", i, " component ", d, ": ", got, " instead of ", o.val[i][d]);
          pulled += d > 0 && std::abs(o.val[i][d]) > 1e-8;
        }
      const auto   v = s.adv->get_translation_velocity_for_grain(i);
      for (unsigned int d = 0; d < dim; ++d)
        {
          const double want = s.mt * s.adv->grain_data(i)[1 + d] / s.adv->grain_data(i)[0];
          c.check(std::abs(v[d] - want) <= 1e-12 * std::abs(want), "translation velocity of segment ", i, ": ", v[d], " instead of ", want);
        }
    }
  c.nontrivial = pulled > 0;
  c.label("several segments per field", n_seg > s.n_op);
  if (!c.errors.empty())
    return;

  // velocities in the cells
  std::set<CellId> reached;
  AdvectionVelocityData<dim, double, VA> vel(*s.adv, *s.data);
  FECellIntegrator<dim, 1, double, VA>   phi(s.m.mf);
  double                                 worst = 0;
  for (unsigned int cell = 0; cell < s.m.mf.n_cell_batches(); ++cell)
    {
      vel.reinit(cell);
      phi.reinit(cell);
      for (unsigned int v = 0; v < s.m.mf.n_active_entries_per_cell_batch(cell); ++v)
        {
          const auto it = s.m.mf.get_cell_iterator(cell, v);
          for (unsigned int g = 0; g < s.n_op; ++g)
            {
              unsigned int si;
              Point<dim>   rc;
              const bool   has = s.segment(g, it->global_active_cell_index(), si, rc);
              c.check(!has || s.mask.at(it->id()).count(g), "a grain is not relevant where it was detected");
              if (has && s.adv->grain_data(si)[0] <= 0)
                continue;
              c.check(vel.has_velocity(g) == has, "cell ", it->id().to_string(), ", order parameter ", g, has ? " does not move" : " moves");
              if (!c.errors.empty())
                return;
              if (!has)
                continue;
              for (unsigned int q = 0; q < phi.n_q_points; ++q)
                {
                  const auto   vq = phi.quadrature_point(q);
                  const auto   u  = vel.get_velocity(g, vq);
                  const double V  = s.adv->grain_data(si)[0];
                  T1           want, r;
                  for (unsigned int d = 0; d < dim; ++d)
                    {
                      r[d]    = vq[d][v] - rc[d];
                      want[d] = s.mt * s.adv->grain_data(si)[1 + d] / V;
                    }
                  const double *t = s.adv->grain_data(si) + 1 + dim;
                  T1            rot;
                  if (dim == 2)
                    {
                      rot[0] = -t[0] * r[1];
                      rot[1] = t[0] * r[0];
                    }
                  else
                    for (unsigned int d = 0; d < dim; ++d)
                      rot[d] = t[(d + 1) % 3] * r[(d + 2) % 3] - t[(d + 2) % 3] * r[(d + 1) % 3];
                  double tn = 0;
                  for (unsigned int d = 0; d < nt; ++d)
                    tn += std::abs(t[d]);
                  const double tol = 1e-12 * (want.norm() + s.mr / V * tn * ((s.m.hi - s.m.lo).norm() + rc.norm()));
                  want += s.mr / V * rot;
                  for (unsigned int d = 0; d < dim; ++d)
                    c.check(std::abs(u[d][v] - want[d]) <= tol, "velocity of order parameter ", g, " at ", T1(vq[0][v] == vq[0][v] ? r : r), " from the centre: ", u[d][v], " instead of ", want[d]);
                  worst = std::max(worst, want.norm() / it->diameter());
                }
            }
        }
    }
  if (!c.errors.empty())
    return;

  // Courant condition: no point moves further than its cell is wide
  CFLChecker<dim, double, VA> cfl(s.m.mf, *s.data, *s.adv);
  cfl.precompute_cell_diameters();
  worst = Utilities::MPI::max(worst, MPI_COMM_WORLD);
  if (worst > 1e-12)
    {
      c.check(cfl.check_courant(0.999 / worst), "step ", 0.999 / worst, " rejected with the fastest cell crossing rate ", worst);
      c.check(!cfl.check_courant(1.001 / worst), "step ", 1.001 / worst, " accepted with the fastest cell crossing rate ", worst);
      c.check(cfl.check_courant(c.s.logreal(1e-6, 0.9) / worst), "small step rejected");
      c.check(!cfl.check_courant(c.s.logreal(1.2, 1e6) / worst), "large step accepted");
      c.label("Courant condition");
    }
  else if (worst == 0)
    c.check(cfl.check_courant(1e10), "step rejected although nothing moves");

  // residuals are evaluated with the forces of their own state
  if (c.s.coin(0.3))
    {
      FreeEnergy<VA>                       fe(2., 3.);
      TimeIntegration::SolutionHistory<BV> history(2);
      unsigned int                         k = 0;
      history.apply([&](BV &v) {
        v = s.m.vector(s.n_op + 2);
        if (k++ > 0)
          s.fill_state(c, v, 0.5);
        v.update_ghost_values();
      });
      Op op = Op::create(s.m.mf, s.m.constraints, fe, *s.data, history, *s.adv, false, false);
      Adv adv2(true, s.mt, s.mr);
      Op  op2 = Op::create(s.m.mf, s.m.constraints, fe, *s.data, history, adv2, false, false);
      std::unique_ptr<AdvectionOperator<double>> other;
      if (s.weighted)
        other = std::make_unique<AdvectionOperatorWeighted<dim, double, VA>>(s.k, s.cgb, s.ceq, s.smooth, s.m.mf, *s.data, *s.trk, adv2);
      else
        other = std::make_unique<AdvectionOperatorGeneric<dim, double, VA>>(s.k, s.cgb, s.ceq, s.smooth, s.m.mf, *s.data, *s.trk, adv2);
      ResidualWrapperAdvection<double, Op, true>  wrapper(*s.op, op);
      NonLinearSolvers::ResidualWrapper<double>  &w = wrapper;
      for (unsigned int step = 0; step < 3; ++step)
        {
          BV x = s.sol, a = s.m.vector(s.n_op + 2), b = s.m.vector(s.n_op + 2);
          if (!s.cut_off)
            s.fill_state(c, x, 0.8);
          else
            x *= c.s.generic(0.3, 1.);
          x.update_ghost_values();
          other->evaluate_forces(x);
          if (c.s.coin())
            {
              w.evaluate_nonlinear_residual<2>(a, x);
              op2.evaluate_nonlinear_residual<2>(b, x);
            }
          else
            {
              w.evaluate_nonlinear_residual<1>(a, x);
              op2.evaluate_nonlinear_residual<1>(b, x);
            }
          for (unsigned int bl = 0; bl < s.n_op + 2; ++bl)
            for (const auto i : s.m.dof.locally_owned_dofs())
              c.check(std::abs(a.block(bl)[i] - b.block(bl)[i]) <= 1e-10 * (1 + std::abs(b.block(bl)[i])), "wrapped residual ", a.block(bl)[i], " instead of ", b.block(bl)[i]);
        }
      c.label("residual");
    }
}
