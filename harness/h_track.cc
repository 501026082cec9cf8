// Grain detection, stitching across processes, tracking and remapping.
#include <deal.II/base/conditional_ostream.h>
#include <deal.II/base/mpi.h>

#include <deal.II/distributed/tria.h>

#include <deal.II/dofs/dof_handler.h>
#include <deal.II/dofs/dof_tools.h>

#include <deal.II/fe/fe_q.h>

#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>

#include <pf-applications/grain_tracker/tracker.h>

#include "pbt.h"

using namespace dealii;
using namespace GrainTracker;

namespace
{
  using BV    = LinearAlgebra::distributed::DynamicBlockVector<double>;
  using Block = LinearAlgebra::distributed::Vector<double>;

  struct UnionFind
  {
    std::vector<unsigned int> p;
    explicit UnionFind(unsigned int n)
      : p(n)
    {
      std::iota(p.begin(), p.end(), 0u);
    }
    unsigned int
    find(unsigned int i)
    {
      while (p[i] != i)
        i = p[i] = p[p[i]];
      return i;
    }
    void
    join(unsigned int a, unsigned int b)
    {
      p[find(a)] = find(b);
    }
  };

  double
  hash01(std::uint64_t a)
  {
    return static_cast<double>(pbt::mix(a) >> 12) / static_cast<double>(1ull << 52);
  }

  // ---- a generated mesh -----------------------------------------------------
  template <int dim>
  struct Mesh
  {
    parallel::distributed::Triangulation<dim> tria;
    FE_Q<dim>                                 fe;
    DoFHandler<dim>                           dof;
    std::shared_ptr<Utilities::MPI::Partitioner> partitioner;
    std::array<double, dim>                   len;
    std::array<bool, dim>                     periodic;
    bool                                      uniform = true;
    double                                    h_max = 0, h_min = 1e300;

    Mesh(pbt::Case &c, const bool allow_adaptive, const bool allow_periodic)
      : tria(MPI_COMM_WORLD)
      , fe(1)
      , dof(tria)
    {
      std::vector<unsigned int> rep(dim);
      Point<dim>                p2;
      for (unsigned int d = 0; d < dim; ++d)
        {
          rep[d] = c.s.range(1, dim == 2 ? 3 : 2);
          len[d] = p2[d] = rep[d];
          periodic[d]    = false;
        }
      GridGenerator::subdivided_hyper_rectangle(tria, rep, Point<dim>(), p2, true);
      if (allow_periodic)
        {
          std::vector<GridTools::PeriodicFacePair<typename parallel::distributed::Triangulation<dim>::cell_iterator>> pairs;
          for (unsigned int d = 0; d < dim; ++d)
            if (c.s.coin(0.4))
              {
                periodic[d] = true;
                GridTools::collect_periodic_faces(tria, 2 * d, 2 * d + 1, d, pairs);
              }
          if (!pairs.empty())
            tria.add_periodicity(pairs);
        }
      tria.refine_global(dim == 2 ? c.s.range(1, 3) : c.s.range(1, 2));
      if (allow_adaptive)
        {
          const unsigned int n = c.s.draw(3);
          for (unsigned int k = 0; k < n; ++k)
            {
              Point<dim>   p;
              for (unsigned int d = 0; d < dim; ++d)
                p[d] = c.s.generic(0, len[d]);
              const double r = c.s.generic(0.2, 0.7);
              for (const auto &cell : tria.active_cell_iterators())
                if (cell->is_locally_owned() && cell->center().distance(p) < r && cell->level() < (dim == 2 ? 4 : 3))
                  cell->set_refine_flag();
              if (tria.n_global_active_cells() < (dim == 2 ? 700u : 600u))
                tria.execute_coarsening_and_refinement();
              else
                for (const auto &cell : tria.active_cell_iterators())
                  cell->clear_refine_flag();
            }
        }
      dof.distribute_dofs(fe);
      partitioner = std::make_shared<Utilities::MPI::Partitioner>(dof.locally_owned_dofs(),
                                                                  DoFTools::extract_locally_relevant_dofs(dof),
                                                                  MPI_COMM_WORLD);
      double a = 0, b = 1e300;
      for (const auto &cell : tria.active_cell_iterators())
        if (cell->is_locally_owned())
          {
            a = std::max(a, cell->extent_in_direction(0));
            b = std::min(b, cell->extent_in_direction(0));
          }
      h_max   = Utilities::MPI::max(a, MPI_COMM_WORLD);
      h_min   = Utilities::MPI::min(b, MPI_COMM_WORLD);
      uniform = h_max < 1.01 * h_min;
      c.desc << "dim=" << dim << " cells=" << tria.n_global_active_cells() << (uniform ? "" : " adaptive")
             << " periodic=";
      for (unsigned int d = 0; d < dim; ++d)
        c.desc << periodic[d];
      c.desc << " ";
    }

    BV
    vector(const unsigned int n) const
    {
      BV v(n);
      for (unsigned int b = 0; b < n; ++b)
        v.block(b).reinit(partitioner);
      v.collect_sizes();
      return v;
    }

    // set nodal values by position (independent of the partition)
    void
    fill(Block &v, const std::function<double(const Point<dim> &)> &f) const
    {
      v.zero_out_ghost_values();
      std::vector<types::global_dof_index> ind(fe.n_dofs_per_cell());
      for (const auto &cell : dof.active_cell_iterators())
        if (cell->is_locally_owned())
          {
            cell->get_dof_indices(ind);
            for (unsigned int i = 0; i < ind.size(); ++i)
              if (v.in_local_range(ind[i]))
                v[ind[i]] = f(cell->vertex(i));
          }
      v.update_ghost_values();
    }
  };

  // ---- all cells of all processes -------------------------------------------
  template <int dim>
  struct CellInfo
  {
    Point<dim>                lo, hi;
    int                       level;
    std::vector<double>       vmax;  // per order parameter
    std::vector<unsigned int> label; // particle index per order parameter
    Point<dim>
    center() const
    {
      return Point<dim>((lo + hi) / 2.);
    }
    double
    measure() const
    {
      double v = 1;
      for (unsigned int d = 0; d < dim; ++d)
        v *= hi[d] - lo[d];
      return v;
    }
    double
    diameter() const
    {
      return lo.distance(hi);
    }
  };

  template <int dim>
  std::vector<CellInfo<dim>>
  gather(const Mesh<dim> &m, const BV &solution, const unsigned int offset, const unsigned int n_op, const Tracker<dim, double> &t)
  {
    std::vector<double>                  out;
    Vector<double>                       values(m.fe.n_dofs_per_cell());
    for (const auto &cell : m.dof.active_cell_iterators())
      if (cell->is_locally_owned())
        {
          for (unsigned int d = 0; d < dim; ++d)
            out.push_back(cell->vertex(0)[d]);
          for (unsigned int d = 0; d < dim; ++d)
            out.push_back(cell->vertex(GeometryInfo<dim>::vertices_per_cell - 1)[d]);
          out.push_back(cell->level());
          for (unsigned int o = 0; o < n_op; ++o)
            {
              cell->get_dof_values(solution.block(offset + o), values);
              out.push_back(*std::max_element(values.begin(), values.end()));
              out.push_back(t.get_particle_index(o, cell->global_active_cell_index()));
            }
        }
    const auto                 all = Utilities::MPI::all_gather(MPI_COMM_WORLD, out);
    std::vector<CellInfo<dim>> res;
    for (const auto &v : all)
      for (std::size_t i = 0; i < v.size();)
        {
          CellInfo<dim> ci;
          for (unsigned int d = 0; d < dim; ++d)
            ci.lo[d] = v[i++];
          for (unsigned int d = 0; d < dim; ++d)
            ci.hi[d] = v[i++];
          ci.level = v[i++];
          for (unsigned int o = 0; o < n_op; ++o)
            {
              ci.vmax.push_back(v[i++]);
              ci.label.push_back(static_cast<unsigned int>(v[i++]));
            }
          res.push_back(ci);
        }
    return res;
  }

  // common part of a face with positive measure; shift applies to b
  template <int dim>
  bool
  share_face(const CellInfo<dim> &a, const CellInfo<dim> &b, const Tensor<1, dim> &shift = Tensor<1, dim>(), const int only_dir = -1)
  {
    int touching = -1;
    for (unsigned int d = 0; d < dim; ++d)
      {
        const double lo = std::max(a.lo[d], b.lo[d] + shift[d]), hi = std::min(a.hi[d], b.hi[d] + shift[d]);
        if (hi - lo < -1e-10)
          return false;
        if (hi - lo < 1e-10)
          {
            if (touching >= 0)
              return false;
            touching = d;
          }
      }
    return touching >= 0 && (only_dir < 0 || touching == only_dir);
  }

  template <int dim>
  std::string
  show(const CellInfo<dim> &c)
  {
    std::ostringstream ss;
    ss << "cell at " << c.center() << " level " << c.level;
    return ss.str();
  }

  template <int dim>
  struct Particle
  {
    Point<dim>                center;
    double                    measure = 0, radius = 0, vmax = -1e300;
    std::vector<unsigned int> cells;
    unsigned int              group = 0;
  };

  // oracle: particles per order parameter from the labels, with all checks of
  // the labels themselves
  template <int dim>
  std::vector<std::vector<Particle<dim>>>
  check_labels(pbt::Case &c, const Mesh<dim> &m, const std::vector<CellInfo<dim>> &cells, const unsigned int n_op, const double threshold)
  {
    const unsigned int n = cells.size();
    // face neighbors (direct, and those which the flooding may join: active
    // descendants of a neighbor of the same level)
    std::vector<std::pair<unsigned int, unsigned int>> strict, relaxed;
    std::array<std::vector<std::pair<unsigned int, unsigned int>>, dim> per;
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = 0; j < n; ++j)
        {
          if (j > i && share_face(cells[i], cells[j]))
            strict.emplace_back(i, j);
          if (cells[j].level > cells[i].level)
            {
              // j inside of the shifted box of i
              const auto   x = cells[j].center();
              int          out = 0;
              bool         near = true;
              for (unsigned int d = 0; d < dim; ++d)
                {
                  const double w = cells[i].hi[d] - cells[i].lo[d];
                  if (x[d] < cells[i].lo[d] || x[d] > cells[i].hi[d])
                    {
                      ++out;
                      near &= x[d] > cells[i].lo[d] - w && x[d] < cells[i].hi[d] + w;
                    }
                }
              if (near && out == 1)
                relaxed.emplace_back(i, j);
            }
          for (unsigned int d = 0; d < dim; ++d)
            if (m.periodic[d] && std::abs(cells[i].lo[d]) < 1e-10 && std::abs(cells[j].hi[d] - m.len[d]) < 1e-10)
              {
                Tensor<1, dim> s;
                s[d] = -m.len[d];
                if (share_face(cells[i], cells[j], s, d))
                  per[d].emplace_back(i, j);
              }
        }
    std::vector<std::vector<Particle<dim>>> res(n_op);
    for (unsigned int o = 0; o < n_op; ++o)
      {
        unsigned int n_p = 0;
        for (const auto &ci : cells)
          {
            const bool has = ci.vmax[o] > threshold;
            if (!c.check(has == (ci.label[o] != numbers::invalid_unsigned_int), show(ci), " with maximum ", ci.vmax[o], " on field ", o, has ? " is not part of a particle" : " is part of a particle"))
              return {};
            if (has)
              n_p = std::max(n_p, ci.label[o] + 1);
          }
        UnionFind us(n), ur(n);
        for (const auto &[i, j] : strict)
          if (cells[i].vmax[o] > threshold && cells[j].vmax[o] > threshold)
            {
              us.join(i, j);
              ur.join(i, j);
            }
        for (const auto &[i, j] : relaxed)
          if (cells[i].vmax[o] > threshold && cells[j].vmax[o] > threshold)
            ur.join(i, j);
        std::map<unsigned int, unsigned int> strict_label, label_relaxed;
        std::set<unsigned int>               used;
        for (unsigned int i = 0; i < n; ++i)
          if (cells[i].vmax[o] > threshold)
            {
              used.insert(cells[i].label[o]);
              const auto a = strict_label.emplace(us.find(i), cells[i].label[o]);
              if (!c.check(a.first->second == cells[i].label[o], "field ", o, ": face-connected cells have different labels, ", show(cells[i])))
                return {};
              const auto b = label_relaxed.emplace(cells[i].label[o], ur.find(i));
              if (!c.check(b.first->second == ur.find(i), "field ", o, ": separate regions have the same label, ", show(cells[i])))
                return {};
            }
        if (!c.check(used.size() == n_p, "field ", o, ": particle numbers are not contiguous"))
          return {};
        res[o].resize(n_p);
        for (unsigned int i = 0; i < n; ++i)
          if (cells[i].label[o] != numbers::invalid_unsigned_int)
            {
              auto &p = res[o][cells[i].label[o]];
              p.cells.push_back(i);
              p.measure += cells[i].measure();
              p.center += cells[i].measure() * cells[i].center();
              p.vmax = std::max(p.vmax, cells[i].vmax[o]);
            }
        UnionFind ug(n_p);
        for (auto &p : res[o])
          {
            p.center /= p.measure;
            for (const auto i : p.cells)
              p.radius = std::max(p.radius, p.center.distance(cells[i].center()) + cells[i].diameter() / 2.);
          }
        for (unsigned int d = 0; d < dim; ++d)
          for (const auto &[i, j] : per[d])
            if (cells[i].vmax[o] > threshold && cells[j].vmax[o] > threshold)
              ug.join(cells[i].label[o], cells[j].label[o]);
        for (unsigned int p = 0; p < n_p; ++p)
          res[o][p].group = ug.find(p);
      }
    return res;
  }

  // is there a particle whose cell centers lie on a line or plane
  template <int dim>
  bool
  has_thin_particle(const std::vector<CellInfo<dim>> &cells, const unsigned int n_op)
  {
    for (unsigned int o = 0; o < n_op; ++o)
      {
        std::map<unsigned int, std::vector<unsigned int>> parts;
        for (unsigned int i = 0; i < cells.size(); ++i)
          if (cells[i].label[o] != numbers::invalid_unsigned_int)
            parts[cells[i].label[o]].push_back(i);
        for (const auto &[k, list] : parts)
          {
            Point<dim> x;
            double     h = 0;
            for (const auto i : list)
              {
                x += cells[i].center() / static_cast<double>(list.size());
                h = std::max(h, cells[i].diameter());
              }
            SymmetricTensor<2, dim> I;
            for (const auto i : list)
              {
                const auto r = (cells[i].center() - x) / h;
                for (unsigned int a = 0; a < dim; ++a)
                  for (unsigned int b = a; b < dim; ++b)
                    I[a][b] += r[a] * r[b];
              }
            if (!(determinant(I) > 1e-9))
              return true;
          }
      }
    return false;
  }

  // grains of a tracker against the particles. Returns (op, particle)->grain
  template <int dim>
  std::map<std::pair<unsigned int, unsigned int>, unsigned int>
  check_grains(pbt::Case &c, const Tracker<dim, double> &t, const std::vector<std::vector<Particle<dim>>> &parts,
               const std::vector<CellInfo<dim>> &cells, const GrainRepresentation rep, const double threshold_new, const bool is_new)
  {
    std::map<std::pair<unsigned int, unsigned int>, unsigned int> res;
    const auto                                          &grains = t.get_grains();
    std::map<unsigned int, std::set<unsigned int>>       segs;
    std::map<unsigned int, std::set<std::pair<unsigned int, unsigned int>>> groups_of;
    std::set<unsigned int>                               seg_index;
    unsigned int                                         n_parts = 0, n_valid = 0;
    for (unsigned int o = 0; o < parts.size(); ++o)
      for (unsigned int p = 0; p < parts[o].size(); ++p)
        {
          ++n_parts;
          const auto &P        = parts[o][p];
          const auto [gid, sid] = t.get_grain_and_segment(o, p);
          if (gid == numbers::invalid_unsigned_int)
            {
              double gmax = -1e300;
              for (const auto &Q : parts[o])
                if (Q.group == P.group)
                  gmax = std::max(gmax, Q.vmax);
              c.check(!is_new && gmax <= threshold_new, "particle without a grain: field ", o, " at ", P.center, " maximum ", gmax);
              continue;
            }
          ++n_valid;
          const auto it = grains.find(gid);
          if (!c.check(it != grains.end(), "particle of field ", o, " at ", P.center, " belongs to the unknown grain ", gid))
            continue;
          const auto &G = it->second;
          res[{o, p}]   = gid;
          groups_of[gid].insert({o, P.group});
          c.check(G.get_grain_id() == gid, "id stored in grain ", gid);
          c.check(G.get_old_order_parameter_id() == o, "grain ", gid, " was found on field ", o, " but records field ", G.get_old_order_parameter_id());
          if (!c.check(sid < G.n_segments(), "segment number"))
            continue;
          c.check(segs[gid].insert(sid).second, "segment ", sid, " of grain ", gid, " twice");
          const auto &S = G.get_segments()[sid];
          c.check(S.get_center().distance(P.center) < 1e-8, "segment center ", S.get_center(), " instead of ", P.center);
          c.check(t.get_segment_center(gid, sid).distance(P.center) < 1e-8, "segment center via tracker");
          c.close(S.get_measure(), P.measure, 1e-9, 0, "segment measure");
          c.close(S.get_max_value(), P.vmax, 1e-12, 0, "segment maximum");
          if (rep != GrainRepresentation::elliptical)
            c.close(S.get_radius(), P.radius, 1e-9, 1e-9, "segment radius");
          else
            {
              // covers the particle
              std::vector<double> out;
              S.save(out);
              if (c.check(out.size() == 1 + dim + dim * dim + dim, "elliptical representation"))
                {
                  double rmax = 0;
                  bool   ok   = true;
                  for (unsigned int d = 0; d < dim; ++d)
                    {
                      ok &= std::isfinite(out[1 + dim + dim * dim + d]);
                      rmax = std::max(rmax, out[1 + dim + dim * dim + d]);
                    }
                  // degenerate shapes (one cell thick) have no ellipsoid
                  Point<dim> lo = cells[P.cells[0]].center(), hi = lo;
                  double     hm = 0;
                  for (const auto i : P.cells)
                    for (unsigned int d = 0; d < dim; ++d)
                      {
                        lo[d] = std::min(lo[d], cells[i].center()[d]);
                        hi[d] = std::max(hi[d], cells[i].center()[d]);
                        hm    = std::max(hm, cells[i].diameter());
                      }
                  bool thick = true;
                  for (unsigned int d = 0; d < dim; ++d)
                    thick &= hi[d] - lo[d] > 1e-8;
                  // collinear / coplanar center points have no inertia either
                  SymmetricTensor<2, dim> I;
                  for (const auto i : P.cells)
                    {
                      const auto r = cells[i].center() - P.center;
                      for (unsigned int a = 0; a < dim; ++a)
                        for (unsigned int b = a; b < dim; ++b)
                          I[a][b] += r[a] * r[b];
                    }
                  thick &= determinant(I) > 1e-9;
                  if (thick && c.check(ok, "elliptical radii of a particle at ", P.center, " of ", P.cells.size(), " cells are not finite"))
                    {
                      c.close(S.get_radius(), rmax, 1e-9, 0, "radius of an elliptical segment");
                      for (const auto i : P.cells)
                        {
                          double q = 0;
                          const auto x = cells[i].center() - P.center;
                          for (unsigned int d = 0; d < dim; ++d)
                            {
                              double s = 0;
                              for (unsigned int e = 0; e < dim; ++e)
                                s += x[e] * out[1 + dim + d * dim + e];
                              q += std::pow(s / out[1 + dim + dim * dim + d], 2);
                            }
                          c.check(q < 1 + 1e-6, "cell of the particle outside of its ellipsoid: ", show(cells[i]), " q = ", q);
                        }
                    }
                }
            }
          seg_index.insert(t.get_grain_segment_index(gid, sid));
          c.check(t.get_grain_segment_index(gid, sid) < t.n_segments(), "segment index out of range");
        }
    c.check(t.n_segments() == n_parts, "number of segments ", t.n_segments(), " expected ", n_parts);
    c.check(seg_index.size() == n_valid, "segments share a number");
    for (const auto &[gid, g] : groups_of)
      c.check(g.size() == 1, "grain ", gid, " consists of unconnected particles");
    std::map<std::pair<unsigned int, unsigned int>, unsigned int> owner;
    for (const auto &[gid, g] : groups_of)
      for (const auto &x : g)
        c.check(owner.emplace(x, gid).second, "connected particles belong to different grains, one is ", gid);
    for (const auto &[gid, G] : grains)
      {
        c.check(segs[gid].size() == G.n_segments(), "grain ", gid, " has segments without a particle");
        c.check(G.n_segments() > 0, "grain without segments");
      }
    c.check(t.empty() == grains.empty(), "empty");
    return res;
  }

  // ---- shapes ---------------------------------------------------------------
  template <int dim>
  struct Bump
  {
    Point<dim>   x;
    double       r, peak;
    unsigned int op;
  };

  // smooth bump, periodic images included
  template <int dim>
  double
  bump_value(const Mesh<dim> &m, const Bump<dim> &b, const Point<dim> &p)
  {
    double d2 = 0;
    for (unsigned int d = 0; d < dim; ++d)
      {
        double x = std::abs(p[d] - b.x[d]);
        if (m.periodic[d])
          {
            x = std::fmod(x, m.len[d]);
            x = std::min(x, m.len[d] - x);
          }
        d2 += x * x;
      }
    const double r = std::sqrt(d2);
    return r >= b.r ? 0. : b.peak * (1. - (r / b.r) * (r / b.r));
  }

  template <int dim>
  void
  detection(pbt::Case &c)
  {
    GrainRepresentation rep = static_cast<GrainRepresentation>(c.s.draw(3));
    Mesh<dim>          m(c, true, rep != GrainRepresentation::wavefront);
    const unsigned int n_op   = c.s.range(1, 3);
    const unsigned int offset = c.s.draw(3);
    const double       thr    = c.s.pick(std::vector<double>{0.01, 0.1, 0.3});
    auto               v      = m.vector(n_op + offset);
    const int          kind   = c.s.draw(3);
    c.desc << "n_op=" << n_op << " rep=" << static_cast<int>(rep) << " kind=" << kind << " ranks=" << Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD);
    for (unsigned int b = 0; b < offset; ++b)
      m.fill(v.block(b), [](const auto &) { return 1.; });
    for (unsigned int o = 0; o < n_op; ++o)
      {
        const std::uint64_t seed = c.s.draw(1u << 30);
        const double        dens = c.s.pick(std::vector<double>{0.03, 0.1, 0.2, 0.5});
        std::vector<Bump<dim>> bumps;
        if (kind > 0)
          for (unsigned int k = c.s.range(1, 6); k > 0; --k)
            {
              Bump<dim> b;
              for (unsigned int d = 0; d < dim; ++d)
                b.x[d] = c.s.real(0, m.len[d]);
              b.r    = c.s.generic(0.15, 0.7);
              b.peak = c.s.generic(0.2, 1.05);
              bumps.push_back(b);
            }
        m.fill(v.block(offset + o), [&](const Point<dim> &p) {
          double x = 0;
          for (const auto &b : bumps)
            x = std::max(x, bump_value(m, b, p));
          if (kind != 1)
            {
              std::uint64_t h = seed;
              for (unsigned int d = 0; d < dim; ++d)
                h = pbt::mix(h ^ static_cast<std::uint64_t>(std::llround(p[d] * 4096)));
              if (hash01(h) < dens)
                x = std::max(x, 0.05 + 0.9 * hash01(h + 1));
            }
          return x;
        });
      }
    const bool had_ghosts = c.s.coin(0.7);
    if (!had_ghosts)
      v.zero_out_ghost_values();
    // particles which are only one cell thick have no ellipsoid (known finding)
    if (rep == GrainRepresentation::elliptical)
      {
        Tracker<dim, double> s(m.dof, m.tria, false, true, false, 100, GrainRepresentation::spherical, thr, 2 * thr, 0.05, 0., offset, false, false, false);
        s.initial_setup(v, n_op, true);
        v.update_ghost_values();
        if (has_thin_particle(gather(m, v, offset, n_op, s), n_op))
          {
            rep = GrainRepresentation::spherical;
            if (Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD) == 1)
              {
                Tracker<dim, double> e(m.dof, m.tria, false, true, false, 100, GrainRepresentation::elliptical, thr, 2 * thr, 0.05, 0., offset, false, false, false);
                bool                 bad = false;
                try
                  {
                    e.initial_setup(v, n_op, true);
                    for (const auto &[gid, g] : e.get_grains())
                      for (const auto &seg : g.get_segments())
                        bad |= !std::isfinite(seg.get_radius());
                  }
                catch (const std::exception &)
                  {
                    bad = true;
                  }
                if (bad)
                  c.known.insert("thin-elliptical");
              }
          }
        if (!had_ghosts)
          v.zero_out_ghost_values();
      }
    Tracker<dim, double> t(m.dof, m.tria, false, true, false, 100, rep, thr, 2 * thr, 0.05, 0., offset, false, false, false);
    const auto           ret = t.initial_setup(v, n_op, true);
    c.check(std::get<0>(ret) == 0 && !std::get<1>(ret) && !std::get<2>(ret), "no reassignment requested");
    v.update_ghost_values();
    const auto cells = gather(m, v, offset, n_op, t);
    const auto parts = check_labels(c, m, cells, n_op, thr);
    if (!c.errors.empty())
      return;
    const auto map = check_grains(c, t, parts, cells, rep, 2 * thr, true);
    // numbering and active order parameters
    std::set<unsigned int> active;
    unsigned int           k = 0;
    for (const auto &[gid, g] : t.get_grains())
      {
        c.check(gid == k++, "grain ids are not contiguous");
        c.check(g.get_order_parameter_id() == g.get_old_order_parameter_id(), "order parameter changed");
        active.insert(g.get_order_parameter_id());
      }
    c.check(active == t.get_active_order_parameters(), "active order parameters");
    std::size_t n_parts = 0, multi = 0;
    for (const auto &p : parts)
      n_parts += p.size();
    for (const auto &[gid, g] : t.get_grains())
      multi += g.n_segments() > 1;
    // wavefront distances
    if (rep == GrainRepresentation::wavefront && m.uniform && Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD) == 1)
      {
        const unsigned int                     n = cells.size();
        std::vector<std::vector<unsigned int>> adj(n);
        for (unsigned int i = 0; i < n; ++i)
          for (unsigned int j = 0; j < n; ++j)
            if (i != j && share_face(cells[i], cells[j]))
              adj[i].push_back(j);
        for (unsigned int o = 0; o < n_op; ++o)
          for (unsigned int p = 0; p < parts[o].size(); ++p)
            {
              // shortest face path to any other particle of this field
              std::vector<int>         dist(n, -1);
              std::deque<unsigned int> q;
              for (const auto i : parts[o][p].cells)
                {
                  dist[i] = 0;
                  q.push_back(i);
                }
              double best = std::numeric_limits<double>::max();
              while (!q.empty())
                {
                  const auto i = q.front();
                  q.pop_front();
                  for (const auto j : adj[i])
                    if (dist[j] < 0)
                      {
                        dist[j] = dist[i] + 1;
                        q.push_back(j);
                        if (cells[j].label[o] != numbers::invalid_unsigned_int)
                          best = std::min(best, m.h_max * (dist[j] - 1));
                      }
                }
              const auto         &G = t.get_grains().at(map.at({o, p}));
              std::vector<double> out;
              G.get_segments()[t.get_grain_and_segment(o, p).second].save(out);
              c.check(out.size() == dim + 2, "wavefront representation");
              if (best < 1e100)
                c.close(out.back(), best / 2, 1e-9, 1e-9, "distance to the nearest particle of a wavefront segment");
            }
        c.label("wavefront distances", n_parts > 1);
      }
    // contact of particles on different fields
    if (rep == GrainRepresentation::wavefront && m.uniform)
      {
        std::set<std::pair<unsigned int, unsigned int>> contacts;
        for (unsigned int i = 0; i < cells.size(); ++i)
          for (unsigned int j = 0; j < cells.size(); ++j)
            if (i == j || share_face(cells[i], cells[j]))
              for (unsigned int o = 0; o < n_op; ++o)
                for (unsigned int oo = 0; oo < n_op; ++oo)
                  if (o != oo && cells[i].label[o] != numbers::invalid_unsigned_int && cells[j].label[oo] != numbers::invalid_unsigned_int)
                    contacts.emplace(map.at({o, cells[i].label[o]}), map.at({oo, cells[j].label[oo]}));
        for (const auto &[ga, A] : t.get_grains())
          for (const auto &[gb, B] : t.get_grains())
            if (A.get_order_parameter_id() != B.get_order_parameter_id())
              {
                const bool   touch = contacts.count({ga, gb});
                const double d     = A.distance(B);
                c.check(touch == (d == 0.), "grains ", ga, " and ", gb, " of different fields ", touch ? "touch" : "do not touch", ", distance ", d);
              }
        c.label("contacts", !contacts.empty());
      }
    c.label("adaptive", !m.uniform);
    c.label("several segments", multi > 0);
    c.label("empty", n_parts == 0);
    c.label("rep" + std::to_string(static_cast<int>(rep)));
    c.nontrivial = n_parts > 1;
  }
} // namespace

PBT_PROPERTY(detection)
{
  if (c.s.coin(0.3))
    detection<3>(c);
  else
    detection<2>(c);
}

// Particles with very many cells on one process
PBT_PROPERTY(large)
{
  constexpr unsigned int                    dim = 2;
  parallel::distributed::Triangulation<dim> tria(MPI_COMM_WORLD);
  GridGenerator::hyper_cube(tria);
  const unsigned int level = c.s.range(3, 9), n = 1u << level;
  tria.refine_global(level);
  FE_Q<dim>       fe(1);
  DoFHandler<dim> dof(tria);
  dof.distribute_dofs(fe);
  // walls of void between particles, in units of cells
  std::vector<unsigned int> walls;
  const unsigned int        n_walls = c.s.range(0, 3);
  for (unsigned int k = 0; k < n_walls; ++k)
    walls.push_back(c.s.range(1, n - 1));
  std::sort(walls.begin(), walls.end());
  const bool vertical = c.s.coin();
  BV         v(1);
  v.block(0).reinit(std::make_shared<Utilities::MPI::Partitioner>(dof.locally_owned_dofs(), DoFTools::extract_locally_relevant_dofs(dof), MPI_COMM_WORLD));
  v.collect_sizes();
  std::vector<types::global_dof_index> ind(4);
  for (const auto &cell : dof.active_cell_iterators())
    if (cell->is_locally_owned())
      {
        cell->get_dof_indices(ind);
        for (unsigned int i = 0; i < 4; ++i)
          if (v.block(0).in_local_range(ind[i]))
            {
              const double x = cell->vertex(i)[vertical];
              double       y = 1;
              for (const auto w : walls)
                if (std::abs(x * n - w) < 1.2)
                  y = 0;
              v.block(0)[ind[i]] = y;
            }
      }
  v.update_ghost_values();
  // cells with any material; a wall of void nodes w-1..w+1 empties two cells
  std::vector<bool> full(n, true);
  std::vector<bool> node(n + 1, true);
  for (const auto w : walls)
    for (int k = -1; k <= 1; ++k)
      if (int(w) + k >= 0 && w + k <= n)
        node[w + k] = false;
  for (unsigned int i = 0; i < n; ++i)
    full[i] = node[i] || node[i + 1];
  std::multiset<long> want, got;
  for (unsigned int i = 0; i < n;)
    {
      unsigned int k = i;
      while (k < n && full[k])
        ++k;
      if (k > i)
        want.insert(long(k - i));
      i = std::max(k, i + 1);
    }
  const auto           rep = c.s.coin(0.3) ? GrainRepresentation::wavefront : GrainRepresentation::spherical;
  Tracker<dim, double> t(dof, tria, false, true, false, 100, rep, 0.01, 0.02, 0.05, 0., 0, false, false, false);
  t.initial_setup(v, 1, true);
  for (const auto &[id, g] : t.get_grains())
    for (const auto &s : g.get_segments())
      {
        (void)s;
        got.insert(std::lround(g.get_measure() * n));
      }
  c.check(got == want, got.size(), " particles instead of ", want.size(), ", or other volumes, on ", n * n, " cells");
  c.desc << "cells=" << n * n << " walls=" << walls.size() << " ";
  c.label("more than 50000 cells", n * n > 50000);
  c.nontrivial = n * n > 10000;
}

PBT_PROPERTY(stitching)
{
  const unsigned int n_ranks = Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD);
  const unsigned int rank    = Utilities::MPI::this_mpi_process(MPI_COMM_WORLD);
  std::vector<unsigned int> n(n_ranks), start(n_ranks + 1, 0);
  for (unsigned int r = 0; r < n_ranks; ++r)
    {
      n[r]         = c.s.range(0, 8);
      start[r + 1] = start[r] + n[r];
    }
  const unsigned int N = start[n_ranks];
  auto owner = [&](const unsigned int g) {
    return static_cast<unsigned int>(std::upper_bound(start.begin(), start.end(), g) - start.begin() - 1);
  };
  std::set<std::pair<unsigned int, unsigned int>> edges;
  const unsigned int m = c.s.draw(2 * N + 1);
  UnionFind          uf(N);
  for (unsigned int k = 0; k < m; ++k)
    {
      const unsigned int a = c.s.draw(N), b = c.s.draw(N);
      if (owner(a) == owner(b))
        continue;
      edges.emplace(a, b);
      edges.emplace(b, a);
      uf.join(a, b);
    }
  for (const auto &[a, b] : edges)
    if (a < b)
      c.desc << a << "-" << b << " ";
  std::vector<std::vector<std::tuple<unsigned int, unsigned int>>> input(n[rank]);
  for (const auto &[a, b] : edges)
    if (owner(a) == rank)
      input[a - start[rank]].emplace_back(owner(b), b);
  for (int variant = 0; variant < 2; ++variant)
    {
      const auto ids = variant == 0 ? perform_distributed_stitching(MPI_COMM_WORLD, input) :
                                      perform_distributed_stitching_via_graph(MPI_COMM_WORLD, input);
      c.check(ids.size() == n[rank], "one id per local particle");
      const unsigned int total = number_of_stitched_particles(ids, MPI_COMM_WORLD);
      const auto         all   = Utilities::MPI::all_gather(MPI_COMM_WORLD, ids);
      std::vector<unsigned int> g;
      for (const auto &x : all)
        g.insert(g.end(), x.begin(), x.end());
      if (!c.check(g.size() == N, "number of particles"))
        return;
      std::map<unsigned int, unsigned int> root_to_id;
      std::set<unsigned int>               used;
      for (unsigned int i = 0; i < N; ++i)
        {
          const auto it = root_to_id.emplace(uf.find(i), g[i]);
          c.check(it.first->second == g[i], "variant ", variant, ": connected particles have different ids");
          if (it.second)
            c.check(used.insert(g[i]).second, "variant ", variant, ": separate particles share the id ", g[i]);
        }
      c.check(used.empty() || *used.rbegin() + 1 == used.size(), "variant ", variant, ": ids are not contiguous");
      c.check(total == used.size(), "variant ", variant, ": number of stitched particles ", total, " expected ", used.size());
    }
  // local connected components
  {
    std::vector<std::tuple<unsigned int, unsigned int>> e;
    for (const auto &[a, b] : edges)
      e.emplace_back(a, b);
    if (N > 0)
      {
        const auto comp = connected_components(N, e);
        for (unsigned int i = 0; i < N; ++i)
          for (unsigned int j = 0; j < i; ++j)
            c.check((comp[i] == comp[j]) == (uf.find(i) == uf.find(j)), "connected components");
      }
  }
  c.nontrivial = n_ranks == 1 ? N > 0 : edges.size() > 4;
}

// ---- tracking and remapping over a history ----------------------------------
namespace
{
  enum class Focus
  {
    tracking,
    remapping
  };

  // one string per rank, equal on all ranks?
  bool
  same_on_all(const std::string &s)
  {
    const auto all = Utilities::MPI::all_gather(MPI_COMM_WORLD, s);
    for (const auto &x : all)
      if (x != all[0])
        return false;
    return true;
  }

  template <int dim>
  std::string
  state_string(const Tracker<dim, double> &t)
  {
    std::ostringstream ss;
    ss << std::setprecision(17);
    for (const auto &[gid, g] : t.get_grains())
      {
        ss << gid << " " << g.get_grain_id() << " " << g.get_order_parameter_id() << " " << g.get_old_order_parameter_id() << " "
           << g.get_max_radius() << " " << g.get_max_value() << " " << g.get_measure() << " " << g.get_dynamics() << " " << g.n_segments() << ";";
      }
    for (const auto a : t.get_active_order_parameters())
      ss << " " << a;
    return ss.str();
  }

  // dof indices and labels of all cells, values of all dofs of all blocks
  template <int dim>
  struct Snapshot
  {
    std::vector<std::vector<types::global_dof_index>> dofs;
    std::vector<std::vector<unsigned int>>            label; // cell, op
    std::vector<Point<dim>>                           center;
    std::vector<std::vector<double>>                  values; // block, dof

    std::vector<std::vector<unsigned int>> cells_of; // dof -> cells
  };

  std::vector<std::vector<double>>
  all_values(const BV &v)
  {
    std::vector<std::vector<double>> res(v.n_blocks());
    for (unsigned int b = 0; b < v.n_blocks(); ++b)
      {
        std::vector<double> mine(v.block(b).begin(), v.block(b).end());
        for (const auto &x : Utilities::MPI::all_gather(MPI_COMM_WORLD, mine))
          res[b].insert(res[b].end(), x.begin(), x.end());
      }
    return res;
  }

  template <int dim>
  Snapshot<dim>
  snapshot(const Mesh<dim> &m, const unsigned int n_op, const Tracker<dim, double> &t)
  {
    Snapshot<dim>              s;
    std::vector<double>        out;
    std::vector<types::global_dof_index> ind(m.fe.n_dofs_per_cell());
    for (const auto &cell : m.dof.active_cell_iterators())
      if (cell->is_locally_owned())
        {
          cell->get_dof_indices(ind);
          for (const auto i : ind)
            out.push_back(i);
          for (unsigned int d = 0; d < dim; ++d)
            out.push_back(cell->barycenter()[d]);
          for (unsigned int o = 0; o < n_op; ++o)
            {
              const auto p = t.get_particle_index(o, cell->global_active_cell_index());
              // grain id or invalid
              out.push_back(p == numbers::invalid_unsigned_int ? p : t.get_grain_and_segment(o, p).first);
            }
        }
    s.cells_of.resize(m.dof.n_dofs());
    for (const auto &v : Utilities::MPI::all_gather(MPI_COMM_WORLD, out))
      for (std::size_t i = 0; i < v.size();)
        {
          s.dofs.emplace_back();
          s.label.emplace_back();
          for (unsigned int k = 0; k < ind.size(); ++k)
            {
              s.dofs.back().push_back(v[i++]);
              s.cells_of[s.dofs.back().back()].push_back(s.dofs.size() - 1);
            }
          s.center.emplace_back();
          for (unsigned int d = 0; d < dim; ++d)
            s.center.back()[d] = v[i++];
          for (unsigned int o = 0; o < n_op; ++o)
            s.label.back().push_back(v[i++]);
        }
    return s;
  }

  template <int dim>
  void
  history(pbt::Case &c, const Focus focus)
  {
    const bool                   tr  = focus == Focus::tracking;
    const unsigned int           inv = numbers::invalid_unsigned_int;
    const unsigned int           np  = Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD);
    const unsigned int           repk = c.s.draw(6);
    GrainRepresentation          rep  = repk < 4 ? GrainRepresentation::spherical : repk == 4 ? GrainRepresentation::elliptical : GrainRepresentation::wavefront;
    const bool                   old_remap = focus == Focus::remapping && rep == GrainRepresentation::spherical && c.s.coin(0.25);
    Mesh<dim>                    m(c, true, rep != GrainRepresentation::wavefront && !old_remap);
    unsigned int                 n_op   = c.s.range(1, 4);
    const unsigned int           offset = c.s.draw(3);
    const double                 thr     = c.s.pick(std::vector<double>{0.01, 0.05, 0.2});
    const double                 thr_new = thr * c.s.pick(std::vector<double>{1., 2., 3.});
    const double                 ratio   = c.s.pick(std::vector<double>{0., 0.05, 0.2});
    const double                 fixed   = rep == GrainRepresentation::spherical ? c.s.pick(std::vector<double>{0.01, 0.1, m.uniform ? 0.1 : 2 * m.h_max}) : 3 * m.h_max;
    const bool                   greedy = c.s.coin(0.4), fast = c.s.coin(0.5), allow_new = c.s.coin(0.7);
    const unsigned int           max_op = c.s.coin(0.85) ? 100 : c.s.range(1, 4);
    c.desc << "rep=" << static_cast<int>(rep) << (old_remap ? " old" : "") << " n_op=" << n_op << " offset=" << offset << " thr=" << thr << "/" << thr_new
           << " buffer=" << ratio << "," << fixed << (greedy ? " greedy" : "") << (fast ? " fast" : "") << (allow_new ? " new" : "") << " max_op=" << max_op
           << " ranks=" << np << "; ";

    auto make = [&](const GrainRepresentation r) {
      return std::make_shared<Tracker<dim, double>>(
        m.dof, m.tria, greedy, allow_new, fast, max_op, r, thr, thr_new, ratio, fixed, offset, false, false, old_remap);
    };

    struct B : public Bump<dim>
    {
      bool tracked = false;
    };
    std::vector<B> bumps;
    auto           new_bump = [&]() {
      B b;
      for (unsigned int d = 0; d < dim; ++d)
        b.x[d] = c.s.real(0, m.len[d]);
      b.r    = c.s.generic(0.2, 0.6);
      b.peak = c.s.coin(0.9) ? c.s.generic(0.5, 1.) : c.s.generic(0.5 * thr, 1.5 * thr_new);
      b.op   = c.s.draw(n_op);
      return b;
    };
    for (unsigned int k = c.s.range(1, 9); k > 0; --k)
      bumps.push_back(new_bump());

    auto fields = [&]() {
      auto v = m.vector(n_op + offset);
      for (unsigned int b = 0; b < offset; ++b)
        m.fill(v.block(b), [&](const Point<dim> &p) { return 1. + b + p[0]; });
      for (unsigned int o = 0; o < n_op; ++o)
        m.fill(v.block(offset + o), [&](const Point<dim> &p) {
          double x = 0;
          for (const auto &b : bumps)
            if (b.op == o)
              x = std::max(x, bump_value(m, b, p));
          return x;
        });
      return v;
    };

    auto         tracker  = make(rep);
    bool         started  = false;
    unsigned int n_moved_total = 0, n_inherited = 0;
    const unsigned int n_steps = c.s.range(1, 4);
    for (unsigned int step = 0; step < n_steps; ++step)
      {
        auto v = fields();
        // fresh detection
        auto ref = make(GrainRepresentation::spherical);
        ref->initial_setup(v, n_op, true);
        v.update_ghost_values();
        const auto cells = gather(m, v, offset, n_op, *ref);
        if (rep == GrainRepresentation::elliptical && has_thin_particle(cells, n_op))
          {
            if (np == 1 || step > 0)
              throw pbt::Discard();
            throw pbt::Discard();
          }
        ref = make(rep);
        ref->initial_setup(v, n_op, true);
        v.update_ghost_values();

        const auto old_grains = tracker->get_grains();
        const bool skip       = started && c.s.coin(0.15);
        c.desc << "[step " << step << ": " << bumps.size() << " bumps, " << n_op << " fields" << (skip ? " skip" : "") << "] ";

        // expected identities
        std::map<unsigned int, unsigned int> expected; // id in ref -> id, invalid: skipped
        bool                                 must_throw = false;
        if (started)
          {
            const auto   inherit = transfer_grain_ids(ref->get_grains(), old_grains, n_op);
            unsigned int next    = old_grains.empty() ? 0 : old_grains.rbegin()->first + 1;
            for (const auto &[gid, g] : ref->get_grains())
              {
                unsigned int id = inherit.at(gid);
                if (id == inv && g.get_max_value() > thr_new)
                  {
                    if (allow_new)
                      id = next++;
                    else
                      must_throw = true;
                  }
                else if (id != inv)
                  ++n_inherited;
                expected[gid] = id;
              }
          }
        else
          for (const auto &[gid, g] : ref->get_grains())
            expected[gid] = gid;

        std::tuple<unsigned int, bool, bool> ret;
        bool                                 inconsistent = false, other = false;
        std::string                          what;
        try
          {
            ret = started ? tracker->track(v, n_op, skip) : tracker->initial_setup(v, n_op);
          }
        catch (const ExcGrainsInconsistency &e)
          {
            inconsistent = true;
          }
        catch (const std::exception &e)
          {
            other = true;
            what  = e.what();
          }
        if (tr)
          c.check(inconsistent == must_throw, must_throw ? "a new grain was accepted although no new grains are allowed" : "tracking stopped without reason");
        if (inconsistent || must_throw)
          {
            c.label("stopped at a new grain");
            break;
          }
        // overlap graph of the expected grains
        std::map<unsigned int, std::set<unsigned int>> adj;
        std::set<unsigned int>                         colliding;
        unsigned int                                   n_expected = 0, degree = 0;
        for (const auto &[a, A] : ref->get_grains())
          if (expected[a] != inv)
            {
              ++n_expected;
              for (const auto &[b, Bg] : ref->get_grains())
                if (expected[b] != inv && expected[a] != expected[b] && A.overlaps(Bg, ratio, fixed))
                  {
                    adj[expected[a]].insert(expected[b]);
                    if (A.get_order_parameter_id() == Bg.get_order_parameter_id())
                      colliding.insert(std::max(expected[a], expected[b]));
                  }
              degree = std::max<unsigned int>(degree, adj[expected[a]].size());
            }
        if (other)
          {
            if (tr)
              c.check(what.find("Maximum number of order parameters") != std::string::npos && degree + 1 > max_op, "tracking stopped: ", what);
            c.label("too many fields");
            break;
          }

        const auto [n_collisions, reassigned, op_changed] = ret;
        const auto   &grains = tracker->get_grains();
        const auto    active = tracker->get_active_order_parameters();
        if (tr)
          {
            c.check(same_on_all(state_string(*tracker)), "grains differ between processes");
            c.check(grains.size() == n_expected, "number of grains ", grains.size(), " expected ", n_expected);
            bool any_new_op = false;
            std::set<unsigned int> used;
            for (const auto &[rid, R] : ref->get_grains())
              {
                const auto id = expected[rid];
                if (id == inv)
                  continue;
                const auto it = grains.find(id);
                if (!c.check(it != grains.end(), "grain ", id, " is missing"))
                  continue;
                const auto &G = it->second;
                c.check(G.get_grain_id() == id, "id stored in grain ", id);
                c.check(G.get_old_order_parameter_id() == R.get_order_parameter_id(), "field of grain ", id, ": ", G.get_old_order_parameter_id(), " expected ", R.get_order_parameter_id());
                c.check(G.n_segments() == R.n_segments() && G.get_measure() == R.get_measure() && G.get_max_value() == R.get_max_value() && G.get_max_radius() == R.get_max_radius(),
                        "extent of grain ", id, " differs from a fresh detection");
                const bool known = started && old_grains.count(id);
                const auto dyn   = !known ? Grain<dim>::None : G.get_measure() > old_grains.at(id).get_measure() ? Grain<dim>::Growing : Grain<dim>::Shrinking;
                c.check(G.get_dynamics() == dyn, "dynamics of grain ", id, ": ", static_cast<int>(G.get_dynamics()), " expected ", static_cast<int>(dyn));
                used.insert(G.get_order_parameter_id());
                any_new_op |= G.get_order_parameter_id() != G.get_old_order_parameter_id();
              }
            c.check(used == active, "set of used fields");
            if (skip)
              c.check(n_collisions == 0 && !reassigned && !op_changed && !any_new_op, "fields reassigned although this was not requested");
            else
              {
                c.check(n_collisions == colliding.size(), "number of collisions ", n_collisions, " expected ", colliding.size());
                c.check(reassigned == any_new_op, "reported reassignment: ", reassigned, ", found: ", any_new_op);
                c.check(op_changed == (used.size() != n_op), "reported change of the number of fields: ", op_changed, ", used ", used.size(), " of ", n_op);
                c.check(used.empty() || *used.rbegin() + 1 == used.size(), "the used fields are not numbered contiguously");
                if (any_new_op && n_collisions > 0)
                  c.check(used.size() <= std::max(max_op, static_cast<unsigned int>(0)), "more fields in use than allowed: ", used.size());
                for (const auto &[a, list] : adj)
                  for (const auto b : list)
                    if (grains.count(a) && grains.count(b))
                      c.check(grains.at(a).get_order_parameter_id() != grains.at(b).get_order_parameter_id(), "overlapping grains ", a, " and ", b, " share field ", grains.at(a).get_order_parameter_id());
                if (n_collisions == 0 && !(greedy && !started))
                  {
                    // only empty fields may be removed
                    std::set<unsigned int> before;
                    for (const auto &[rid, R] : ref->get_grains())
                      if (expected[rid] != inv)
                        before.insert(R.get_order_parameter_id());
                    for (const auto &[gid, G] : grains)
                      c.check(G.get_order_parameter_id() == static_cast<unsigned int>(std::distance(before.begin(), before.find(G.get_old_order_parameter_id()))),
                              "grain ", gid, " was moved without a collision");
                  }
              }
            // mapping of cells to grains
            for (unsigned int o = 0; o < n_op; ++o)
              for (const auto &cell : m.dof.active_cell_iterators())
                if (cell->is_locally_owned())
                  {
                    const auto i = cell->global_active_cell_index();
                    const auto p = tracker->get_particle_index(o, i), q = ref->get_particle_index(o, i);
                    if (!c.check(p == q, "particle of a cell"))
                      break;
                    if (p == inv)
                      continue;
                    const auto [g, s]   = tracker->get_grain_and_segment(o, p);
                    const auto [rg, rs] = ref->get_grain_and_segment(o, p);
                    if (!c.check(g == expected[rg] && s == rs, "a cell of grain ", expected[rg], " is attributed to grain ", g))
                      break;
                    if (g != inv)
                      c.check(tracker->get_grain_segment_index(g, s) < tracker->n_segments(), "segment number");
                  }
            if (!c.errors.empty())
              return;
          }

        // continue with a copy or a restored tracker
        const unsigned int act = c.s.draw(6);
        if (tr && act == 1)
          {
            auto copy = tracker->clone();
            c.check(state_string(*copy) == state_string(*tracker), "state of a clone");
            bool ok = copy->n_segments() == tracker->n_segments();
            for (const auto &cell : m.dof.active_cell_iterators())
              if (cell->is_locally_owned())
                for (unsigned int o = 0; o < n_op && ok; ++o)
                  {
                    const auto i = cell->global_active_cell_index();
                    const auto p = tracker->get_particle_index(o, i);
                    ok &= copy->get_particle_index(o, i) == p;
                    if (ok && p != inv)
                      {
                        const auto gs = tracker->get_grain_and_segment(o, p);
                        ok &= copy->get_grain_and_segment(o, p) == gs;
                        if (gs.first != inv)
                          ok &= copy->get_grain_segment_index(gs.first, gs.second) == tracker->get_grain_segment_index(gs.first, gs.second);
                      }
                  }
            c.check(ok, "a clone answers differently");
            tracker = copy;
            c.label("clone");
          }
        if (act == 2 && !skip)
          {
            // user-defined exchange of all fields; active fields follow
            const unsigned int n = active.size();
            if (n > 1)
              {
                const auto perm = c.s.permutation(n);
                std::map<unsigned int, unsigned int> before;
                for (const auto &[gid, g] : tracker->get_grains())
                  before[gid] = g.get_order_parameter_id();
                tracker->custom_reassignment([&](auto &g) {
                  for (auto &[gid, gr] : g)
                    gr.set_order_parameter_id(perm[gr.get_order_parameter_id()]);
                });
                if (tr)
                  {
                    for (const auto &[gid, g] : tracker->get_grains())
                      c.check(g.get_order_parameter_id() == perm[before[gid]], "custom reassignment");
                    c.check(tracker->get_active_order_parameters() == active, "active fields after a custom reassignment");
                  }
                c.label("custom reassignment");
              }
          }

        // remap several vectors
        const unsigned int n_active  = tracker->get_active_order_parameters().size();
        const unsigned int n_blocks  = skip ? n_op : std::max(n_op, n_active);
        auto               w         = std::make_shared<BV>(m.vector(n_blocks + offset + 1));
        auto               u         = std::make_shared<BV>(m.vector(n_blocks + offset + 1));
        const std::uint64_t hs       = c.s.draw(1u << 20);
        for (unsigned int b = 0; b < n_blocks + offset + 1; ++b)
          {
            if (b < n_op + offset)
              w->block(b).copy_locally_owned_data_from(v.block(b));
            for (const auto i : w->block(b).locally_owned_elements())
              u->block(b)[i] = 0.5 + hash01(hs + 131 * i + 7919 * b);
            for (const auto i : w->block(b).locally_owned_elements())
              if (b == n_blocks + offset)
                w->block(b)[i] = 3.;
          }
        w->update_ghost_values();
        u->update_ghost_values();
        const auto snap = snapshot(m, n_op, *tracker);
        const auto w0 = all_values(*w), u0 = all_values(*u);
        std::map<unsigned int, std::pair<unsigned int, unsigned int>> moves;
        for (const auto &[gid, g] : tracker->get_grains())
          if (g.get_order_parameter_id() != g.get_old_order_parameter_id())
            moves[gid] = {g.get_old_order_parameter_id(), g.get_order_parameter_id()};
        const bool one_by_one = c.s.coin(0.3);
        if (one_by_one)
          {
            tracker->remap(*w);
            tracker->remap(*u);
          }
        else
          {
            const auto n = tracker->remap({w, u});
            if (!tr)
              c.check(n == moves.size(), "number of remapped grains ", n, " expected ", moves.size());
          }
        w->zero_out_ghost_values();
        u->zero_out_ghost_values();
        n_moved_total += moves.size();
        const auto w1 = all_values(*w), u1 = all_values(*u);
        if (!tr)
          {
            bool cyc = false;
            for (const auto &[a, A] : moves)
              for (const auto &[b, Bm] : moves)
                cyc |= A.second == Bm.first && Bm.second == A.first;
            c.label("exchange", cyc);
            std::size_t n_core = 0;
            for (unsigned int b = 0; b < n_blocks + offset + 1; ++b)
              if (b < offset || b == n_blocks + offset)
                c.check(w0[b] == w1[b] && u0[b] == u1[b], "block ", b, " which holds no order parameter was changed");
            for (types::global_dof_index i = 0; i < m.dof.n_dofs() && c.errors.empty(); ++i)
              {
                // all grains in the adjacent cells
                std::set<unsigned int> near;
                for (const auto k : snap.cells_of[i])
                  for (unsigned int o = 0; o < n_op; ++o)
                    if (snap.label[k][o] != inv)
                      near.insert(snap.label[k][o]);
                bool any_moved = false;
                for (const auto g : near)
                  any_moved |= moves.count(g) > 0;
                if (!any_moved && !old_remap)
                  for (unsigned int b = offset; b < n_blocks + offset; ++b)
                    c.check(w0[b][i] == w1[b][i] && u0[b][i] == u1[b][i], "value of block ", b, " changed away from the moved grains");
                for (unsigned int o = 0; o < n_op; ++o)
                  if (w0[offset + o][i] > thr)
                    {
                      const auto g  = snap.label[snap.cells_of[i][0]][o];
                      const auto im = moves.find(g);
                      if (g == inv)
                        continue;
                      if (old_remap)
                        {
                          // this variant moves everything inside of spheres
                          bool in_other = false;
                          auto test     = [&](const Grain<dim> &gr) {
                            for (const auto k : snap.cells_of[i])
                              for (const auto &seg : gr.get_segments())
                                in_other |= snap.center[k].distance(seg.get_center()) < seg.get_radius() + gr.transfer_buffer();
                          };
                          for (const auto &[n, mv] : moves)
                            if (n != g)
                              test(tracker->get_grains().at(n));
                          for (const auto &[n, gr] : old_grains)
                            if (!tracker->get_grains().count(n))
                              test(gr);
                          if (in_other)
                            continue;
                        }
                      ++n_core;
                      const unsigned int to = im == moves.end() ? o : im->second.second;
                      // an untouched grain may lose its place only to an arriving one
                      c.check(w1[offset + to][i] == w0[offset + o][i] && u1[offset + to][i] == u0[offset + o][i],
                              "grain ", g, im == moves.end() ? " (not moved)" : "", " field ", o, " -> ", to, ": value ", w0[offset + o][i], " became ", w1[offset + to][i], ", second vector ",
                              u0[offset + o][i], " became ", u1[offset + to][i]);
                      if (to != o)
                        {
                          bool arriving = false;
                          for (const auto &[n, mv] : moves)
                            arriving |= old_remap && mv.second == o;
                          for (const auto n : near)
                            arriving |= n != g && (moves.count(n) ? moves.at(n).second == o : tracker->get_grains().at(n).get_order_parameter_id() == o);
                          if (!arriving)
                            c.check(w1[offset + o][i] == 0. && u1[offset + o][i] == 0., "grain ", g, " left a value behind on field ", o);
                        }
                    }
              }
            c.label("core nodes moved", n_core > 0 && !moves.empty());
            if (!c.errors.empty())
              return;
          }
        // positions of the bumps after the reassignment
        auto op_of = [&](const B &b) {
          // grain of the cell with the largest value of this bump
          unsigned int best = b.op;
          double       val  = -1;
          for (unsigned int k = 0; k < snap.dofs.size(); ++k)
            if (snap.label[k][b.op] != inv)
              {
                const auto it = moves.find(snap.label[k][b.op]);
                const auto to = it == moves.end() ? b.op : it->second.second;
                // cells are compared by their first vertex value of the bump
                const double x = cells[k].lo.distance(b.x) < 1e-300 ? 1. : bump_value(m, b, cells[k].center());
                if (x > val)
                  {
                    val  = x;
                    best = to;
                  }
              }
          return val > 0 ? best : inv;
        };
        if (!skip)
          {
            std::vector<B> next;
            for (auto b : bumps)
              {
                const auto o = op_of(b);
                if (o == inv)
                  continue; // too weak to be seen
                b.op = o;
                next.push_back(b);
              }
            bumps = next;
            n_op  = n_active;
          }
        started = true;
        // detect again on the remapped fields
        if (tr && !skip && act != 2 && (m.uniform || fixed >= 2 * m.h_max) && c.s.coin(0.7))
          {
            w->reinit(n_active + offset);
            w->update_ghost_values();
            const auto before = tracker->get_grains();
            bool       any_skipped = false;
            for (const auto &[r, id] : expected)
              any_skipped |= id == inv;
            if (!any_skipped)
              {
                bool per = false;
                for (const auto x : m.periodic)
                  per |= x;
                std::tuple<unsigned int, bool, bool> ret2;
                try
                  {
                    ret2 = tracker->track(*w, n_active);
                  }
                catch (const ExcGrainsInconsistency &)
                  {
                    if (!per && rep != GrainRepresentation::wavefront)
                      throw;
                    ret2 = {1, true, true};
                  }
                catch (const std::exception &e)
                  {
                    // the grains found to collide now need more fields
                    if (rep != GrainRepresentation::wavefront || std::string(e.what()).find("Maximum number of order parameters exceeded") == std::string::npos)
                      throw;
                    ret2 = {1, true, true};
                  }
                w->update_ghost_values();
                // distances do not see periodic images (known finding)
                if (per && (std::get<0>(ret2) > 0 || tracker->get_grains().size() != before.size()))
                  {
                    c.known.insert("periodic-neighbours");
                    break;
                  }
                // the wavefront description knows no distance between grains of
                // different fields which do not touch (known finding)
                if (rep == GrainRepresentation::wavefront && (std::get<0>(ret2) > 0 || tracker->get_grains().size() != before.size()))
                  {
                    c.known.insert("wavefront-close-grains");
                    break;
                  }
                c.check(std::get<0>(ret2) == 0 && !std::get<1>(ret2) && !std::get<2>(ret2), "collisions (", std::get<0>(ret2), ") right after a reassignment");
                c.check(tracker->get_grains().size() == before.size(), "number of grains after remapping: ", tracker->get_grains().size(), " before ", before.size());
                for (const auto &[gid, g] : tracker->get_grains())
                  {
                    const auto it = before.find(gid);
                    if (c.check(it != before.end(), "grain ", gid, " appeared by remapping"))
                      c.check(g.get_order_parameter_id() == it->second.get_order_parameter_id() && g.get_max_value() == it->second.get_max_value() && std::abs(g.get_measure() / it->second.get_measure() - 1) < 1e-10,
                              "grain ", gid, " changed by remapping");
                  }
                c.label("second detection", !moves.empty());
              }
          }
        if (!c.errors.empty())
          return;
        if (tr && act == 3)
          {
            // store and restore
            std::vector<Grain<dim>> list;
            tracker->save_grains(std::back_inserter(list));
            auto other = make(rep);
            other->load_grains(list.begin(), list.end());
            bool ok = other->get_grains().size() == tracker->get_grains().size();
            for (const auto &[gid, g] : tracker->get_grains())
              ok &= other->get_grains().count(gid) && other->get_grains().at(gid).get_order_parameter_id() == g.get_order_parameter_id();
            c.check(ok, "restored grains");
            tracker = other;
            c.label("restored");
          }
        if (n_op == 0)
          {
            n_op = 1;
            if (!tracker->get_grains().empty())
              break;
          }
        // evolve
        std::vector<B> next;
        for (auto b : bumps)
          {
            if (c.s.coin(0.08))
              continue;
            for (unsigned int d = 0; d < dim; ++d)
              {
                b.x[d] += c.s.generic(-0.1, 0.1);
                b.x[d] = std::min(std::max(b.x[d], 0.), m.len[d]);
              }
            b.r *= c.s.generic(0.85, 1.15);
            next.push_back(b);
          }
        bumps = next;
        if (c.s.coin(0.3))
          bumps.push_back(new_bump());
      }
    c.label("moved", n_moved_total > 0);
    c.label("inherited", n_inherited > 0);
    c.nontrivial = tr ? n_inherited > 0 || n_moved_total > 0 : n_moved_total > 0;
  }
} // namespace

PBT_PROPERTY(tracking)
{
  if (c.s.coin(0.2))
    history<3>(c, Focus::tracking);
  else
    history<2>(c, Focus::tracking);
}

PBT_PROPERTY(remapping)
{
  if (c.s.coin(0.2))
    history<3>(c, Focus::remapping);
  else
    history<2>(c, Focus::remapping);
}
