// Creation, adaption and coarsening of meshes with the transfer of fields.
#include <deal.II/base/mpi_large_count.h>

#include <pf-applications/grid/grid_tools.h>

#include "mesh.h"

using namespace dealii;
using namespace hpsint;
using namespace pbtmesh;

#ifndef OPDIM
#  define OPDIM 2
#endif

namespace
{
  constexpr int dim = OPDIM;
  using Tria        = parallel::distributed::Triangulation<dim>;

  // number of equal cells along each direction and the common level, if the mesh is uniform
  struct Shape
  {
    Point<dim>                    lo, hi;
    std::array<unsigned int, dim> n; // coarse cells
    unsigned int                  level;
    bool                          uniform;
  };

  Shape
  shape(pbt::Case &c, const Tria &tria, const std::array<bool, dim> &periodic)
  {
    Shape s;
    for (unsigned int d = 0; d < dim; ++d)
      {
        s.lo[d] = std::numeric_limits<double>::max();
        s.hi[d] = -std::numeric_limits<double>::max();
      }
    std::array<std::set<long>, dim> at;
    for (const auto &cell : tria.cell_iterators_on_level(0))
      for (const auto v : cell->vertex_indices())
        for (unsigned int d = 0; d < dim; ++d)
          {
            s.lo[d] = std::min(s.lo[d], cell->vertex(v)[d]);
            s.hi[d] = std::max(s.hi[d], cell->vertex(v)[d]);
          }
    double vol = 0;
    for (const auto &cell : tria.cell_iterators_on_level(0))
      {
        double v = 1;
        for (unsigned int d = 0; d < dim; ++d)
          {
            at[d].insert(std::llround((cell->center()[d] - s.lo[d]) / (s.hi[d] - s.lo[d]) * 1e7));
            const double w = cell->vertex((1 << dim) - 1)[d] - cell->vertex(0)[d];
            v *= w;
          }
        vol += v;
        for (unsigned int d = 0; d < dim; ++d)
          for (unsigned int k = 0; k < 2; ++k)
            {
              const auto f = 2 * d + k;
              if (!cell->at_boundary(f))
                continue;
              c.check(cell->face(f)->boundary_id() == f, "a boundary face has the number ", cell->face(f)->boundary_id(), " instead of ", f);
              c.check(cell->has_periodic_neighbor(f) == periodic[d], "periodicity in direction ", d);
            }
      }
    double box = 1;
    for (unsigned int d = 0; d < dim; ++d)
      {
        s.n[d] = at[d].size();
        box *= s.hi[d] - s.lo[d];
      }
    c.close(vol, box, 1e-10, 0, "the coarse cells fill the box");
    std::size_t prod = 1;
    for (unsigned int d = 0; d < dim; ++d)
      prod *= s.n[d];
    c.check(prod == tria.n_cells(0), "coarse cells form a grid");
    for (const auto &cell : tria.cell_iterators_on_level(0))
      for (unsigned int d = 0; d < dim; ++d)
        c.close(cell->vertex((1 << dim) - 1)[d] - cell->vertex(0)[d], (s.hi[d] - s.lo[d]) / s.n[d], 1e-9, 0, "equal coarse cells");
    s.level   = tria.n_global_levels() - 1;
    s.uniform = true;
    for (const auto &cell : tria.active_cell_iterators())
      if (cell->is_locally_owned())
        s.uniform &= cell->level() == int(s.level);
    return s;
  }

  struct Old
  {
    Point<dim>          lo, hi;
    int                 level;
    bool                in_range = false;
    std::vector<double> values; // block by block
    std::vector<unsigned char> id;
  };
} // namespace

PBT_PROPERTY(mesh_creation)
{
  Tria       tria(MPI_COMM_WORLD);
  Point<dim> lo, hi;
  double     longest = 0;
  for (unsigned int d = 0; d < dim; ++d)
    {
      lo[d]   = c.s.pick(std::vector<double>{0., -3., 10.});
      hi[d]   = lo[d] + c.s.generic(1., 12.);
      longest = std::max(longest, hi[d] - lo[d]);
    }
  const bool         periodic  = c.s.coin(0.4);
  const unsigned int kind      = c.s.draw(3);
  const unsigned int max_prime = c.s.pick(std::vector<unsigned int>{0, 0, 2, 3, 5, 7, 11, 20, 1});
  const auto         refine    = c.s.pick(std::vector<InitialRefine>{InitialRefine::None, InitialRefine::Base, InitialRefine::Full});
  const unsigned int degree    = c.s.range(1, 2);
  std::array<bool, dim> per;
  per.fill(periodic);
  c.desc << "box " << lo << " - " << hi << " kind " << kind << " prime " << max_prime << " refine " << int(refine) << " periodic " << periodic << " degree " << degree << " ";
  const double tol = 1 + 1e-9;

  if (kind == 2)
    {
      c.label("divisions");
      std::vector<unsigned int> n;
      for (unsigned int d = 0; d < dim; ++d)
        n.push_back(c.s.range(1, 6));
      const unsigned int r = c.s.range(0, dim == 2 ? 3 : 2);
      const auto         delayed = create_mesh_from_divisions(tria, lo, hi, n, periodic, r, false);
      c.check(delayed == 0, "no delayed refinements");
      const auto s = shape(c, tria, per);
      c.check((s.lo - lo).norm() < 1e-10 && (s.hi - hi).norm() < 1e-10, "extents of the box");
      for (unsigned int d = 0; d < dim; ++d)
        c.check(s.n[d] == n[d], "number of divisions ", s.n[d], " instead of ", n[d]);
      c.check(s.uniform && s.level == r, "all cells are refined ", r, " times, not ", s.level);
      c.nontrivial = r > 0;
      return;
    }

  // cells of at most about this number in each direction after all refinements
  const double limit = dim == 2 ? 80. : 24.;
  double       width, divisions, coarse = 1, h_e, r_ref = 0;
  do
    {
      divisions = c.s.coin(0.2) ? c.s.generic(0.4, 2.) : c.s.range(1, 10);
      width     = c.s.logreal(0.05, 4.);
      h_e       = width / (divisions / degree);
      coarse    = c.s.pick(std::vector<double>{1., 1., 0.5, 2., 4.});
      r_ref     = c.s.generic(0.2, 0.5) * longest;
    }
  while (longest / h_e > limit && c.s.draw(50) > 0);
  if (longest / h_e > limit)
    throw pbt::Discard();
  double shortest = longest;
  for (unsigned int d = 0; d < dim; ++d)
    shortest = std::min(shortest, hi[d] - lo[d]);
  r_ref = std::min(r_ref, shortest / 2);
  c.desc << "width " << width << " divisions " << divisions << " coarse " << coarse << " radius " << r_ref << " ";

  unsigned int delayed;
  if (kind == 0)
    delayed = create_mesh_from_interface(tria, lo, hi, width, divisions, periodic, refine, max_prime, coarse, degree, false);
  else
    delayed = create_mesh_from_radius(tria, lo, hi, width, divisions, r_ref, periodic, refine, max_prime, degree, false);
  c.label(kind == 0 ? "from interface" : "from radius");

  c.require(delayed < 20, "number of delayed refinements ", delayed);
  const auto s = shape(c, tria, per);
  c.check((s.lo - lo).norm() < 1e-10 && (s.hi - hi).norm() < 1e-10, "extents of the box");
  c.check(s.uniform, "the initial mesh is uniform");
  if (refine == InitialRefine::None)
    c.check(s.level == 0, "no initial refinement");
  if (refine == InitialRefine::Full)
    c.check(delayed == 0, "nothing is left to refine");
  if (max_prime < 2 && refine == InitialRefine::Base)
    c.check(s.level == 0, "no base refinement without a reduction to primes");
  const unsigned int total = s.level + delayed;
  c.label("refined later", delayed > 0);
  c.label("reduced to primes", max_prime > 1);

  // refinements needed for the interface
  const double       coarsest     = kind == 0 ? width / (coarse / degree) : 2 * r_ref;
  const unsigned int n_interface  = coarsest > h_e * tol ? std::ceil(std::log2(coarsest / h_e) - 1e-9) : 0;
  const unsigned int n_interface2 = coarsest > h_e ? std::ceil(std::log2(coarsest / h_e)) : 0;
  if (max_prime < 2)
    c.check(total == n_interface || total == n_interface2, "number of refinements ", total, " instead of ", n_interface);
  else
    c.check(total >= n_interface, "number of refinements ", total, " is less than ", n_interface);
  if (max_prime > 1 && refine == InitialRefine::Base)
    c.check(delayed == n_interface || delayed == n_interface2, "refinements of the interface ", delayed, " instead of ", n_interface);
  bool some_prime = max_prime < 2;
  for (unsigned int d = 0; d < dim; ++d)
    {
      const double L     = hi[d] - lo[d];
      const double cells = s.n[d] * std::pow(2., total);
      const double h     = L / cells;
      // cells along the edge which were asked for
      const double asked = kind == 0 ? std::max(1., std::ceil(L / (h_e * std::pow(2., n_interface)) - 1e-9)) : std::max(1., std::round(L / (2 * r_ref)));
      const double now   = cells / std::pow(2., n_interface);
      if (max_prime < 2)
        {
          if (kind == 0)
            c.check(h <= h_e * tol, "cells of size ", h, " instead of ", h_e, " in direction ", d);
          c.check(now >= asked - 1.01 && now <= asked + 1.01 && (s.n[d] == 1 || std::abs(now - asked) < 1e-6 || std::abs(L / (2 * r_ref) - std::floor(L / (2 * r_ref)) - 0.5) < 1e-6 || kind == 0),
                  "coarse cells ", now, " instead of ", asked, " in direction ", d);
        }
      else
        {
          c.check(now > asked / 2 - 1e-9 && now < std::max(2., asked * 2 - 1e-9) + 1.01, "cells after the reduction to primes: ", now, " for ", asked, " in direction ", d);
          unsigned int p = s.n[d];
          while (p % 2 == 0 && p > 2)
            p /= 2;
          c.check(p <= max_prime, "coarse cells ", s.n[d], " in direction ", d, " with largest prime ", max_prime);
          some_prime |= s.n[d] <= max_prime;
        }
    }
  c.check(some_prime, "no direction is reduced to a prime number");
  c.nontrivial = total > 0;
}

PBT_PROPERTY(mesh_adaption)
{
  MeshOptions o;
  o.max_cells = dim == 2 ? 200 : 120;
  o.periodic  = c.s.coin(0.3);
  const unsigned int degree = c.s.range(1, 2);
  Mesh<dim>          m(c, degree, degree + 1, o);
  const unsigned int nb     = c.s.range(1, 4);
  BV                 sol    = m.vector(nb);
  const bool         linear = c.s.coin(0.25) && !m.any_periodic;
  const double       zero   = c.s.pick(std::vector<double>{0., 0.3, 0.8});
  const auto         field  = [&](const unsigned int b, const std::uint64_t key, const Point<dim> &p) {
    if (linear)
      {
        double v = hash01(key);
        for (unsigned int d = 0; d < dim; ++d)
          v += (hash01(key + d + 1) - 0.5) * p[d];
        return v;
      }
    std::uint64_t h = key, g = key + 5;
    for (unsigned int d = 0; d < dim; ++d)
      {
        h = pbt::mix(h ^ static_cast<std::uint64_t>(std::llround((p[d] + 10.) * 1e7)));
        g = pbt::mix(g ^ static_cast<std::uint64_t>(std::llround((p[d] + 10.) * 1.7)));
      }
    // patches of the two phases with noise in between
    if (hash01(g) < zero)
      return hash01(g + b) < 0.5 ? 0. : 1.;
    return hash01(h) * 1.2 - 0.1;
  };
  for (unsigned int b = 0; b < nb; ++b)
    {
      const std::uint64_t key = c.s.draw(1ull << 40);
      m.fill(sol.block(b), [&](const Point<dim> &p) { return field(b, key, p); });
      if (c.s.coin(0.5)) // otherwise the values of constrained unknowns are arbitrary
        m.constraints.distribute(sol.block(b));
    }
  const double       vmin = c.s.pick(std::vector<double>{0.05, 0.2}), vmax = c.s.pick(std::vector<double>{0.95, 0.7});
  const double       top = c.s.pick(std::vector<double>{0.3, 0., 0.9, 0.6}), bottom = c.s.pick(std::vector<double>{0.1, 0., 0.4});
  int                lmin = 100, lmax = 0;
  for (const auto &cell : m.tria.active_cell_iterators())
    if (cell->is_locally_owned())
      {
        lmin = std::min(lmin, cell->level());
        lmax = std::max(lmax, cell->level());
      }
  lmin                     = Utilities::MPI::min(lmin, MPI_COMM_WORLD);
  lmax                     = Utilities::MPI::max(lmax, MPI_COMM_WORLD);
  const int    allowed_min = c.s.range(std::max(0, lmin - 2), lmin);
  const int    allowed_max = std::max<int>(allowed_min, c.s.range(std::max(1, lmax - 1), lmax + 1));
  unsigned int from = 0, to = nb;
  const bool   with_solution = c.s.coin(0.8);
  bool         all           = true;
  if (with_solution && c.s.coin(0.5))
    {
      from = c.s.draw(nb);
      to   = from + 1 + c.s.draw(nb - from);
      all  = false;
    }
  c.desc << "blocks " << nb << " estimate " << from << ".." << to << " levels " << lmin << ".." << lmax << " allowed " << allowed_min << ".." << allowed_max << " linear " << linear << " fractions " << top
         << " " << bottom << " ";

  // everything about the old state
  std::vector<Block> ghosted;
  for (unsigned int b = 0; b < nb; ++b)
    {
      ghosted.emplace_back(m.partitioner);
      ghosted.back().copy_locally_owned_data_from(sol.block(b));
      if (with_solution)
        m.constraints.distribute(ghosted.back());
    }
  std::vector<std::vector<double>> mine;
  {
    for (auto &x : ghosted)
      x.update_ghost_values();
    Vector<double> v(m.fe.n_dofs_per_cell());
    for (const auto &cell : m.dof.active_cell_iterators())
      if (cell->is_locally_owned())
        {
          std::vector<double> r;
          for (unsigned int d = 0; d < dim; ++d)
            r.push_back(cell->vertex(0)[d]);
          for (unsigned int d = 0; d < dim; ++d)
            r.push_back(cell->vertex((1 << dim) - 1)[d]);
          r.push_back(cell->level());
          bool in = false;
          for (unsigned int b = 0; b < nb; ++b)
            {
              cell->get_dof_values(ghosted[b], v);
              double avg = 0;
              for (const double x : v)
                {
                  avg += x / v.size();
                  if (b >= from && b < to)
                    in |= x > vmin + 1e-12 && x < vmax - 1e-12;
                }
              if (b >= from && b < to)
                in |= avg > vmin + 1e-9 && avg < vmax - 1e-9;
            }
          r.push_back(in);
          for (unsigned int b = 0; b < nb; ++b)
            {
              cell->get_dof_values(ghosted[b], v);
              r.insert(r.end(), v.begin(), v.end());
            }
          mine.push_back(r);
        }
  }
  std::vector<Old> old;
  for (const auto &part : Utilities::MPI::all_gather(MPI_COMM_WORLD, mine))
    for (const auto &r : part)
      {
        Old        x;
        const auto p = r.data();
        for (unsigned int d = 0; d < dim; ++d)
          {
            x.lo[d] = p[d];
            x.hi[d] = p[dim + d];
          }
        x.level    = p[2 * dim];
        x.in_range = p[2 * dim + 1] > 0.5;
        x.values.assign(p + 2 * dim + 2, p + r.size());
        old.push_back(x);
      }

  auto reinit = [&](BV &v) {
    m.dof.distribute_dofs(m.fe);
    const auto relevant = DoFTools::extract_locally_relevant_dofs(m.dof);
    m.constraints.clear();
    m.constraints.reinit(m.dof.locally_owned_dofs(), relevant);
    DoFTools::make_hanging_node_constraints(m.dof, m.constraints);
    if (m.any_periodic)
      {
        std::vector<GridTools::PeriodicFacePair<typename DoFHandler<dim>::cell_iterator>> dpairs;
        for (unsigned int d = 0; d < dim; ++d)
          if (m.periodic[d])
            GridTools::collect_periodic_faces(m.dof, 2 * d, 2 * d + 1, d, dpairs);
        DoFTools::make_periodicity_constraints<dim, dim>(dpairs, m.constraints);
      }
    m.constraints.close();
    m.partitioner = std::make_shared<Utilities::MPI::Partitioner>(m.dof.locally_owned_dofs(), relevant, MPI_COMM_WORLD);
    v.reinit(nb);
    for (unsigned int b = 0; b < nb; ++b)
      v.block(b).reinit(m.partitioner);
  };
  const QGauss<dim - 1> quad(degree + 1);
  if (with_solution)
    {
      if (all)
        coarsen_and_refine_mesh<BV, Tria, dim>(sol, m.tria, m.dof, m.constraints, quad, top, bottom, allowed_min, allowed_max, reinit, vmin, vmax);
      else
        coarsen_and_refine_mesh<BV, Tria, dim>(sol, m.tria, m.dof, m.constraints, quad, top, bottom, allowed_min, allowed_max, reinit, vmin, vmax, from, to);
    }
  else
    {
      BV g(nb);
      for (unsigned int b = 0; b < nb; ++b)
        {
          g.block(b).reinit(m.partitioner);
          g.block(b).copy_locally_owned_data_from(sol.block(b));
          g.block(b).update_ghost_values();
        }
      coarsen_and_refine_mesh<BV, Tria, dim>(g, m.tria, m.dof, quad, top, bottom, allowed_min, allowed_max, vmin, vmax);
    }

  // the cell which contains a point
  const auto find = [&](const Point<dim> &p) {
    int best = -1;
    for (unsigned int i = 0; i < old.size(); ++i)
      {
        bool in = true;
        for (unsigned int d = 0; d < dim; ++d)
          in &= p[d] > old[i].lo[d] - 1e-9 && p[d] < old[i].hi[d] + 1e-9;
        // a finer cell decides where hanging nodes meet
        if (in && (best < 0 || old[i].level < old[best].level))
          best = i;
      }
    return best;
  };

  bool refined = false, coarsened = false, touched_coarse = false;
  for (const auto &cell : m.tria.active_cell_iterators())
    if (cell->is_locally_owned())
      {
        const int i = find(cell->center());
        c.require(i >= 0, "cell outside the old mesh");
        const auto &x = old[i];
        if (x.level <= allowed_max)
          c.check(cell->level() <= allowed_max, "cell of level ", cell->level(), " at ", cell->center(), " but at most ", allowed_max, " is allowed");
        else
          c.check(cell->level() <= x.level, "a cell beyond the allowed levels was refined");
        c.check(cell->level() >= allowed_min, "cell of level ", cell->level(), " but at least ", allowed_min, " is required");
        c.check(std::abs(cell->level() - x.level) <= 1 || cell->level() > x.level, "a cell was coarsened more than once");
        if (x.in_range && x.level < allowed_max)
          c.check(cell->level() > x.level, "a cell at the interface of level ", x.level, " was not refined at ", cell->center());
        if (x.in_range && x.level == allowed_max)
          c.check(cell->level() == x.level, "a cell at the interface was coarsened at ", cell->center());
        refined |= cell->level() > x.level;
        coarsened |= cell->level() < x.level;
      }
  c.label("refined", Utilities::MPI::max(int(refined), MPI_COMM_WORLD) > 0);
  c.label("coarsened", Utilities::MPI::max(int(coarsened), MPI_COMM_WORLD) > 0);
  c.label("beyond the highest level", lmax > allowed_max);
  c.nontrivial = Utilities::MPI::max(int(refined || coarsened), MPI_COMM_WORLD) > 0;
  (void)touched_coarse;
  if (!with_solution || !c.errors.empty())
    return;

  // the transferred fields
  std::vector<types::global_dof_index> ind(m.fe.n_dofs_per_cell());
  const unsigned int                   nd = ind.size();
  for (const auto &cell : m.dof.active_cell_iterators())
    if (cell->is_locally_owned())
      {
        cell->get_dof_indices(ind);
        for (unsigned int k = 0; k < nd; ++k)
          if (m.dof.locally_owned_dofs().is_element(ind[k]) && (linear || !m.constraints.is_constrained(ind[k])))
            {
              Point<dim> p;
              for (unsigned int d = 0; d < dim; ++d)
                p[d] = cell->vertex(0)[d] + m.fe.get_unit_support_points()[k][d] * (cell->vertex((1 << dim) - 1)[d] - cell->vertex(0)[d]);
              const auto &x = old[find(p)];
              Point<dim>  u;
              for (unsigned int d = 0; d < dim; ++d)
                u[d] = (p[d] - x.lo[d]) / (x.hi[d] - x.lo[d]);
              for (unsigned int b = 0; b < nb; ++b)
                {
                  double want = 0;
                  for (unsigned int j = 0; j < nd; ++j)
                    want += x.values[b * nd + j] * m.fe.shape_value(j, u);
                  c.close(sol.block(b)[ind[k]], want, 1e-9, 1e-9, "value of block " + std::to_string(b) + " after the adaption");
                }
            }
      }
  // and the constraints are fulfilled
  for (unsigned int b = 0; b < nb; ++b)
    {
      Block x(sol.block(b));
      m.constraints.distribute(x);
      x -= sol.block(b);
      c.check(x.linfty_norm() < 1e-10, "constraints are violated after the adaption");
    }
}

PBT_PROPERTY(mesh_coarsening)
{
  MeshOptions o;
  o.max_cells = dim == 2 ? 200 : 120;
  o.periodic  = false;
  o.max_ref   = dim == 2 ? 3 : 2;
  const unsigned int degree = c.s.range(1, 2);
  Mesh<dim>          m(c, degree, degree + 1, o);
  const unsigned int nb = c.s.range(1, 3);
  BV                 sol(nb);
  for (unsigned int b = 0; b < nb; ++b)
    {
      sol.block(b).reinit(m.partitioner);
      const std::uint64_t key = c.s.draw(1ull << 40);
      m.fill(sol.block(b), [&](const Point<dim> &p) {
        std::uint64_t h = key;
        for (unsigned int d = 0; d < dim; ++d)
          h = pbt::mix(h ^ static_cast<std::uint64_t>(std::llround((p[d] + 10.) * 1e7)));
        return hash01(h);
      });
      m.constraints.distribute(sol.block(b));
      sol.block(b).update_ghost_values();
    }
  const unsigned int steps = c.s.range(0, 2);
  c.desc << "steps " << steps << " ";
  const auto n_old = m.tria.n_global_active_cells();

  // nodal values by position
  const auto key = [](const Point<dim> &p) {
    std::array<long, 3> k{};
    for (unsigned int d = 0; d < dim; ++d)
      k[d] = std::llround(p[d] * 1e6);
    return k;
  };
  const auto gather = [&](const DoFHandler<dim> &dof, const BV &v) {
    std::vector<std::vector<double>> mine;
    Vector<double>                   x(m.fe.n_dofs_per_cell());
    for (const auto &cell : dof.active_cell_iterators())
      if (cell->is_locally_owned())
        for (unsigned int k = 0; k < x.size(); ++k)
          {
            std::vector<double> r;
            for (unsigned int d = 0; d < dim; ++d)
              r.push_back(cell->vertex(0)[d] + m.fe.get_unit_support_points()[k][d] * (cell->vertex((1 << dim) - 1)[d] - cell->vertex(0)[d]));
            for (unsigned int b = 0; b < nb; ++b)
              {
                cell->get_dof_values(v.block(b), x);
                r.push_back(x[k]);
              }
            mine.push_back(r);
          }
    std::map<std::array<long, 3>, std::vector<double>> all;
    for (const auto &part : Utilities::MPI::all_gather(MPI_COMM_WORLD, mine))
      for (const auto &r : part)
        {
          Point<dim> p;
          for (unsigned int d = 0; d < dim; ++d)
            p[d] = r[d];
          all[key(p)] = std::vector<double>(r.begin() + dim, r.end());
        }
    return all;
  };
  const auto before = gather(m.dof, sol);
  std::vector<std::vector<double>> mine;
  for (const auto &cell : m.tria.active_cell_iterators())
    if (cell->is_locally_owned())
      {
        std::vector<double> r{double(cell->level())};
        for (unsigned int d = 0; d < dim; ++d)
          r.push_back(cell->center()[d]);
        mine.push_back(r);
      }
  const auto old = Utilities::MPI::all_gather(MPI_COMM_WORLD, mine);

  Tria            copy(MPI_COMM_WORLD);
  DoFHandler<dim> dof;
  BV              coarse;
  const bool      done = coarsen_triangulation<dim, BV>(copy, m.dof, dof, sol, coarse, steps);
  c.check(done == (steps > 0), "whether anything was done");
  c.check(m.tria.n_global_active_cells() == n_old && gather(m.dof, sol) == before, "the original was changed");
  if (!done)
    return;
  c.require(coarse.n_blocks() == nb, "number of fields");
  c.check(coarse.has_ghost_elements(), "the coarsened fields have ghost values");
  const auto   after = gather(dof, coarse);
  // cells of the finest levels vanish
  int top = 0;
  for (const auto &part : old)
    for (const auto &r : part)
      top = std::max(top, int(r[0]));
  c.check(int(copy.n_global_levels()) - 1 == std::max<int>(0, top - int(steps)), "highest level ", copy.n_global_levels() - 1, " after ", steps, " steps from ", top);
  double vol = 0;
  for (const auto &cell : copy.active_cell_iterators())
    if (cell->is_locally_owned())
      {
        vol += cell->measure();
        int is = -1;
        for (const auto &part : old)
          for (const auto &r : part)
            {
              Point<dim> p;
              for (unsigned int d = 0; d < dim; ++d)
                p[d] = r[1 + d];
              if (cell->point_inside(p))
                is = std::max(is, int(r[0]));
            }
        if (is >= 0) // otherwise finer than before
          c.check(cell->level() <= is && cell->level() >= is - int(steps), "level of a cell of the coarsened mesh");
        else
          c.check(false, "a cell of the coarsened mesh is finer than before");
      }
  vol          = Utilities::MPI::sum(vol, MPI_COMM_WORLD);
  double box   = 1;
  for (unsigned int d = 0; d < dim; ++d)
    box *= m.hi[d] - m.lo[d];
  c.close(vol, box, 1e-9, 0, "volume of the coarsened mesh");
  // nodal values are kept
  for (const auto &[p, v] : after)
    {
      const auto it = before.find(p);
      c.require(it != before.end(), "new node in the coarsened mesh");
      for (unsigned int b = 0; b < nb; ++b)
        c.close(v[b], it->second[b], 1e-10, 1e-10, "nodal value after coarsening");
    }
  c.nontrivial = copy.n_global_active_cells() < n_old;
  c.label("several steps", steps > 1);
}
