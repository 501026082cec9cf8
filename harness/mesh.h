// A generated Cartesian mesh (subdivided box, periodicity, local refinement)
// with scalar unknowns and the constraints the application uses.
#pragma once
#include <deal.II/base/mpi.h>

#include <deal.II/distributed/tria.h>

#include <deal.II/dofs/dof_handler.h>
#include <deal.II/dofs/dof_tools.h>

#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/fe/mapping_q.h>

#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>

#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/la_parallel_vector.h>

#include <deal.II/matrix_free/matrix_free.h>

#include <pf-applications/lac/dynamic_block_vector.h>

#include "pbt.h"

namespace pbtmesh
{
  using namespace dealii;
  using BV    = LinearAlgebra::distributed::DynamicBlockVector<double>;
  using Block = LinearAlgebra::distributed::Vector<double>;

  inline double
  hash01(std::uint64_t a)
  {
    return static_cast<double>(pbt::mix(a) >> 12) / static_cast<double>(1ull << 52);
  }

  struct MeshOptions
  {
    bool         adaptive  = true;
    bool         periodic  = true;
    bool         stretched = true;
    unsigned int max_cells = 250;
    unsigned int min_ref = 1, max_ref = 2;
  };

  template <int dim>
  struct Mesh
  {
    parallel::distributed::Triangulation<dim>    tria;
    FE_Q<dim>                                    fe;
    MappingQ<dim>                                mapping;
    DoFHandler<dim>                              dof;
    AffineConstraints<double>                    constraints;
    QGauss<1>                                    quad;
    MatrixFree<dim, double>                      mf;
    std::shared_ptr<Utilities::MPI::Partitioner> partitioner; // all relevant
    Point<dim>                                   lo, hi;
    std::array<bool, dim>                        periodic;
    bool                                         any_periodic = false, uniform = true;

    Mesh(pbt::Case &c, const unsigned int degree, const unsigned int n_q, const MeshOptions &opt = {})
      : tria(MPI_COMM_WORLD)
      , fe(degree)
      , mapping(1)
      , dof(tria)
      , quad(n_q)
    {
      std::vector<unsigned int> rep(dim);
      for (unsigned int d = 0; d < dim; ++d)
        {
          rep[d]      = c.s.range(1, dim == 2 ? 3 : 2);
          lo[d]       = opt.stretched ? c.s.pick(std::vector<double>{0., 0., -1.5, 2.}) : 0.;
          const auto w = opt.stretched ? c.s.pick(std::vector<double>{1., 1., 0.75, 2.}) : 1.;
          hi[d]       = lo[d] + rep[d] * w;
          periodic[d] = false;
        }
      GridGenerator::subdivided_hyper_rectangle(tria, rep, lo, hi, true);
      std::vector<GridTools::PeriodicFacePair<typename parallel::distributed::Triangulation<dim>::cell_iterator>> pairs;
      if (opt.periodic)
        for (unsigned int d = 0; d < dim; ++d)
          if (c.s.coin(0.3))
            {
              periodic[d] = any_periodic = true;
              GridTools::collect_periodic_faces(tria, 2 * d, 2 * d + 1, d, pairs);
            }
      if (!pairs.empty())
        tria.add_periodicity(pairs);
      tria.refine_global(c.s.range(opt.min_ref, opt.max_ref - (dim == 3 && rep[0] * rep[1] * rep[2] > 2)));
      if (opt.adaptive)
        {
          const unsigned int n = c.s.draw(3);
          for (unsigned int k = 0; k < n; ++k)
            {
              Point<dim> p;
              for (unsigned int d = 0; d < dim; ++d)
                p[d] = c.s.generic(lo[d], hi[d]);
              const double r = c.s.generic(0.2, 0.7);
              for (const auto &cell : tria.active_cell_iterators())
                if (cell->is_locally_owned() && cell->center().distance(p) < r && cell->level() < 4)
                  cell->set_refine_flag();
              if (tria.n_global_active_cells() < opt.max_cells)
                {
                  tria.execute_coarsening_and_refinement();
                  uniform = false;
                }
              else
                for (const auto &cell : tria.active_cell_iterators())
                  cell->clear_refine_flag();
            }
        }
      dof.distribute_dofs(fe);
      const auto relevant = DoFTools::extract_locally_relevant_dofs(dof);
      constraints.reinit(dof.locally_owned_dofs(), relevant);
      DoFTools::make_hanging_node_constraints(dof, constraints);
      if (any_periodic)
        {
          std::vector<GridTools::PeriodicFacePair<typename DoFHandler<dim>::cell_iterator>> dpairs;
          for (unsigned int d = 0; d < dim; ++d)
            if (periodic[d])
              GridTools::collect_periodic_faces(dof, 2 * d, 2 * d + 1, d, dpairs);
          DoFTools::make_periodicity_constraints<dim, dim>(dpairs, constraints);
        }
      constraints.close();
      partitioner = std::make_shared<Utilities::MPI::Partitioner>(dof.locally_owned_dofs(), relevant, MPI_COMM_WORLD);
      if (any_periodic && !consistent(relevant))
        throw pbt::Discard();

      typename MatrixFree<dim, double>::AdditionalData ad;
      ad.mapping_update_flags              = update_values | update_gradients | update_quadrature_points;
      ad.allow_ghosted_vectors_in_loops    = false;
      ad.overlap_communication_computation = false;
      mf.reinit(mapping, dof, constraints, quad, ad);

      c.desc << "dim=" << dim << " cells=" << tria.n_global_active_cells() << " degree=" << degree << " box=(" << lo << ")-(" << hi << ") periodic=";
      for (unsigned int d = 0; d < dim; ++d)
        c.desc << periodic[d];
      c.desc << " ";
      c.label("periodic", any_periodic);
      c.label("locally refined", tria.has_hanging_nodes());
    }

    // processes may disagree on chains of hanging nodes and periodic images
    // (a limitation of the library which creates the constraints)
    bool
    consistent(const IndexSet &relevant) const
    {
      Block v(partitioner);
      for (const auto i : dof.locally_owned_dofs())
        v[i] = hash01(i);
      constraints.distribute(v);
      bool        ok = true;
      const Block r  = [&]() {
        Block x(partitioner);
        x.copy_locally_owned_data_from(v);
        return x;
      }();
      r.update_ghost_values();
      for (const auto i : relevant)
        {
          double want = hash01(i);
          if (constraints.is_constrained(i))
            {
              want = 0;
              for (const auto &[j, w] : *constraints.get_constraint_entries(i))
                want += w * hash01(j);
            }
          ok &= std::abs(r[i] - want) < 1e-12;
        }
      constraints.distribute(v);
      for (const auto i : dof.locally_owned_dofs())
        ok &= std::abs(r[i] - v[i]) < 1e-12;
      return Utilities::MPI::min(static_cast<unsigned int>(ok), MPI_COMM_WORLD) == 1;
    }

    void
    init(Block &v) const
    {
      mf.initialize_dof_vector(v);
    }

    BV
    vector(const unsigned int n) const
    {
      BV v(n);
      for (unsigned int b = 0; b < n; ++b)
        mf.initialize_dof_vector(v.block(b));
      v.collect_sizes();
      return v;
    }

    // nodal values as a function of the position
    void
    fill(Block &v, const std::function<double(const Point<dim> &)> &f) const
    {
      v.zero_out_ghost_values();
      std::vector<types::global_dof_index> ind(fe.n_dofs_per_cell());
      const auto                          &unit = fe.get_unit_support_points();
      for (const auto &cell : dof.active_cell_iterators())
        if (cell->is_locally_owned())
          {
            cell->get_dof_indices(ind);
            const auto a = cell->vertex(0), b = cell->vertex(GeometryInfo<dim>::vertices_per_cell - 1);
            for (unsigned int i = 0; i < ind.size(); ++i)
              if (v.in_local_range(ind[i]))
                {
                  Point<dim> p;
                  for (unsigned int d = 0; d < dim; ++d)
                    p[d] = a[d] + unit[i][d] * (b[d] - a[d]);
                  v[ind[i]] = f(p);
                }
          }
    }

    // copy with all locally relevant entries
    Block
    ghosted(const Block &v) const
    {
      Block r(partitioner);
      r.copy_locally_owned_data_from(v);
      r.update_ghost_values();
      return r;
    }
  };
} // namespace pbtmesh
