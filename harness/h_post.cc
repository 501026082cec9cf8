// Post-processing: areas, extents, mesh quality, pores and box filters.
#include <pf-applications/sintering/operator_sintering_generic.h>
#include <pf-applications/sintering/operator_sintering_coupled_base.h>

#include <deal.II/numerics/vector_tools_evaluate.h>

#include <pf-applications/sintering/postprocessors.h>
#include <pf-applications/sintering/postprocessors_stats.h>

#include "mesh.h"

#ifndef POSTDIM
#  define POSTDIM 2
#endif

using namespace dealii;
using namespace hpsint;
using namespace Sintering;
using namespace pbtmesh;

namespace
{
  constexpr int dim = POSTDIM;
  using P           = Point<dim>;
  using T1          = Tensor<1, dim>;
  using Filter      = BoundingBoxFilter<dim>;

  // linear function
  struct Linear
  {
    T1     g;
    double b = 0;
    double
    operator()(const P &p) const
    {
      double r = b;
      for (unsigned int d = 0; d < dim; ++d)
        r += g[d] * p[d];
      return r;
    }
  };

  // part of the convex set {polygon or segment} where f >= 0
  std::vector<P>
  clip(const std::vector<P> &in, const std::function<double(const P &)> &f)
  {
    std::vector<P> out;
    if (dim == 2)
      {
        if (in.size() < 2)
          return out;
        const double a = f(in[0]), b = f(in[1]);
        if (a < 0 && b < 0)
          return out;
        P p = in[0], q = in[1];
        if (a < 0)
          p = P(in[0] + (in[1] - in[0]) * (a / (a - b)));
        if (b < 0)
          q = P(in[0] + (in[1] - in[0]) * (a / (a - b)));
        return {p, q};
      }
    for (unsigned int i = 0; i < in.size(); ++i)
      {
        const P     &p = in[i], &q = in[(i + 1) % in.size()];
        const double a = f(p), b = f(q);
        if (a >= 0)
          out.push_back(p);
        if ((a >= 0) != (b >= 0))
          out.push_back(P(p + (q - p) * (a / (a - b))));
      }
    return out;
  }

  double
  measure(const std::vector<P> &x)
  {
    if (dim == 2)
      return x.size() < 2 ? 0. : x[0].distance(x[1]);
    double area = 0;
    for (unsigned int i = 2; i < x.size(); ++i)
      {
        const T1 a = x[i - 1] - x[0], b = x[i] - x[0];
        double   s = 0;
        for (unsigned int d = 0; d < dim; ++d)
          {
            const unsigned int e = (d + 1) % dim;
            const double       z = a[d] * b[e] - a[e] * b[d];
            s += z * z;
          }
        area += 0.5 * std::sqrt(s);
      }
    return area;
  }

  // {f = iso} within a box
  std::vector<P>
  section(const Linear &f, const double iso, const P &lo, const P &hi)
  {
    const double gn = f.g.norm();
    P            mid;
    for (unsigned int d = 0; d < dim; ++d)
      mid[d] = 0.5 * (lo[d] + hi[d]);
    const double   R = 10 * (lo.distance(hi) + 1);
    const P        o = P(mid + f.g * ((iso - f(mid)) / (gn * gn)));
    std::vector<P> r;
    if (o.distance(mid) > R)
      return r;
    // tangents
    if (dim == 2)
      {
        T1 t;
        t[0] = -f.g[1] / gn;
        t[1] = f.g[0] / gn;
        r    = {P(o - t * R), P(o + t * R)};
      }
    else
      {
        const T1     n = f.g / gn;
        unsigned int k = 0;
        for (unsigned int d = 1; d < dim; ++d)
          if (std::abs(n[d]) < std::abs(n[k]))
            k = d;
        T1 a;
        a[k] = 1;
        a -= n * (n * a);
        a /= a.norm();
        T1 b;
        for (unsigned int d = 0; d < dim; ++d)
          b[d] = n[(d + 1) % dim] * a[(d + 2) % dim] - n[(d + 2) % dim] * a[(d + 1) % dim];
        r = {P(o + (a + b) * R), P(o + (b - a) * R), P(o - (a + b) * R), P(o + (a - b) * R)};
      }
    for (unsigned int d = 0; d < dim; ++d)
      {
        r = clip(r, [&](const P &p) { return p[d] - lo[d]; });
        r = clip(r, [&](const P &p) { return hi[d] - p[d]; });
      }
    return r;
  }

  MeshOptions
  opts(const bool periodic)
  {
    MeshOptions o;
    o.periodic  = periodic;
    o.max_cells = dim == 2 ? 300 : 200;
    o.max_ref   = 3;
    return o;
  }

  void
  random_box(pbt::Case &c, const Mesh<dim> &m, P &a, P &b)
  {
    for (unsigned int d = 0; d < dim; ++d)
      {
        const double w = m.hi[d] - m.lo[d];
        a[d]           = c.s.generic(m.lo[d] - 0.3 * w, m.lo[d] + 0.8 * w);
        b[d]           = a[d] + c.s.generic(0.1 * w, 1.3 * w);
      }
  }

  double
  max_diameter(const Mesh<dim> &m)
  {
    double h = 0;
    for (const auto &cell : m.dof.active_cell_iterators())
      if (cell->is_locally_owned())
        h = std::max(h, cell->diameter());
    return Utilities::MPI::max(h, MPI_COMM_WORLD);
  }

  Linear
  random_linear(pbt::Case &c, const Mesh<dim> &m, const double iso, const double slope)
  {
    Linear f;
    P      p;
    for (unsigned int d = 0; d < dim; ++d)
      {
        f.g[d] = c.s.coin(0.2) ? 0. : c.s.generic(-1, 1);
        p[d]   = c.s.generic(m.lo[d], m.hi[d]);
      }
    if (f.g.norm() < 1e-2)
      f.g[c.s.draw(dim)] = 1.;
    f.g *= slope / f.g.norm();
    f.b = iso - f(p);
    return f;
  }

  // the cell level algorithm is not part of the program: facets through
  // vertices may be counted by either cell
  bool
  through_nodes(const Mesh<dim> &m, const Linear &f, const double iso, const unsigned int n_sub)
  {
    bool         r = false;
    const double t = 1e-7 * f.g.norm();
    for (const auto &cell : m.dof.active_cell_iterators())
      if (cell->is_locally_owned())
        {
          const P a = cell->vertex(0), b = cell->vertex(GeometryInfo<dim>::vertices_per_cell - 1);
          for (unsigned int k = 0; k < Utilities::pow(n_sub + 1, dim); ++k)
            {
              P            p;
              unsigned int x = k;
              for (unsigned int d = 0; d < dim; ++d, x /= n_sub + 1)
                p[d] = a[d] + (b[d] - a[d]) * double(x % (n_sub + 1)) / n_sub;
              r |= std::abs(f(p) - iso) < t;
            }
        }
    return Utilities::MPI::max(unsigned(r), MPI_COMM_WORLD) == 1;
  }
} // namespace

// Area of the free surface: level set of the first block
PBT_PROPERTY(surface_area)
{
  Mesh<dim>          m(c, c.s.range(1, 2), 3, opts(true));
  const double       iso   = c.s.pick(std::vector<double>{0.5, 0.3, 0.7});
  const unsigned int n_sub = c.s.range(1, 2);
  const Linear       f     = random_linear(c, m, iso, c.s.logreal(0.2, 5));
  if (through_nodes(m, f, iso, n_sub))
    throw pbt::Discard();
  BV v = BV(c.s.range(1, 3));
  for (unsigned int b = 0; b < v.n_blocks(); ++b)
    {
      v.block(b).reinit(m.partitioner);
      m.fill(v.block(b), [&](const P &p) { return b == 0 ? f(p) : hash01(std::llround(p[0] * 1e6) + b); });
    }
  v.collect_sizes();
  const bool boxed = c.s.coin(0.5);
  P          a, b;
  std::shared_ptr<const Filter> filter;
  if (boxed)
    {
      random_box(c, m, a, b);
      filter = std::make_shared<const Filter>(BoundingBox<dim>(std::make_pair(a, b)));
    }
  const bool ghosted = c.s.coin();
  if (ghosted)
    v.update_ghost_values();
  const double got = Postprocessors::compute_surface_area(m.mapping, m.dof, v, iso, filter, n_sub);
  c.check(v.block(0).has_ghost_elements() == ghosted, "state of the ghost values has changed");

  double want_lo, want_hi;
  if (!boxed)
    want_lo = want_hi = measure(section(f, iso, m.lo, m.hi));
  else
    {
      const double h = max_diameter(m) / n_sub;
      P            l1 = m.lo, h1 = m.hi, l2 = m.lo, h2 = m.hi;
      bool         empty = false;
      for (unsigned int d = 0; d < dim; ++d)
        {
          l1[d] = std::max(m.lo[d], a[d] + h);
          h1[d] = std::min(m.hi[d], b[d] - h);
          l2[d] = std::max(m.lo[d], a[d] - h);
          h2[d] = std::min(m.hi[d], b[d] + h);
          empty |= h1[d] <= l1[d];
        }
      want_lo = empty ? 0. : measure(section(f, iso, l1, h1));
      for (unsigned int d = 0; d < dim; ++d)
        empty |= h2[d] <= l2[d];
      want_hi = measure(section(f, iso, l2, h2));
    }
  c.check(got >= want_lo - 1e-6 && got <= want_hi + 1e-6, "surface area is ", got, ", not in ", want_lo, "..", want_hi);
  c.label("box", boxed);
  c.label("a box in the domain", boxed && want_lo > 0);
  c.nontrivial = want_hi > 0;
}

// Area of the grain boundaries: common parts of the level sets
PBT_PROPERTY(boundary_area)
{
  Mesh<dim>    m(c, 1, 2, opts(true));
  const double iso = c.s.pick(std::vector<double>{0.5, 0.4}), lim = c.s.pick(std::vector<double>{0.14, 0.2, 0.05});
  const unsigned int  n = c.s.range(2, 4);
  std::vector<Linear> f;
  const double        slope = c.s.logreal(0.05, 1.);
  for (unsigned int i = 0; i < n; ++i)
    {
      if (i > 0 && c.s.coin(0.5))
        {
          // opposite of an earlier one, slightly shifted
          Linear g = f[c.s.draw(i)];
          g.g *= -1;
          g.b = 2 * iso - g.b + (c.s.coin() ? 0. : c.s.generic(-0.2, 0.2));
          f.push_back(g);
        }
      else
        f.push_back(random_linear(c, m, iso + (i > 0 ? c.s.generic(-0.2, 0.2) : 0.), slope));
      if (through_nodes(m, f.back(), iso, 1))
        throw pbt::Discard();
    }
  BV v(n);
  for (unsigned int i = 0; i < n; ++i)
    {
      v.block(i).reinit(m.partitioner);
      m.fill(v.block(i), f[i]);
    }
  v.collect_sizes();
  const bool                    boxed = c.s.coin(0.4);
  P                             a, b;
  std::shared_ptr<const Filter> filter;
  if (boxed)
    {
      random_box(c, m, a, b);
      filter = std::make_shared<const Filter>(BoundingBox<dim>(std::make_pair(a, b)));
    }
  const bool ghosted = c.s.coin();
  if (ghosted)
    v.update_ghost_values();
  const double got = Postprocessors::compute_grain_boundaries_area(m.mapping, m.dof, v, iso, lim, filter);

  const double h = max_diameter(m);
  double       lo = 0, hi = 0;
  bool         empty = false;
  P            l1 = m.lo, h1 = m.hi, l2 = m.lo, h2 = m.hi;
  if (boxed)
    for (unsigned int d = 0; d < dim; ++d)
      {
        l1[d] = std::max(m.lo[d], a[d] + h);
        h1[d] = std::min(m.hi[d], b[d] - h);
        l2[d] = std::max(m.lo[d], a[d] - h);
        h2[d] = std::min(m.hi[d], b[d] + h);
        empty |= h1[d] <= l1[d];
      }
  for (unsigned int i = 0; i < n; ++i)
    {
      Linear others;
      for (unsigned int j = 0; j < n; ++j)
        if (j != i)
          {
            others.g += f[j].g;
            others.b += f[j].b;
          }
      // products are interpolated from the nodes of a cell
      const double e = others.g.norm() * f[i].g.norm() * h * h + iso * others.g.norm() * h + 1e-9;
      if (!empty)
        lo += 0.5 * measure(clip(section(f[i], iso, l1, h1), [&](const P &p) { return iso * others(p) - lim - e; }));
      hi += 0.5 * measure(clip(section(f[i], iso, l2, h2), [&](const P &p) { return iso * others(p) - lim + e; }));
    }
  c.check(got >= lo - 1e-6 && got <= hi + 1e-6, "area of the grain boundaries is ", got, ", not in ", lo, "..", hi);
  c.label("box", boxed);
  c.label("sharp", hi > 0 && lo > 0.99 * hi);
  c.nontrivial = lo > 0;
}

// Extents of the body
PBT_PROPERTY(extents)
{
  Mesh<dim>          m(c, c.s.range(1, 2), 3, opts(true));
  const unsigned int n_int = c.s.pick(std::vector<unsigned int>{10, 4, 2});
  const double       thr   = 0.49;
  BV                 v(2);
  for (unsigned int b = 0; b < 2; ++b)
    v.block(b).reinit(m.partitioner);
  v.collect_sizes();
  const bool noise = c.s.coin(0.3);
  if (noise)
    {
      const auto key = c.s.draw(1ull << 40);
      m.fill(v.block(0), [&](const P &p) {
        std::uint64_t k = key;
        for (unsigned int d = 0; d < dim; ++d)
          k = pbt::mix(k ^ static_cast<std::uint64_t>(std::llround((p[d] + 10) * 1e7)));
        return 1.2 * hash01(k) - 0.1;
      });
    }
  else
    {
      std::vector<std::pair<P, double>> balls;
      const unsigned int                n = c.s.range(1, 3);
      for (unsigned int i = 0; i < n; ++i)
        {
          P p;
          for (unsigned int d = 0; d < dim; ++d)
            p[d] = c.s.generic(m.lo[d], m.hi[d]);
          balls.emplace_back(p, c.s.generic(0.1, 0.6));
        }
      const double w = c.s.logreal(0.05, 0.5);
      m.fill(v.block(0), [&](const P &p) {
        double r = -1e10;
        for (const auto &[x, rad] : balls)
          r = std::max(r, rad - p.distance(x));
        return 0.5 + 0.5 * std::tanh(r / w);
      });
    }
  m.fill(v.block(1), [&](const P &p) { return p[0]; });
  m.constraints.distribute(v.block(0));
  m.constraints.distribute(v.block(0));
  const Block sol = m.ghosted(v.block(0));
  sol.update_ghost_values();
  const bool ghosted = c.s.coin();
  if (ghosted)
    v.update_ghost_values();
  else
    v.zero_out_ghost_values();

  // reference: all cells the surface passes through
  std::vector<Point<1>> pts(n_int - 1);
  for (unsigned int i = 0; i + 1 < n_int; ++i)
    pts[i][0] = double(i + 1) / n_int;
  const Quadrature<dim> fine(Quadrature<1>{pts}), nodes(m.fe.get_unit_support_points());
  FEValues<dim>         fv(m.mapping, m.fe, fine, update_values | update_quadrature_points), fn(m.mapping, m.fe, nodes, update_quadrature_points);
  std::vector<double>   x(fine.size());
  Vector<double>        values(m.fe.n_dofs_per_cell());
  const double          big = 1e10;
  // [direction][side]: extent of the nodes, of all points; per cell data
  std::array<std::array<double, 2>, dim> node{}, all{}, outer{};
  for (auto *q : {&node, &all, &outer})
    for (auto &r : *q)
      r = {{big, big}};
  struct Entry
  {
    P                                      center;
    double                                 diameter;
    std::array<std::array<double, 2>, dim> ext;
  };
  std::vector<Entry> cells;
  bool               mixed = false, near = false;
  for (const auto &cell : m.dof.active_cell_iterators())
    if (cell->is_locally_owned())
      {
        cell->get_dof_values(sol, values);
        bool above = false, below = false;
        for (const double y : values)
          {
            above |= y > thr;
            below |= y < thr;
            near |= std::abs(y - thr) < 1e-9;
          }
        if (!(above && below))
          continue;
        mixed = true;
        fv.reinit(cell);
        fn.reinit(cell);
        fv.get_function_values(sol, x);
        Entry e;
        e.center   = cell->center();
        e.diameter = cell->diameter();
        for (unsigned int d = 0; d < dim; ++d)
          for (unsigned int s = 0; s < 2; ++s)
            {
              const double sign = s ? -1. : 1.;
              e.ext[d][s]       = big;
              for (unsigned int q = 0; q < nodes.size(); ++q)
                if (values[q] > thr)
                  node[d][s] = std::min(node[d][s], sign * fn.quadrature_point(q)[d]);
              for (unsigned int q = 0; q < fine.size(); ++q)
                {
                  near |= std::abs(x[q] - thr) < 1e-9;
                  if (x[q] > thr)
                    e.ext[d][s] = std::min(e.ext[d][s], sign * fv.quadrature_point(q)[d]);
                }
              all[d][s]   = std::min(all[d][s], e.ext[d][s]);
              outer[d][s] = std::min(outer[d][s], sign * e.center[d]);
            }
        cells.push_back(e);
      }
  mixed = Utilities::MPI::max(unsigned(mixed), MPI_COMM_WORLD);
  near  = Utilities::MPI::max(unsigned(near), MPI_COMM_WORLD);
  if (!mixed || near)
    throw pbt::Discard();
  const auto bb = Postprocessors::estimate_shrinkage(m.mapping, m.dof, v, n_int);
  c.check(v.block(0).has_ghost_elements() == ghosted, "state of the ghost values has changed");
  for (unsigned int d = 0; d < dim; ++d)
    for (unsigned int s = 0; s < 2; ++s)
      {
        const double first = Utilities::MPI::min(outer[d][s], MPI_COMM_WORLD), nd = Utilities::MPI::min(node[d][s], MPI_COMM_WORLD),
                     al = std::min(nd, Utilities::MPI::min(all[d][s], MPI_COMM_WORLD));
        // the outermost cells on their process
        double worst = -big;
        for (const auto &e : cells)
          if ((s ? -1. : 1.) * e.center[d] <= first + 3e-3 * e.diameter)
            worst = std::max(worst, e.ext[d][s]);
        worst            = Utilities::MPI::max(worst, MPI_COMM_WORLD);
        const double got = s ? -bb.get_boundary_points().second[d] : bb.get_boundary_points().first[d];
        c.check(got >= al - 1e-9, "body ends at ", std::abs(got), ", beyond all points with material, ", al);
        c.check(got <= nd + 1e-9, "body ends at ", got, " though there is a node with material at ", nd);
        c.check(got <= worst + 1e-9, "body ends at ", got, " though its outermost cell has material at ", worst);
      }
  c.label("noise", noise);
  c.nontrivial = true;
}

// Mesh quality: largest change of a field within a cell
PBT_PROPERTY(quality)
{
  Mesh<dim> m(c, c.s.range(1, 2), 3, opts(true));
  BV        v(c.s.range(1, 4));
  for (unsigned int b = 0; b < v.n_blocks(); ++b)
    {
      v.block(b).reinit(m.partitioner);
      const auto   key = c.s.draw(1ull << 40);
      const double amp = c.s.logreal(0.1, 2);
      m.fill(v.block(b), [&](const P &p) {
        std::uint64_t k = key;
        for (unsigned int d = 0; d < dim; ++d)
          k = pbt::mix(k ^ static_cast<std::uint64_t>(std::llround((p[d] + 10) * 1e7)));
        return amp * (hash01(k) - 0.3);
      });
    }
  v.collect_sizes();
  double              want = 1;
  std::vector<Block>  s;
  for (unsigned int b = 0; b < v.n_blocks(); ++b)
    s.push_back(m.ghosted(v.block(b)));
  for (auto &x : s)
    x.update_ghost_values();
  std::vector<types::global_dof_index> ind(m.fe.n_dofs_per_cell());
  for (const auto &cell : m.dof.active_cell_iterators())
    if (cell->is_locally_owned())
      {
        cell->get_dof_indices(ind);
        for (auto &x : s)
          {
            double lo = 1e10, hi = -1e10;
            for (const auto i : ind)
              lo = std::min(lo, x[i]), hi = std::max(hi, x[i]);
            want = std::min(want, 1 - (hi - lo));
          }
      }
  want               = Utilities::MPI::min(want, MPI_COMM_WORLD);
  const bool ghosted = c.s.coin();
  if (ghosted)
    v.update_ghost_values();
  const double got = Postprocessors::estimate_mesh_quality_min(m.dof, v);
  c.check(std::abs(got - want) < 1e-13, "mesh quality is ", got, " instead of ", want);
  c.nontrivial = v.n_blocks() > 1;
}

// Pores: connected void regions
PBT_PROPERTY(pores)
{
  Mesh<dim>    m(c, 1, 2, opts(false));
  const double thr = c.s.pick(std::vector<double>{0.8, 0.5});
  BV           v(c.s.range(1, 3));
  for (unsigned int b = 0; b < v.n_blocks(); ++b)
    v.block(b).reinit(m.partitioner);
  v.collect_sizes();
  const bool   noise   = c.s.coin(0.4);
  const double density = c.s.pick(std::vector<double>{0.1, 0.25, 0.02});
  for (unsigned int b = 0; b < v.n_blocks(); ++b)
    {
      const auto         key = c.s.draw(1ull << 40);
      const Linear       f   = random_linear(c, m, 0., 1.);
      const double       w   = c.s.generic(0.05, 0.6);
      m.fill(v.block(b), [&](const P &p) {
        if (!noise) // a wall
          return std::abs(f(p)) < w / 2 ? 1. : 0.;
        std::uint64_t k = key;
        for (unsigned int d = 0; d < dim; ++d)
          k = pbt::mix(k ^ static_cast<std::uint64_t>(std::llround((p[d] + 10) * 1e7)));
        return hash01(k) < density ? 1. : thr * hash01(k + 1) * 0.99;
      });
      m.constraints.distribute(v.block(b));
    }
  const bool                    boxed = c.s.coin(0.4);
  P                             a, b;
  std::shared_ptr<const Filter> filter;
  if (boxed)
    {
      random_box(c, m, a, b);
      filter = std::make_shared<const Filter>(BoundingBox<dim>(std::make_pair(a, b)));
    }
  // reference on one process
  struct Cell
  {
    bool   empty;
    double measure, diameter;
    P      center;
  };
  std::vector<Block> s;
  for (unsigned int k = 0; k < v.n_blocks(); ++k)
    s.push_back(m.ghosted(v.block(k)));
  for (auto &x : s)
    x.update_ghost_values();
  using Id = std::string;
  std::map<Id, std::vector<double>>           data;
  std::vector<std::pair<Id, Id>>              strict, loose;
  std::vector<types::global_dof_index>        ind(m.fe.n_dofs_per_cell());
  for (const auto &cell : m.dof.active_cell_iterators())
    if (cell->is_locally_owned())
      {
        bool empty = true;
        cell->get_dof_indices(ind);
        for (auto &x : s)
          for (const auto i : ind)
            empty &= std::abs(x[i]) < thr;
        if (boxed)
          for (unsigned int d = 0; d < dim; ++d)
            empty &= cell->center()[d] >= a[d] && cell->center()[d] <= b[d];
        if (!empty)
          continue;
        std::vector<double> e{cell->measure(), cell->diameter()};
        for (unsigned int d = 0; d < dim; ++d)
          e.push_back(cell->center()[d]);
        const auto id = cell->id().to_string();
        data[id]      = e;
        for (const auto f : cell->face_indices())
          if (!cell->at_boundary(f))
            {
              const auto n = cell->neighbor(f);
              if (n->is_active())
                strict.emplace_back(id, n->id().to_string());
              else
                {
                  const std::function<void(const typename DoFHandler<dim>::cell_iterator &)> descend = [&](const auto &x) {
                    if (x->is_active())
                      loose.emplace_back(id, x->id().to_string());
                    else
                      for (unsigned int k = 0; k < x->n_children(); ++k)
                        descend(x->child(k));
                  };
                  descend(n);
                  const auto g = cell->neighbor_face_no(f);
                  for (unsigned int k = 0; k < cell->face(f)->n_children(); ++k)
                    strict.emplace_back(id, n->child(GeometryInfo<dim>::child_cell_on_face(RefinementCase<dim>::isotropic_refinement, g, k))->id().to_string());
                }
            }
      }
  {
    const auto ad = Utilities::MPI::all_gather(MPI_COMM_WORLD, data);
    data.clear();
    for (const auto &x : ad)
      data.insert(x.begin(), x.end());
    for (auto *l : {&strict, &loose})
      {
        const auto al = Utilities::MPI::all_gather(MPI_COMM_WORLD, *l);
        l->clear();
        for (const auto &x : al)
          l->insert(l->end(), x.begin(), x.end());
      }
  }
  std::map<Id, Id>              parent;
  std::function<Id(const Id &)> find = [&](const Id &i) -> Id {
    if (parent.at(i) == i)
      return i;
    return parent[i] = find(parent[i]);
  };
  for (const auto &[i, x] : data)
    parent[i] = i;
  const auto join = [&](const std::vector<std::pair<Id, Id>> &l) {
    for (const auto &[i, j] : l)
      if (parent.count(i) && parent.count(j))
        parent[find(i)] = find(j);
  };
  const auto components = [&]() {
    std::map<Id, std::vector<Id>> r;
    for (const auto &[i, x] : data)
      r[find(i)].push_back(i);
    return r;
  };
  join(strict);
  const auto comp = components();
  join(loose);
  const auto   n_loose = components().size();
  const bool   exact   = n_loose == comp.size();
  const bool   ghosted = c.s.coin();
  if (ghosted)
    v.update_ghost_values();
  else
    v.zero_out_ghost_values();
  char name[100];
  std::snprintf(name, sizeof(name), "/tmp/pbt_pores_%d.txt", int(getpid()));
  std::string out = name;
  out             = Utilities::MPI::broadcast(MPI_COMM_WORLD, out, 0);
  Postprocessors::output_porosity_stats(m.dof, v, out, thr, filter);
  MPI_Barrier(MPI_COMM_WORLD);
  if (Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0)
    {
      std::ifstream                    in(out);
      std::string                      head;
      std::vector<std::vector<double>> rows;
      std::getline(in, head);
      {
        std::istringstream       hs(head);
        std::vector<std::string> cols;
        std::string              w;
        while (hs >> w)
          cols.push_back(w);
        std::vector<std::string> want{"id", "measure", "radius", "x", "y", "z"};
        want.resize(3 + dim);
        if (!data.empty())
          c.check(cols == want, "columns of the table of pores: ", head);
      }
      std::string line;
      while (std::getline(in, line))
        {
          std::istringstream  ls(line);
          std::vector<double> r;
          double              y;
          while (ls >> y)
            r.push_back(y);
          if (r.size() == 3 + dim)
            rows.push_back(r);
        }
      in.close();
      std::remove(out.c_str());
      if (exact)
        c.check(rows.size() == comp.size(), rows.size(), " pores instead of ", comp.size());
      else
        c.check(rows.size() <= comp.size() && rows.size() >= n_loose, rows.size(), " pores, not ", n_loose, "..", comp.size());
      double total = 0, want_total = 0;
      for (const auto &r : rows)
        total += r[1];
      for (const auto &[i, x] : data)
        want_total += x[0];
      c.check(std::abs(total - want_total) <= 1e-8 * want_total + 1e-9 * rows.size(), "volume of all pores is ", total, " instead of ", want_total);
      std::set<int> ids;
      for (const auto &r : rows)
        ids.insert(int(r[0]));
      c.check(ids.size() == rows.size() && (ids.empty() || *ids.rbegin() == int(rows.size()) - 1), "numbers of the pores");
      if (exact)
        for (const auto &[root, cells] : comp)
          {
            double vol = 0, radius = 0;
            P      centre;
            for (const auto &i : cells)
              {
                vol += data[i][0];
                for (unsigned int d = 0; d < dim; ++d)
                  centre[d] += data[i][0] * data[i][2 + d];
              }
            centre /= vol;
            for (const auto &i : cells)
              {
                P x;
                for (unsigned int d = 0; d < dim; ++d)
                  x[d] = data[i][2 + d];
                radius = std::max(radius, x.distance(centre) + data[i][1] / 2);
              }
            bool found = false;
            for (const auto &r : rows)
              {
                bool ok = std::abs(r[1] - vol) < 1e-9 && std::abs(r[2] - radius) < 1e-7 * radius;
                for (unsigned int d = 0; d < dim; ++d)
                  ok &= std::abs(r[3 + d] - centre[d]) < 1e-7;
                found |= ok;
              }
            c.check(found, "no pore of volume ", vol, ", radius ", radius, " at ", centre);
          }
    }
  c.label("box", boxed);
  c.label("number of pores " + std::string(comp.size() > 2 ? ">2" : std::to_string(comp.size())));
  c.label("neighbours of different size decide", !exact);
  c.nontrivial = comp.size() > 1;
}

// Pores with very many cells on one process
PBT_PROPERTY(large_pores)
{
  parallel::distributed::Triangulation<dim> tria(MPI_COMM_WORLD);
  GridGenerator::hyper_cube(tria);
  const unsigned int level = dim == 2 ? c.s.range(3, 9) : c.s.range(2, 6), n = 1u << level;
  tria.refine_global(level);
  FE_Q<dim>       fe(1);
  DoFHandler<dim> dof(tria);
  dof.distribute_dofs(fe);
  const double       thr     = 0.8;
  const unsigned int n_walls = c.s.range(0, 3), dir = c.s.draw(dim);
  std::set<unsigned int> walls;
  for (unsigned int k = 0; k < n_walls; ++k)
    walls.insert(c.s.range(0, n));
  BV v(1);
  v.block(0).reinit(std::make_shared<Utilities::MPI::Partitioner>(dof.locally_owned_dofs(), DoFTools::extract_locally_relevant_dofs(dof), MPI_COMM_WORLD));
  v.collect_sizes();
  std::vector<types::global_dof_index> ind(fe.n_dofs_per_cell());
  for (const auto &cell : dof.active_cell_iterators())
    if (cell->is_locally_owned())
      {
        cell->get_dof_indices(ind);
        for (const auto i : cell->vertex_indices())
          if (v.block(0).in_local_range(ind[i]))
            v.block(0)[ind[i]] = walls.count(std::lround(cell->vertex(i)[dir] * n)) ? 1. : 0.;
      }
  std::multiset<long> want, got;
  for (unsigned int i = 0; i < n;)
    {
      unsigned int k = i;
      while (k < n && !walls.count(k) && !walls.count(k + 1))
        ++k;
      if (k > i)
        want.insert(long(k - i));
      i = std::max(k, i + 1);
    }
  char name[100];
  std::snprintf(name, sizeof(name), "/tmp/pbt_pores_%d.txt", int(getpid()));
  Postprocessors::output_porosity_stats(dof, v, name, thr);
  std::ifstream in(name);
  std::string   line;
  std::getline(in, line);
  while (std::getline(in, line))
    {
      std::istringstream ls(line);
      double             id, m;
      if (ls >> id >> m)
        got.insert(std::lround(m * n));
    }
  std::remove(name);
  c.check(got == want, got.size(), " pores instead of ", want.size(), ", or other volumes, on ", Utilities::pow(n, dim), " cells");
  c.desc << "cells=" << Utilities::pow(n, dim) << " walls=" << walls.size() << " ";
  c.label("more than 50000 cells", Utilities::pow(n, dim) > 50000);
  c.nontrivial = Utilities::pow(n, dim) > 10000;
}

// Box filter and intersections with its planes
PBT_PROPERTY(box_filter)
{
  P a, b;
  for (unsigned int d = 0; d < dim; ++d)
    {
      a[d] = c.s.real(-2, 1);
      b[d] = a[d] + c.s.logreal(0.1, 3);
    }
  const Filter filter(BoundingBox<dim>(std::make_pair(a, b)));
  const unsigned int n = c.s.range(1, 6);
  for (unsigned int k = 0; k < n; ++k)
    {
      P p;
      for (unsigned int d = 0; d < dim; ++d)
        {
          const int w = c.s.range(0, 4);
          p[d]        = w == 0 ? a[d] : w == 1 ? b[d] : c.s.generic(a[d] - 0.5, b[d] + 0.5);
        }
      bool in = true, on = false;
      for (unsigned int d = 0; d < dim; ++d)
        {
          in &= p[d] >= a[d] && p[d] <= b[d];
          on |= p[d] == a[d] || p[d] == b[d];
        }
      const auto want = !in ? Filter::Position::Outside : on ? Filter::Position::Boundary : Filter::Position::Inside;
      c.check(filter.position(p) == want, "position of a point is ", int(filter.position(p)), " instead of ", int(want));
      c.check(filter.point_outside(p) == !in && filter.point_inside(p) == (in && !on) && filter.point_boundary(p) == (in && on) &&
                filter.point_inside_or_boundary(p) == in && filter.point_outside_or_boundary(p) == (!in || on),
              "queries for a point at position ", int(want));
      using VA = VectorizedArray<double>;
      Point<dim, VA> q;
      const unsigned int lane = c.s.draw(VA::size());
      for (unsigned int l = 0; l < VA::size(); ++l)
        for (unsigned int d = 0; d < dim; ++d)
          q[d][l] = l == lane ? p[d] : a[d] - 1 + 0.3 * hash01(l * dim + d + 1000 * k);
      const auto r = filter.filter(q);
      for (unsigned int l = 0; l < VA::size(); ++l)
        c.check(r[l] == (l == lane && in && !on ? 1. : 0.), "filter of a point at position ", int(want), " is ", r[l]);
      if (in && !on)
        c.nontrivial = true;
    }
  // cells
  Triangulation<dim> tria;
  P                  x, y;
  for (unsigned int d = 0; d < dim; ++d)
    {
      x[d] = c.s.generic(a[d] - 1, b[d]);
      y[d] = x[d] + c.s.logreal(0.1, 3);
    }
  GridGenerator::hyper_rectangle(tria, x, y);
  unsigned int inside = 0, outside = 0;
  const auto   cell   = tria.begin_active();
  for (const auto i : cell->vertex_indices())
    {
      const auto pos = filter.position(cell->vertex(i));
      inside += pos == Filter::Position::Inside;
      outside += pos == Filter::Position::Outside;
    }
  c.check(filter.intersects(*cell) == (inside < cell->n_vertices() && outside < cell->n_vertices()), "intersection with a cell");
  // planes of the box and lines
  for (const auto &plane : filter.get_planes())
    {
      P    p0, p1;
      for (unsigned int d = 0; d < dim; ++d)
        {
          p0[d] = c.s.generic(-3, 3);
          p1[d] = c.s.coin(0.2) ? p0[d] : c.s.generic(-3, 3);
        }
      const auto [has, fac, p] = intersect_line_plane(p0, p1, plane.origin, plane.normal);
      const double along       = std::abs((p1 - p0) * plane.normal);
      if (along > 1e-5)
        {
          c.check(has, "line not parallel to a plane has no intersection");
          c.check(std::abs((p - plane.origin) * plane.normal) < 1e-9 / std::min(1., along), "intersection is not in the plane");
          const P q = P(p0 + (p1 - p0) * std::abs(fac) * ((p - p0) * (p1 - p0) >= 0 ? 1. : -1.));
          c.check(q.distance(p) < 1e-9 / along, "intersection is not on the line");
        }
      else if (along < 1e-7)
        c.check(!has, "intersection of a line with a parallel plane");
    }
  unsigned int k = 0;
  for (const auto &plane : filter.get_planes())
    {
      c.check(plane.origin == (k < dim ? a : b), "origin of a plane");
      for (unsigned int d = 0; d < dim; ++d)
        c.check((plane.normal[d] != 0) == (d == k % dim), "normal of a plane");
      ++k;
    }
}
