// Initial packings, microstructures and particle files.
#include <deal.II/base/geometric_utilities.h>

#include <pf-applications/sintering/initial_values_circle.h>
#include <pf-applications/sintering/initial_values_cloud.h>
#include <pf-applications/sintering/initial_values_hypercube.h>
#include <pf-applications/sintering/initial_values_microstructure_imaging.h>
#include <pf-applications/sintering/initial_values_microstructure_voronoi.h>
#include <pf-applications/sintering/particle.h>

#include <iomanip>
#include <set>
#include <sstream>

#include "pbt.h"

using namespace dealii;
using namespace Sintering;

namespace
{
  struct Options
  {
    double             w;
    InterfaceDirection dir;
    unsigned int       offset;
    bool               as_void;
    bool               accumulative;
  };

  const char *
  name(InterfaceDirection d)
  {
    return d == InterfaceDirection::inside ? "inside" : d == InterfaceDirection::outside ? "outside" : "middle";
  }

  Options
  options(pbt::Case &c, double w)
  {
    Options o;
    o.w            = w;
    o.dir          = c.s.coin(0.7) ? InterfaceDirection::middle : c.s.coin() ? InterfaceDirection::inside : InterfaceDirection::outside;
    o.offset       = c.s.range(0, 2);
    o.as_void      = c.s.coin(0.3);
    o.accumulative = c.s.coin(0.3);
    c.desc << " w=" << o.w << " " << name(o.dir) << " offset=" << o.offset << (o.as_void ? " void" : "") << (o.accumulative ? " sum" : "");
    return o;
  }

  template <int dim>
  double
  component(const InitialValues<dim> &iv, const Point<dim> &p, unsigned int k)
  {
    iv.set_component(k);
    return iv.value(p, 0);
  }

  template <int dim>
  std::vector<double>
  order_parameters(const InitialValues<dim> &iv, const Options &o, const Point<dim> &p)
  {
    std::vector<double> v(iv.n_order_parameters());
    for (unsigned int k = 0; k < v.size(); ++k)
      v[k] = component(iv, p, k + o.offset);
    return v;
  }

  // range of all fields and the relation between concentration, potential and
  // order parameters
  template <int dim>
  std::vector<double>
  check_fields(pbt::Case &c, const InitialValues<dim> &iv, const Options &o, const Point<dim> &p)
  {
    const auto v = order_parameters(iv, o, p);
    double     m = 0, sum = 0;
    for (unsigned int k = 0; k < v.size(); ++k)
      {
        c.check(v[k] >= -1e-14 && v[k] <= 1 + 1e-14, "order parameter ", k, " = ", v[k], " at ", p);
        m = std::max(m, v[k]);
        sum += v[k];
      }
    if (o.offset > 0)
      {
        double ref = o.accumulative ? std::min(1., sum) : m;
        if (o.as_void)
          ref = 1 - ref;
        c.close(component(iv, p, 0), ref, 0, 1e-13, "concentration");
      }
    if (o.offset == 2)
      c.close(component(iv, p, 1), 0, 0, 0, "chemical potential");
    return v;
  }

  // Shift of the middle of the interface for the spherical geometries. The
  // implementation places it on the opposite side of what the option says.
  double
  shift(pbt::Case &c, const Options &o)
  {
    if (o.dir == InterfaceDirection::middle)
      return 0;
    c.known.insert("spherical-direction");
    return o.dir == InterfaceDirection::inside ? o.w / 2 : -o.w / 2;
  }

  double
  profile(double rad, double r, const Options &o, double sh)
  {
    const double x = rad - (r + sh);
    if (x <= -o.w / 2)
      return 1;
    if (x >= o.w / 2)
      return 0;
    return 0.5 - 0.5 * std::sin(M_PI * x / o.w);
  }

  template <int dim>
  Tensor<1, dim>
  direction(pbt::Src &s)
  {
    Tensor<1, dim> v;
    if (s.coin(0.3))
      {
        v[s.range(0, dim - 1)] = s.coin() ? 1 : -1;
        return v;
      }
    for (unsigned int d = 0; d < dim; ++d)
      v[d] = s.generic(-1, 1);
    if (v.norm() < 0.1)
      v[0] = 1;
    return v / v.norm();
  }

  template <int dim>
  struct Body
  {
    Point<dim> c;
    double     r;
  };

  template <int dim>
  std::vector<Body<dim>>
  packing(pbt::Case &c)
  {
    std::vector<Body<dim>> b;
    const unsigned int     n     = c.s.range(1, 7);
    const double           scale = c.s.coin(0.5) ? 1. : c.s.logreal(0.1, 100);
    const double           ratio = c.s.coin(0.4) ? 1. : c.s.real(1, 4);
    Point<dim>             x0;
    if (c.s.coin(0.8))
      x0 = Point<dim>(direction<dim>(c.s) * (scale * c.s.real(0, 8)));
    for (unsigned int i = 0; i < n; ++i)
      {
        Body<dim> q;
        q.r = scale * std::pow(ratio, c.s.real(0, 1));
        if (i == 0)
          q.c = x0;
        else
          {
            const auto    &m = b[c.s.range(0, i - 1)];
            Tensor<1, dim> u = direction<dim>(c.s);
            // lines through the origin need another orientation of the axes
            if (c.s.coin(0.25) && m.c.norm() > 1e-3 * scale)
              u = Tensor<1, dim>(m.c / (c.s.coin() ? m.c.norm() : -m.c.norm()));
            const double d = (m.r + q.r) * (c.s.coin(0.5)  ? c.s.real(0.75, 0.99) :
                                            c.s.coin(0.15) ? c.s.real(0.4, 0.75) :
                                            c.s.coin(0.3)  ? 1. :
                                                             c.s.real(1.002, 1.6));
            q.c            = m.c + d * u;
          }
        b.push_back(q);
      }
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = 0; j < i; ++j)
        {
          const double d = b[i].c.distance(b[j].c);
          if (d < 1.05 * std::abs(b[i].r - b[j].r) || d < 0.2 * (b[i].r + b[j].r))
            throw pbt::Discard();
        }
    return b;
  }

  template <int dim>
  Point<dim>
  sample(pbt::Src &s, const std::vector<Body<dim>> &b, double w)
  {
    const auto &m = b[s.range(0, b.size() - 1)];
    if (s.coin(0.5))
      return m.c + direction<dim>(s) * (m.r + s.real(-1.2, 1.2) * w);
    if (s.coin(0.5) && b.size() > 1)
      {
        // close to the plane of contact
        const auto &q = b[s.range(0, b.size() - 1)];
        const double d = q.c.distance(m.c);
        if (d > 0)
          {
            const auto   u = (q.c - m.c) / d;
            const double x = (d * d + m.r * m.r - q.r * q.r) / (2 * d);
            auto         t = direction<dim>(s);
            t -= (t * u) * u;
            return m.c + u * (x + s.real(-1, 1) * w) + t * s.real(0, m.r);
          }
      }
    return m.c + direction<dim>(s) * (m.r * s.real(0, 1.5));
  }

  template <int dim>
  bool
  near(double a, double b, double scale)
  {
    return std::abs(a - b) < 1e-9 * scale;
  }

  template <int dim>
  void
  cloud(pbt::Case &c)
  {
    c.desc << "cloud dim=" << dim;
    const auto b    = packing<dim>(c);
    double     rmin = 1e300, rmax = 0;
    for (const auto &q : b)
      {
        rmin = std::min(rmin, q.r);
        rmax = std::max(rmax, q.r);
      }
    const Options      o        = options(c, rmin * c.s.real(0.05, 0.6));
    const bool         minimize = c.s.coin(0.5);
    const double       ibr      = c.s.coin(0.5) ? 0.5 : c.s.real(0, 2);
    const double       rbr      = c.s.coin(0.5) ? 0. : c.s.real(0, 0.5);
    c.desc << (minimize ? " minimized" : "") << " buffers " << ibr << " " << rbr << " :";
    for (const auto &q : b)
      c.desc << " (" << q.c << "; " << q.r << ")";

    std::vector<Particle<dim>> particles;
    for (unsigned int i = 0; i < b.size(); ++i)
      particles.push_back(Particle<dim>{b[i].c, b[i].r, i, {}});

    const InitialValuesCloud<dim> iv(particles, o.w, false, ibr, rbr, o.dir, o.offset, o.as_void, o.accumulative);
    const InitialValuesCloud<dim> mv(particles, o.w, minimize, ibr, rbr, o.dir, o.offset, o.as_void, o.accumulative);

    // global data
    const auto box = mv.get_domain_boundaries();
    for (unsigned int d = 0; d < dim; ++d)
      {
        double lo = 1e300, hi = -1e300;
        for (const auto &q : b)
          {
            lo = std::min(lo, q.c[d] - q.r);
            hi = std::max(hi, q.c[d] + q.r);
          }
        c.close(box.first[d], lo, 1e-13, 1e-13 * rmax, "lower boundary");
        c.close(box.second[d], hi, 1e-13, 1e-13 * rmax, "upper boundary");
      }
    c.close(mv.get_r_max(), rmax, 0, 0, "largest radius");
    c.check(iv.n_particles() == b.size() && mv.n_particles() == b.size(), "number of particles");
    c.require(iv.n_order_parameters() == b.size(), "one order parameter per particle: ", iv.n_order_parameters());
    c.check(iv.n_components() == b.size() + o.offset, "number of components");
    c.check(mv.n_components() == mv.n_order_parameters() + o.offset, "number of components");
    c.close(mv.get_interface_width(), o.w, 0, 0, "interface width");

    std::vector<std::vector<unsigned int>> nb(b.size());
    unsigned int                           n_contacts = 0;
    bool                                   sharp      = true;
    for (unsigned int i = 0; i < b.size(); ++i)
      for (unsigned int j = 0; j < b.size(); ++j)
        if (i != j)
          {
            const double d = b[i].c.distance(b[j].c), s = b[i].r + b[j].r;
            if (std::abs(d - 0.999 * s) < 1e-9 * s)
              sharp = false;
            if (d <= 0.999 * s)
              {
                nb[i].push_back(j);
                ++n_contacts;
              }
          }
    if (!sharp)
      throw pbt::Discard();
    c.check(mv.n_contacts() == n_contacts, "contacts: ", mv.n_contacts(), " instead of ", n_contacts);

    // assignment of order parameters
    const auto map = mv.get_order_parameter_to_grains();
    c.require(map.size() == mv.n_order_parameters(), "size of the map of order parameters");
    std::vector<unsigned int> op(b.size(), numbers::invalid_unsigned_int);
    unsigned int              expected = 0;
    for (const auto &[k, ids] : map)
      {
        c.check(k == expected++, "order parameters are not numbered consecutively");
        for (const auto i : ids)
          {
            c.require(i < b.size() && op[i] == numbers::invalid_unsigned_int, "particle ", i, " assigned twice or unknown");
            op[i] = k;
          }
      }
    bool shared = false;
    for (unsigned int i = 0; i < b.size(); ++i)
      {
        c.require(op[i] != numbers::invalid_unsigned_int, "particle ", i, " has no order parameter");
        for (unsigned int j = 0; j < i; ++j)
          if (op[i] == op[j])
            {
              shared         = true;
              const double d = b[i].c.distance(b[j].c) - b[i].r - b[j].r;
              c.check(minimize && d >= o.w * (1 + ibr) + rbr * std::max(b[i].r, b[j].r) - 1e-10 * rmax,
                      "particles ", i, " and ", j, " share an order parameter, gap ", d);
            }
      }
    c.label("several particles share an order parameter", shared);

    const double       sh     = shift(c, o);
    bool               bridge = false;
    for (unsigned int t = 0; t < 40; ++t)
      {
        const auto p = sample<dim>(c.s, b, o.w);
        const auto v = check_fields(c, iv, o, p);
        const auto m = check_fields(c, mv, o, p);

        std::vector<double> pr(b.size());
        for (unsigned int i = 0; i < b.size(); ++i)
          pr[i] = profile(p.distance(b[i].c), b[i].r, o, sh);

        for (unsigned int i = 0; i < b.size(); ++i)
          {
            const double tol = 1e-6; // relative distance to switching points
            double       ref = pr[i];
            bool         ok  = true;
            if (ref != 0)
              {
                unsigned int sec = numbers::invalid_unsigned_int;
                double       cs  = 0;
                for (const auto j : nb[i])
                  {
                    if (cs > 0 && pr[j] > 0 && std::abs(pr[j] - cs) < 1e-9)
                      ok = false; // the second particle is not unique
                    if (pr[j] > cs)
                      {
                        sec = j;
                        cs  = pr[j];
                      }
                  }
                if (sec != numbers::invalid_unsigned_int && cs < 1e-9)
                  ok = false; // rounding decides on the contact
                if (ok && sec != numbers::invalid_unsigned_int)
                  {
                    const double d = b[i].c.distance(b[sec].c);
                    const auto   u = (b[sec].c - b[i].c) / d;
                    const double x = (p - b[i].c) * u - (d * d + b[i].r * b[i].r - b[sec].r * b[sec].r) / (2 * d);
                    if (std::abs(std::abs(x) - o.w / 2) < tol * o.w || std::abs(cs - 0.5) < tol)
                      ok = false;
                    if (x >= o.w / 2)
                      ref = 0;
                    else if (x > -o.w / 2 && cs > 0.5)
                      {
                        ref    = 0.5 - 0.5 * std::sin(M_PI * x / o.w);
                        bridge = true;
                        // both sides of the boundary add up
                        if (nb[i].size() == 1 && nb[sec].size() == 1 && pr[i] > 0.5 + tol)
                          c.close(v[i] + v[sec], 1, 0, 1e-9, "sum across the grain boundary");
                      }
                  }
              }
            else if (p.distance(b[i].c) < b[i].r + sh + o.w / 2 + 1e-9 * o.w)
              ok = false;
            if (ok)
              c.close(v[i], ref, 0, 1e-8, "particle " + std::to_string(i));
          }

        // shared order parameters are the union of their particles
        for (unsigned int k = 0; k < m.size(); ++k)
          {
            unsigned int n   = 0;
            double       ref = 0;
            for (unsigned int i = 0; i < b.size(); ++i)
              if (op[i] == k && v[i] != 0)
                {
                  ++n;
                  ref = v[i];
                }
            if (n <= 1)
              c.close(m[k], ref, 0, 1e-14, "order parameter " + std::to_string(k));
          }
      }
    c.nontrivial = n_contacts > 0;
    c.label("grain boundary sampled", bridge);
  }

  // regular arrangements: bodies, the array of order parameters, neighbours
  template <int dim>
  void
  check_array(pbt::Case &c, const InitialValues<dim> &iv, const Options &o, const std::vector<Body<dim>> &b, bool distinct_neighbours, bool one_each)
  {
    const double r = b[0].r, sh = shift(c, o);
    c.check(iv.n_particles() == b.size(), "number of particles ", iv.n_particles());
    c.close(iv.get_r_max(), r, 0, 0, "radius");
    c.check(iv.n_components() == iv.n_order_parameters() + o.offset, "number of components");
    const auto box = iv.get_domain_boundaries();
    for (unsigned int d = 0; d < dim; ++d)
      {
        double lo = 1e300, hi = -1e300;
        for (const auto &q : b)
          {
            lo = std::min(lo, q.c[d] - q.r);
            hi = std::max(hi, q.c[d] + q.r);
          }
        c.close(box.first[d], lo, 1e-12, 1e-11 * r, "lower boundary");
        c.close(box.second[d], hi, 1e-12, 1e-11 * r, "upper boundary");
      }
    // the order parameter of each particle
    std::vector<unsigned int> op(b.size());
    for (unsigned int i = 0; i < b.size(); ++i)
      {
        const auto   v = check_fields(c, iv, o, b[i].c);
        unsigned int n = 0;
        for (unsigned int k = 0; k < v.size(); ++k)
          if (v[k] > 1 - 1e-12)
            {
              ++n;
              op[i] = k;
            }
          else
            c.check(v[k] == 0, "foreign order parameter in the centre of a particle");
        c.require(n == 1, n, " order parameters in the centre of particle ", i);
      }
    for (unsigned int i = 0; i < b.size(); ++i)
      for (unsigned int j = 0; j < i; ++j)
        {
          const double d = b[i].c.distance(b[j].c);
          c.check(d > 2 * r * (1 - 1e-10), "overlapping particles");
          if (op[i] == op[j])
            c.check(!one_each && !(distinct_neighbours && d < 2 * r * (1 + 1e-10)), "particles ", i, " and ", j, " share an order parameter");
        }
    for (unsigned int t = 0; t < 30; ++t)
      {
        const auto p = sample<dim>(c.s, b, o.w);
        const auto v = check_fields(c, iv, o, p);
        for (unsigned int k = 0; k < v.size(); ++k)
          {
            double       ref = 0;
            unsigned int n   = 0;
            for (unsigned int i = 0; i < b.size(); ++i)
              if (op[i] == k)
                {
                  const double x = profile(p.distance(b[i].c), b[i].r, o, sh);
                  if (p.distance(b[i].c) < b[i].r + sh + o.w / 2 + 1e-9 * o.w)
                    ++n;
                  ref = std::max(ref, x);
                }
            if (n <= 1)
              c.close(v[k], ref, 0, 1e-9, "order parameter " + std::to_string(k));
          }
      }
    c.nontrivial = b.size() > 2;
  }

  template <int dim>
  void
  circle(pbt::Case &c)
  {
    const unsigned int n = c.s.range(1, 9);
    const double       r = c.s.coin(0.4) ? 1. : c.s.logreal(0.1, 50);
    c.desc << "circle dim=" << dim << " n=" << n << " r=" << r;
    const Options o        = options(c, r * c.s.real(0.05, 0.6));
    const bool    minimize = c.s.coin(0.6);
    c.desc << (minimize ? " minimized" : "");
    const InitialValuesCircle<dim> iv(r, o.w, n, minimize, o.dir, o.offset, o.as_void, o.accumulative);
    std::vector<Body<dim>>         b(n);
    const double                   h = n > 1 ? r / std::sin(M_PI / n) : 0;
    for (unsigned int i = 0; i < n; ++i)
      {
        b[i].r    = r;
        b[i].c[0] = h * std::cos(2 * M_PI * i / n);
        b[i].c[1] = h * std::sin(2 * M_PI * i / n);
      }
    c.check(iv.n_order_parameters() == (minimize ? (n == 1 ? 1 : n % 2 ? 3 : 2) : n), "order parameters: ", iv.n_order_parameters());
    check_array<dim>(c, iv, o, b, true, !minimize);
  }

  template <int dim>
  void
  hypercube(pbt::Case &c)
  {
    const double                  r = c.s.coin(0.4) ? 1. : c.s.logreal(0.1, 50);
    std::array<unsigned int, dim> n;
    for (auto &k : n)
      k = c.s.range(1, dim == 3 ? 3 : 4);
    const unsigned int n_ops = c.s.range(0, 4);
    c.desc << "hypercube dim=" << dim << " ops=" << n_ops << " r=" << r << " n=";
    for (auto k : n)
      c.desc << k << " ";
    const Options                     o = options(c, r * c.s.real(0.05, 0.6));
    const InitialValuesHypercube<dim> iv(r, o.w, n, n_ops, o.dir, o.offset, o.as_void, o.accumulative);
    std::vector<Body<dim>>            b;
    for (unsigned int i = 0; i < n[0]; ++i)
      for (unsigned int j = 0; j < (dim > 1 ? n[std::min(1, dim - 1)] : 1); ++j)
        for (unsigned int k = 0; k < (dim > 2 ? n[dim - 1] : 1); ++k)
          {
            Body<dim> q;
            q.r    = r;
            q.c[0] = 2 * r * i;
            if (dim > 1)
              q.c[std::min(1, dim - 1)] = 2 * r * j;
            if (dim > 2)
              q.c[dim - 1] = 2 * r * k;
            b.push_back(q);
          }
    c.check(iv.n_order_parameters() == (n_ops ? std::min<unsigned int>(n_ops, b.size()) : b.size()), "order parameters: ", iv.n_order_parameters());
    check_array<dim>(c, iv, o, b, n_ops != 1, n_ops == 0);
  }

  // ----------------------------------------------------------------------
  using Polygon = std::vector<Point<2>>;

  bool
  inside(const Polygon &v, const Point<2> &p)
  {
    // winding number
    long double w = 0;
    for (unsigned int i = 0; i < v.size(); ++i)
      {
        const auto        a = v[i] - p, b = v[(i + 1) % v.size()] - p;
        const long double cr = (long double)a[0] * b[1] - (long double)a[1] * b[0], dt = (long double)a[0] * b[0] + (long double)a[1] * b[1];
        w += std::atan2(cr, dt);
      }
    return std::abs(w) > 3;
  }

  double
  distance(const Polygon &v, const Point<2> &p)
  {
    long double m = 1e300L;
    for (unsigned int i = 0; i < v.size(); ++i)
      {
        const auto  a = v[i], b = v[(i + 1) % v.size()];
        long double ux = (long double)b[0] - a[0], uy = (long double)b[1] - a[1];
        long double px = (long double)p[0] - a[0], py = (long double)p[1] - a[1];
        long double t = (ux * px + uy * py) / (ux * ux + uy * uy);
        t             = std::min(1.L, std::max(0.L, t));
        m             = std::min(m, std::hypot(px - t * ux, py - t * uy));
      }
    return m;
  }

  struct Tiling
  {
    std::vector<Point<2>>                  points;
    std::vector<std::vector<unsigned int>> cells; // vertex indices
    std::vector<unsigned int>              grain; // of each cell
    unsigned int                           n_grains;
    double                                 h; // size of the cells
    Polygon
    polygon(unsigned int i) const
    {
      Polygon p;
      for (auto k : cells[i])
        p.push_back(points[k]);
      return p;
    }
  };

  Tiling
  tiling(pbt::Case &c, bool pieces)
  {
    Tiling             t;
    const unsigned int nx = c.s.range(1, 4), ny = c.s.range(1, 4);
    t.h                = c.s.coin(0.5) ? 1. : c.s.logreal(0.1, 100);
    const Point<2>     x0(t.h * c.s.real(-5, 5), t.h * c.s.real(-5, 5));
    const double       jitter = c.s.coin(0.4) ? 0. : c.s.real(0, 0.22);
    std::vector<std::vector<unsigned int>> id(nx + 1, std::vector<unsigned int>(ny + 1));
    for (unsigned int i = 0; i <= nx; ++i)
      for (unsigned int j = 0; j <= ny; ++j)
        {
          id[i][j] = t.points.size();
          t.points.push_back(x0 + Point<2>(t.h * (i + jitter * c.s.real(-1, 1)), t.h * (j + jitter * c.s.real(-1, 1))));
        }
    for (unsigned int i = 0; i < nx; ++i)
      for (unsigned int j = 0; j < ny; ++j)
        {
          std::vector<unsigned int> v{id[i][j], id[i + 1][j], id[i + 1][j + 1], id[i][j + 1]};
          const unsigned int        kind = c.s.range(0, 5);
          if (kind == 1) // a vertex in the interior: not convex
            {
              const Point<2> m = 0.125 * (t.points[v[0]] + Tensor<1, 2>(t.points[v[1]])) + 0.375 * Tensor<1, 2>(t.points[v[2]]) +
                                 0.375 * Tensor<1, 2>(t.points[v[3]]);
              t.points.push_back(m);
              v[3] = v[3];
              v.insert(v.begin() + 3, t.points.size() - 1);
            }
          if (kind == 2) // triangle
            v.pop_back();
          if (c.s.coin(0.4))
            std::reverse(v.begin(), v.end());
          std::rotate(v.begin(), v.begin() + c.s.range(0, v.size() - 1), v.end());
          t.cells.push_back(v);
        }
    // grains: usually one piece each, sometimes two which do not touch
    t.n_grains = 0;
    t.grain.assign(t.cells.size(), numbers::invalid_unsigned_int);
    for (unsigned int i = 0; i < t.cells.size(); ++i)
      {
        if (pieces && i > 0 && c.s.coin(0.3))
          {
            const unsigned int j = c.s.range(0, i - 1);
            // far enough apart?
            bool               ok = true;
            for (unsigned int k = 0; k < i; ++k)
              if (t.grain[k] == t.grain[j])
                {
                  const int dx = std::abs(int(k / ny) - int(i / ny)), dy = std::abs(int(k % ny) - int(i % ny));
                  ok           = ok && std::max(dx, dy) >= 2;
                }
            if (ok)
              {
                t.grain[i] = t.grain[j];
                continue;
              }
          }
        t.grain[i] = t.n_grains++;
      }
    return t;
  }

  double
  ramp(double s, const Options &o)
  {
    if (o.w == 0)
      return s > 0 ? 1 : 0;
    const double b = o.dir == InterfaceDirection::middle ? 0.5 : o.dir == InterfaceDirection::outside ? 1. : 0.;
    return std::min(1., std::max(0., b + s / o.w));
  }

  void
  microstructure(pbt::Case &c, bool voronoi)
  {
    c.desc << (voronoi ? "voronoi" : "imaging");
    const Tiling  t = tiling(c, voronoi);
    const Options o = options(c, c.s.coin(0.15) ? 0. : t.h * c.s.real(0.02, 0.12));
    c.desc << " cells=" << t.cells.size() << " grains=" << t.n_grains << " h=" << t.h;

    std::stringstream         s;
    std::vector<unsigned int> op(t.n_grains, 0);
    s << std::setprecision(17);
    if (voronoi)
      {
        // sparse, permuted ids starting at one
        const auto                perm = c.s.permutation(t.points.size());
        const unsigned int        gap  = c.s.range(1, 3);
        std::vector<unsigned int> pid(t.points.size());
        for (unsigned int i = 0; i < t.points.size(); ++i)
          pid[i] = 1 + gap * perm[i];
        unsigned int nv = c.s.range(0, 2);
        unsigned int mx = 0;
        for (const auto &v : t.cells)
          mx = std::max<unsigned int>(mx, v.size());
        nv += mx;
        s << t.points.size() << " " << nv << " " << t.cells.size() << "\n";
        for (unsigned int i = 0; i < t.points.size(); ++i)
          s << pid[i] << "   " << t.points[i][0] << "  " << t.points[i][1] << "\n";
        const auto         gperm = c.s.permutation(t.n_grains);
        for (unsigned int i = 0; i < t.cells.size(); ++i)
          {
            s << i + 1;
            for (unsigned int k = 0; k < nv; ++k)
              s << " " << (k < t.cells[i].size() ? pid[t.cells[i][k]] : 0);
            s << "  " << 1 + gperm[t.grain[i]] << "\n";
          }
      }
    else
      {
        // random order parameters, consecutively numbered, neighbours differ
        for (unsigned int i = 0; i < t.cells.size(); ++i)
          {
            std::set<unsigned int> used;
            for (unsigned int j = 0; j < i; ++j)
              for (const auto a : t.cells[i])
                for (const auto b : t.cells[j])
                  if (t.points[a].distance(t.points[b]) < 1.9 * t.h)
                    used.insert(op[j]);
            while (used.count(op[i]))
              ++op[i];
          }
        s << t.n_grains << "\n";
        for (unsigned int i = 0; i < t.n_grains; ++i)
          s << (i ? "," : "") << op[i];
        s << "\n";
        for (unsigned int i = 0; i < t.cells.size(); ++i)
          {
            for (unsigned int k = 0; k < t.cells[i].size(); ++k)
              s << (k ? "," : "") << t.points[t.cells[i][k]][0] << (c.s.coin(0.2) ? ", " : ",") << t.points[t.cells[i][k]][1];
            if (i + 1 < t.cells.size() || c.s.coin(0.7))
              s << "\n";
          }
      }
    std::unique_ptr<InitialValuesMicrostructure> iv;
    if (voronoi)
      iv = std::make_unique<InitialValuesMicrostructureVoronoi>(s, o.w, o.dir, o.offset, o.as_void, o.accumulative);
    else
      iv = std::make_unique<InitialValuesMicrostructureImaging>(s, o.w, o.dir, o.offset, o.as_void, o.accumulative);

    c.check(iv->n_particles() == t.n_grains, "number of grains ", iv->n_particles(), " instead of ", t.n_grains);
    const auto box = iv->get_domain_boundaries();
    double     ext = o.dir == InterfaceDirection::outside ? o.w : o.dir == InterfaceDirection::middle ? o.w / 2 : 0;
    Point<2>   lo(1e300, 1e300), hi(-1e300, -1e300);
    std::vector<Polygon> poly;
    for (unsigned int i = 0; i < t.cells.size(); ++i)
      {
        poly.push_back(t.polygon(i));
        for (const auto &p : poly.back())
          for (unsigned int d = 0; d < 2; ++d)
            {
              lo[d] = std::min(lo[d], p[d]);
              hi[d] = std::max(hi[d], p[d]);
            }
      }
    double rmax = 0;
    for (const auto &v : poly)
      {
        double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
        for (const auto &p : v)
          {
            x0 = std::min(x0, p[0]);
            x1 = std::max(x1, p[0]);
            y0 = std::min(y0, p[1]);
            y1 = std::max(y1, p[1]);
          }
        rmax = std::max(rmax, 0.5 * std::hypot(x1 - x0 + 2 * ext, y1 - y0 + 2 * ext));
      }
    for (unsigned int d = 0; d < 2; ++d)
      {
        c.close(box.first[d], lo[d] - ext, 1e-12, 1e-12 * t.h, "lower boundary");
        c.close(box.second[d], hi[d] + ext, 1e-12, 1e-12 * t.h, "upper boundary");
      }
    c.close(iv->get_r_max(), rmax, 1e-12, 0, "radius of the largest grain");

    // order parameter of each grain from a point in its interior
    for (unsigned int i = 0; i < t.cells.size(); ++i)
      {
        Point<2> p;
        double   best = -1;
        for (unsigned int a = 0; a < poly[i].size(); ++a)
          for (unsigned int b = a + 1; b < poly[i].size(); ++b)
            for (double x = 0.1; x < 1; x += 0.2)
              {
                const Point<2> q = poly[i][a] + x * (poly[i][b] - poly[i][a]);
                if (inside(poly[i], q) && distance(poly[i], q) > best)
                  {
                    best = distance(poly[i], q);
                    p    = q;
                  }
              }
        if (best <= 0.02 * t.h)
          throw pbt::Discard();
        const auto   v = order_parameters(*iv, o, p);
        unsigned int k = std::max_element(v.begin(), v.end()) - v.begin();
        c.close(v[k], ramp(best, o), 0, 1e-9, "interior of a grain");
        if (voronoi)
          {
            bool first = true;
            for (unsigned int j = 0; j < i; ++j)
              first = first && t.grain[j] != t.grain[i];
            if (first)
              op[t.grain[i]] = k;
            c.check(op[t.grain[i]] == k, "pieces of a grain have different order parameters");
          }
        else
          c.check(op[t.grain[i]] == k, "order parameter of grain ", i, " is ", k);
      }
    for (unsigned int i = 0; i < t.cells.size(); ++i)
      for (unsigned int j = 0; j < i; ++j)
        if (t.grain[i] != t.grain[j])
          {
            bool touch = false;
            for (const auto a : t.cells[i])
              touch = touch || std::count(t.cells[j].begin(), t.cells[j].end(), a);
            if (touch)
              c.check(op[t.grain[i]] != op[t.grain[j]], "touching grains share an order parameter");
          }
    std::set<unsigned int> ops(op.begin(), op.end());
    c.check(iv->n_order_parameters() == ops.size() && *ops.rbegin() + 1 == ops.size(), "order parameters: ", iv->n_order_parameters());

    for (unsigned int tr = 0; tr < 40; ++tr)
      {
        const unsigned int i = c.s.range(0, poly.size() - 1), a = c.s.range(0, poly[i].size() - 1);
        const auto        &A = poly[i][a], &B = poly[i][(a + 1) % poly[i].size()];
        Point<2>           p   = A + c.s.real(0, 1) * (B - A);
        const bool         on  = c.s.coin(0.3);
        if (!on)
          p += Point<2>(c.s.real(-1, 1), c.s.real(-1, 1)) * (2 * std::max(o.w, 0.02 * t.h));
        const auto v = check_fields(c, *iv, o, p);
        for (unsigned int k = 0; k < v.size(); ++k)
          {
            double ref = 0;
            bool   ok  = true;
            for (unsigned int j = 0; j < poly.size(); ++j)
              if (op[t.grain[j]] == k)
                {
                  const double d = distance(poly[j], p);
                  if (o.w == 0 && d < 1e-9 * t.h)
                    ok = false;
                  ref = std::max(ref, ramp(inside(poly[j], p) ? d : -d, o));
                }
            // square roots of rounding errors on the edges
            if (ok)
              c.close(v[k], ref, 0, 1e-5, "order parameter " + std::to_string(k) + " at " + std::to_string(p[0]) + ", " + std::to_string(p[1]));
          }
      }
    c.nontrivial = t.n_grains > 1;
  }

  template <int dim>
  void
  particle_file(pbt::Case &c)
  {
    const unsigned int n = c.s.range(0, 12), extra = c.s.range(0, 2);
    std::stringstream  s;
    s << (c.s.coin() ? "x,y,z,r" : "#,,,");
    for (unsigned int e = 0; e < extra; ++e)
      s << ",extra";
    std::vector<Body<dim>> b(n);
    for (auto &q : b)
      {
        s << "\n";
        const unsigned int fmt = c.s.range(0, 2);
        for (unsigned int d = 0; d < 4; ++d)
          {
            double x = (c.s.coin(0.3) ? c.s.range(-20, 20) : c.s.generic(-1, 1) * c.s.logreal(1e-5, 1e5));
            if (d == 3)
              x = std::abs(x) + 1e-3;
            std::stringstream v;
            v << std::setprecision(17);
            if (fmt == 1)
              v << std::scientific;
            v << x;
            if (d < dim)
              q.c[d] = std::stod(v.str());
            if (d == 3)
              q.r = std::stod(v.str());
            s << (d ? "," : "") << (c.s.coin(0.2) ? " " : "") << v.str() << (c.s.coin(0.1) ? " " : "");
          }
        for (unsigned int e = 0; e < extra; ++e)
          s << "," << (c.s.coin() ? "abc" : "7");
      }
    if (c.s.coin())
      s << "\n";
    c.desc << "file dim=" << dim << " n=" << n << ":\n" << s.str();
    const auto p = read_particles<dim>(s);
    c.require(p.size() == n, "particles read: ", p.size(), " instead of ", n);
    for (unsigned int i = 0; i < n; ++i)
      {
        for (unsigned int d = 0; d < dim; ++d)
          c.close(p[i].center[d], b[i].c[d], 0, 0, "coordinate");
        c.close(p[i].radius, b[i].r, 0, 0, "radius");
        c.check(p[i].id == i && p[i].neighbours.empty(), "id of a particle");
      }
    c.nontrivial = n > 1;
  }
} // namespace

PBT_PROPERTY(packings)
{
  switch (c.s.range(0, 7))
    {
      case 0:
        return circle<2>(c);
      case 1:
        return circle<3>(c);
      case 2:
        return hypercube<2>(c);
      case 3:
        return hypercube<3>(c);
      case 4:
        return hypercube<1>(c);
      case 5:
        return cloud<3>(c);
      default:
        return c.s.coin() ? cloud<2>(c) : cloud<3>(c);
    }
}

PBT_PROPERTY(microstructures)
{
  microstructure(c, c.s.coin());
}

PBT_PROPERTY(particle_files)
{
  switch (c.s.range(1, 3))
    {
      case 1:
        return particle_file<1>(c);
      case 2:
        return particle_file<2>(c);
      default:
        return particle_file<3>(c);
    }
}
