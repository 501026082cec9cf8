// Ellipsoid geometry, inertia, distances, segments and grains.
#include <deal.II/base/point.h>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>

#include <pf-applications/grain_tracker/ellipsoid.h>
#include <pf-applications/grain_tracker/grain.h>
#include <pf-applications/grain_tracker/motion.h>
#include <pf-applications/grain_tracker/representation.h>
#include <pf-applications/grain_tracker/segment.h>

#include <numeric>

#include "pbt.h"

using namespace dealii;
using namespace GrainTracker;

BOOST_CLASS_EXPORT(GrainTracker::RepresentationSpherical<2>)
BOOST_CLASS_EXPORT(GrainTracker::RepresentationSpherical<3>)
BOOST_CLASS_EXPORT(GrainTracker::RepresentationElliptical<2>)
BOOST_CLASS_EXPORT(GrainTracker::RepresentationElliptical<3>)
BOOST_CLASS_EXPORT(GrainTracker::RepresentationWavefront<2>)
BOOST_CLASS_EXPORT(GrainTracker::RepresentationWavefront<3>)

namespace
{
  template <int dim>
  struct Geo
  {
    Point<dim>                  c;
    std::array<double, dim>     r;
    std::array<Point<dim>, dim> a;
    double                      rmax() const { return *std::max_element(r.begin(), r.end()); }
    double                      rmin() const { return *std::min_element(r.begin(), r.end()); }
    // value of the level function: <1 inside, 1 on the surface
    double
    level(const Point<dim> &p) const
    {
      double s = 0;
      for (unsigned int d = 0; d < dim; ++d)
        s += std::pow(((p - c) * a[d]) / r[d], 2);
      return s;
    }
    Point<dim>
    surface(const Tensor<1, dim> &u) const // u unit
    {
      Point<dim> p = c;
      for (unsigned int d = 0; d < dim; ++d)
        p += Tensor<1, dim>(a[d]) * (r[d] * u[d]);
      return p;
    }
    // A with (x-c)^T A (x-c) = level
    Tensor<2, dim>
    A() const
    {
      Tensor<2, dim> m;
      for (unsigned int d = 0; d < dim; ++d)
        m += outer_product(Tensor<1, dim>(a[d]), Tensor<1, dim>(a[d])) / (r[d] * r[d]);
      return m;
    }
    // support function: max over the ellipsoid of n*x
    double
    support(const Tensor<1, dim> &n) const
    {
      double s = 0;
      for (unsigned int d = 0; d < dim; ++d)
        s += std::pow(r[d] * (n * Tensor<1, dim>(a[d])), 2);
      return n * Tensor<1, dim>(c) + std::sqrt(s);
    }
  };

  template <int dim>
  Tensor<1, dim>
  direction(pbt::Src &s)
  {
    Tensor<1, dim> v;
    do
      for (unsigned int d = 0; d < dim; ++d)
        v[d] = s.real(-1, 1);
    while (v.norm() < 0.1 && (v[0] = 1., v.norm() < 0.1));
    return v / v.norm();
  }

  template <int dim>
  std::array<Point<dim>, dim>
  rotation(pbt::Src &s)
  {
    std::array<Point<dim>, dim> a;
    for (unsigned int d = 0; d < dim; ++d)
      a[d][d] = 1;
    if (s.coin(0.2))
      return a;
    if constexpr (dim == 2)
      {
        const double t = s.real(0, 2 * M_PI);
        a[0]           = Point<2>(std::cos(t), std::sin(t));
        a[1]           = Point<2>(-std::sin(t), std::cos(t));
      }
    else
      {
        // Gram-Schmidt
        const auto u = direction<3>(s);
        auto       w = direction<3>(s);
        w -= (w * u) * u;
        if (w.norm() < 1e-2)
          {
            w = Tensor<1, 3>();
            w[std::abs(u[0]) < 0.7 ? 0 : 1] = 1;
            w -= (w * u) * u;
          }
        w /= w.norm();
        a[0] = Point<3>(u);
        a[1] = Point<3>(w);
        a[2] = Point<3>(cross_product_3d(u, w));
      }
    return a;
  }

  template <int dim>
  Geo<dim>
  geo(pbt::Src &s, double aspect = 10.)
  {
    Geo<dim>     g;
    const double base = s.logreal(0.1, 10.);
    for (unsigned int d = 0; d < dim; ++d)
      {
        g.c[d] = s.real(-10, 10);
        g.r[d] = base * s.logreal(1., aspect);
      }
    g.a = rotation<dim>(s);
    return g;
  }

  template <int dim>
  std::string
  str(const Geo<dim> &g)
  {
    std::ostringstream o;
    o << std::setprecision(8) << "{c=" << g.c << " r=";
    for (const auto r : g.r)
      o << r << " ";
    o << "a=";
    for (const auto &r : g.a)
      o << r << "; ";
    o << "}";
    return o.str();
  }

  template <int dim>
  void
  matches(pbt::Case &c, const Ellipsoid<dim> &E, const Geo<dim> &g, const std::string &what, bool same_order, double tol = 1e-9)
  {
    c.check(E.get_center().distance(g.c) <= tol * (g.c.norm() + g.rmax()), what, ": center ", E.get_center());
    auto r1 = E.get_radii(), r2 = g.r;
    if (!same_order)
      {
        std::sort(r1.begin(), r1.end());
        std::sort(r2.begin(), r2.end());
      }
    for (unsigned int d = 0; d < dim; ++d)
      c.close(r1[d], r2[d], tol * g.rmax() / g.rmin(), 0, what + ": radius " + std::to_string(d));
    c.close(E.get_r_min(), g.rmin(), tol * g.rmax() / g.rmin(), 0, what + ": smallest radius");
    c.close(E.get_r_max(), g.rmax(), tol * g.rmax() / g.rmin(), 0, what + ": largest radius");
    // axes: radii and axes belong together and are orthonormal
    Tensor<2, dim> A;
    for (unsigned int d = 0; d < dim; ++d)
      {
        c.close(E.get_axes()[d].norm(), 1., 1e-8, 0, what + ": axis length");
        for (unsigned int k = 0; k < d; ++k)
          c.close(E.get_axes()[d] * E.get_axes()[k], 0., 0, 1e-8, what + ": axes orthogonal");
        A += outer_product(Tensor<1, dim>(E.get_axes()[d]), Tensor<1, dim>(E.get_axes()[d])) /
             (E.get_radii()[d] * E.get_radii()[d]);
      }
    c.check((A - g.A()).norm() <= 100 * tol * std::pow(g.rmax() / g.rmin(), 2) * g.A().norm(), what, ": shape given by radii and axes");
  }

  template <int dim>
  void
  quadratic(pbt::Case &c, const Ellipsoid<dim> &E, const Geo<dim> &g, const std::string &what, double tol = 1e-9)
  {
    const auto   u   = direction<dim>(c.s);
    const auto   p   = g.surface(u);
    const double con = std::pow((g.rmax() + g.c.norm()) / g.rmin(), 2);
    for (const double f : {0., 0.5, 0.9, 1.1, 2.})
      {
        const Point<dim> x   = g.c + f * (p - g.c);
        const double     val = 0.5 * (E.get_A() * x) * x + E.get_b() * x + E.get_alpha();
        c.close(val, 0.5 * (f * f - 1), 1e-9, tol * con, what + ": quadratic form");
        if (tol * con < 1e-3)
          c.check(E.point_inside(x) == (f < 1), what, ": point_inside at level ", f);
      }
    c.close(E.get_norm(), g.A().norm(), 1e-8 * std::pow(g.rmax() / g.rmin(), 2), 0, what + ": norm");
  }

  // inertia tensor of a homogeneous ellipsoid with unit density
  template <int dim>
  std::pair<double, SymmetricTensor<2, dim>>
  inertia(const Geo<dim> &g)
  {
    double m = dim == 2 ? M_PI : 4. / 3. * M_PI;
    for (const auto r : g.r)
      m *= r;
    // second moments: int x_k^2 = m r_k^2/(dim+2)
    Tensor<2, dim> M2;
    for (unsigned int d = 0; d < dim; ++d)
      M2 += outer_product(Tensor<1, dim>(g.a[d]), Tensor<1, dim>(g.a[d])) * (m * g.r[d] * g.r[d] / (dim + 2));
    SymmetricTensor<2, dim> I;
    const double            tr = trace(M2);
    for (unsigned int i = 0; i < dim; ++i)
      for (unsigned int j = i; j < dim; ++j)
        I[i][j] = (i == j ? tr : 0.) - 0.5 * (M2[i][j] + M2[j][i]);
    return {m, I};
  }

  template <typename T>
  T
  round_trip(pbt::Case &c, const T &t)
  {
    T                 out;
    std::stringstream ss;
    if (c.s.coin())
      {
        {
          boost::archive::binary_oarchive a(ss);
          a << t;
        }
        boost::archive::binary_iarchive a(ss);
        a >> out;
      }
    else
      {
        {
          boost::archive::text_oarchive a(ss);
          a << t;
        }
        boost::archive::text_iarchive a(ss);
        a >> out;
      }
    return out;
  }

  // nearest point of an ellipsoid to p (projection), by bisection on the
  // Lagrange multiplier
  template <int dim>
  Point<dim>
  project(const Geo<dim> &g, const Point<dim> &p)
  {
    if (g.level(p) <= 1.)
      return p;
    std::array<long double, dim> y;
    for (unsigned int d = 0; d < dim; ++d)
      y[d] = (p - g.c) * Tensor<1, dim>(g.a[d]);
    auto f = [&](long double t) {
      long double s = 0;
      for (unsigned int d = 0; d < dim; ++d)
        s += std::pow(g.r[d] * y[d] / (t + (long double)g.r[d] * g.r[d]), 2);
      return s;
    };
    long double lo = 0, hi = 0;
    for (unsigned int d = 0; d < dim; ++d)
      hi += g.r[d] * g.r[d] * y[d] * y[d];
    hi = std::sqrt(hi) + 1;
    for (unsigned int i = 0; i < 90; ++i)
      {
        const auto m = 0.5L * (lo + hi);
        (f(m) > 1 ? lo : hi) = m;
      }
    Point<dim> x = g.c;
    for (unsigned int d = 0; d < dim; ++d)
      x += Tensor<1, dim>(g.a[d]) * (double)((long double)g.r[d] * g.r[d] * y[d] / (hi + (long double)g.r[d] * g.r[d]));
    return x;
  }

  // certified bounds of the distance of two ellipsoids:
  // alternating projections give feasible points (upper bound), a separating
  // direction gives the lower bound
  template <int dim>
  std::pair<double, double>
  distance_bounds(const Geo<dim> &g1, const Geo<dim> &g2)
  {
    Point<dim> x = project(g1, g2.c), y = g2.c;
    double     lower = 0, upper = 1e300;
    for (unsigned int it = 0; it < 20000; ++it)
      {
        y = project(g2, x);
        x = project(g1, y);
        const auto   d = y - x;
        const double n = d.norm();
        upper          = std::min(upper, n);
        if (n < 1e-9 * (g1.rmax() + g2.rmax()))
          return {0., n};
        const auto u = d / n;
        lower        = std::max(lower, -g2.support(-u) - g1.support(u));
        if (upper - lower < 1e-7 * upper)
          break;
      }
    return {std::max(lower, 0.), upper};
  }

  template <int dim>
  void
  ellipsoid_case(pbt::Case &c)
  {
    auto              g = geo<dim>(c.s);
    c.desc << "dim=" << dim << " " << str(g);
    const Ellipsoid<dim> E(g.c, g.r, g.a);
    matches(c, E, g, "from radii", true);
    quadratic(c, E, g, "from radii");
    for (unsigned int d = 0; d < dim; ++d)
      c.check(E.get_axes()[d].distance(g.a[d]) < 1e-14, "axis kept");

    // scaled copy
    {
      const double         f = c.s.logreal(0.2, 5.);
      const Ellipsoid<dim> S(E, f);
      auto                 gs = g;
      for (auto &r : gs.r)
        r *= f;
      matches(c, S, gs, "scaled", true);
      quadratic(c, S, gs, "scaled");
    }
    // from inertia
    const auto [m, I] = inertia(g);
    {
      std::array<double, dim> mom;
      for (unsigned int d = 0; d < dim; ++d)
        mom[d] = (Tensor<2, dim>(I) * Tensor<1, dim>(g.a[d])) * Tensor<1, dim>(g.a[d]);
      const auto r = get_radii_from_inertia<double>(mom, m);
      for (unsigned int d = 0; d < dim; ++d)
        c.close(r[d], g.r[d], 1e-9 * std::pow(g.rmax() / g.rmin(), 2), 0, "radius from principal moments");
      const Ellipsoid<dim> P(g.c, mom, g.a, m);
      matches(c, P, g, "from principal moments", true, 1e-9 * g.rmax() / g.rmin());
      const RepresentationElliptical<dim> R(g.c, m, I);
      matches(c, R.ellipsoid, g, "from inertia tensor", false, 1e-8 * g.rmax() / g.rmin());
      quadratic(c, R.ellipsoid, g, "from inertia tensor", 1e-8 * std::pow(g.rmax() / g.rmin(), 2));
      double       data[num_inertias<dim>];
      for (unsigned int k = 0; k < num_inertias<dim>; ++k)
        data[k] = I.access_raw_entry(k);
      const RepresentationElliptical<dim> R2(g.c, m, data);
      matches(c, R2.ellipsoid, g, "from inertia data", false, 1e-8 * g.rmax() / g.rmin());
    }
    // from the quadratic form, arbitrary positive scaling
    {
      const double            k = c.s.logreal(0.1, 10.);
      SymmetricTensor<2, dim> A;
      const auto              At = g.A() * k;
      for (unsigned int i = 0; i < dim; ++i)
        for (unsigned int j = i; j < dim; ++j)
          A[i][j] = 0.5 * (At[i][j] + At[j][i]);
      const Tensor<1, dim> b     = -1. * (Tensor<2, dim>(A) * Tensor<1, dim>(g.c));
      const double         alpha = 0.5 * (Tensor<2, dim>(A) * Tensor<1, dim>(g.c)) * Tensor<1, dim>(g.c) - 0.5 * k;
      const Ellipsoid<dim> Q(A, b, alpha);
      const double         con = std::pow((g.rmax() + g.c.norm()) / g.rmin(), 2);
      if (con < 1e5)
        {
          matches(c, Q, g, "from quadratic form", false, 1e-12 * con * con + 1e-9);
          c.label("quadratic form");
        }
    }
    // round trip through an archive
    {
      const auto S = round_trip(c, E);
      matches(c, S, g, "archive", true);
      quadratic(c, S, g, "archive");
      const Ellipsoid<dim> S2(S, 2.);
      auto                 gs = g;
      for (auto &r : gs.r)
        r *= 2;
      matches(c, S2, gs, "archive and scaled", true);
      quadratic(c, S2, gs, "archive and scaled");
    }
    // intersection with a ray from a point inside
    {
      const auto       u = direction<dim>(c.s);
      const Point<dim> p = g.c + c.s.real(0, 0.95) * (g.surface(direction<dim>(c.s)) - g.c);
      const Point<dim> q = p + u * (g.rmax() * c.s.real(2.1, 6.)); // surely outside
      const auto [t, overlap] = find_ellipsoid_intersection(E, Tensor<1, dim>(p), Tensor<1, dim>(q));
      c.check(!overlap, "segment leaving the ellipsoid intersects it");
      if (!overlap)
        {
          c.check(t >= 0 && t <= 1, "intersection parameter in range");
          c.close(g.level(p + t * (q - p)), 1., 1e-7, 1e-9 * std::pow((g.rmax() + g.c.norm()) / g.rmin(), 2), "intersection on the surface");
        }
      const Point<dim> in = g.c + 0.9 * (p - g.c);
      if (p.distance(in) > 1e-6)
        c.check(find_ellipsoid_intersection(E, Tensor<1, dim>(p), Tensor<1, dim>(in)).second, "no intersection inside");
    }
    c.label("dim" + std::to_string(dim));
    c.label("aspect > 3", g.rmax() / g.rmin() > 3);
    c.nontrivial = g.rmax() / g.rmin() > 1.001;
  }

  template <int dim>
  void
  distance_case(pbt::Case &c)
  {
    const double aspect = c.s.pick(std::vector<double>{1.0, 2.0, 5.0});
    auto         g1 = geo<dim>(c.s, aspect), g2 = geo<dim>(c.s, aspect);
    // place the second one at a chosen gap along some direction
    const auto   u   = direction<dim>(c.s);
    const double s12 = (g1.support(u) - u * Tensor<1, dim>(g1.c)) + (g2.support(-u) + u * Tensor<1, dim>(g2.c));
    const double gap = c.s.coin(0.25) ? -c.s.real(0.05, 0.9) * s12 : c.s.logreal(1e-2, 3.) * s12;
    g2.c             = g1.c + u * (s12 + gap);
    if (c.s.coin(0.05))
      {
        g2.c = g1.c + (c.s.coin() ? c.s.logreal(1e-12, 1e-2) * s12 : 0.) * u;
        c.label("concentric");
      }
    c.desc << "dim=" << dim << " " << str(g1) << str(g2);
    Ellipsoid<dim> E1(g1.c, g1.r, g1.a), E2(g2.c, g2.r, g2.a);
    if (c.s.coin(0.3))
      {
        // the same body given by its quadratic form
        SymmetricTensor<2, dim> A;
        const auto              At = E1.get_A();
        const double            k  = c.s.logreal(0.1, 10.);
        for (unsigned int i = 0; i < dim; ++i)
          for (unsigned int j = i; j < dim; ++j)
            A[i][j] = 0.5 * k * (At[i][j] + At[j][i]);
        E1 = Ellipsoid<dim>(A, E1.get_b() * k, E1.get_alpha() * k);
        c.label("quadratic form");
      }
    const auto [lo, up] = distance_bounds(g1, g2);
    const double scale  = g1.rmax() + g2.rmax();
    const auto [d12, n12, ok12] = distance(E1, E2);
    const auto [d21, n21, ok21] = distance(E2, E1);
    const auto [dt, nt, okt]    = distance(E1, E2, true, true, 1e-9, 100000u);
    c.check(d12 >= lo - 1e-6 * scale, "distance ", d12, " below the true one, at least ", lo);
    c.check(d21 >= lo - 1e-6 * scale, "distance (swapped) ", d21, " below the true one, at least ", lo);
    c.check(dt >= lo - 1e-6 * scale, "distance (tight) ", dt, " below the true one, at least ", lo);
    c.check(dt <= up + 1e-3 * up + 1e-4 * scale, "converged distance ", dt, " above the true one, at most ", up, " converged=", okt, " it=", nt);
    c.check(d12 <= up + 0.02 * up + 0.02 * scale, "distance ", d12, " far above the true one, at most ", up, " it=", n12);
    c.check(d21 <= up + 0.02 * up + 0.02 * scale, "distance (swapped) ", d21, " far above the true one, at most ", up);
    c.check(n12 <= 100, "iteration limit");
    // through the representation
    const RepresentationElliptical<dim> R1(E1), R2(E2);
    const Representation               &B1 = R1, &B2 = R2;
    c.check(B1.distance(B2) == d12, "representation distance");
    c.check(!B1.trivial(), "elliptical representation is not trivial");
    const auto cl = B1.clone();
    c.check(cl->distance(B2) == d12, "cloned representation distance");
    c.label("overlapping", up < 1e-6 * scale);
    c.label("separated", lo > 1e-3 * scale);
    c.label("dim" + std::to_string(dim));
    c.nontrivial = lo > 1e-3 * scale && aspect > 1;
  }
} // namespace

PBT_PROPERTY(ellipsoid)
{
  if (c.s.coin())
    ellipsoid_case<3>(c);
  else
    ellipsoid_case<2>(c);
}

PBT_PROPERTY(ellipsoid_distance)
{
  if (c.s.coin())
    distance_case<3>(c);
  else
    distance_case<2>(c);
}

namespace
{
  template <int dim>
  void
  motion_case(pbt::Case &c)
  {
    const unsigned int  n = c.s.range(1, 8);
    double              data[num_inertias<dim>] = {};
    SymmetricTensor<2, dim> I;
    double              mag = 0;
    for (unsigned int k = 0; k < n; ++k)
      {
        Point<dim> r;
        for (unsigned int d = 0; d < dim; ++d)
          r[d] = c.s.real(-5, 5);
        const double m = c.s.real(0.1, 2);
        evaluate_inertia_properties(r, m, data);
        for (unsigned int i = 0; i < dim; ++i)
          for (unsigned int j = i; j < dim; ++j)
            I[i][j] += m * ((i == j ? r.square() : 0.) - r[i] * r[j]);
        mag += m * r.square();
      }
    const SymmetricTensor<2, dim> S(data);
    c.check((Tensor<2, dim>(S) - Tensor<2, dim>(I)).norm() <= 1e-12 * (1 + mag), "inertia of point masses");
    // rotation between coordinate systems
    const auto a = rotation<dim>(c.s), b = rotation<dim>(c.s);
    const auto Q = rotation_tensor_from_axes<dim, double>(a, b);
    for (unsigned int d = 0; d < dim; ++d)
      c.check((Q * Tensor<1, dim>(a[d]) - Tensor<1, dim>(b[d])).norm() < 1e-9, "rotation maps axis ", d);
    const auto G  = rotation_tensor_from_axes<dim, double>(a);
    const auto Gt = rotation_tensor_from_axes<dim, double>(a, true);
    for (unsigned int d = 0; d < dim; ++d)
      {
        Tensor<1, dim> e;
        e[d] = 1;
        c.check((G * e - Tensor<1, dim>(a[d])).norm() < 1e-9, "rotation from the global system");
        c.check((Gt * Tensor<1, dim>(a[d]) - e).norm() < 1e-9, "rotation to the global system");
      }
    if constexpr (dim == 3)
      {
        const auto   ax = direction<3>(c.s);
        const double t  = c.s.real(-2 * M_PI, 2 * M_PI);
        const auto   R  = rotation_via_quaternions<double>(ax, t);
        Tensor<1, 3> v;
        for (unsigned int d = 0; d < 3; ++d)
          v[d] = c.s.real(-3, 3);
        const auto e = v * std::cos(t) + cross_product_3d(ax, v) * std::sin(t) + ax * (ax * v) * (1 - std::cos(t));
        c.check((R * v - e).norm() < 1e-12 * (1 + v.norm()), "rotation about an axis");
      }
    c.label("dim" + std::to_string(dim));
    c.nontrivial = n > 1;
  }
} // namespace

PBT_PROPERTY(rigid_motion)
{
  if (c.s.coin())
    motion_case<3>(c);
  else
    motion_case<2>(c);
}

namespace
{
  template <int dim>
  struct MSeg
  {
    Geo<dim>   g;
    double     radius, measure, value;
    std::pair<unsigned int, unsigned int> key;
  };
  template <int dim>
  struct MGrain
  {
    std::vector<MSeg<dim>> segs;
    int                    kind; // 0 sphere, 1 ellipsoid, 2 wavefront
    unsigned int           id, op, old_op;
  };

  template <int dim>
  void
  grain_case(pbt::Case &c)
  {
    const int                   kind = c.s.draw(3);
    const unsigned int          n    = c.s.range(2, 4);
    std::vector<MGrain<dim>>    m(n);
    std::vector<Grain<dim>>     grains;
    std::map<std::pair<unsigned int, unsigned int>, std::map<std::pair<unsigned int, unsigned int>, double>> table;
    unsigned int                cnt = 0;
    c.desc << "dim=" << dim << " kind=" << kind << " ";
    const unsigned int op = c.s.draw(3);
    const double spread = c.s.pick(std::vector<double>{3., 8., 20.});
    for (auto &gr : m)
      {
        gr.kind   = kind;
        gr.id     = c.s.draw(20);
        gr.op     = op;
        gr.old_op = c.s.draw(3);
        gr.segs.resize(c.s.range(1, 3));
        for (auto &s : gr.segs)
          {
            for (unsigned int d = 0; d < dim; ++d)
              {
                s.g.c[d] = c.s.real(-spread, spread);
                s.g.r[d] = c.s.real(0.3, 2.);
              }
            s.g.a = rotation<dim>(c.s);
            if (kind == 0)
              s.g.r.fill(s.g.r[0]);
            s.radius  = s.g.rmax();
            s.measure = c.s.real(0.1, 5);
            s.value   = c.s.real(0, 1.1);
            s.key     = {op, cnt++};
          }
      }
    // distances for the wavefront representation
    std::vector<MSeg<dim> *> all;
    for (auto &gr : m)
      for (auto &s : gr.segs)
        all.push_back(&s);
    for (unsigned int i = 0; i < all.size(); ++i)
      for (unsigned int j = i + 1; j < all.size(); ++j)
        if (c.s.coin(0.6))
          table[all[i]->key][all[j]->key] = table[all[j]->key][all[i]->key] = c.s.coin(0.2) ? 0. : c.s.real(0, 6);
    for (auto &gr : m)
      {
        Grain<dim> G(gr.id, gr.op, gr.old_op);
        for (auto &s : gr.segs)
          {
            if (kind == 0 && c.s.coin())
              G.add_segment(s.g.c, s.radius, s.measure, s.value);
            else
              {
                std::unique_ptr<Representation> r;
                if (kind == 0)
                  r = std::make_unique<RepresentationSpherical<dim>>(s.g.c, s.radius);
                else if (kind == 1)
                  r = std::make_unique<RepresentationElliptical<dim>>(s.g.c, s.g.r, s.g.a);
                else
                  r = std::make_unique<RepresentationWavefront<dim>>(s.key.first, s.key.second, s.g.c, table[s.key]);
                G.add_segment(Segment<dim>(s.g.c, s.radius, s.measure, s.value, std::move(r)));
              }
          }
        grains.push_back(G);
      }
    const bool archived = c.s.coin(0.4);
    if (archived)
      {
        grains = round_trip(c, grains);
        c.label("archived");
      }
    for (unsigned int i = 0; i < n; ++i)
      {
        const auto &G = grains[i];
        c.check(G.get_grain_id() == m[i].id && G.get_order_parameter_id() == m[i].op &&
                  G.get_old_order_parameter_id() == m[i].old_op,
                "grain identity");
        if (!c.check(G.n_segments() == m[i].segs.size() && G.get_segments().size() == m[i].segs.size(), "number of segments"))
          return;
        double mr = 0, mv = -1e300, ms = 0;
        for (unsigned int k = 0; k < m[i].segs.size(); ++k)
          {
            const auto &s = m[i].segs[k];
            const auto &S = G.get_segments()[k];
            mr            = std::max(mr, s.radius);
            mv            = std::max(mv, s.value);
            ms += s.measure;
            c.check(S.get_center().distance(s.g.c) < 1e-12, "segment center");
            c.close(S.get_radius(), s.radius, 1e-13, 0, "segment radius");
            c.close(S.get_measure(), s.measure, 1e-13, 0, "segment measure");
            c.close(S.get_max_value(), s.value, 1e-13, 1e-15, "segment max value");
            c.check(S.trivial() == (kind == 0), "trivial representation");
            std::vector<double> out;
            S.save(out);
            c.check(out.size() >= dim + 1 && out[0] == kind + 1, "saved representation type");
            for (unsigned int d = 0; d < dim && d + 1 < out.size(); ++d)
              c.close(out[1 + d], s.g.c[d], 1e-13, 1e-13, "saved center");
            if (kind == 0)
              c.check(out.size() == dim + 2 && std::abs(out.back() - s.radius) < 1e-12, "saved sphere");
            if (kind == 1 && c.check(out.size() == 1 + dim + dim * dim + dim, "saved ellipsoid size"))
              for (unsigned int d = 0; d < dim; ++d)
                {
                  c.close(out[1 + dim + dim * dim + d], s.g.r[d], 1e-12, 0, "saved radius");
                  for (unsigned int e = 0; e < dim; ++e)
                    c.close(out[1 + dim + d * dim + e], s.g.a[d][e], 1e-12, 1e-14, "saved axis");
                }
            if (kind == 2 && c.check(out.size() == dim + 2, "saved wavefront size"))
              {
                double mn = std::numeric_limits<double>::max();
                for (const auto &[k2, v] : table[s.key])
                  mn = std::min(mn, v);
                c.close(out.back(), mn / 2, 1e-12, 0, "saved wavefront offset");
              }
          }
        c.close(G.get_max_radius(), mr, 1e-13, 0, "grain radius");
        c.close(G.get_max_value(), mv, 1e-13, 1e-15, "grain max value");
        c.close(G.get_measure(), ms, 1e-12, 0, "grain measure");
      }
    bool any_overlap = false, any_free = false;
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = 0; j < n; ++j)
        {
          if (i == j)
            continue;
          double lb = std::numeric_limits<double>::max(), dc = lb, dd = lb, tol = 1e-10;
          bool   coincide = false;
          double lo = lb, up = lb;
          for (const auto &s : m[i].segs)
            for (const auto &t : m[j].segs)
              {
                const double d = s.g.c.distance(t.g.c);
                coincide |= d < 1e-5;
                dc = std::min(dc, d);
                lb = std::min(lb, d - s.radius - t.radius);
                if (kind == 0)
                  dd = std::min(dd, d - s.radius - t.radius);
                else if (kind == 2)
                  {
                    const auto it = table[s.key].find(t.key);
                    if (it != table[s.key].end())
                      dd = std::min(dd, it->second);
                  }
                else if (!coincide)
                  {
                    const auto [l, u] = distance_bounds(s.g, t.g);
                    lo = std::min(lo, l);
                    up = std::min(up, u);
                  }
              }
          if (coincide && kind == 1)
            continue;
          c.close(grains[i].distance_centers(grains[j]), dc, 1e-12, 1e-12, "distance of centers");
          c.close(grains[i].distance_lower_bound(grains[j]), lb, 1e-11, 1e-11, "distance of enclosing spheres");
          const double d = grains[i].distance(grains[j]);
          if (kind == 1)
            {
              c.check(d >= lo - 1e-5 && d <= up * 1.02 + 0.05, "distance ", d, " outside of [", lo, ", ", up, "]");
              tol = 0.08 + 0.02 * up;
              dd  = up;
            }
          else
            c.close(d, dd, 1e-11, 1e-11, "grain distance");
          if (kind != 2)
            c.check(d >= std::min(lb, lb) - 1e-9 || d == 0., "enclosing spheres give a lower bound");
          const double ratio = c.s.pick(std::vector<double>{0., 0.1, 0.5}), fixed = c.s.pick(std::vector<double>{0., 0.3, 2.});
          const double lim   = ratio * (grains[i].get_max_radius() + grains[j].get_max_radius()) + fixed;
          const bool   ov    = grains[i].overlaps(grains[j], ratio, fixed);
          if (kind != 2)
            {
              if (dd > lim + tol)
                c.check(!ov, "separated grains (distance ", dd, ", buffer ", lim, ") reported as overlapping");
              if (dd < lim - tol)
                c.check(ov, "close grains (distance ", dd, ", buffer ", lim, ") not reported as overlapping");
            }
          else if (std::abs(lb - lim) > 1e-9 && (std::abs(dd - lim) > 1e-9 || dd == 0.))
            c.check(ov == (lb <= lim && dd <= lim), "overlap decision");
          if (kind == 1 && up == 0. && d == 0.)
            c.check(ov, "interpenetrating grains not reported as overlapping (buffer ", lim, ")");
          c.check(ov == grains[j].overlaps(grains[i], ratio, fixed) || (kind == 1 && std::abs(dd - lim) < tol), "overlap is symmetric");
          any_overlap |= ov;
          any_free |= !ov;
        }
    // nearest neighbour and transfer buffer
    {
      double mn = std::numeric_limits<double>::max();
      if (!archived)
        c.check(grains[0].transfer_buffer() > 1e100, "no neighbour yet");
      for (unsigned int j = 1; j < n; ++j)
        {
          grains[0].add_neighbor(grains[j]);
          mn = std::min(mn, grains[0].distance_lower_bound(grains[j]));
          c.close(grains[0].transfer_buffer(), std::max(0., mn / 2), 1e-12, 1e-12, "transfer buffer");
        }
      const auto cp = round_trip(c, grains);
      c.close(cp[0].transfer_buffer(), std::max(0., mn / 2), 1e-12, 1e-12, "archived transfer buffer");
    }
    c.label("overlap", any_overlap);
    c.label("free", any_free);
    c.label("kind" + std::to_string(kind));
    c.nontrivial = any_overlap && any_free;
  }
} // namespace

PBT_PROPERTY(grains)
{
  if (c.s.coin())
    grain_case<3>(c);
  else
    grain_case<2>(c);
}
