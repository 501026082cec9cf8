// Grain identity between steps, ordering of remappings, periodic groups.
#include <deal.II/base/bounding_box.h>
#include <deal.II/base/point.h>

#include <deal.II/boost_adaptors/bounding_box.h>
#include <deal.II/numerics/rtree.h>

#include <pf-applications/grain_tracker/periodicity_graph.h>
#include <pf-applications/grain_tracker/remap_graph.h>
#include <pf-applications/grain_tracker/remapping.h>
#include <pf-applications/grain_tracker/tracking.h>

#include <numeric>

#include "pbt.h"

using namespace dealii;
using namespace GrainTracker;

namespace
{
  template <int dim>
  struct S
  {
    Point<dim> c;
    double     r, m;
  };

  template <int dim>
  struct G
  {
    unsigned int        op;
    std::vector<S<dim>> s;
  };

  template <int dim>
  std::map<unsigned int, Grain<dim>>
  build(const std::map<unsigned int, G<dim>> &m)
  {
    std::map<unsigned int, Grain<dim>> r;
    for (const auto &[id, g] : m)
      {
        Grain<dim> x(id, g.op);
        for (const auto &s : g.s)
          x.add_segment(s.c, s.r, s.m, 1.);
        r.emplace(id, x);
      }
    return r;
  }

  template <int dim>
  bool
  boxes_meet(const S<dim> &a, const S<dim> &b, double tol)
  {
    for (unsigned int d = 0; d < dim; ++d)
      if (std::abs(a.c[d] - b.c[d]) > a.r + b.r + tol)
        return false;
    return true;
  }

  template <int dim>
  double
  centers(const G<dim> &a, const G<dim> &b)
  {
    double d = 1e300;
    for (const auto &s : a.s)
      for (const auto &t : b.s)
        d = std::min(d, s.c.distance(t.c));
    return d;
  }

  template <int dim>
  void
  transfer_case(pbt::Case &c)
  {
    const unsigned int             n_op = c.s.range(1, 3);
    std::map<unsigned int, G<dim>> o, n;
    const double                   L    = c.s.pick(std::vector<double>{4., 10., 25.});
    const bool                     multi = c.s.coin(0.4);
    auto                           seg  = [&]() {
      S<dim> s;
      for (unsigned int d = 0; d < dim; ++d)
        s.c[d] = c.s.generic(0, L);
      s.r = c.s.generic(0.3, 2.);
      s.m = c.s.generic(0.1, 3.);
      return s;
    };
    auto grain = [&]() {
      G<dim> g;
      g.op                 = c.s.draw(n_op);
      const unsigned int k = multi ? c.s.range(1, 3) : 1;
      for (unsigned int i = 0; i < k; ++i)
        g.s.push_back(seg());
      return g;
    };
    const unsigned int n_old = c.s.range(0, 8);
    for (unsigned int i = 0; i < n_old; ++i)
      o.emplace(c.s.draw(40), grain());
    // new grains: moved old ones, unrelated ones, old ones cut in two pieces
    unsigned int id = 0;
    std::map<unsigned int, unsigned int> origin;
    std::vector<G<dim>>                  list;
    for (const auto &[oid, g] : o)
      {
        if (c.s.coin(0.15))
          continue; // vanished
        G<dim> h = g;
        Tensor<1, dim> shift;
        for (unsigned int d = 0; d < dim; ++d)
          shift[d] = c.s.generic(-1, 1) * c.s.pick(std::vector<double>{0.05, 0.5, 1.5});
        for (auto &s : h.s)
          {
            s.c += shift;
            s.r *= c.s.generic(0.8, 1.2);
          }
        list.push_back(h);
        if (c.s.coin(0.2))
          {
            for (auto &s : h.s)
              s.c[0] += c.s.generic(0.1, 1.0);
            list.push_back(h);
          }
      }
    const unsigned int extra = c.s.draw(3);
    for (unsigned int i = 0; i < extra; ++i)
      list.push_back(grain());
    const auto perm = c.s.permutation(list.size());
    for (unsigned int i = 0; i < list.size(); ++i)
      {
        id += 1 + (i == 0 ? c.s.draw(3) : c.s.draw(2));
        n.emplace(id - 1, list[perm[i]]);
      }
    c.desc << "dim=" << dim << " n_op=" << n_op << std::setprecision(5);
    for (const auto *m : {&o, &n})
      {
        c.desc << (m == &o ? " old:" : " new:");
        for (const auto &[i, g] : *m)
          {
            c.desc << " " << i << "@" << g.op << "[";
            for (const auto &s : g.s)
              c.desc << s.c << " r" << s.r << ";";
            c.desc << "]";
          }
      }
    const auto og = build(o), ng = build(n);
    std::ostringstream log;
    const auto         res = c.s.coin() ? transfer_grain_ids(ng, og, n_op, std::ref(static_cast<std::ostream &>(log))) :
                                          transfer_grain_ids(ng, og, n_op);
    c.check(res.size() == n.size(), "every new grain has an entry");
    // reference
    std::map<unsigned int, std::vector<unsigned int>> chosen_by;
    bool                                              ambiguous = false;
    std::map<unsigned int, unsigned int>              expected;
    for (const auto &[i, g] : n)
      {
        unsigned int best = numbers::invalid_unsigned_int;
        double       bd   = 1e300;
        expected[i]       = numbers::invalid_unsigned_int;
        for (const auto &[j, h] : o)
          if (g.op == h.op)
            for (const auto &s : g.s)
              for (const auto &t : h.s)
                {
                  if (boxes_meet(s, t, 1e-9) != boxes_meet(s, t, -1e-9))
                    ambiguous = true;
                  if (boxes_meet(s, t, 0.))
                    {
                      const double d = s.c.distance(t.c);
                      if (std::abs(d - bd) < 1e-9 && best != j)
                        ambiguous = true;
                      if (d < bd)
                        {
                          bd   = d;
                          best = j;
                        }
                    }
                }
        if (best != numbers::invalid_unsigned_int)
          chosen_by[best].push_back(i);
      }
    bool conflict = false;
    for (const auto &[j, v] : chosen_by)
      {
        unsigned int w  = v[0];
        double       bd = centers(o.at(j), n.at(w));
        for (unsigned int k = 1; k < v.size(); ++k)
          {
            conflict       = true;
            const double d = centers(o.at(j), n.at(v[k]));
            if (std::abs(d - bd) < 1e-9)
              ambiguous = true;
            if (d < bd)
              {
                bd = d;
                w  = v[k];
              }
          }
        expected[w] = j;
      }
    // always: an old id is inherited at most once and only on its own field
    std::set<unsigned int> used;
    for (const auto &[i, j] : res)
      {
        if (!c.check(n.count(i) == 1, "unknown grain in the mapping"))
          continue;
        if (j == numbers::invalid_unsigned_int)
          continue;
        if (!c.check(o.count(j) == 1, "inherited id ", j, " does not exist"))
          continue;
        c.check(used.insert(j).second, "old id ", j, " inherited twice");
        c.check(o.at(j).op == n.at(i).op, "id inherited across order parameters");
      }
    if (!ambiguous)
      for (const auto &[i, j] : expected)
        if (res.count(i))
          c.check(res.at(i) == j, "new grain ", i, " inherits ", static_cast<int>(res.at(i)), " but the nearest matching old grain is ", static_cast<int>(j));
    // helpers
    const auto per = extract_grain_indices_per_op(ng, n_op);
    c.check(per.size() == n_op, "grains per order parameter");
    std::set<unsigned int> ops;
    unsigned int           total = 0;
    for (unsigned int p = 0; p < per.size(); ++p)
      {
        total += per[p].size();
        for (const auto i : per[p])
          {
            c.check(n.count(i) && n.at(i).op == p, "grain listed for a wrong order parameter");
            ops.insert(p);
          }
      }
    c.check(total == n.size(), "each grain listed once");
    c.check(extract_active_order_parameter_ids(ng) == ops, "active order parameters");
    if (!n.empty())
      {
        Point<dim> b;
        double     V = 0;
        for (const auto &[i, g] : n)
          for (const auto &s : g.s)
            {
              b += s.m * s.c;
              V += s.m;
            }
        b /= V;
        c.check(calc_cloud_barycenter(ng).distance(b) < 1e-10 * (1 + L), "barycenter of the grains");
      }
    c.label("conflict", conflict);
    c.label("several segments", multi);
    c.label("ambiguous", ambiguous);
    c.nontrivial = used.size() >= 2;
  }
} // namespace

PBT_PROPERTY(transfer_ids)
{
  if (c.s.coin(0.4))
    transfer_case<3>(c);
  else
    transfer_case<2>(c);
}

PBT_PROPERTY(remap_order)
{
  const unsigned int   n_op  = c.s.range(2, 7);
  const bool           local = c.s.coin(); // all grains share one place
  std::list<Remapping> list;
  const unsigned int   n = local ? n_op : c.s.range(1, 12);
  std::vector<std::vector<bool>> overlap(40, std::vector<bool>(40, true));
  if (local)
    {
      // at most one grain per order parameter before and after
      const auto perm = c.s.permutation(n_op);
      for (unsigned int i = 0; i < n_op; ++i)
        if (perm[i] != i && c.s.coin(0.85))
          list.emplace_back(i + 10, i, perm[i]);
      // a grain only moves to an order parameter which gets free
      bool changed = true;
      while (changed)
        {
          changed = false;
          for (auto it = list.begin(); it != list.end(); ++it)
            {
              const bool vacated = std::any_of(list.begin(), list.end(), [&](const auto &a) { return a.from == it->to; });
              const bool empty   = it->to % 3 == 2; // nothing there initially
              if (!vacated && !empty)
                {
                  list.erase(it);
                  changed = true;
                  break;
                }
            }
        }
    }
  else
    {
      for (unsigned int i = 0; i < n; ++i)
        {
          const unsigned int a = c.s.draw(n_op), b = c.s.draw(n_op);
          if (a != b)
            list.emplace_back(i, a, b);
        }
      const double p = c.s.pick(std::vector<double>{0.3, 0.7, 1.});
      for (unsigned int i = 0; i < n; ++i)
        for (unsigned int j = 0; j < i; ++j)
          overlap[i][j] = overlap[j][i] = c.s.coin(p);
    }
  {
    // arbitrary order of the input
    std::vector<Remapping> v(list.begin(), list.end());
    const auto             perm = c.s.permutation(v.size());
    list.clear();
    for (const auto i : perm)
      list.push_back(v[i]);
  }
  const std::vector<Remapping> input(list.begin(), list.end());
  for (const auto &r : input)
    c.desc << r.grain_id << "(" << r.from << "->" << r.to << ") ";

  RemapGraph graph;
  c.check(graph.empty(), "new graph empty");
  bool         any = false, cyc = false;
  for (const auto &ri : input)
    for (const auto &rj : input)
      if (ri.grain_id != rj.grain_id && overlap[ri.grain_id][rj.grain_id] && ri.to == rj.from)
        {
          graph.add_remapping(ri.from, ri.to, ri.grain_id);
          graph.add_remapping(rj.from, rj.to, rj.grain_id);
          any = true;
        }
  c.check(graph.empty() == !any, "graph empty() after adding");
  std::vector<std::pair<Remapping, Remapping>> temp;
  if (any)
    {
      temp = graph.resolve_cycles(list);
      graph.rearrange(list);
      cyc = !temp.empty();
    }
  // complete and without duplicates
  std::map<unsigned int, Remapping> left;
  for (const auto &r : input)
    left.emplace(r.grain_id, r);
  std::map<unsigned int, int> leaves, arrives;
  int                         pos = 0;
  for (const auto &[a, b] : temp)
    {
      c.check(a.grain_id == b.grain_id && a.to == numbers::invalid_unsigned_int && b.from == numbers::invalid_unsigned_int, "temporary moves belong together");
      const auto it = left.find(a.grain_id);
      if (c.check(it != left.end() && it->second == Remapping(a.grain_id, a.from, b.to), "temporary move of an unknown remapping"))
        left.erase(it);
      leaves[a.grain_id]  = -1;
      arrives[a.grain_id] = 1000;
    }
  for (const auto &r : list)
    {
      const auto it = left.find(r.grain_id);
      if (c.check(it != left.end() && it->second == r, "unknown or repeated remapping in the sequence"))
        left.erase(it);
      leaves[r.grain_id] = arrives[r.grain_id] = pos++;
    }
  c.check(left.empty(), left.size(), " remappings got lost");
  // a grain arrives only after the grain it meets there has left
  for (const auto &ri : input)
    for (const auto &rj : input)
      if (ri.grain_id != rj.grain_id && overlap[ri.grain_id][rj.grain_id] && ri.to == rj.from)
        c.check(leaves[rj.grain_id] < arrives[ri.grain_id], "grain ", ri.grain_id, " arrives at ", ri.to, " before grain ", rj.grain_id, " has left");
  if (local)
    {
      // execute: which grain occupies which order parameter
      std::vector<int> before(n_op, -1), work;
      for (unsigned int i = 0; i < n_op; ++i)
        before[i] = i % 3 == 2 && std::none_of(input.begin(), input.end(), [&](const auto &a) { return a.from == i; }) ? -1 : i + 10;
      std::vector<int> expected = before;
      for (const auto &r : input)
        expected[r.from] = -1;
      for (const auto &r : input)
        expected[r.to] = r.grain_id;
      work = before;
      std::vector<int> store;
      for (const auto &[a, b] : temp)
        {
          store.push_back(work[a.from]);
          work[a.from] = -1;
        }
      for (const auto &r : list)
        {
          work[r.to]   = work[r.from];
          work[r.from] = -1;
        }
      for (unsigned int k = 0; k < temp.size(); ++k)
        work[temp[k].second.to] = store[k];
      c.check(work == expected, "executing the sequence damages a grain");
    }
  c.label("dependent", any);
  c.label("cycle", cyc);
  c.nontrivial = any;
}

PBT_PROPERTY(periodic_groups)
{
  const unsigned int         n = c.s.range(1, 15);
  PeriodicityGraph           g;
  std::vector<unsigned int>  p(n), groups(n, numbers::invalid_unsigned_int);
  std::iota(p.begin(), p.end(), 0);
  std::function<unsigned(unsigned)> find = [&](unsigned i) { return p[i] == i ? i : p[i] = find(p[i]); };
  const unsigned int         m = c.s.draw(20);
  std::set<unsigned int>     used;
  c.check(g.empty(), "empty");
  for (unsigned int i = 0; i < m; ++i)
    {
      const unsigned int a = c.s.draw(n), b = c.s.draw(n);
      g.add_connection(a, b);
      p[find(a)] = find(b);
      used.insert(a);
      used.insert(b);
      c.desc << a << "-" << b << " ";
    }
  const auto             k = g.build_groups(groups);
  std::set<unsigned int> roots;
  for (const auto i : used)
    roots.insert(find(i));
  c.check(g.empty() == used.empty(), "empty");
  c.check(k == roots.size(), "number of groups ", k, " expected ", roots.size());
  for (unsigned int i = 0; i < n; ++i)
    {
      if (!used.count(i))
        {
          c.check(groups[i] == numbers::invalid_unsigned_int, "isolated particle ", i, " touched");
          continue;
        }
      c.check(groups[i] < k, "group index out of range");
      for (const auto j : used)
        c.check((groups[i] == groups[j]) == (find(i) == find(j)), "particles ", i, " and ", j);
    }
  c.nontrivial = k >= 1 && used.size() > 2 * k;
}
