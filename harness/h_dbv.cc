// Stateful model-based check of the dynamic block vector.
#include <deal.II/base/mpi.h>
#include <pf-applications/lac/dynamic_block_vector.h>

#include <limits>
#include "pbt.h"

using namespace dealii;
using DBV   = LinearAlgebra::distributed::DynamicBlockVector<double>;
using Block = LinearAlgebra::distributed::Vector<double>;

namespace
{
  // model: shared list of dense global blocks (pointer identity mirrors the
  // documented sharing semantics of views / inserted blocks)
  struct MBlock
  {
    std::vector<double> v;
    unsigned int        layout;
  };
  using MB  = std::shared_ptr<MBlock>;
  using Mod = std::vector<MB>;

  struct Layout
  {
    std::shared_ptr<const Utilities::MPI::Partitioner> part;
    unsigned int                                       n;
  };

  std::vector<Layout>
  make_layouts(pbt::Case &c, const MPI_Comm comm)
  {
    const unsigned int  np = Utilities::MPI::n_mpi_processes(comm);
    const unsigned int  me = Utilities::MPI::this_mpi_process(comm);
    std::vector<Layout> res;
    for (unsigned int l = 0; l < 2; ++l)
      {
        std::vector<unsigned int> cuts(np + 1, 0);
        for (unsigned int r = 0; r < np; ++r)
          cuts[r + 1] = cuts[r] + c.s.range(r == 0 ? 1 : 0, 4);
        const unsigned int n = cuts[np];
        IndexSet           owned(n), ghost(n);
        owned.add_range(cuts[me], cuts[me + 1]);
        std::vector<std::vector<bool>> g(np, std::vector<bool>(n));
        for (unsigned int r = 0; r < np; ++r)
          for (unsigned int i = 0; i < n; ++i)
            g[r][i] = np > 1 && c.s.coin(0.3);
        for (unsigned int i = 0; i < n; ++i)
          if (g[me][i])
            ghost.add_index(i);
        owned.compress();
        ghost.subtract_set(owned);
        ghost.compress();
        res.push_back(
          {std::make_shared<Utilities::MPI::Partitioner>(owned, ghost, comm), n});
      }
    return res;
  }

  void
  fill(pbt::Case &c, Block &b, MBlock &m)
  {
    for (auto &x : m.v)
      x = static_cast<double>(c.s.range(-8, 8)) * 0.5;
    b.zero_out_ghost_values();
    for (const auto i : b.locally_owned_elements())
      b(i) = m.v[i];
  }

  void
  compare(pbt::Case &c, const DBV &x, const Mod &m, const std::string &op)
  {
    if (!c.check(x.n_blocks() == m.size(), op, ": n_blocks ", x.n_blocks(), " vs ", m.size()))
      return;
    std::size_t total = 0;
    for (const auto &b : m)
      total += b->v.size();
    c.check(x.size() == total, op, ": size ", x.size(), " vs ", total);
    if (x.size() != total)
      return;
    std::size_t off = 0;
    IndexSet    own(total);
    double      l1 = 0, l2 = 0, li = 0, sum = 0, actual = 0;
    for (unsigned int b = 0; b < m.size(); ++b)
      {
        c.check(x.block(b).size() == m[b]->v.size(), op, ": block size");
        if (x.block(b).size() != m[b]->v.size())
          return;
        for (const auto i : x.block(b).locally_owned_elements())
          {
            own.add_index(off + i);
            actual = std::max(actual, std::abs(x.block(b)(i)));
            c.close(x.block(b)(i), m[b]->v[i], 1e-12, 1e-11, op + ": entry");
            c.close(x(off + i), m[b]->v[i], 1e-12, 1e-11, op + ": global access");
            c.close(x[off + i], m[b]->v[i], 1e-12, 1e-11, op + ": global access []");
          }
        if (x.block(b).has_ghost_elements())
          for (const auto i : x.block(b).get_partitioner()->ghost_indices())
            c.close(x.block(b)(i), m[b]->v[i], 1e-12, 1e-11, op + ": ghost entry");
        for (const double v : m[b]->v)
          {
            l1 += std::abs(v);
            l2 += v * v;
            li = std::max(li, std::abs(v));
            sum += v;
          }
        off += m[b]->v.size();
      }
    own.compress();
    if (!m.empty())
      {
        c.close(x.l1_norm(), l1, 1e-11, 1e-10, op + ": l1");
        c.close(x.l2_norm(), std::sqrt(l2), 1e-11, 1e-10, op + ": l2");
        c.close(x.linfty_norm(), li, 1e-11, 1e-10, op + ": linfty");
        // the entries may differ from those of the model by rounding
        c.check(x.all_zero() == (Utilities::MPI::max(actual, MPI_COMM_WORLD) == 0.), op, ": all_zero");
        if (total > 0)
          c.close(x.mean_value(), sum / total, 1e-11, 1e-10 * (1 + l1 / total), op + ": mean");
        c.check(x.locally_owned_elements() == own, op, ": locally owned set");
      }
  }
} // namespace

PBT_PROPERTY(dbv_model)
{
  const MPI_Comm comm    = MPI_COMM_WORLD;
  const auto     layouts = make_layouts(c, comm);
  const bool     mixed   = c.s.coin(0.3);

  // three vectors, fully general histories
  std::vector<DBV> X(3);
  std::vector<Mod> M(3);

  auto new_block = [&](unsigned int l) {
    auto b  = std::make_shared<Block>(layouts[l].part);
    auto m  = std::make_shared<MBlock>();
    m->v    = std::vector<double>(layouts[l].n, 0.);
    m->layout = l;
    fill(c, *b, *m);
    return std::make_pair(b, m);
  };
  auto build = [&](unsigned int k, unsigned int n) {
    std::vector<std::shared_ptr<Block>> bl;
    M[k].clear();
    for (unsigned int i = 0; i < n; ++i)
      {
        auto [b, m] = new_block(mixed ? c.s.draw(2) : 0);
        bl.push_back(b);
        M[k].push_back(m);
      }
    X[k] = DBV(bl.begin(), bl.end());
  };
  for (unsigned int k = 0; k < 3; ++k)
    build(k, c.s.range(1, 4));

  auto deep_copy = [](const Mod &m) {
    Mod r;
    for (const auto &b : m)
      r.push_back(std::make_shared<MBlock>(*b));
    return r;
  };
  auto same_shape = [&](const Mod &a, const Mod &b) {
    if (a.size() != b.size())
      return false;
    for (unsigned int i = 0; i < a.size(); ++i)
      if (a[i]->layout != b[i]->layout)
        return false;
    return true;
  };
  auto shares = [&](const Mod &a, const Mod &b) {
    for (const auto &x : a)
      for (const auto &y : b)
        if (x == y)
          return true;
    return false;
  };
  auto self_shared = [&](const Mod &a) {
    for (unsigned int i = 0; i < a.size(); ++i)
      for (unsigned int j = 0; j < i; ++j)
        if (a[i] == a[j])
          return true;
    return false;
  };

  const unsigned int n_ops = c.s.range(1, 14);
  unsigned int       structural = 0, arithmetic = 0;
  for (unsigned int it = 0; it < n_ops; ++it)
    {
      const unsigned int k = c.s.draw(3), j = c.s.draw(3);
      DBV               &x = X[k];
      Mod               &m = M[k];
      const double       a = static_cast<double>(c.s.range(-6, 6)) * 0.25;
      const double       b = static_cast<double>(c.s.range(-6, 6)) * 0.25;
      const unsigned int op = c.s.draw(28);
      std::string        name;
      c.desc << "op" << op << "(" << k << "," << j << ") ";
      const bool can_bin = same_shape(m, M[j]) && !shares(m, M[j]) &&
                           !self_shared(m) && !m.empty();
      // arithmetic writes work on un-ghosted vectors, as in every caller
      const bool un = !self_shared(m) && !m.empty();
      if (op >= 8 && op <= 21)
        {
          x.zero_out_ghost_values();
          X[j].zero_out_ghost_values();
        }
      switch (op)
        {
          case 0:
            {
              name = "copy-assign";
              if (k == j || shares(m, M[j]) || self_shared(m))
                continue;
              x = X[j];
              // blocks of x stay the same objects; only contents are copied
              for (unsigned int i = 0; i < M[j].size(); ++i)
                if (i < m.size())
                  *m[i] = *M[j][i];
                else
                  m.push_back(std::make_shared<MBlock>(*M[j][i]));
              m.resize(M[j].size());
              structural++;
              break;
            }
          case 1:
            {
              name = "copy-construct+move";
              DBV t(X[j]);
              Mod tm = deep_copy(M[j]);
              compare(c, t, tm, "copy-construct");
              DBV t2(std::move(t));
              x = std::move(t2);
              m = tm;
              structural++;
              break;
            }
          case 2:
            {
              name = "move_block";
              if (m.empty())
                continue;
              const unsigned int f = c.s.draw(m.size()), t = c.s.draw(m.size());
              x.move_block(f, t);
              auto tmp = m[f];
              m.erase(m.begin() + f);
              m.insert(m.begin() + t, tmp);
              structural++;
              break;
            }
          case 3:
            {
              name = "insert_block";
              if (m.size() > 6)
                continue;
              auto [nb, nm]        = new_block(mixed ? c.s.draw(2) : 0);
              const unsigned int t = c.s.draw(m.size() + 1);
              x.insert_block(nb, t);
              m.insert(m.begin() + t, nm);
              structural++;
              break;
            }
          case 4:
            {
              name = "remove_block";
              if (m.size() < 2)
                continue;
              const unsigned int f = c.s.draw(m.size());
              auto               r = x.remove_block(f);
              c.check(r != nullptr && r->size() == m[f]->v.size(), "removed block size");
              for (const auto i : r->locally_owned_elements())
                c.close((*r)(i), m[f]->v[i], 0, 1e-11, "removed block");
              m.erase(m.begin() + f);
              structural++;
              break;
            }
          case 5:
            {
              name = "reinit(n)";
              if (m.empty())
                continue;
              const unsigned int n = c.s.range(1, 5);
              const auto         l = m[0]->layout;
              x.reinit(n);
              while (m.size() > n)
                m.pop_back();
              while (m.size() < n)
                {
                  auto z    = std::make_shared<MBlock>();
                  z->layout = l;
                  z->v.assign(layouts[l].n, 0.);
                  m.push_back(z);
                }
              structural++;
              break;
            }
          case 6:
            {
              name = "reinit(V)";
              if (k == j || shares(m, M[j]) || self_shared(m))
                continue;
              x.reinit(X[j]);
              for (unsigned int i = 0; i < M[j].size(); ++i)
                {
                  if (i >= m.size())
                    m.push_back(std::make_shared<MBlock>());
                  m[i]->layout = M[j][i]->layout;
                  m[i]->v.assign(M[j][i]->v.size(), 0.);
                }
              m.resize(M[j].size());
              structural++;
              break;
            }
          case 7:
            {
              name = "create_view";
              if (m.empty())
                continue;
              const unsigned int s = c.s.draw(m.size()),
                                 e = s + c.s.draw(m.size() - s + 1);
              Mod vm(m.begin() + s, m.begin() + e);
              {
                const DBV &cx = x;
                auto       cv = cx.create_view(s, e);
                compare(c, *cv, vm, "const view");
              }
              auto v = x.create_view(s, e);
              compare(c, *v, vm, "view");
              if (e > s && !self_shared(vm))
                {
                  // writing through the view is visible in the parent
                  v->zero_out_ghost_values();
                  *v *= 2.;
                  for (auto &q : vm)
                    for (auto &w : q->v)
                      w *= 2.;
                }
              structural++;
              break;
            }
          case 8:
            name = "add(a)";
            if (!un)
              continue;
            x.add(a);
            for (auto &q : m)
              for (auto &w : q->v)
                w += a;
            arithmetic++;
            break;
          case 9:
            name = "add(a,V)";
            if (!can_bin)
              continue;
            x.add(a, X[j]);
            for (unsigned int i = 0; i < m.size(); ++i)
              for (unsigned int q = 0; q < m[i]->v.size(); ++q)
                m[i]->v[q] += a * M[j][i]->v[q];
            arithmetic++;
            break;
          case 10:
            {
              name                 = "add(a,V,b,W)";
              const unsigned int l = 3 - k - j;
              if (!can_bin || k == j || l > 2 || !same_shape(m, M[l]) || shares(m, M[l]))
                continue;
              X[l].zero_out_ghost_values();
              x.add(a, X[j], b, X[l]);
              for (unsigned int i = 0; i < m.size(); ++i)
                for (unsigned int q = 0; q < m[i]->v.size(); ++q)
                  m[i]->v[q] += a * M[j][i]->v[q] + b * M[l][i]->v[q];
              arithmetic++;
              break;
            }
          case 11:
            name = "sadd(s,V)";
            if (!can_bin)
              continue;
            x.sadd(a, X[j]);
            for (unsigned int i = 0; i < m.size(); ++i)
              for (unsigned int q = 0; q < m[i]->v.size(); ++q)
                m[i]->v[q] = a * m[i]->v[q] + M[j][i]->v[q];
            arithmetic++;
            break;
          case 12:
            name = "sadd(s,a,V)";
            if (!can_bin)
              continue;
            x.sadd(a, b, X[j]);
            for (unsigned int i = 0; i < m.size(); ++i)
              for (unsigned int q = 0; q < m[i]->v.size(); ++q)
                m[i]->v[q] = a * m[i]->v[q] + b * M[j][i]->v[q];
            arithmetic++;
            break;
          case 13:
            name = "scale";
            if (!can_bin)
              continue;
            x.scale(X[j]);
            for (unsigned int i = 0; i < m.size(); ++i)
              for (unsigned int q = 0; q < m[i]->v.size(); ++q)
                m[i]->v[q] *= M[j][i]->v[q];
            arithmetic++;
            break;
          case 14:
            name = "equ";
            if (k == j || shares(m, M[j]) || self_shared(m))
              continue;
            x.equ(a, X[j]);
            for (unsigned int i = 0; i < M[j].size(); ++i)
              {
                if (i >= m.size())
                  m.push_back(std::make_shared<MBlock>());
                *m[i] = *M[j][i];
                for (auto &w : m[i]->v)
                  w *= a;
              }
            m.resize(M[j].size());
            arithmetic++;
            break;
          case 15:
            name = "operator*=";
            if (!un)
              continue;
            x *= a;
            for (auto &q : m)
              for (auto &w : q->v)
                w *= a;
            arithmetic++;
            break;
          case 16:
            name = "operator/=";
            if (!un || a == 0.)
              continue;
            x /= a;
            for (auto &q : m)
              for (auto &w : q->v)
                w /= a;
            arithmetic++;
            break;
          case 17:
            name = "operator+=";
            if (!can_bin)
              continue;
            x += X[j];
            for (unsigned int i = 0; i < m.size(); ++i)
              for (unsigned int q = 0; q < m[i]->v.size(); ++q)
                m[i]->v[q] += M[j][i]->v[q];
            arithmetic++;
            break;
          case 18:
            name = "operator-=";
            if (!can_bin)
              continue;
            x -= X[j];
            for (unsigned int i = 0; i < m.size(); ++i)
              for (unsigned int q = 0; q < m[i]->v.size(); ++q)
                m[i]->v[q] -= M[j][i]->v[q];
            arithmetic++;
            break;
          case 19:
            {
              name = "add_and_dot";
              const unsigned int l = (k + 1) % 3 == j ? (k + 2) % 3 : (k + 1) % 3;
              if (!can_bin || !same_shape(m, M[l]) || shares(m, M[l]))
                continue;
              X[l].zero_out_ghost_values();
              const double r = x.add_and_dot(a, X[j], X[l]);
              double       e = 0, mag = 0;
              for (unsigned int i = 0; i < m.size(); ++i)
                for (unsigned int q = 0; q < m[i]->v.size(); ++q)
                  {
                    m[i]->v[q] += a * M[j][i]->v[q];
                    e += m[i]->v[q] * M[l][i]->v[q];
                    mag += std::abs(m[i]->v[q] * M[l][i]->v[q]);
                  }
              c.close(r, e, 1e-12, 1e-10 + 1e-12 * mag, "add_and_dot value");
              arithmetic++;
              break;
            }
          case 20:
            name = "operator=(value)";
            if (m.empty())
              continue;
            x = a;
            for (auto &q : m)
              for (auto &w : q->v)
                w = a;
            arithmetic++;
            break;
          case 21:
            name = "copy_locally_owned_data_from";
            if (!can_bin || k == j)
              continue;
            x.copy_locally_owned_data_from(X[j]);
            for (unsigned int i = 0; i < m.size(); ++i)
              m[i]->v = M[j][i]->v;
            arithmetic++;
            break;
          case 22:
            {
              name = "dot";
              if (!same_shape(m, M[j]) || m.empty())
                continue;
              double e = 0, mag = 0;
              for (unsigned int i = 0; i < m.size(); ++i)
                for (unsigned int q = 0; q < m[i]->v.size(); ++q)
                  {
                    e += m[i]->v[q] * M[j][i]->v[q];
                    mag += std::abs(m[i]->v[q] * M[j][i]->v[q]);
                  }
              c.close(x * X[j], e, 1e-12, 1e-10 + 1e-12 * mag, "dot");
              break;
            }
          case 23:
            name = "swap";
            if (k == j)
              continue;
            x.swap(X[j]);
            std::swap(m, M[j]);
            structural++;
            break;
          case 24:
            name = "global write";
            if (!un)
              continue;
            {
              x.zero_out_ghost_values();
              const unsigned int bl = c.s.draw(m.size());
              if (m[bl]->v.empty())
                continue;
              const unsigned int i   = c.s.draw(m[bl]->v.size());
              std::size_t        off = 0;
              for (unsigned int q = 0; q < bl; ++q)
                off += m[q]->v.size();
              if (x.size() > off + i &&
                  x.block(bl).locally_owned_elements().is_element(i))
                {
                  if (b > 0)
                    x(off + i) = a;
                  else
                    x[off + i] = a;
                }
              m[bl]->v[i] = a;
            }
            structural++;
            break;
          case 25:
            name = "update_ghost_values";
            if (self_shared(m) || m.empty())
              continue;
            x.update_ghost_values();
            c.check(x.has_ghost_elements(), "ghost state set");
            break;
          case 26:
            name = "zero_out_ghost_values";
            if (m.empty())
              continue;
            x.zero_out_ghost_values();
            c.check(!x.has_ghost_elements(), "ghost state cleared");
            break;
          case 27:
            // contributions to entries of other processes
            name = "compress";
            if (self_shared(m) || m.empty())
              continue;
            x.zero_out_ghost_values();
            for (unsigned int q = 0; q < m.size(); ++q)
              {
                std::vector<double> n(m[q]->v.size());
                const auto          add = [&](const auto i) {
                  x.block(q)(i) += a;
                  n[i] += 1;
                };
                for (const auto i : x.block(q).locally_owned_elements())
                  add(i);
                for (const auto i : x.block(q).get_partitioner()->ghost_indices())
                  add(i);
                Utilities::MPI::sum(n, comm, n);
                for (unsigned int i = 0; i < n.size(); ++i)
                  m[q]->v[i] += a * n[i];
              }
            x.compress(VectorOperation::add);
            break;
        }
      for (unsigned int q = 0; q < 3; ++q)
        {
          // keep magnitudes bounded so that exact comparison is meaningful
          double mx = 0;
          for (const auto &bl : M[q])
            for (const double w : bl->v)
              mx = std::max(mx, std::abs(w));
          if (mx > 1e4)
            {
              X[q].zero_out_ghost_values();
              X[q] = 1.;
              for (auto &bl : M[q])
                std::fill(bl->v.begin(), bl->v.end(), 1.);
            }
        }
      for (unsigned int q = 0; q < 3; ++q)
        compare(c, X[q], M[q], name + " -> vector " + std::to_string(q));
      c.label(name);
      if (!c.errors.empty())
        return;
    }
  c.label("mixed block sizes", mixed);
  c.nontrivial = structural >= 1 && arithmetic >= 1;
}
