#!/usr/bin/env python3
"""Generate a small include overlay on top of the installed deal.II 9.5.1.

hpsint targets a newer deal.II; five API differences keep most of its headers
from being instantiated against the installed library.  The overlay contains
patched copies of the *installed deal.II headers* (never of hpsint sources) that add the
missing inline API, so that the unmodified hpsint tree of /repo can be
compiled completely.  Nothing in the overlay changes the ABI of libdeal.ii.
"""
import os, re, sys

SRC = "/usr/include/deal.II"
OUT = sys.argv[1]


def read(p):
    with open(os.path.join(SRC, p)) as f:
        return f.read()


def write(p, s):
    p = os.path.join(OUT, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    old = None
    if os.path.exists(p):
        old = open(p).read()
    if old != s:
        with open(p, "w") as f:
            f.write(s)


def must(s, old, new, count=1):
    assert old in s, "pattern not found: " + old
    return s.replace(old, new, count)


# 1. DoFHandler::get_mpi_communicator()
s = read("dofs/dof_handler.h")
s = must(s, "  MPI_Comm\n  get_communicator() const;",
         "  MPI_Comm\n  get_communicator() const;\n\n"
         "  MPI_Comm\n  get_mpi_communicator() const { return get_communicator(); }")
write("deal.II/dofs/dof_handler.h", s)

# 2. AffineConstraints::reinit(owned, relevant)
s = read("lac/affine_constraints.h")
s = must(s, "  reinit(const IndexSet &local_constraints = IndexSet());",
         "  reinit(const IndexSet &local_constraints = IndexSet());\n\n"
         "  void\n  reinit(const IndexSet &, const IndexSet &relevant) { reinit(relevant); }")
write("deal.II/lac/affine_constraints.h", s)

# 3. VectorizedArray::sum() const
s = read("base/vectorization.h")
s, n = re.subn(r"(\n\s*)(sum\(\))(\s*(?:;|\n\s*\{))", r"\1\2 const\3", s)
s, n2 = re.subn(r"(VectorizedArray<[a-z]+, \d+>::sum\(\))(\s*\{|\s*\n\s*\{)", r"\1 const\2", s)
write("deal.II/base/vectorization.h", s)

# 4. unified SolutionTransfer
write("deal.II/numerics/solution_transfer.h", """#ifndef compat_solution_transfer_h
#define compat_solution_transfer_h
#include <deal.II/distributed/solution_transfer.h>
#include <deal.II/lac/la_parallel_vector.h>
DEAL_II_NAMESPACE_OPEN
template <int dim, typename VectorType = Vector<double>, int spacedim = dim>
class SolutionTransfer
  : public parallel::distributed::SolutionTransfer<dim, VectorType, spacedim>
{
public:
  using parallel::distributed::SolutionTransfer<dim, VectorType, spacedim>::
    SolutionTransfer;
};
DEAL_II_NAMESPACE_CLOSE
#endif
""")

# 5. Utilities::MPI::compute_index_owner_and_requesters
s = read("base/mpi_compute_index_owner_internal.h")
idx = s.rindex("DEAL_II_NAMESPACE_CLOSE")
add = """
#ifdef DEAL_II_WITH_MPI
namespace Utilities
{
  namespace MPI
  {
    inline std::pair<std::vector<unsigned int>,
                     std::map<unsigned int, IndexSet>>
    compute_index_owner_and_requesters(const IndexSet &owned_indices,
                                       const IndexSet &indices_to_look_up,
                                       const MPI_Comm  comm)
    {
      std::vector<unsigned int> owning_ranks(indices_to_look_up.n_elements());
      internal::ComputeIndexOwner::ConsensusAlgorithmsPayload process(
        owned_indices, indices_to_look_up, comm, owning_ranks, true);
      ConsensusAlgorithms::Selector<
        std::vector<
          std::pair<types::global_dof_index, types::global_dof_index>>,
        std::vector<unsigned int>>
        consensus_algorithm;
      consensus_algorithm.run(process, comm);
      return {owning_ranks, process.get_requesters()};
    }
  } // namespace MPI
} // namespace Utilities
#endif
"""
s = s[:idx] + add + s[idx:]
write("deal.II/base/mpi_compute_index_owner_internal.h", s)

# 6. as in /opt/vp/shim: the installed deal.II was configured with a SUNDIALS
#    whose interface differs from what hpsint expects
write("deal.II/base/config.h",
      "#include_next <deal.II/base/config.h>\n#undef DEAL_II_WITH_SUNDIALS\n")

# 7. generated header of hpsint's own build
write("pf-applications/base/revision.h", """#pragma once
#define PF_APPLICATIONS_GIT_BRANCH "x"
#define PF_APPLICATIONS_GIT_REVISION "x"
#define PF_APPLICATIONS_GIT_SHORTREV "x"
""")
# force-included
write("compat_prelude.h", """#pragma once
#include <list>
#include <map>
#include <set>
#include <numeric>
#include <algorithm>
#include <functional>
#include <deal.II/base/mpi_compute_index_owner_internal.h>
#include <deal.II/numerics/solution_transfer.h>
""")
print("overlay ok", n, n2)
