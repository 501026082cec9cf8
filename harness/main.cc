#include <deal.II/base/mpi.h>

#include "pbt.h"

int
main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  const int r = pbt::run(argc, argv);
  return r;
}
