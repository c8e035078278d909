#include "vshim.h"
int sc_get_package_id (void) { return sc_package_id; }
/* Newer libsc: attach intra-/internode communicators (nodes = shared memory domains), return the node size. */
int sc_mpi_comm_get_and_attach (sc_MPI_Comm comm)
{
  sc_MPI_Comm intra, inter;
  int size = 1;
  sc_mpi_comm_attach_node_comms (comm, 0);
  sc_mpi_comm_get_node_comms (comm, &intra, &inter);
  if (intra != sc_MPI_COMM_NULL) sc_MPI_Comm_size (intra, &size);
  return size;
}
