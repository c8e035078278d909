/* Compatibility layer for the harness build only: the names of libsc that t8code at this commit needs and that
 * the installed libsc 2.3.6 lacks. Everything maps one-to-one onto MPI. It is force-included (-include). */
#ifndef VSHIM_H
#define VSHIM_H
#include <mpi.h>
#include <sc.h>
#include <sc_mpi.h>
#ifndef sc_MPI_PACKED
#define sc_MPI_PACKED MPI_PACKED
#define sc_MPI_Pack MPI_Pack
#define sc_MPI_Unpack MPI_Unpack
#define sc_MPI_Pack_size MPI_Pack_size
#endif
#ifndef sc_MPI_INT8_T
#define sc_MPI_INT8_T MPI_INT8_T
#endif
#ifdef __cplusplus
extern "C" {
#endif
int sc_get_package_id (void);
int sc_mpi_comm_get_and_attach (sc_MPI_Comm comm);
#ifdef __cplusplus
}
#endif
#endif
