/* The parallel CGNS interface is not installed here; the functions exist so that the file that also holds the
   other writers compiles. Parallel CGNS output is not covered. */
#pragma once
#include <cgnslib.h>
#include <cstdlib>
enum CGNS_ENUMT_VT_PIO { CGP_INDEPENDENT = 0, CGP_COLLECTIVE = 1 };
template <class... A> inline int cgp_mpi_comm(A...) { abort(); return 1; }
template <class... A> inline int cgp_open(A...) { abort(); return 1; }
template <class... A> inline int cgp_close(A...) { abort(); return 1; }
template <class... A> inline int cgp_coord_write(A...) { abort(); return 1; }
template <class... A> inline int cgp_coord_write_data(A...) { abort(); return 1; }
template <class... A> inline int cgp_poly_section_write(A...) { abort(); return 1; }
template <class... A> inline int cgp_poly_elements_write_data(A...) { abort(); return 1; }
template <class... A> inline int cgp_ptlist_write_data(A...) { abort(); return 1; }
#undef CGNS_VERSION
#define CGNS_VERSION 4500
