# Initial cache (cmake -C): what FindMPI learns from the wrappers of apt's OpenMPI.
# Where no network interface is up, the wrappers print a warning that FindMPI
# cannot parse, and MPI would silently be left out.
set(_inc /usr/lib/x86_64-linux-gnu/openmpi/include)
set(_lib /usr/lib/x86_64-linux-gnu/openmpi/lib)
set(MPI_C_ADDITIONAL_INCLUDE_DIRS "${_inc}/openmpi" CACHE STRING "")
set(MPI_C_COMPILER_INCLUDE_DIRS "${_inc};${_inc}/openmpi" CACHE STRING "")
set(MPI_C_HEADER_DIR "${_inc}" CACHE PATH "")
set(MPI_C_LIB_NAMES "mpi" CACHE STRING "")
set(MPI_CXX_ADDITIONAL_INCLUDE_DIRS "${_inc}/openmpi" CACHE STRING "")
set(MPI_CXX_COMPILER_INCLUDE_DIRS "${_inc};${_inc}/openmpi" CACHE STRING "")
set(MPI_CXX_HEADER_DIR "${_inc}" CACHE PATH "")
set(MPI_CXX_LIB_NAMES "mpi_cxx;mpi" CACHE STRING "")
set(MPI_mpi_LIBRARY "${_lib}/libmpi.so" CACHE FILEPATH "")
set(MPI_mpi_cxx_LIBRARY "${_lib}/libmpi_cxx.so" CACHE FILEPATH "")
