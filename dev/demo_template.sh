#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
NP=@NP@
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMP_NUM_THREADS=2 OMP_WAIT_POLICY=passive
L=/usr/lib/x86_64-linux-gnu
g++ -std=c++17 -w -O1 -DNDEBUG -march=x86-64-v2 -DDISCOTEC_USE_LZ4 -DTIMING -fopenmp -I/repo/src -I/repo -isystem $L/openmpi/include -isystem $L/openmpi/include/openmpi "$D/demo.cpp" -o "$W/demo" /repo/_build/src/libdiscotec.a -lboost_serialization -lboost_program_options -lboost_system -lboost_filesystem -lboost_date_time -llz4 -lglpk -L$L/openmpi/lib -lmpi_cxx -lmpi -lpthread || exit 2
cd "$W" && timeout 120 mpiexec --oversubscribe --bind-to none -n $NP ./demo
