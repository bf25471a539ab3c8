#!/bin/bash
# Compiles the program beside this file against the built tree (cwd) and runs it: exit 0 if the property held.
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demoXXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_ess_singleton_isolated=1 OMPI_MCA_plm=isolated
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_hwloc_base_binding_policy=none
export TMPDIR=$T OMPI_MCA_orte_tmpdir_base=$T
S=$R/src B=$R/_build/src
g++ -DJali_HAVE_METIS -DJali_HAVE_ZOLTAN -DOMPI_SKIP_MPICXX \
  -I$B/error_handling -I$S/error_handling -I$B/mesh -I$S/mesh -I$B/mesh/mesh_factory -I$S/mesh/mesh_factory -I$B/geometry -I$S/geometry \
  -I$B/mesh/mesh_simple -I$S/mesh/mesh_simple -I$B/statemanager -I$S/statemanager -I/usr/include/trilinos \
  -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi \
  -std=c++11 -O1 -g -DNDEBUG ${DEMO_FLAGS:-} "$here"/demo.cc -o "$T/demo" \
  $B/statemanager/libjali_state.a $B/mesh/mesh_factory/libjali_mesh_factory.a $B/mesh/libjali_mesh.a $B/mesh/mesh_simple/libjali_simple_mesh.a \
  $B/mesh/libjali_mesh.a $B/mesh/mesh_simple/libjali_simple_mesh.a $B/geometry/libjali_geometry.a $B/error_handling/libjali_error_handling.a \
  -lmetis -l:libtrilinos_zoltan.so.13.2 -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi -lm || { echo "demo does not build"; exit 3; }
cd "$T" && timeout 120 "$T/demo"
