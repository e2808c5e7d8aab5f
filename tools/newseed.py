#!/usr/bin/env python3
"""newseed.py ID PROP FILE  <<< python dict {old, new, needs, breaks, demo (C++ source)} : creates seeded/ID"""
import sys, os, json, subprocess, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = eval(sys.stdin.read())
i, p = sys.argv[1], sys.argv[2]
out = V + "/seeded/" + i; os.makedirs(out, exist_ok=True)
edits = d["edits"]
diff = ""
byf = {}
for f, o, n in edits:
    s = byf.get(f) or open("/repo/" + f).read()
    assert s.count(o) == 1, (f, o, s.count(o))
    byf[f] = s.replace(o, n)
for f, s in byf.items():
    a = open("/repo/" + f).read().splitlines(True); b = s.splitlines(True)
    diff += "".join(x if x.endswith("\n") else x + "\n\\ No newline at end of file\n" for x in difflib.unified_diff(a, b, "a/" + f, "b/" + f))
open(out + "/patch.diff", "w").write(diff)
subprocess.run(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"], check=True)
open(out + "/demo.cpp", "w").write(d["demo"].lstrip("\n"))
extra = " ".join("/repo/core/src/" + x for x in d.get("extra", []))
open(out + "/demo.sh", "w").write('''#!/bin/bash
# compiles demo.cpp against /repo's sources and runs it: exit 0 when the property holds
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
S=/repo/core/src; L=/usr/lib/x86_64-linux-gnu
mkdir -p $T/gen; cp /repo/_build/src/dyablo_version.h $T/gen/ 2>/dev/null || touch $T/gen/dyablo_version.h
F="-std=c++17 -O1 -fopenmp -fno-access-control -w -include /opt/vp/kokkos37_compat.h -I$T/gen -DBITPIT_ENABLE_MPI -DKOKKOS_DEPENDENCE -DNDEBUG -DDYABLO_USE_HDF5 -DDYABLO_USE_HDF5_PARALLEL -DDYABLO_USE_DOUBLE -DDYABLO_USE_MPI -I$S -I$S/utils -I$S/utils/mpi -I$S/utils/config/inih -I$S/utils/monitoring -I/repo/core/bin -I/usr/include/hdf5/openmpi -isystem $L/openmpi/include -isystem $L/openmpi/include/openmpi"
O=""; N=0
for c in $H/demo.cpp %s; do N=$((N+1)); g++ $F -c $c -o $T/$N.o & O="$O $T/$N.o"; done; wait
g++ -fopenmp $O -Wl,-rpath,$L/hdf5/openmpi:$L/openmpi/lib $L/hdf5/openmpi/libhdf5.so $L/openmpi/lib/libmpi_cxx.so $L/openmpi/lib/libmpi.so $L/libkokkoscontainers.so.3.7.01 $L/libkokkoscore.so.3.7.01 -ldl -lpthread -lm -o $T/demo || exit 3
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMP_NUM_THREADS=2 OMP_PROC_BIND=false
cd $T && timeout 120 ./demo
''' % extra)
json.dump(dict(property=p, needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
print(diff)
