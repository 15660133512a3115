#!/usr/bin/env python3
"""Writes /verif/build/build.ninja: the library sources of /repo's working tree + the simulator + the harness."""
import glob, os, sys
V = "/opt/ngs/6.2.2405"
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
import shutil
B = os.environ.get("NGSAMG_SIM_BUILD", ROOT + "/build")
SRC = os.environ.get("NGSAMG_SRC", B + "/src")     # mirror of /repo/src, see build.py
CC = "ccache g++" if shutil.which("ccache") else "g++"
LIBS = V + "/lib/python3.12/site-packages/netgen_mesher.libs"
os.makedirs(B, exist_ok=True)
inc = [SRC + "/base"] + [SRC + "/base/" + d for d in "utils distributed mesh coarsening factory smoothers solve precond ngs_extension linalg python".split()]
inc += [SRC + "/h1", SRC + "/elasticity", SRC + "/stokes/common", SRC + "/stokes/ncfes", SRC + "/stokes/hdiv"]
sysinc = ["/usr/include/python3.12", V + "/include", V + "/include/netgen", V + "/include/netgen/include"]
defs = "-DHAVE_CXA_DEMANGLE -DHAVE_DLFCN_H -DHAVE_NETGEN_SOURCES -DLAPACK -DNETGEN_PYTHON -DNGS_PYTHON -DNG_MPI_WRAPPER -DNG_PYTHON -DNgsAMG_EXPORTS -DPARALLEL -DPYBIND11_SIMPLE_GIL_MANAGEMENT -DTCL -DUSE_PARDISO -DUSE_TIMEOFDAY -D_GLIBCXX_USE_CXX11_ABI=1 -Wno-deprecated-declarations -DMIS_AGG -DSPW_AGG -DELASTICITY -DSTOKES_AMG -DNGS_COMPATIBILITY -DNDEBUG -DMAX_SYS_DIM=3 -DNGSAMG_DST"
cxx = "-O1 -fPIC -march=core-avx2 -fabi-version=17 -std=c++17 -w"
out = []
out.append("ninja_required_version = 1.5\nbuilddir = %s" % B)
out.append("flags = %s %s %s %s" % (defs, cxx, " ".join("-I" + i for i in inc), " ".join("-isystem " + i for i in sysinc)))
out.append("""rule cxx
  command = %s $flags $extra -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX $out
rule linkso
  command = g++ -shared -o $out @$out.rsp $libs
  rspfile = $out.rsp
  rspfile_content = $in_newline
  description = LINK $out
rule linkexe
  command = g++ -rdynamic -o $out @$out.rsp $libs
  rspfile = $out.rsp
  rspfile_content = $in_newline
  description = LINK $out
""" % CC)
objs = []
skip = {"python_amg.cpp", "python_coarse.cpp", "python_smoothers.cpp", "python_solve.cpp", "python_utils.cpp", "python_h1.cpp", "python_elasticity.cpp"}
# expensive ones first
srcs = sorted(glob.glob(SRC + "/**/*.cpp", recursive=True), key=lambda s: (("agg" not in s and "mis" not in s and "spw" not in s and "stokes" not in s), s))
for s in srcs:
    if os.path.basename(s) in skip: continue
    o = "%s/obj/%s.o" % (B, os.path.relpath(s, SRC).replace("/", "__"))
    objs.append(o)
    out.append("build %s: cxx %s" % (o, s))
hobjs = []
for s in sorted(glob.glob(HERE + "/*.cpp")):
    o = "%s/sobj/%s.o" % (B, os.path.basename(s))
    hobjs.append(o)
    out.append("build %s: cxx %s\n  extra = -I%s%s" % (o, s, HERE, " -fno-access-control" if s.endswith("meshbuild.cpp") else ""))
ng = " ".join("-l" + l for l in ["ngsolve", "ngcomp", "ngfem", "ngla", "ngbla", "ngstd", "nglib", "ngcore"])
rp = "-Wl,--disable-new-dtags -Wl,-rpath,%s -Wl,-rpath,%s/lib" % (LIBS, V)
libs = "-L%s %s %s/lib/libmkl_rt.so.2 -L%s -Wl,--allow-shlib-undefined -lpython3.12 -ldl -lpthread" % (LIBS, ng, V, LIBS)
out.append("build %s/libngsamg_sim.so: linkso %s\n  libs = %s %s" % (B, " ".join(objs), libs, rp))
out.append("build %s/simrun: linkexe %s | %s/libngsamg_sim.so\n  libs = %s/libngsamg_sim.so -Wl,-rpath,%s %s %s" % (B, " ".join(hobjs), B, B, B, libs, rp))
out.append("default %s/simrun" % B)
txt = "\n".join(out) + "\n"
p = B + "/build.ninja"
if not os.path.exists(p) or open(p).read() != txt:
    open(p, "w").write(txt)
