// The local part of a distributed Netgen mesh, made by hand so that any partition can be simulated.
#include <algorithm>
#include <array>
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <mutex>
#include <optional>
#include <queue>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <variant>
#include <vector>
#include <filesystem>
#include <any>
#include <complex>
#include <chrono>
#include <core/ngcore.hpp>
#include <core/ng_mpi.hpp>
#include <core/mpi_wrapper.hpp>
#include <meshing.hpp>   // compiled with -fno-access-control
#include "meshmodel.hpp"
#include "sim.hpp"
namespace harness
{
using namespace netgen;
std::shared_ptr<netgen::Mesh> MakeNetgenMesh (const MeshModel & mm, int rank)
{
  auto m = std::make_shared<netgen::Mesh>();
  m->comm = NgMPI_Comm(NG_MPI_COMM_WORLD);
  m->SetDimension(mm.dim);
  auto & vs = mm.verts[rank]; int nv = vs.size();
  auto loc = [&](int g) { return PointIndex(int(std::lower_bound(vs.begin(), vs.end(), g) - vs.begin()) + PointIndex::BASE); };
  for (int g : vs) m->AddPoint(netgen::Point<3>(mm.pts[3*g], mm.pts[3*g+1], mm.pts[3*g+2]));
  int nb = mm.dim == 2 ? 4 : 6;
  if (mm.dim == 2)
    {
      for (int k = 0; k < mm.nmat; k++) { FaceDescriptor fd(k + 1, k + 1, 0, k + 1); fd.SetBCProperty(k + 1); m->AddFaceDescriptor(fd); }
      for (auto & e : mm.els) if (e.owner == rank)
        { Element2d el(netgen::TRIG); for (int k = 0; k < 3; k++) el[k] = loc(e.v[k]); el.SetIndex(e.mat + 1); m->AddSurfaceElement(el); }
      for (auto & b : mm.bnds) if (b.owner == rank)
        { Segment s; s[0] = loc(b.v[0]); s[1] = loc(b.v[1]); s.si = b.bc + 1; s.edgenr = b.bc + 1; s.epgeominfo[0].edgenr = s.epgeominfo[1].edgenr = b.bc + 1; m->AddSegment(s); }
    }
  else
    {
      for (int k = 0; k < nb; k++) { FaceDescriptor fd(k + 1, 1, 0, k + 1); fd.SetBCProperty(k + 1); m->AddFaceDescriptor(fd); }
      for (auto & e : mm.els) if (e.owner == rank)
        { Element el(netgen::TET); for (int k = 0; k < 4; k++) el[k] = loc(e.v[k]); el.SetIndex(e.mat + 1); m->AddVolumeElement(el); }
      for (auto & b : mm.bnds) if (b.owner == rank)
        { Element2d el(netgen::TRIG); for (int k = 0; k < 3; k++) el[k] = loc(b.v[k]); el.SetIndex(b.bc + 1); m->AddSurfaceElement(el); }
    }
  for (int k = 0; k < mm.nmat; k++) m->SetMaterial(k + 1, "mat" + std::to_string(k));
  for (int k = 0; k < nb; k++) m->SetBCName(k, "b" + std::to_string(k));
  m->CalcSurfacesOfNode();
  if (mm.np > 1)
    {
      auto & pt = *m->paralleltop;
      pt.glob_vert.SetSize(nv); pt.loc2distvert = DynamicTable<int>(nv);
      for (int k = 0; k < nv; k++) { pt.glob_vert[k] = vs[k] + 1; for (int q : mm.procs[vs[k]]) if (q != rank) pt.loc2distvert.AddUnique(k, q); }
    }
  m->UpdateTopology();
  m->SetNextMajorTimeStamp();
  return m;
}
}
