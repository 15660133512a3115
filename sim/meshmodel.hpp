// Finite element problems on small distributed meshes.
#pragma once
#include <memory>
#include <string>
#include <vector>
namespace netgen { class Mesh; }
namespace harness
{
struct MeshModel
{
  int dim = 2, np = 1;
  std::vector<double> pts;                 // 3 per point
  struct El { int v[4]; int mat; int owner; };
  std::vector<El> els;
  struct Bnd { int v[3]; int bc; int owner; };  // facets of the boundary
  std::vector<Bnd> bnds;
  int nmat = 1;
  std::vector<std::vector<int>> verts;     // per rank: its vertices, ascending
  std::vector<std::vector<int>> procs;     // per vertex: ranks
};
std::shared_ptr<netgen::Mesh> MakeNetgenMesh (const MeshModel & m, int rank);
}
