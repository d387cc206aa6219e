// Structured element grids with the node connectivity of a tensor-product basis, and their thread groups.
#ifndef VERIF_GRIDGROUPS_H
#define VERIF_GRIDGROUPS_H
#include "sim.h"
#include "ThreadGroups.h"
#include <algorithm>

namespace gridgroups {
using sim::Rng;

struct Grid {
  int dim = 2;
  int n[3] = {1,1,1};            //!< knot spans (elements) in each direction
  int p[3] = {1,1,1};            //!< polynomial degrees (1 when lagrange)
  std::vector<bool> live[3];     //!< non-zero knot spans
  bool flags = false;            //!< partition through the span flags, not the element counts
  int nel() const { return n[0]*n[1]*n[2]; }
  int nodes(int d) const { return d < dim ? n[d]+p[d] : 1; }
  int nnod() const { return nodes(0)*nodes(1)*nodes(2); }
  bool isLive(int e) const
  {
    int i[3] = { e%n[0], (e/n[0])%n[1], e/(n[0]*n[1]) };
    for (int d = 0; d < dim; d++) if (!live[d][i[d]]) return false;
    return true;
  }
  std::vector<int> elmNodes(int e) const
  {
    int i[3] = { e%n[0], (e/n[0])%n[1], e/(n[0]*n[1]) };
    std::vector<int> r;
    for (int c = 0; c <= (dim > 2 ? p[2] : 0); c++)
      for (int b = 0; b <= (dim > 1 ? p[1] : 0); b++)
        for (int a = 0; a <= p[0]; a++)
          r.push_back((i[0]+a)+nodes(0)*((i[1]+b)+nodes(1)*(i[2]+c)));
    return r;
  }
  void calc(ThreadGroups& tg, int minsize = 1) const
  {
    if (flags && dim == 2) tg.calcGroups(live[0],live[1],p[0],p[1]);
    else if (flags) tg.calcGroups(live[0],live[1],live[2],p[0],p[1],p[2]);
    else if (dim == 2) tg.calcGroups(n[0],n[1],minsize);
    else tg.calcGroups(n[0],n[1],n[2],minsize);
  }
};

//! a: dim, n1, n2, n3, p1, p2, p3, flags, seed of the zero spans
inline Grid fromOp(const sim::Op& o)
{
  Grid g;
  g.dim = o.i(0) > 2 ? 3 : 2;
  g.flags = o.i(7) != 0;
  Rng r(sim::mix(o.i(8)+77));
  for (int d = 0; d < 3; d++) {
    g.n[d] = d < g.dim ? std::max(1l,o.i(1+d)) : 1;
    g.p[d] = std::max(1l,std::min(4l,o.i(4+d,1)));
    if (!g.flags) g.p[d] = g.p[0]; // one minimum size for all directions
    g.live[d].assign(g.n[d],true);
    if (g.flags && o.i(8) > 0 && d < g.dim) {
      // repeated knots: runs of at most p-1 empty spans, never at the ends
      double c = r.uni(0.0,0.5);
      for (int i = 1, run = 0; i+1 < g.n[d]; i++)
        if (r.chance(c) && run < g.p[d]-1) { g.live[d][i] = false; run++; }
        else run = 0;
    }
  }
  return g;
}

inline sim::Op makeOp(Rng& rng, int tier, bool small)
{
  int dim = rng.chance(0.3) ? 3 : 2;
  double a[9] = {};
  a[0] = dim;
  int longest = rng.below(dim);
  for (int d = 0; d < dim; d++)
    a[1+d] = d == longest || !small ? 1+rng.below(small ? 14 : rng.chance(0.3) ? 80 : 20) : 1+rng.below(dim == 3 ? 2 : 4);
  for (int d = 0; d < 3; d++) a[4+d] = 1+rng.below(small ? 2 : 4);
  a[7] = rng.chance(0.6);
  a[8] = rng.chance(0.5) ? (double)(1+rng.below(100000)) : 0.0;
  return sim::Op("grid",std::vector<double>(a,a+9));
}
}
#endif
