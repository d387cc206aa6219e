// A random finite element topology, as a SAM object and as a dense reference.
#ifndef VERIF_FEMODEL_H
#define VERIF_FEMODEL_H
#include "sim.h"
#include "SAM.h"
#include "MatVec.h"
#include <algorithm>
#include <cmath>

namespace femodel {
using sim::Rng;
typedef std::vector<double> Vec;

//! Dense row-major reference matrix.
struct Dense {
  size_t n = 0, m = 0;
  Vec a;
  Dense(size_t r = 0, size_t c = 0) : n(r), m(c), a(r*c,0.0) {}
  double& operator()(size_t i, size_t j) { return a[i*m+j]; }
  double operator()(size_t i, size_t j) const { return a[i*m+j]; }
};

struct Constraint {
  int slave;                                //!< 0-based dof
  double c0;
  std::vector<std::pair<int,double>> master; //!< 0-based free dofs
};

struct Model {
  std::vector<int> ofs;                 //!< first dof of each node, and total
  std::vector<std::vector<int>> elm;    //!< 0-based nodes of each element
  std::vector<char> stat;               //!< per dof: 1 free, 0 fixed, 2 constrained
  std::vector<Constraint> ceq;
  std::vector<int> eq;                  //!< 0-based equation of each free dof, -1 otherwise
  int neq = 0;

  int nnod() const { return ofs.size()-1; }
  int ndof() const { return ofs.back(); }

  void number()
  {
    eq.assign(ndof(),-1);
    neq = 0;
    for (int i = 0; i < ndof(); i++) if (stat[i] == 1) eq[i] = neq++;
  }

  std::vector<int> dofs(size_t e) const
  {
    std::vector<int> d;
    for (int n : elm[e]) for (int i = ofs[n]; i < ofs[n+1]; i++) d.push_back(i);
    return d;
  }

  //! The linear map of one dof: list of (equation,weight) and a constant
  void map(int dof, std::vector<std::pair<int,double>>& w, double& c) const
  {
    w.clear();
    c = 0.0;
    if (stat[dof] == 1) w.push_back({eq[dof],1.0});
    else if (stat[dof] == 2)
      for (const Constraint& q : ceq) if (q.slave == dof) {
        c = q.c0;
        for (auto& m : q.master) w.push_back({eq[m.first],m.second});
      }
  }

  void addMat(Dense& K, Vec* rhs, size_t e, const Dense& k) const
  {
    std::vector<int> d = dofs(e);
    std::vector<std::vector<std::pair<int,double>>> w(d.size());
    Vec c(d.size());
    for (size_t i = 0; i < d.size(); i++) map(d[i],w[i],c[i]);
    for (size_t i = 0; i < d.size(); i++)
      for (auto& wi : w[i])
        for (size_t j = 0; j < d.size(); j++) {
          for (auto& wj : w[j]) K(wi.first,wj.first) += wi.second*wj.second*k(i,j);
          if (rhs) (*rhs)[wi.first] -= wi.second*k(i,j)*c[j];
        }
  }

  void addVec(Vec& b, size_t e, const Vec& f) const
  {
    std::vector<int> d = dofs(e);
    std::vector<std::pair<int,double>> w;
    double c;
    for (size_t i = 0; i < d.size(); i++) {
      map(d[i],w,c);
      for (auto& wi : w) b[wi.first] += wi.second*f[i];
    }
  }
};

//! Chain of nodes plus extra elements; mpc is the probability of a constraint, fix of a fixed dof
inline Model randomModel(Rng& rng, int maxNodes, int maxDof, double fix, double mpc, bool prescribed = true)
{
  Model m;
  int nn = 2+rng.below(maxNodes-1);
  m.ofs.push_back(0);
  bool uniform = rng.chance(0.7);
  int nd0 = 1+rng.below(maxDof);
  for (int i = 0; i < nn; i++) m.ofs.push_back(m.ofs.back() + (uniform ? nd0 : 1+(int)rng.below(maxDof)));
  int nen = 2+rng.below(3);
  for (int i = 0; i+1 < nn; i += std::max(1,nen-1)) {
    std::vector<int> e;
    for (int k = i; k < std::min(nn,i+nen); k++) e.push_back(k);
    m.elm.push_back(e);
  }
  int extra = rng.below(4);
  for (int k = 0; k < extra; k++) {
    std::vector<int> e;
    for (int q = 0; q < nen; q++) {
      int n = rng.below(nn);
      if (std::find(e.begin(),e.end(),n) == e.end()) e.push_back(n);
    }
    m.elm.push_back(e);
  }
  m.stat.assign(m.ndof(),1);
  for (int i = 0; i < m.ndof(); i++) if (rng.chance(fix)) m.stat[i] = 0;
  for (int i = 0; i < m.ndof(); i++) if (rng.chance(mpc) && m.stat[i] == 1) m.stat[i] = 2;
  if (std::count(m.stat.begin(),m.stat.end(),1) == 0) m.stat[m.ndof()-1] = 1;
  std::vector<int> freed;
  for (int i = 0; i < m.ndof(); i++) if (m.stat[i] == 1) freed.push_back(i);
  for (int i = 0; i < m.ndof(); i++)
    if (m.stat[i] == 2) {
      Constraint q;
      q.slave = i;
      q.c0 = prescribed && rng.chance(0.6) ? rng.range(-8,8)*0.25 : 0.0;
      int nm = rng.below(4);
      for (int k = 0; k < nm; k++) {
        int f = freed[rng.below(freed.size())];
        bool dup = false;
        for (auto& p : q.master) dup |= p.first == f;
        if (!dup) q.master.push_back({f,rng.range(1,8)*0.25*(rng.chance(0.3) ? -1 : 1)});
      }
      m.ceq.push_back(q);
    }
  m.number();
  return m;
}

class SimSAM : public SAM {
public:
  explicit SimSAM(const Model& m)
  {
    nnod = m.nnod();
    nel = m.elm.size();
    ndof = m.ndof();
    nceq = m.ceq.size();
    madof = new int[nnod+1];
    for (int i = 0; i <= nnod; i++) madof[i] = m.ofs[i]+1;
    mpmnpc = new int[nel+1];
    std::vector<int> c;
    for (int e = 0; e < nel; e++) {
      mpmnpc[e] = c.size()+1;
      for (int n : m.elm[e]) c.push_back(n+1);
    }
    mpmnpc[nel] = c.size()+1;
    nmmnpc = c.size();
    mmnpc = new int[c.size()];
    std::copy(c.begin(),c.end(),mmnpc);
    msc = new int[ndof];
    for (int i = 0; i < ndof; i++) msc[i] = m.stat[i] == 1;
    std::vector<int> mm;
    std::vector<double> tt;
    mpmceq = new int[nceq+1];
    for (int i = 0; i < nceq; i++) {
      mpmceq[i] = mm.size()+1;
      mm.push_back(m.ceq[i].slave+1);
      tt.push_back(m.ceq[i].c0);
      for (auto& p : m.ceq[i].master) { mm.push_back(p.first+1); tt.push_back(p.second); }
    }
    mpmceq[nceq] = mm.size()+1;
    nmmceq = mm.size();
    mmceq = new int[std::max<size_t>(1,mm.size())];
    ttcc = new double[std::max<size_t>(1,mm.size())];
    std::copy(mm.begin(),mm.end(),mmceq);
    std::copy(tt.begin(),tt.end(),ttcc);
    ok = this->initSystemEquations();
  }
  bool ok;
  //! 0-based index of the reaction force of a dof, or -1
  int reaction(int dof) const { return msc[dof] < 0 ? -msc[dof]-1 : -1; }
};

inline void toMatrix(const Dense& k, Matrix& M)
{
  M.resize(k.n,k.m);
  for (size_t i = 0; i < k.n; i++) for (size_t j = 0; j < k.m; j++) M(i+1,j+1) = k(i,j);
}

//! kind: 0 symmetric positive definite, 1 unsymmetric, 2 badly scaled, 3 singular (zero row sums), 4 diagonal
inline Dense elementMatrix(Rng& rng, size_t n, int kind)
{
  Dense k(n,n);
  if (kind == 4) {
    for (size_t i = 0; i < n; i++) k(i,i) = rng.uni(0.5,4.0);
    return k;
  }
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < i; j++) {
      double v = kind == 3 ? rng.range(1,4) : rng.uni(0.1,1.0);
      k(i,i) += v; k(j,j) += v;
      k(i,j) -= v; k(j,i) -= v;
      if (kind == 1) {
        double s = 0.4*v*rng.uni(-1.0,1.0);
        k(i,j) += s; k(j,i) -= s;
      }
    }
  if (kind != 3)
    for (size_t i = 0; i < n; i++) k(i,i) += rng.uni(0.5,1.0);
  return k;
}
}
#endif
