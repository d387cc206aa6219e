// A small nonlinear structural model on the real SIM/ASM/SAM machinery: chains of nonlinear springs with mass and
// damping, in one or several patches, with fixed, prescribed and coupled dofs. An independent dense reference of the
// same model (residual, tangent, constraints) decides what the solution drivers report.
#ifndef VERIF_MINISIM_H
#define VERIF_MINISIM_H
#include "femodel.h"
#include "ASMbase.h"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "IntegrandBase.h"
#include "GlobalIntegral.h"
#include "AlgEqSystem.h"
#include "HHTMats.h"
#include "Property.h"
#include "Functions.h"
#include "FiniteElement.h"
#include "TimeDomain.h"
#include "SystemMatrix.h"
#include "tinyxml2.h"
#include <memory>
#include <cstring>

// The spline patches are not built here (no GoTools); there are none to renumber.
void noSplinePatches(const std::map<int,int>&) asm("_ZN8ASMs2DC113renumberNodesERKSt3mapIiiSt4lessIiESaISt4pairIKiiEEE");
void noSplinePatches(const std::map<int,int>&) {}

namespace mini {
using sim::Rng;
using sim::Run;
using sim::cur;
using femodel::Vec;
using femodel::Dense;

enum Scheme { STATIC_, NEWMARK, NEWMARKNL, HHT, GENALPHA };

inline double timeFunc(int kind, double t)
{
  switch (kind) {
  case 0: return t;
  case 1: return sin(3.0*t);
  case 2: return t < 0.35 ? 1.0 : 0.25;
  case 3: return 1.0;
  default: return t*t;
  }
}

struct Spec {
  int nf = 1;
  std::vector<int> nel;                     //!< elements in each patch of the chain
  Vec k, c3, m, cd, g;                      //!< per element
  std::vector<Vec> load;                    //!< element loads
  double endLoad = 0.0;                     //!< boundary load on the last node, all dofs
  int tfun = 0;
  std::vector<std::pair<int,int>> fix;      //!< 0-based node, dof
  struct Pre { int node, dof, tfun; double amp; };
  std::vector<Pre> pre;                     //!< prescribed motion
  struct Two { int slave, dof, master; };
  std::vector<Two> two;                     //!< equal motion of two nodes
  int nelm() const { int n = 0; for (int i : nel) n += i; return n; }
  int nnod() const { return nelm()+1; }
};

//! allow: 1 prescribed motion, 2 couplings, 4 softening springs
inline Spec randomSpec(Rng& rng, int allow)
{
  Spec s;
  s.nf = 1+rng.below(3);
  int np = 1+rng.below(3);
  for (int i = 0; i < np; i++) s.nel.push_back(1+rng.below(4));
  int ne = s.nelm();
  double stiff = pow(10.0,rng.uni(-1.0,3.0)), mass = pow(10.0,rng.uni(-1.0,1.0));
  double nl = rng.chance(0.2) ? 0.0 : pow(10.0,rng.uni(-1.5,1.5));
  double lscale = stiff*pow(10.0,rng.uni(-2.0,0.3));
  double damp = rng.chance(0.4) ? 0.0 : stiff*rng.uni(0.001,0.05);
  for (int e = 0; e < ne; e++) {
    s.k.push_back(stiff*rng.uni(0.5,2.0));
    s.c3.push_back((allow & 4) && rng.chance(0.3) ? -stiff*nl*rng.uni(0.1,0.5) : stiff*nl*rng.uni(0.2,1.0));
    s.m.push_back(mass*rng.uni(0.5,2.0));
    s.cd.push_back(damp*rng.uni(0.5,2.0));
    s.g.push_back(rng.chance(0.5) ? 0.0 : stiff*rng.uni(0.01,0.2));
    Vec f(2*s.nf,0.0);
    for (double& v : f) if (rng.chance(0.6)) v = lscale*rng.uni(-1.0,1.0);
    s.load.push_back(f);
  }
  s.endLoad = rng.chance(0.5) ? lscale*rng.uni(-1.0,1.0) : 0.0;
  s.tfun = rng.below(5);
  for (int d = 0; d < s.nf; d++) s.fix.push_back({0,d});
  int last = s.nnod()-1;
  bool used = false;
  if ((allow & 1) && last > 0 && rng.chance(0.5)) {
    for (int d = 0; d < s.nf; d++)
      if (d == 0 || rng.chance(0.3)) s.pre.push_back({last,d,(int)rng.below(5),rng.uni(-0.3,0.3)});
    used = true;
  }
  else if (last > 1 && rng.chance(0.3)) { s.fix.push_back({last,0}); used = true; }
  if ((allow & 2) && !used && last > 2 && rng.chance(0.4)) s.two.push_back({last,(int)rng.below(s.nf),1+(int)rng.below(last-1)});
  return s;
}

//! Spring force and tangent of one element with end displacements u.
inline void spring(const Spec& s, int e, const double* u, Vec& f, Dense& K)
{
  int nf = s.nf;
  f.assign(2*nf,0.0);
  K = Dense(2*nf,2*nf);
  Vec x(nf);
  double xx = 0.0, sum = 0.0;
  for (int d = 0; d < nf; d++) { x[d] = u[nf+d]-u[d]; xx += x[d]*x[d]; sum += x[d]; }
  for (int i = 0; i < nf; i++) {
    double N = s.k[e]*(x[i] + 0.1*sum) + s.c3[e]*xx*x[i];
    f[i] -= N;
    f[nf+i] += N;
    for (int j = 0; j < nf; j++) {
      double t = s.k[e]*((i == j) + 0.1) + s.c3[e]*((i == j)*xx + 2.0*x[i]*x[j]);
      K(i,j) += t; K(nf+i,nf+j) += t;
      K(i,nf+j) -= t; K(nf+i,j) -= t;
    }
  }
  for (int i = 0; i < 2*nf; i++) { f[i] += s.g[e]*u[i]; K(i,i) += s.g[e]; }
}

inline void massDamp(const Spec& s, int e, Dense& M, Dense& C)
{
  int nf = s.nf;
  M = Dense(2*nf,2*nf);
  C = Dense(2*nf,2*nf);
  for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++)
    for (int i = 0; i < nf; i++) for (int j = 0; j < nf; j++) {
      double w = (i == j) ? 1.0 : 0.05;
      M(a*nf+i,b*nf+j) = s.m[e]/6.0*(a == b ? 2.0 : 1.0)*w;
      C(a*nf+i,b*nf+j) = s.cd[e]*(a == b ? 1.0 : -1.0)*w;
    }
}

// ---------------------------------------------------------------- faults inside the model

//! Where the simulated model fails next: countdown of visits, 0 is never.
struct Fault {
  std::string where;
  int left = 0;
  bool fired = false;
  bool hit(const char* w)
  {
    if (left > 0 && where == w && --left == 0) {
      fired = true;
      if (cur) cur->fault(std::string("model-")+w);
      return true;
    }
    return false;
  }
  void clear() { left = 0; where.clear(); fired = false; }
};

// ---------------------------------------------------------------- the model on the real machinery

class Patch : public ASMbase {
public:
  Patch(const Spec& s, int first, int n) : ASMbase(1,1,s.nf), sp(s), e0(first), ne(n) {}
  int firstElm() const { return e0; }
  int elms() const { return ne; }
  void nodeSetFor(const std::string& name, int node) { nodeSets.emplace_back(name,std::vector<int>(1,this->getNodeID(node))); }
  int noSets() const { return nodeSets.size(); }
  void couple(int slave, int dir, int master) { this->add2PC(this->getNodeID(slave),dir,this->getNodeID(master)); }

  bool read(std::istream&) override { return true; }
  bool write(std::ostream& os, int) const override { os << "# mini\n"; return os.good(); }
  bool generateFEMTopology() override
  {
    if (!myMLGN.empty()) return true;
    nnod = ne+1;
    nel = ne;
    for (int i = 0; i <= ne; i++) myMLGN.push_back(++gNod);
    for (int i = 0; i < ne; i++) {
      myMLGE.push_back(++gEl);
      myMNPC.push_back({i,i+1});
    }
    return true;
  }
  bool empty() const override { return ne < 1; }
  Vec3 getCoord(size_t inod) const override { return Vec3(e0+(double)inod-1.0,0.0,0.0); }
  void getNodalCoordinates(Matrix& X, bool = false) const override
  {
    X.resize(3,nnod);
    for (size_t i = 1; i <= nnod; i++) X(1,i) = e0+i-1.0;
  }
  bool getElementCoordinates(Matrix& X, int iel, bool = false) const override
  {
    if (iel < 1 || iel > ne) return false;
    X.resize(3,2);
    X(1,1) = e0+iel-1.0;
    X(1,2) = e0+iel;
    return true;
  }
  void getBoundaryNodes(int lIndex, IntVec& nodes, int, int, int, bool local) const override
  {
    int n = lIndex == 1 ? 1 : ne+1;
    nodes.push_back(local ? n : this->getNodeID(n));
  }
  void findBoundaryElms(IntVec&, int, int) const override {}
  bool getParameterDomain(Real2DMat&, IntVec*) const override { return false; }
  void getElmConnectivities(IntMat&, int) const override {}
  bool updateCoords(const Vector&) override { return false; }
  Vec3 getElementCenter(int) const override { return Vec3(); }
  int evalPoint(const double*, double*, Vec3&) const override { return 0; }
  int findElementContaining(const double*) const override { return 0; }
  double findPoint(Vec3&, double*) const override { return -1.0; }
  bool tesselate(ElementBlock&, const int*) const override { return false; }

  //! The same sequence as the spline and Lagrange patches: init, integrate, finalize, assemble.
  bool integrate(Integrand& itg, GlobalIntegral& glb, const TimeDomain& time) override
  {
    for (int e = 0; e < ne; e++) {
      FiniteElement fe(2);
      fe.iel = MLGE[e];
      fe.idx = e0+e;
      LocalIntegral* A = itg.getLocalIntegral(2,fe.iel);
      bool ok = itg.initElement(MNPC[e],fe,Vec3(),1,*A);
      if (ok) ok = itg.evalInt(*A,fe,time,Vec3());
      if (ok) ok = itg.finalizeElement(*A,fe,time);
      if (ok) ok = glb.assemble(A->ref(),fe.iel);
      A->destruct();
      if (!ok) return false;
    }
    return true;
  }
  bool integrate(Integrand& itg, int lIndex, GlobalIntegral& glb, const TimeDomain& time) override
  {
    int e = lIndex == 1 ? 0 : ne-1;
    FiniteElement fe(2);
    fe.iel = MLGE[e];
    fe.idx = e0+e;
    fe.xi = lIndex == 1 ? -1.0 : 1.0;
    LocalIntegral* A = itg.getLocalIntegral(2,fe.iel,true);
    bool ok = itg.initElementBou(MNPC[e],*A);
    if (ok) ok = itg.evalBou(*A,fe,time,Vec3(),Vec3());
    if (ok) ok = glb.assemble(A->ref(),fe.iel);
    A->destruct();
    return ok;
  }

private:
  const Spec& sp;
  int e0, ne;
};

class Problem : public IntegrandBase {
public:
  Problem(const Spec& s, Scheme sc, Fault& f) : IntegrandBase(1), sp(s), scheme(sc), flt(f)
  {
    npv = s.nf;
    memset(prm,0,sizeof(prm));
    primsol.resize(sc == STATIC_ ? 1 : sc == HHT ? 5 : 3);
  }
  void setIntegrationPrm(unsigned short int i, double p) override { if (i < 6) prm[i] = p; }
  double getIntegrationPrm(unsigned short int i) const override { return i < 6 ? prm[i] : 0.0; }
  bool diverged(size_t = 0) const override { return isDiverged; }
  void initIntegration(const TimeDomain& t, const Vector&, bool = false) override { now = t.t; }
  size_t getNoFields(int = 2) const override { return sp.nf; }
  double loadScale() const { return overload; }

  using IntegrandBase::getLocalIntegral;
  LocalIntegral* getLocalIntegral(size_t nen, size_t iEl, bool neumann) const override
  {
    ElmMats* r = nullptr;
    bool dyn = scheme != STATIC_ && m_mode != SIM::MASS_ONLY && !neumann;
    if (!dyn)
      r = new ElmMats(!neumann);
    else if (scheme == HHT || scheme == NEWMARKNL)
      r = new HHTMats(prm[2],prm[0],prm[1],prm[4] != 1.0);
    else
      r = new NewmarkMats(prm[0],prm[1],prm[2],prm[3],prm[4] == 2.0);
    r->rhsOnly = m_mode >= SIM::RHS_ONLY;
    if (neumann) r->resize(0,1);
    else if (!dyn) r->resize(1,1);
    else if (scheme == HHT) r->resize(5,2);
    else if (scheme == NEWMARKNL) r->resize(5,3);
    else r->resize(4,1);
    r->redim(npv*nen);
    if (dyn && (scheme == HHT || scheme == NEWMARKNL)) r->A[3].clear();
    return r;
  }
  using IntegrandBase::initElement;
  bool initElement(const std::vector<int>& MNPC, const FiniteElement&, const Vec3&, size_t, LocalIntegral& elmInt) override
  {
    if (flt.hit("element-init")) return false;
    return this->initElement2(MNPC,elmInt.vec);
  }
  using IntegrandBase::initElementBou;
  bool initElementBou(const std::vector<int>&, LocalIntegral&) override { return !flt.hit("boundary-init"); }

  using IntegrandBase::evalInt;
  bool evalInt(LocalIntegral& elmInt, const FiniteElement& fe, const TimeDomain& time, const Vec3&) const override
  {
    if (flt.hit("element-eval")) return false;
    ElmMats& elm = static_cast<ElmMats&>(elmInt);
    int e = fe.idx, n = 2*sp.nf;
    elm.setStepSize(time.dt,time.it);
    Vec u(n,0.0), f;
    if (!elm.vec.empty() && (int)elm.vec.front().size() == n) u.assign(elm.vec.front().begin(),elm.vec.front().end());
    Dense K, M, C;
    spring(sp,e,u.data(),f,K);
    massDamp(sp,e,M,C);
    Vec ext(n,0.0);
    double lam = overload*timeFunc(sp.tfun,time.t);
    if (scheme != HHT) for (int i = 0; i < n; i++) ext[i] = lam*sp.load[e][i];
    if (flt.hit("nan-load")) ext[n-1] = NAN;
    if (flt.hit("inf-load")) ext[n-1] = INFINITY;
    if (m_mode == SIM::MASS_ONLY) {
      femodel::toMatrix(M,elm.A[0]);
      for (int i = 0; i < n; i++) elm.b[0][i] = ext[i];
    }
    else if (scheme == STATIC_) {
      femodel::toMatrix(K,elm.A[0]);
      for (int i = 0; i < n; i++) elm.b[0][i] = ext[i]-f[i];
    }
    else {
      femodel::toMatrix(M,elm.A[1]);
      femodel::toMatrix(K,elm.A[2]);
      femodel::toMatrix(C,elm.A.back());
      for (int i = 0; i < n; i++) elm.b[0][i] = -f[i];
      if (scheme == NEWMARKNL) for (int i = 0; i < n; i++) elm.b[2][i] = ext[i];
      else for (int i = 0; i < n; i++) elm.b[0][i] += ext[i];
    }
    return true;
  }
  using IntegrandBase::finalizeElement;
  bool finalizeElement(LocalIntegral&, const FiniteElement&, const TimeDomain&, size_t = 0) override { return !flt.hit("element-finalize"); }
  using IntegrandBase::evalBou;
  bool evalBou(LocalIntegral& elmInt, const FiniteElement& fe, const TimeDomain& time, const Vec3&, const Vec3&) const override
  {
    if (flt.hit("boundary-eval")) return false;
    ElmMats& elm = static_cast<ElmMats&>(elmInt);
    double lam = overload*timeFunc(sp.tfun,time.t)*sp.endLoad;
    for (int i = 0; i < sp.nf; i++) elm.b[0][(fe.xi > 0.0 ? sp.nf : 0)+i] = lam;
    return true;
  }

  bool isDiverged = false;
  double overload = 1.0;
  double prm[6];
  double now = 0.0;

protected:
  const Spec& sp;
  Scheme scheme;
  Fault& flt;
};

//! A prescribed motion.
class Motion : public RealFunc {
public:
  Motion(int k, double a) : kind(k), amp(a) {}
  bool isZero() const override { return false; }
  bool isConstant() const override { return false; }
protected:
  double evaluate(const Vec3& X) const override
  {
    const Vec4* X4 = dynamic_cast<const Vec4*>(&X);
    return amp*timeFunc(kind,X4 ? X4->t : 0.0);
  }
  int kind;
  double amp;
};

class Model : public SIMdummy<SIMgeneric> {
public:
  Model(const Spec& s, Scheme sc) : SIMdummy<SIMgeneric>(nullptr), sp(s), scheme(sc)
  {
    myProblem = prb = new Problem(sp,sc,flt);
    nsd = 1;
  }
  std::string getName() const override { return myName; }
  unsigned short int getNoParamDim() const override { return 1; }
  bool createFEMmodel(char resetNumb) override { return this->SIMgeneric::createFEMmodel(resetNumb); }

  bool build()
  {
    int e0 = 0;
    ASMbase::resetNumbering();
    for (size_t p = 0; p < sp.nel.size(); p++) {
      Patch* pch = new Patch(sp,e0,sp.nel[p]);
      pch->idx = p;
      pch->generateFEMTopology();
      myModel.push_back(pch);
      e0 += sp.nel[p];
    }
    nGlPatches = myModel.size();
    auto constrain = [this](int node, int dof, int code) {
      size_t p = 0;
      int n = node;
      while (p+1 < sp.nel.size() && n > sp.nel[p]) n -= sp.nel[p++];
      Patch* pch = static_cast<Patch*>(myModel[p]);
      pch->nodeSetFor("set"+std::to_string(node)+"_"+std::to_string(dof),n+1);
      myProps.push_back(Property(code ? Property::DIRICHLET_INHOM : Property::DIRICHLET,code ? code : dof+1,p+1,4,pch->noSets()));
    };
    for (auto& f : sp.fix) constrain(f.first,f.second,0);
    int k = 0;
    for (auto& q : sp.pre) {
      int code = 1000000*(++k)+q.dof+1;
      myScalars[code] = new Motion(q.tfun,q.amp);
      constrain(q.node,q.dof,code);
    }
    if (sp.endLoad != 0.0 && scheme != HHT && scheme != NEWMARKNL)
      myProps.push_back(Property(Property::NEUMANN,1,myModel.size(),0,2));
    return this->preprocess({},true);
  }

  Fault flt;
  Problem* prb;
  std::string myName = "mini";
  std::function<void()> onAssembly;                                                  //!< scheduling point
  std::function<void(const TimeDomain&, const Vectors&, bool)> beforeAssembly;
  std::function<void(const Vector&, const Vector&)> onNorms;

  bool assembleSystem(const TimeDomain& time, const Vectors& prevSol, bool newLHS, bool poor) override
  {
    if (onAssembly) onAssembly();
    if (flt.hit("assembly")) return false;
    if (flt.hit("assembly-diverged")) { prb->isDiverged = true; return false; }
    prb->isDiverged = false;
    if (beforeAssembly) beforeAssembly(time,prevSol,newLHS);
    return this->SIMgeneric::assembleSystem(time,prevSol,newLHS,poor);
  }
  bool updateConfiguration(const Vector&) override { return !flt.hit("configuration"); }
  bool updateDirichlet(double time = 0.0, const Vector* prevSol = nullptr, bool tangent = false) override
  {
    if (flt.hit("dirichlet")) return false;
    return this->SIMgeneric::updateDirichlet(time,prevSol,tangent);
  }
  void iterationNorms(const Vector& u, const Vector& r, double& e, double& rn, double& dn) const override
  {
    if (onNorms) onNorms(u,r);
    this->SIMgeneric::iterationNorms(u,r,e,rn,dn);
  }
  const int* madof() const { return mySam->getMADOF(); }
  const Spec& spec() const { return sp; }

  //! Global dof (0-based) in the solution vectors of a node of the chain
  std::vector<int> dofMap() const
  {
    std::vector<int> d(sp.nnod()*sp.nf,-1);
    int n0 = 0;
    for (const ASMbase* pch : myModel) {
      for (size_t i = 1; i <= pch->getNoNodes(); i++)
        for (int j = 0; j < sp.nf; j++)
          d[(n0+i-1)*sp.nf+j] = mySam->getMADOF()[pch->getNodeID(i)-1]-1+j;
      n0 += pch->getNoNodes()-1;
    }
    return d;
  }

protected:
  bool preprocessB() override { return true; }
  //! Couplings are added as soon as the nodes have their final numbers.
  bool preprocessBeforeAsmInit(int&) override
  {
    for (auto& t : sp.two) {
      int master = 0;
      size_t p = 0;
      int n = t.slave, m = t.master;
      while (p+1 < sp.nel.size() && n > sp.nel[p]) n -= sp.nel[p++];
      size_t q = 0;
      while (q+1 < sp.nel.size() && m > sp.nel[q]) m -= sp.nel[q++];
      master = myModel[q]->getNodeID(m+1);
      if (!myModel[p]->add2PC(myModel[p]->getNodeID(n+1),t.dof+1,master)) return false;
    }
    return true;
  }
  bool initNeumann(size_t) override { return !flt.hit("neumann"); }
  bool initBodyLoad(size_t) override { return !flt.hit("bodyload"); }
  bool assembleDiscreteTerms(const IntegrandBase*, const TimeDomain& time) override
  {
    if (flt.hit("discrete")) return false;
    if (scheme != HHT) return true;
    SystemVector* R = myEqSys->getVector(2);
    if (!R) return true; // the initial acceleration
    double lam = prb->overload*timeFunc(sp.tfun,time.t);
    int e = 0;
    for (const ASMbase* pch : myModel)
      for (size_t k = 1; k <= pch->getNoElms(); k++, e++)
        for (int a = 0; a < 2; a++) {
          Vec f(sp.nf);
          for (int j = 0; j < sp.nf; j++) f[j] = lam*sp.load[e][a*sp.nf+j];
          if (!mySam->assembleSystem(*R,f.data(),pch->getNodeID(k+a))) return false;
        }
    return true;
  }

private:
  const Spec sp;
  Scheme scheme;
};

// ---------------------------------------------------------------- the reference

struct Reference {
  const Spec& sp;
  femodel::Model mod; //!< chain topology with fixed and coupled dofs

  explicit Reference(const Spec& s) : sp(s)
  {
    for (int i = 0; i <= s.nnod(); i++) mod.ofs.push_back(i*s.nf);
    for (int e = 0; e < s.nelm(); e++) mod.elm.push_back({e,e+1});
    mod.stat.assign(mod.ndof(),1);
    for (auto& f : s.fix) mod.stat[f.first*s.nf+f.second] = 0;
    for (auto& q : s.pre) mod.stat[q.node*s.nf+q.dof] = 0; // the increments are known
    for (auto& t : s.two) {
      femodel::Constraint c;
      c.slave = t.slave*s.nf+t.dof;
      c.c0 = 0.0;
      c.master.push_back({t.master*s.nf+t.dof,1.0});
      mod.stat[c.slave] = 2;
      mod.ceq.push_back(c);
    }
    mod.number();
  }
  int ndof() const { return mod.ndof(); }
  //! Sum element vectors to dof space
  void scatter(int e, const Vec& f, Vec& F) const { for (int i = 0; i < 2*sp.nf; i++) F[e*sp.nf+i] += f[i]; }
  Vec internal(const Vec& u) const
  {
    Vec F(ndof(),0.0), f;
    Dense K;
    for (int e = 0; e < sp.nelm(); e++) { spring(sp,e,&u[e*sp.nf],f,K); scatter(e,f,F); }
    return F;
  }
  Vec external(double t, double overload, bool withEnd) const
  {
    Vec F(ndof(),0.0);
    double lam = overload*timeFunc(sp.tfun,t);
    for (int e = 0; e < sp.nelm(); e++) { Vec f = sp.load[e]; for (double& v : f) v *= lam; scatter(e,f,F); }
    if (withEnd) for (int j = 0; j < sp.nf; j++) F[(sp.nnod()-1)*sp.nf+j] += lam*sp.endLoad;
    return F;
  }
  void matrices(const Vec& u, Dense& K, Dense& M, Dense& C) const
  {
    K = M = C = Dense(ndof(),ndof());
    Vec f;
    Dense k, m, c;
    for (int e = 0; e < sp.nelm(); e++) {
      spring(sp,e,&u[e*sp.nf],f,k);
      massDamp(sp,e,m,c);
      for (int i = 0; i < 2*sp.nf; i++) for (int j = 0; j < 2*sp.nf; j++) {
        K(e*sp.nf+i,e*sp.nf+j) += k(i,j);
        M(e*sp.nf+i,e*sp.nf+j) += m(i,j);
        C(e*sp.nf+i,e*sp.nf+j) += c(i,j);
      }
    }
  }
  //! Dof-space forces to equation space and back, as the solution drivers see residuals
  Vec reduce(const Vec& F) const
  {
    Vec b(mod.neq,0.0);
    std::vector<std::pair<int,double>> w;
    double c;
    for (int i = 0; i < ndof(); i++) { mod.map(i,w,c); for (auto& x : w) b[x.first] += x.second*F[i]; }
    return b;
  }
  //! Equation space from a vector that was expanded before
  Vec pick(const Vec& F) const
  {
    Vec b(mod.neq,0.0);
    for (int i = 0; i < ndof(); i++) if (mod.stat[i] == 1) b[mod.eq[i]] = F[i];
    return b;
  }
  Vec expand(const Vec& b) const
  {
    Vec F(ndof(),0.0);
    std::vector<std::pair<int,double>> w;
    double c;
    for (int i = 0; i < ndof(); i++) { mod.map(i,w,c); for (auto& x : w) F[i] += x.second*b[x.first]; }
    return F;
  }
};

inline Vec mul(const Dense& A, const Vec& x)
{
  Vec y(A.n,0.0);
  for (size_t i = 0; i < A.n; i++) for (size_t j = 0; j < A.m; j++) y[i] += A(i,j)*x[j];
  return y;
}
inline double norm2(const Vec& x) { double s = 0.0; for (double v : x) s += v*v; return sqrt(s); }
inline double dot(const Vec& x, const Vec& y) { double s = 0.0; for (size_t i = 0; i < x.size(); i++) s += x[i]*y[i]; return s; }
inline void axpy(Vec& y, double a, const Vec& x) { for (size_t i = 0; i < y.size(); i++) y[i] += a*x[i]; }
}
#endif
