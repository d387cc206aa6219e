// The time-stepping solution drivers on the small nonlinear model, configured through their XML input.
#ifndef VERIF_MINISOLVE_H
#define VERIF_MINISOLVE_H
#include "minisim.h"
#include "NonLinSIM.h"
#include "NewmarkSIM.h"
#include "NewmarkNLSIM.h"
#include "HHTSIM.h"
#include "GenAlphaSIM.h"
#include "TimeStep.h"
#include "SIMenums.h"

namespace mini {
enum Norm { N_ENERGY, N_RES, N_DIS, N_NONE };

struct Conf {
  int scheme = STATIC_;
  int norm = N_ENERGY;
  bool refAll = false, solveDisp = false, trueInertia = false, initAcc = false;
  int maxit = 20, maxIncr = 2, nupdat = 20;
  double rtol = 1e-6, atol = 0.0, dtol = 10.0, eta = 0.0;
  char predictor = 'd';
  double alpha1 = 0.0, alpha2 = 0.0, beta = 0.25, gamma = 0.5, alpha = -0.1;
  bool rho = false;      //!< HHT, GenAlpha: through rho_inf
  double rhoInf = 0.8;
  int solver = 0;        //!< 0 sparse, 1 dense, 2 umfpack

  // The parameters as documented
  double hAlpha() const { return rho ? (1.0-(2.0-rhoInf))/(1.0+rhoInf) : alpha; }
  double alphaM() const { return scheme != GENALPHA ? 1.0 : rho ? (2.0-rhoInf)/(1.0+rhoInf) : 1.0; }
  double alphaF() const { return scheme != GENALPHA ? 1.0 : rho ? 1.0/(1.0+rhoInf) : 1.0+alpha; }
  double b() const { return scheme == NEWMARK ? beta : 0.25*(1.0-hAlpha())*(1.0-hAlpha()); }
  double g() const { return scheme == NEWMARK ? gamma : 0.5-hAlpha(); }
  bool disp() const { return scheme == HHT || scheme == NEWMARKNL || solveDisp; }

  std::string xml() const
  {
    std::string s;
    auto num = [](double v) { return sim::fmt("%.17g",v); };
    s = scheme == STATIC_ ? "<nonlinearsolver" : "<newmarksolver";
    if (scheme != STATIC_) {
      s += " alpha1=\""+num(alpha1)+"\" alpha2=\""+num(alpha2)+"\"";
      if (scheme == NEWMARK) s += " beta=\""+num(beta)+"\" gamma=\""+num(gamma)+"\"";
      else if (rho) s += " rho_inf=\""+num(rhoInf)+"\"";
      else s += " alpha=\""+num(alpha)+"\"";
    }
    s += ">";
    auto tag = [&s](const char* t, const std::string& v) { s += std::string("<")+t+">"+v+"</"+t+">"; };
    tag("maxits",std::to_string(maxit));
    tag("maxIncr",std::to_string(maxIncr));
    tag("nupdate",std::to_string(nupdat));
    tag("rtol",num(rtol));
    tag("atol",num(atol));
    tag("dtol",num(dtol));
    if (scheme == STATIC_) tag("eta",num(eta));
    tag("referencenorm",refAll ? "all" : "max");
    if (scheme == STATIC_ || norm != N_NONE) tag("convnorm",norm == N_ENERGY ? "energy" : norm == N_RES ? "residual" : norm == N_DIS ? "displacement" : "none");
    if (scheme != STATIC_) {
      if (scheme != HHT && scheme != NEWMARKNL)
        tag("predictor",predictor == 'd' ? "constant displacement" : predictor == 'v' ? "constant velocity" : "zero acceleration");
      if (solveDisp) s += "<solve_displacement/>";
      if (trueInertia) s += "<trueinertia/>";
    }
    s += scheme == STATIC_ ? "</nonlinearsolver>" : "</newmarksolver>";
    return s;
  }
};

inline Conf randomConf(Rng& rng, int scheme, bool linear)
{
  Conf c;
  c.scheme = scheme;
  c.norm = rng.below(3);
  c.refAll = rng.chance(0.4);
  c.maxit = rng.chance(0.3) ? 1+(int)rng.below(4) : 8+(int)rng.below(20);
  c.maxIncr = 1+rng.below(4);
  c.nupdat = rng.chance(0.5) ? 100 : 1+(int)rng.below(4);
  c.rtol = pow(10.0,rng.uni(-9.0,-2.0));
  c.atol = rng.chance(0.6) ? 0.0 : pow(10.0,rng.uni(-9.0,1.0));
  c.dtol = rng.chance(0.5) ? 10.0 : pow(10.0,rng.uni(0.0,4.0));
  if (scheme == STATIC_ && rng.chance(0.3)) c.eta = rng.uni(0.05,0.8);
  static const char pr[] = { 'd', 'v', 'a' };
  c.predictor = pr[rng.below(3)];
  c.solveDisp = rng.chance(0.5);
  c.trueInertia = scheme == NEWMARKNL && rng.chance(0.5);
  c.initAcc = rng.chance(0.4);
  if (rng.chance(0.4)) c.alpha1 = rng.uni(0.0,0.5);
  if (rng.chance(0.4)) c.alpha2 = rng.uni(0.0,0.02);
  if (rng.chance(0.5)) { c.gamma = rng.uni(0.5,0.8); c.beta = 0.25*(0.5+c.gamma)*(0.5+c.gamma); }
  c.alpha = -rng.uni(0.0,0.33);
  c.rho = rng.chance(0.4);
  c.rhoInf = rng.uni(0.4,1.0);
  c.solver = rng.below(3);
  if (linear && rng.chance(0.2)) c.norm = scheme == STATIC_ ? N_NONE : N_RES;
  return c;
}

//! Gives access to the solution driver internals
struct Driver {
  virtual ~Driver() {}
  virtual MultiStepSIM& s() = 0;
  virtual SIM::ConvStatus iterate(TimeStep& tp) = 0;
};
template<class S> struct DriverOf : public Driver, public S {
  explicit DriverOf(SIMbase& m) : S(m) { SIMadmin::msgLevel = getenv("SIM_SHOW") ? 1 : -2; }
  MultiStepSIM& s() override { return *this; }
  SIM::ConvStatus iterate(TimeStep& tp) override { return this->solveIteration(tp); }
};

struct World {
  std::unique_ptr<Model> sim;
  std::unique_ptr<Driver> drv;
  TimeStep tp;
  Conf conf;
  int nstate = 1; //!< solution vectors of one state
  std::vector<int> map;

  MultiStepSIM& s() { return drv->s(); }
  const Vectors& sol() { return drv->s().getSolutions(); }
  Vectors& theSol() { return drv->s().theSolutions(); }

  bool create(const Spec& sp, const Conf& c, const std::string& name = "mini")
  {
    conf = c;
    sim.reset(new Model(sp,(Scheme)c.scheme));
    sim->myName = name;
    switch (c.scheme) {
    case STATIC_:   drv.reset(new DriverOf<NonLinSIM>(*sim)); break;
    case NEWMARK:   drv.reset(new DriverOf<NewmarkSIM>(*sim)); break;
    case NEWMARKNL: drv.reset(new DriverOf<NewmarkNLSIM>(*sim)); break;
    case HHT:       drv.reset(new DriverOf<HHTSIM>(*sim)); break;
    default:        drv.reset(new DriverOf<GenAlphaSIM>(*sim)); break;
    }
    nstate = c.scheme == STATIC_ ? 1 : 3;
    tinyxml2::XMLDocument doc;
    std::string x = c.xml();
    if (doc.Parse(x.c_str()) != tinyxml2::XML_SUCCESS) return false;
    this->s().parse(doc.RootElement());
    sim->opt.solver = this->s().opt.solver = c.solver == 0 ? LinAlg::SPARSE : c.solver == 1 ? LinAlg::DENSE : LinAlg::UMFPACK;
    if (!sim->build()) return false;
    this->s().initPrm();
    this->s().initSol(c.scheme == STATIC_ ? 2 : c.scheme == HHT ? 8 : 6);
    if (!this->s().initEqSystem(false)) return false;
    map = sim->dofMap();
    tp.stopTime = 1.0e30;
    tp.starTime = tp.time.t = 0.0;
    return true;
  }
  //! A solution driver vector in the dof ordering of the reference
  Vec get(const Vector& v) const
  {
    Vec x(map.size());
    for (size_t i = 0; i < map.size(); i++) x[i] = v[map[i]];
    return x;
  }
};

//! Newton matrix of the time discretization, all dofs
inline Dense newton(const Conf& c, const Reference& ref, const Vec& d, double h)
{
  Dense K, M, C;
  ref.matrices(d,K,M,C);
  if (c.scheme == STATIC_) return K;
  double b = c.b(), g = c.g(), wm, wk, wc;
  if (c.scheme == HHT || c.scheme == NEWMARKNL) {
    double a = 1.0+c.hAlpha();
    wm = 1.0/(b*h*h) + a*c.alpha1*g/(b*h);
    wk = a*(1.0+c.alpha2*g/(b*h));
    wc = a*g/(b*h);
  }
  else {
    double am = c.alphaM(), af = c.alphaF(), q = c.solveDisp ? 1.0/(b*h*h) : 1.0;
    wm = q*(am+af*c.alpha1*g*h);
    wk = q*af*(c.alpha2*g+b*h)*h;
    wc = q*af*g*h;
  }
  for (size_t i = 0; i < K.a.size(); i++) K.a[i] = wm*M.a[i] + wk*K.a[i] + wc*C.a[i];
  return K;
}

//! Inertia force from equilibrium
inline Vec inertia(const Conf& c, const Reference& ref, const Vec& F, const Vec& d, const Vec& v)
{
  Dense K, M, C;
  ref.matrices(d,K,M,C);
  Vec r = F;
  axpy(r,-1.0,ref.internal(d));
  axpy(r,-1.0,mul(C,v));
  axpy(r,-c.alpha1,mul(M,v));
  axpy(r,-c.alpha2,mul(K,v));
  return r;
}

//! Residual of the discrete equations in all dofs; scale is the size of its terms
inline Vec residual(const Conf& c, const Reference& ref, const Vec& F, const Vec& d, const Vec& v, const Vec& a, const Vec& In, double& scale)
{
  Dense K, M, C;
  ref.matrices(d,K,M,C);
  Vec fi = ref.internal(d), r = F;
  scale = norm2(F)+norm2(fi);
  if (c.scheme == STATIC_) { axpy(r,-1.0,fi); return r; }
  Vec Ma = mul(M,a), Cv = mul(C,v), Mv = mul(M,v), Kv = mul(K,v);
  scale += norm2(Ma)+norm2(Cv)+c.alpha1*norm2(Mv)+c.alpha2*norm2(Kv);
  axpy(r,-1.0,fi);
  axpy(r,-1.0,Cv);
  axpy(r,-c.alpha1,Mv);
  axpy(r,-c.alpha2,Kv);
  if (c.scheme == HHT || c.scheme == NEWMARKNL) {
    for (double& x : r) x *= 1.0+c.hAlpha();
    if (!In.empty()) { axpy(r,-c.hAlpha(),In); scale += norm2(In); }
  }
  axpy(r,-1.0,Ma);
  return r;
}
}
#endif
