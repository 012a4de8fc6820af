// Numerically differentiated action models (discrete and differential): difference quotients of the
// wrapped model, exact up to half the step times the curvature.
// BOUNDS: every state, control, disturbance and quadratic dynamics, constraints and cost; flat and rescaled state space; 1 to 2 states, 1 to 2 controls, 2 residuals, up to 1 inequality and 1 equality; data fresh or used before at a running or terminal node
// OUTSIDE: floating-point cancellation in the quotients (real arithmetic); functions other than quadratics; Hessians are computed in builds with NDEBUG only, which is the build checked
#include "harness/numdiff.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"

struct Par {
  Fun f, g, h, r;
  Mat Q, R, N, DQ;
  Vec q, s;
  double c;
  Par(long n, long nu, long nr, long ng, long nh, long curved)
      : f("f", n, n, nu, curved), g("g", ng, n, nu, false), h("h", nh, n, nu, false), r("r", nr, n, nu, false), Q(in_sym("Q", n)), R(in_sym("R", nu)), N(in_mat("N", n, nu)), q(in_vec("q", n)), s(in_vec("s", nu)), c(in("c")) {}
  double cost(const Vec &x, const Vec &u) const { return cost(x) + u.dot(R * u) / 2 + x.dot(N * u) + s.dot(u); }
  double cost(const Vec &x) const { return x.dot(Q * x) / 2 + q.dot(x) + c; }
};
template <class Base, class Data> struct Stub : Base {
  Par p;
  Stub(std::shared_ptr<St> s, long nu, long nr, long ng, long nh, const Par &p) : Base(s, nu, nr, ng, nh, ng, nh), p(p) {}
  void set(Data &d, const Vec &v);
  void calc(const std::shared_ptr<Data> &d, const VR &x_, const VR &u_) override {
    Vec x = x_, u = u_;
    set(*d, p.f(x, u)); d->cost = p.cost(x, u); d->g = p.g(x, u); d->h = p.h(x, u); d->r = p.r(x, u);
  }
  void calc(const std::shared_ptr<Data> &d, const VR &x_) override {
    Vec x = x_;
    set(*d, x); d->cost = p.cost(x); d->g = p.g(x); d->h = p.h(x); d->r = p.r(x);
  }
  void calcDiff(const std::shared_ptr<Data> &, const VR &, const VR &) override {}
  void calcDiff(const std::shared_ptr<Data> &, const VR &) override {}
  void quasiStatic(const std::shared_ptr<Data> &, Eigen::Ref<Vec> u, const VR &x, const std::size_t, const double) override { for (long i = 0; i < u.size(); ++i) u(i) += p.c + (i + 2) * x(0); }
};
typedef ActionModelAbstractTpl<double> AM;
typedef ActionDataAbstractTpl<double> AD;
typedef DifferentialActionModelAbstractTpl<double> DM;
typedef DifferentialActionDataAbstractTpl<double> DD;
template <> void Stub<AM, AD>::set(AD &d, const Vec &v) { d.xnext = v; }
template <> void Stub<DM, DD>::set(DD &d, const Vec &v) { d.xout = v.head(d.xout.size()); }
static Vec out(const AD &d) { return d.xnext; }
static Vec out(const DD &d) { return d.xout; }

template <class Num, class Base, class Data> void derivatives(const Case &c) {
  const bool disc = std::is_same<Base, AM>::value;
  const long n = c("n"), nu = c("nu"), ng = c("ng"), nh = c("nh"), nr = 2, gauss = c("gauss");
  Vec D;
  auto s = space(c("scaled"), n, D);
  Par p(n, nu, nr, ng, nh, c("curved"));
  auto m = std::make_shared<Stub<Base, Data>>(s, nu, nr, ng, nh, p);
  Num nd(m, gauss);
  Base &b = nd;
  const double e = in("e");
  assume(gt(e, 0));
  nd.set_disturbance(e);
  check_eq("disturbance kept", nd.get_disturbance(), e);
  auto d = b.createData();
  const long nv = out(*d).size();
  const Mat Di = D.cwiseInverse().asDiagonal();
  for (long t = 0; t <= c("hist"); ++t) {
    const std::string k = std::to_string(t);
    Vec x = in_vec("x" + k, n), u = in_vec("u" + k, nu);
    const bool last = t == c("hist"), term = last ? c("term") : flag("term" + k);
    if (!term) { b.calc(d, x, u); b.calcDiff(d, x, u); } else { b.calc(d, x); b.calcDiff(d, x); }
    if (!last) continue;
    const double hx = step(e, D.cwiseProduct(x)), hu = step(e, u);
    check_eq("cost", d->cost, term ? p.cost(x) : p.cost(x, u));
    check_eqm("dynamics", out(*d), Vec((term ? x : p.f(x, u)).head(nv)));
    check_eqm("inequality value", Vec(d->g), term ? p.g(x) : p.g(x, u));
    check_eqm("equality value", Vec(d->h), term ? p.h(x) : p.h(x, u));
    check_eqm("inequality Jacobian (state)", Mat(d->Gx), Mat(p.g.A * Di));
    check_eqm("equality Jacobian (state)", Mat(d->Hx), Mat(p.h.A * Di));
    const Vec Lx = p.Q * x + p.q + (term ? Vec(Vec::Zero(n)) : Vec(p.N * u));
    for (long i = 0; i < n; ++i) near("cost gradient (state)", d->Lx(i), Lx(i) / D(i), hx, p.Q(i, i) / (D(i) * D(i)));
    const Mat Rx = p.r.A * Di, Ru = p.r.B;
    check_eqm("cost Hessian (state)", Mat(d->Lxx), gauss ? Mat(Rx.transpose() * Rx) : Mat(Di * p.Q * Di));
    if (term) return;
    const Mat Fx = p.f.dx(x), Fu = p.f.du(u);
    for (long i = 0; i < nv; ++i) {
      const double o = disc ? D(i) : double(1);
      for (long j = 0; j < n; ++j) near("dynamics Jacobian (state)", d->Fx(i, j), o * Fx(i, j) / D(j), hx, o * p.f.cx(i) / (D(j) * D(j)));
      for (long j = 0; j < nu; ++j) near("dynamics Jacobian (control)", d->Fu(i, j), o * Fu(i, j), hu, o * p.f.cu(i));
    }
    check_eqm("inequality Jacobian (control)", Mat(d->Gu), p.g.B);
    check_eqm("equality Jacobian (control)", Mat(d->Hu), p.h.B);
    const Vec Lu = p.R * u + p.s + p.N.transpose() * x;
    for (long i = 0; i < nu; ++i) near("cost gradient (control)", d->Lu(i), Lu(i), hu, p.R(i, i));
    check_eqm("cost Hessian (mixed)", Mat(d->Lxu), gauss ? Mat(Rx.transpose() * Ru) : Mat(Di * p.N));
    check_eqm("cost Hessian (control)", Mat(d->Luu), gauss ? Mat(Ru.transpose() * Ru) : p.R);
  }
}
template <class Num, class Base, class Data> void wraps(const Case &) {
  const long n = 2, nu = 2, ng = 2, nh = 1;
  auto s = std::make_shared<Flat>(n);
  Par p(n, nu, 2, ng, nh, false);
  auto m = std::make_shared<Stub<Base, Data>>(s, nu, 2, ng, nh, p);
  Vec lb = in_vec("lb", nu), ub = in_vec("ub", nu), glb = in_vec("glb", ng), gub = in_vec("gub", ng);
  m->set_u_lb(lb); m->set_u_ub(ub); m->set_g_lb(glb); m->set_g_ub(gub);
  Num nd(m);
  Base &b = nd;
  check_true("dimensions", b.get_nu() == 2 && b.get_nr() == 2 && b.get_ng() == 2 && b.get_nh() == 1 && b.get_ng_T() == 2 && b.get_nh_T() == 1 && b.get_state() == s && nd.get_model() == m);
  check_eqm("lower control limit kept", Vec(b.get_u_lb()), lb);
  check_eqm("upper control limit kept", Vec(b.get_u_ub()), ub);
  check_true("presence of control limits kept", b.get_has_control_limits());
  check_eqm("lower constraint bound kept", Vec(b.get_g_lb()), glb);
  check_eqm("upper constraint bound kept", Vec(b.get_g_ub()), gub);
  const double e = in("e"), e0 = nd.get_disturbance();
  check("default disturbance is positive", gt(e0, 0));
  const bool thrown = throws([&]() { nd.set_disturbance(e); });
  check("exactly negative disturbances are rejected", thrown ? lt(e, 0) : ge(e, 0));
  check_eq("rejected disturbance changes nothing", nd.get_disturbance(), thrown ? e0 : e);
  auto d = b.createData();
  Vec x = in_vec("x", n), u = in_vec("u", nu), xb = Vec::Zero(n + 1), ub1 = Vec::Zero(nu + 1);
  check_true("wrong state dimension rejected", throws([&]() { b.calc(d, xb, u); }) && throws([&]() { b.calc(d, xb); }) && throws([&]() { b.calcDiff(d, xb, u); }) && throws([&]() { b.calcDiff(d, xb); }));
  check_true("wrong control dimension rejected", throws([&]() { b.calc(d, x, ub1); }) && throws([&]() { b.calcDiff(d, x, ub1); }));
  Vec q = u, w = u;
  b.quasiStatic(d, q, x);
  for (long i = 0; i < nu; ++i) w(i) += p.c + (i + 2) * x(0);
  check_eqm("quasi-static controls are those of the model", q, w);
}
#define ADD(name, Num, Base, Data) \
  for (long term = 0; term < 2; ++term) for (long scaled = 0; scaled < 2; ++scaled) for (long gauss = 0; gauss < 2; ++gauss) for (long hist = 0; hist < 2; ++hist) \
    add_case(name, derivatives<Num, Base, Data>, {{"term", term}, {"n", 2}, {"nu", scaled ? 2 : 1}, {"ng", 1}, {"nh", scaled}, {"gauss", gauss}, {"scaled", scaled}, {"curved", 1}, {"hist", hist}}); \
  add_case(name "-wraps", wraps<Num, Base, Data>, {});
REGISTER(
  ADD("discrete", ActionModelNumDiffTpl<double>, AM, AD)
  ADD("differential", DifferentialActionModelNumDiffTpl<double>, DM, DD)
)
