// Unicycle action model: exact discrete dynamics, cost and derivatives, whatever was evaluated before.
// BOUNDS: every state, control, time step and pair of weights; sequences of 3 evaluations (4 thorough), each running or terminal, over two data objects, with weights and step changed in between
// OUTSIDE: floating-point rounding; sine and cosine are uninterpreted up to their derivatives
#include "sym/harness.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
using namespace vf;
using namespace crocoddyl;
typedef ActionModelUnicycleTpl<double> Uni;
typedef ActionModelAbstractTpl<double> Base;
typedef ActionDataAbstractTpl<double> Data;

struct Par { double wx, wu, dt; };
static void running(Base &m, const std::shared_ptr<Data> &d, const Par &p, const std::string &k) {
  Vec x = in_vec("x" + k, 3), u = in_vec("u" + k, 2);
  m.calc(d, x, u);
  Vec r(5), xn(3);
  r << p.wx * x, p.wu * u;
  xn << x(0) + cos(x(2)) * u(0) * p.dt, x(1) + sin(x(2)) * u(0) * p.dt, x(2) + u(1) * p.dt;
  check_eqm("next state", Vec(d->xnext), xn);
  check_eqm("residual", Vec(d->r), r);
  check_eq("cost", d->cost, (r(0) * r(0) + r(1) * r(1) + r(2) * r(2) + r(3) * r(3) + r(4) * r(4)) / 2);
  m.calcDiff(d, x, u);
  check_jac("Fx is the derivative of the next state", "xnext" + k, d->xnext, "x" + k, d->Fx);
  check_jac("Fu is the derivative of the next state", "xnext" + k, d->xnext, "u" + k, d->Fu);
  check_jac1("Lx is the derivative of the cost", "cost" + k, d->cost, "x" + k, d->Lx);
  check_jac1("Lu is the derivative of the cost", "cost" + k, d->cost, "u" + k, d->Lu);
  check_jac("Lxx is the derivative of Lx", "Lx" + k, d->Lx, "x" + k, d->Lxx);
  check_jac("Lxu is the derivative of Lx", "Lx" + k, d->Lx, "u" + k, d->Lxu);
  check_jac("Luu is the derivative of Lu", "Lu" + k, d->Lu, "u" + k, d->Luu);
}
static void terminal(Base &m, const std::shared_ptr<Data> &d, const Par &p, const std::string &k) {
  Vec x = in_vec("x" + k, 3), r = Vec::Zero(5);
  m.calc(d, x);
  r.head(3) = p.wx * x;
  check_eqm("terminal state stays", Vec(d->xnext), x);
  check_eqm("terminal residual", Vec(d->r), r);
  check_eq("terminal cost", d->cost, (r(0) * r(0) + r(1) * r(1) + r(2) * r(2)) / 2);
  m.calcDiff(d, x);
  check_jac1("terminal Lx is the derivative of the cost", "cost" + k, d->cost, "x" + k, d->Lx);
  check_jac("terminal Lxx is the derivative of Lx", "Lx" + k, d->Lx, "x" + k, d->Lxx);
}
static Par change(Uni &m, const std::string &k) {
  Par p{in("wx" + k), in("wu" + k), in("dt" + k)};
  assume(gt(p.dt, 0));
  Eigen::Matrix<double, 2, 1> w;
  w << p.wx, p.wu;
  m.set_cost_weights(w);
  m.set_dt(p.dt);
  check_eq("time step kept", m.get_dt(), p.dt);
  check_eqm("weights kept", Vec(m.get_cost_weights()), Vec(w));
  return p;
}
static void histories(const Case &c) {
  Uni m;
  Par p{10, 1, 0.1};
  std::shared_ptr<Data> d[2] = {m.createData(), m.createData()};
  check_true("the model accepts its own data", m.checkData(d[0]));
  check_true("dimensions", m.get_nu() == 2 && m.get_state()->get_nx() == 3 && m.get_nr() == 5);
  for (long t = 0; t < c("len"); ++t) {
    const std::string k = std::to_string(t);
    if (t == c("change")) p = change(m, k);
    auto &dd = d[choose("data" + k, 2)];
    if (flag("terminal" + k)) terminal(m, dd, p, k);
    else running(m, dd, p, k);
  }
}
static void rejects(const Case &) {
  Uni m;
  const double dt = in("dt");
  const bool thrown = throws([&]() { m.set_dt(dt); });
  check("exactly non-positive steps are rejected", thrown ? le(dt, 0) : gt(dt, 0));
  check_eq("a rejected step changes nothing", m.get_dt(), thrown ? 0.1 : dt);
  auto d = m.createData();
  Base &b = m;
  Vec x = Vec::Zero(3), u = Vec::Zero(2), xb = Vec::Zero(4), ub = Vec::Zero(3);
  check_true("wrong state dimension rejected", throws([&]() { b.calc(d, xb, u); }) && throws([&]() { b.calc(d, xb); }) && throws([&]() { b.calcDiff(d, xb, u); }) && throws([&]() { b.calcDiff(d, xb); }));
  check_true("wrong control dimension rejected", throws([&]() { b.calc(d, x, ub); }) && throws([&]() { b.calcDiff(d, x, ub); }));
}
REGISTER(
  add_case("histories", histories, {{"len", 3}, {"change", -1}});
  add_case("histories", histories, {{"len", 3}, {"change", 0}});
  add_case("histories", histories, {{"len", 3}, {"change", 1}});
  add_case("histories", histories, {{"len", 4}, {"change", 2}}, 1);
  add_case("rejects", rejects, {});)
