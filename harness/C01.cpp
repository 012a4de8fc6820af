// Stacks of contacts and impulses under every history of add / remove / activate / deactivate.
// BOUNDS: every sequence of 2 operations and one status change over 2 names (quick), 3 operations (thorough), from an empty or two-item stack, both stacking modes of contacts, data created before or after the last status change; items of dimension 1..3, equal or different parent joints; every value of the individual Jacobians, drifts, forces and derivatives; 2 velocities, 1 control
// OUTSIDE: data objects created for a different set of items of the same size; the concrete contact and impulse models and Pinocchio (the individual items return arbitrary values); floating-point rounding
#include "sym/harness.hpp"
#include "pinocchio/utils/static-if.hpp"
#include "crocoddyl/multibody/contacts/multiple-contacts.hpp"
#include "crocoddyl/multibody/impulses/multiple-impulses.hpp"
using namespace vf;
using namespace crocoddyl;
typedef Eigen::Ref<const Vec> VR;
typedef StateMultibodyTpl<double> State;
typedef pinocchio::ForceTpl<double> Force;
typedef pinocchio::DataTpl<double> PData;
static std::string num(long i) { return std::to_string(i); }

// what an item returns
struct Values {
  long nc, frame;
  pinocchio::ReferenceFrame type;
  Vec a0;
  Mat Jc, da0, dv0, dtau, F;
};
static Values any(const std::string &p, long nc, long nv, long nx, long frame, pinocchio::ReferenceFrame type) {
  return Values{nc, frame, type, in_vec(p + "a", nc), in_mat(p + "J", nc, nv), in_mat(p + "da", nc, nx), in_mat(p + "dv", nc, nv), in_mat(p + "dt", nv, nv), in_mat(p + "F", 6, nc)};
}
struct Contact : ContactModelAbstractTpl<double> {
  typedef ContactModelAbstractTpl<double> Base;
  typedef ContactDataAbstractTpl<double> D;
  Values v;
  Contact(std::shared_ptr<State> s, const Values &w, long nu) : Base(s, w.type, w.nc, nu), v(w) { set_id(w.frame); }
  void calc(const std::shared_ptr<D> &d, const VR &) override { d->a0 = v.a0; d->Jc = v.Jc; }
  void calcDiff(const std::shared_ptr<D> &d, const VR &) override { d->da0_dx = v.da0; d->dtau_dq = v.dtau; }
  void updateForce(const std::shared_ptr<D> &d, const Vec &f) override {
    if (f.size() != v.nc) throw std::invalid_argument("size");
    d->fext = Force(Force::Vector6(v.F * f));
    d->f = Force(Force::Vector6(2 * v.F * f));
  }
  std::shared_ptr<D> createData(PData *const p) override { auto d = std::make_shared<D>(this, p); d->frame = v.frame; return d; }
};
struct Impulse : ImpulseModelAbstractTpl<double> {
  typedef ImpulseModelAbstractTpl<double> Base;
  typedef ImpulseDataAbstractTpl<double> D;
  Values v;
  Impulse(std::shared_ptr<State> s, const Values &w, long) : Base(s, w.type, w.nc), v(w) { set_id(w.frame); }
  void calc(const std::shared_ptr<D> &d, const VR &) override { d->Jc = v.Jc; }
  void calcDiff(const std::shared_ptr<D> &d, const VR &) override { d->dv0_dq = v.dv0; d->dtau_dq = v.dtau; }
  void updateForce(const std::shared_ptr<D> &d, const Vec &f) override {
    if (f.size() != v.nc) throw std::invalid_argument("size");
    d->fext = Force(Force::Vector6(v.F * f));
    d->f = Force(Force::Vector6(2 * v.F * f));
  }
  std::shared_ptr<D> createData(PData *const p) override { auto d = std::make_shared<D>(this, p); d->frame = v.frame; return d; }
};
namespace crocoddyl {
template <> std::shared_ptr<ContactModelAbstractTpl<double>> ContactModelBase::cast<double>() const { return std::make_shared<Contact>(static_cast<const Contact &>(*this)); }
template <> std::shared_ptr<ImpulseModelAbstractTpl<double>> ImpulseModelBase::cast<double>() const { return std::make_shared<Impulse>(static_cast<const Impulse &>(*this)); }
}  // namespace crocoddyl

// the same operations for contacts and for impulses
struct Contacts {
  typedef ContactModelMultipleTpl<double> M;
  typedef ContactDataMultipleTpl<double> D;
  typedef Contact Item;
  static const bool contact = true;
  static std::shared_ptr<M> make(std::shared_ptr<State> s, long nu) { return std::make_shared<M>(s, nu); }
  static void add(M &m, const std::string &n, std::shared_ptr<Item> i, bool a) { m.addContact(n, i, a); }
  static void remove(M &m, const std::string &n) { m.removeContact(n); }
  static void change(M &m, const std::string &n, bool a) { m.changeContactStatus(n, a); }
  static bool status(const M &m, const std::string &n) { return m.getContactStatus(n); }
  static std::size_t count(const M &m) { return m.get_contacts().size(); }
  static const D::ContactModelMultiple::ContactDataContainer &items(const D &d) { return d.contacts; }
  static void all(M &m, bool a) { m.setComputeAllContacts(a); }
  static bool all(const M &m) { return m.getComputeAllContacts(); }
  static Mat drift(const D &d) { return d.a0; }
  static Mat driftDiff(const D &d) { return d.da0_dx; }
  static Mat driftDiff(const Values &v) { return v.da0; }
  static void accel(M &m, const std::shared_ptr<D> &d, const Vec &v, const Mat &dv) { m.updateAcceleration(d, v); m.updateAccelerationDiff(d, dv); }
  static Vec accel(const D &d) { return d.dv; }
  static Mat accelDiff(const D &d) { return d.ddv_dx; }
  static void forceDiff(M &m, const std::shared_ptr<D> &d, const Mat &x, const Mat &u) { m.updateForceDiff(d, x, u); }
};
struct Impulses {
  typedef ImpulseModelMultipleTpl<double> M;
  typedef ImpulseDataMultipleTpl<double> D;
  typedef Impulse Item;
  static const bool contact = false;
  static std::shared_ptr<M> make(std::shared_ptr<State> s, long) { return std::make_shared<M>(s); }
  static void add(M &m, const std::string &n, std::shared_ptr<Item> i, bool a) { m.addImpulse(n, i, a); }
  static void remove(M &m, const std::string &n) { m.removeImpulse(n); }
  static void change(M &m, const std::string &n, bool a) { m.changeImpulseStatus(n, a); }
  static bool status(const M &m, const std::string &n) { return m.getImpulseStatus(n); }
  static std::size_t count(const M &m) { return m.get_impulses().size(); }
  static const D::ImpulseModelMultiple::ImpulseDataContainer &items(const D &d) { return d.impulses; }
  static void all(M &, bool) {}
  static bool all(const M &) { return false; }
  static Mat drift(const D &) { return Mat(); }
  static Mat driftDiff(const D &d) { return d.dv0_dq; }
  static Mat driftDiff(const Values &v) { return v.dv0; }
  static void accel(M &m, const std::shared_ptr<D> &d, const Vec &v, const Mat &dv) { m.updateVelocity(d, v); m.updateVelocityDiff(d, dv); }
  static Vec accel(const D &d) { return d.vnext; }
  static Mat accelDiff(const D &d) { return d.dvnext_dx; }
  static void forceDiff(M &m, const std::shared_ptr<D> &d, const Mat &x, const Mat &) { m.updateForceDiff(d, x); }
};
struct Entry { bool present = false, active = false; Values v; };
typedef std::map<std::string, Entry> Shadow;
template <class K>
struct World {
  long nv = 2, nx = 4, nu = 1, made = 0;
  bool all = false;
  std::shared_ptr<State> state;
  std::shared_ptr<typename K::M> m;
  Shadow sh;
  std::vector<std::string> names{"b", "a"};  // insertion order differs from the map order
};
template <class K>
static World<K> world(const Case &c) {
  World<K> w;
  auto model = std::make_shared<pinocchio::ModelStub>();
  model->joints = {{0}, {1}, {1}};
  model->names = {"universe", "p", "q"};
  model->njoints = 3;
  for (long f = 0; f < 4; ++f) model->frames.push_back({(pinocchio::JointIndex)(c("joint") ? 1 + f % 2 : 2), pinocchio::SE3Tpl<double>::Identity(), "f"});
  w.state = std::make_shared<State>(model);
  w.m = K::make(w.state, w.nu);
  for (auto &n : w.names) w.sh[n];
  return w;
}
template <class K>
static void bookkeeping(const World<K> &w, const typename K::M &m, const std::string &when) {
  long nc = 0, total = 0, n = 0;
  std::set<std::string> on, off;
  for (auto &kv : w.sh) if (kv.second.present) {
    ++n;
    total += kv.second.v.nc;
    if (kv.second.active) { nc += kv.second.v.nc; on.insert(kv.first); } else off.insert(kv.first);
  }
  check_true("number of items " + when, (long)K::count(m) == n);
  check_true("dimension of the active items " + when, (long)m.get_nc() == nc);
  check_true("dimension of all items " + when, (long)m.get_nc_total() == total);
  check_true("active set " + when, m.get_active_set() == on);
  check_true("inactive set " + when, m.get_inactive_set() == off);
  check_true("stacking mode " + when, K::all(m) == w.all);
  for (auto &kv : w.sh) check_true("status " + when, K::status(m, kv.first) == (kv.second.present && kv.second.active));
}
template <class K>
static void add(World<K> &w, const std::string &n, bool active) {
  const pinocchio::ReferenceFrame types[] = {pinocchio::LOCAL, pinocchio::WORLD, pinocchio::LOCAL_WORLD_ALIGNED};
  const long k = w.made++;
  Values v = any("i" + num(k), 1 + k % 3, w.nv, w.nx, k % 4, types[(k + 1) % 3]);
  K::add(*w.m, n, std::make_shared<typename K::Item>(w.state, v, w.nu), active);
  Entry &e = w.sh[n];
  if (!e.present) { e.present = true; e.active = active; e.v = v; }
}
template <class K>
static void edit(World<K> &w, const std::string &k) {
  const int op = choose("op" + k, 4 + 2 * (K::contact ? 1 : 0));
  if (op >= 4) { w.all = op == 5; K::all(*w.m, w.all); return; }
  const std::string n = w.names[choose("name" + k, w.names.size())];
  Entry &e = w.sh[n];
  if (op < 2) add(w, n, op == 0);
  else if (op == 2) { K::remove(*w.m, n); e.present = e.active = false; }
  else {
    const bool a = flag("on" + k);
    K::change(*w.m, n, a);
    if (e.present) e.active = a;
  }
}
template <class K>
static void values(World<K> &w, typename K::M &m, const std::shared_ptr<typename K::D> &d, PData &p, const std::string &t) {
  const Vec x = in_vec(t + "x", w.nx);
  long rows = 0;
  for (auto &kv : w.sh) if (kv.second.present && (kv.second.active || w.all)) rows += kv.second.v.nc;
  Mat Jc = Mat::Zero(rows, w.nv), da = Mat::Zero(rows, K::contact ? w.nx : w.nv), a0 = Mat::Zero(rows, 1), tau = p.dtau_dq;
  const Vec f = in_vec(t + "f", rows), acc = in_vec(t + "dv", w.nv);
  const Mat fx = in_mat(t + "fx", rows, w.nx), fu = in_mat(t + "fu", rows, w.nu), accx = in_mat(t + "dvx", w.nv, w.nx);
  std::vector<Force::Vector6> ext(3, Force::Vector6::Zero());
  long r = 0;
  m.calc(d, x);
  m.calcDiff(d, x);
  K::accel(m, d, acc, accx);
  m.updateForce(d, f);
  K::forceDiff(m, d, fx, fu);
  m.updateRneaDiff(d, p);
  for (auto &kv : w.sh) if (kv.second.present && (kv.second.active || w.all)) {
    const Values &v = kv.second.v;
    const auto &di = *K::items(*d).at(kv.first);
    if (kv.second.active) {
      Jc.middleRows(r, v.nc) = v.Jc;
      da.middleRows(r, v.nc) = K::driftDiff(v);
      a0.middleRows(r, v.nc) = v.a0;
      if (v.type != pinocchio::LOCAL) tau += v.dtau;
      const Force::Vector6 F = v.F * f.segment(r, v.nc);
      ext[w.state->get_pinocchio()->frames[v.frame].parentJoint] += F;
      check_eqm("force of an active item", Mat(di.fext.d), Mat(F));
      check_eqm("force derivative of an active item", Mat(di.df_dx), Mat(fx.middleRows(r, v.nc)));
      if (K::contact) check_eqm("force derivative of an active item in the control", Mat(di.df_du), Mat(fu.middleRows(r, v.nc)));
    }
    r += v.nc;
  }
  for (auto &kv : w.sh) if (kv.second.present && !kv.second.active) {
    const auto &di = *K::items(*d).at(kv.first);
    check_eqm("no force on an inactive item", Mat(di.fext.d), Mat(Mat::Zero(6, 1)));
    check_eqm("no force on an inactive item", Mat(di.f.d), Mat(Mat::Zero(6, 1)));
    check_eqm("no force derivative on an inactive item", Mat(di.df_dx), Mat(Mat::Zero(kv.second.v.nc, w.nx)));
    if (K::contact) check_eqm("no force derivative on an inactive item", Mat(di.df_du), Mat(Mat::Zero(kv.second.v.nc, w.nu)));
  }
  check_eqm("stacked Jacobians", Mat(d->Jc.topRows(rows)), Jc);
  check_eqm("stacked drift derivatives", Mat(K::driftDiff(*d).topRows(rows)), da);
  if (K::contact) check_eqm("stacked drifts", Mat(K::drift(*d).topRows(rows)), a0);
  check_eqm("acceleration or velocity kept", K::accel(*d), acc);
  check_eqm("its derivative kept", K::accelDiff(*d), accx);
  for (long j = 0; j < 3; ++j) check_eqm("external force on the joint is the sum over its items", Mat(d->fext[j].d), Mat(ext[j]));
  check_eqm("torque derivative gains the terms of the items expressed in the world", Mat(p.dtau_dq), tau);
}
template <class K>
static void history(const Case &c) {
  set_option("max_paths", 20000);
  World<K> w = world<K>(c);
  if (c("start")) { add(w, "b", true); add(w, "a", flag("a")); }
  for (long k = 0; k < c("ops"); ++k) { edit(w, num(k)); bookkeeping(w, *w.m, "after the edit"); }
  PData p;
  p.dtau_dq = in_mat("tau", w.nv, w.nv);
  auto d = w.m->createData(&p);
  values(w, *w.m, d, p, "");
  // the same data after a change of status
  const std::string n = w.names[choose("last", 2)];
  Entry &e = w.sh[n];
  if (e.present) {
    e.active = !e.active;
    K::change(*w.m, n, e.active);
    bookkeeping(w, *w.m, "after the change");
    values(w, *w.m, d, p, "n");
  }
}
template <class K>
static void copies(const Case &c) {
  World<K> w = world<K>(c);
  add(w, "b", flag("b"));
  add(w, "a", flag("a"));
  if (K::contact && flag("all")) { w.all = true; K::all(*w.m, true); }
  typename K::M m = w.m->template cast<double>();
  bookkeeping(w, m, "in the copy");
  PData p;
  p.dtau_dq = in_mat("tau", w.nv, w.nv);
  auto d = m.createData(&p);
  values(w, m, d, p, "");
}
template <class K>
static void sizes(const Case &c) {
  World<K> w = world<K>(c);
  add(w, "b", flag("b"));
  add(w, "a", true);
  w.all = K::contact && flag("all");
  K::all(*w.m, w.all);
  const long n = (long)(w.all ? w.m->get_nc_total() : w.m->get_nc());
  PData p;
  p.dtau_dq = Mat::Zero(w.nv, w.nv);
  auto d = w.m->createData(&p);
  for (long k : {-1, 1}) {
    check_true("force size checked", throws([&] { w.m->updateForce(d, Vec(Vec::Zero(n + k))); }));
    check_true("force derivative size checked", throws([&] { K::forceDiff(*w.m, d, Mat(Mat::Zero(n + k, w.nx)), Mat(Mat::Zero(n, w.nu))); }));
    check_true("force derivative size checked", throws([&] { K::forceDiff(*w.m, d, Mat(Mat::Zero(n, w.nx + k)), Mat(Mat::Zero(n, w.nu))); }));
    if (K::contact) {
      check_true("force derivative size checked", throws([&] { K::forceDiff(*w.m, d, Mat(Mat::Zero(n, w.nx)), Mat(Mat::Zero(n + k, w.nu))); }));
      check_true("force derivative size checked", throws([&] { K::forceDiff(*w.m, d, Mat(Mat::Zero(n, w.nx)), Mat(Mat::Zero(n, w.nu + k))); }));
    }
    check_true("acceleration size checked", throws([&] { K::accel(*w.m, d, Vec(Vec::Zero(w.nv + k)), Mat(Mat::Zero(w.nv, w.nx))); }));
    check_true("acceleration derivative size checked", throws([&] { K::accel(*w.m, d, Vec(Vec::Zero(w.nv)), Mat(Mat::Zero(w.nv + k, w.nx))); }));
    check_true("acceleration derivative size checked", throws([&] { K::accel(*w.m, d, Vec(Vec::Zero(w.nv)), Mat(Mat::Zero(w.nv, w.nx + k))); }));
  }
  add(w, "c", true);
  const Vec x = Vec::Zero(w.nx);
  check_true("stale data refused", throws([&] { w.m->calc(d, x); }) && throws([&] { w.m->calcDiff(d, x); }) && throws([&] { w.m->updateRneaDiff(d, p); }));
  if (K::contact) {
    auto other = std::make_shared<typename K::Item>(w.state, w.sh["a"].v, w.nu + 1);
    check_true("items of another control dimension refused", throws([&] { K::add(*w.m, "d", other, true); }) == true);
    bookkeeping(w, *w.m, "after the refused item");
  }
}
REGISTER({
  for (long j : {0, 1}) for (long st : {0, 1}) {
    for (long ops : {2, 3}) {
      if (ops == 3 && !st) continue;
      add_case("contacts", history<Contacts>, {{"joint", j}, {"start", st}, {"ops", ops}}, ops == 3);
      add_case("impulses", history<Impulses>, {{"joint", j}, {"start", st}, {"ops", ops}}, ops == 3);
    }
    if (st) continue;
    add_case("contacts_copy", copies<Contacts>, {{"joint", j}});
    add_case("impulses_copy", copies<Impulses>, {{"joint", j}});
    add_case("contacts_sizes", sizes<Contacts>, {{"joint", j}});
    add_case("impulses_sizes", sizes<Impulses>, {{"joint", j}});
  }
})
