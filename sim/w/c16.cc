// C16: arc-length integrators asked in any order, with integrands and allocations that fail half-way.
#include <cmath>

#include "maliput/drake/arc_length_integrator.h"
#include "maliput/drake/inverse_arc_length_integrator.h"
#include "w/common.h"

const char* const kCheckId = "C16";

namespace w {
using maliput::drake::ArcLengthIntegrator;
using maliput::drake::IntegratorConfiguration;
using maliput::drake::InverseArcLengthIntegrator;
using maliput::math::Vector2;

struct IntegrandFailed : std::runtime_error { IntegrandFailed() : std::runtime_error("the integrand throws") {} };

// The speed of a curve at p, offset by k: a + b p + c p^2 + d k0 + e k1 + f sin(w p); positive everywhere it is used.
struct Speed {
  double a, b, c, d, e, f, w;
  double at(double p, double k0, double k1) const { return a + b * p + c * p * p + d * k0 + e * k1 + (f == 0 ? 0 : f * std::sin(w * p)); }
  double upto(double p, double k0, double k1) const { return (a + d * k0 + e * k1) * p + b * p * p / 2 + c * p * p * p / 3 + (f == 0 ? 0 : f / w * (1 - std::cos(w * p))); }
};

// What happens to the calls of the integrands made by one client.
struct Trouble {
  bool on = false;
  bool fired = false;     // the integrand threw, or had no value, during this operation
  bool lasting = false;   // it has no value from `from` on
  double from = 0;
};
Trouble& trouble(int client) { static Trouble t[8]; return t[client]; }

double value(const Speed& s, double p, double k0, double k1, int client, bool inverse) {
  Trouble& t = trouble(client);
  double v = s.at(p, k0, k1);
  if (inverse) v = 1 / v;
  if (!t.on) return v;
  if (t.lasting && p > t.from) {
    t.fired = true;
    return std::nan("");
  }
  if (sim::fault(sim::F_TASK_THROW)) {
    t.fired = true;
    throw IntegrandFailed();
  }
  return v;
}

struct Spec {
  bool inverse = false;
  Speed speed{};
  IntegratorConfiguration config{};
  int client = 0;
  double lower() const { return inverse ? config.image_lower_bound : config.parameter_lower_bound; }
  // The exact answer.
  double exact(double x, double k0, double k1) const {
    if (!inverse) return speed.upto(x, k0, k1) - speed.upto(config.parameter_lower_bound, k0, k1);
    // b/2 p^2 + m p = length + (value at the lower bound)
    double m = speed.a + speed.d * k0 + speed.e * k1;
    double rhs = x - config.image_lower_bound + speed.upto(config.parameter_lower_bound, k0, k1);
    double p = speed.b == 0 ? rhs / m : (-m + std::sqrt(m * m + 2 * speed.b * rhs)) / speed.b;
    if (speed.f != 0) {  // grows, and wiggles around the line
      double lo = p - 3, hi = p + 3;
      for (int i = 0; i < 200; ++i) {
        double mid = (lo + hi) / 2;
        (speed.upto(mid, k0, k1) < rhs ? lo : hi) = mid;
      }
      p = (lo + hi) / 2;
    }
    return p;
  }
};

// One object of either class.
class Integrator {
 public:
  Integrator(const Spec& s, int client) : spec_(s) {
    const Speed speed = s.speed;
    if (s.inverse) {
      inverse_ = std::make_unique<InverseArcLengthIntegrator>(
          [speed, client](const double&, const double& p, const Vector2& k) { return value(speed, p, k[0], k[1], client, true); }, s.config);
    } else {
      forward_ = std::make_unique<ArcLengthIntegrator>(
          [speed, client](const double& p, const Vector2& k) { return value(speed, p, k[0], k[1], client, false); }, s.config);
    }
  }
  double evaluate(double x, const Vector2& k) const { return inverse_ ? inverse_->Evaluate(x, k) : forward_->Evaluate(x, k); }
  std::function<double(double)> function(double x0, double x1, const Vector2& k, double tolerance, double epsilon) const {
    return inverse_ ? inverse_->InverseFunction(x0, x1, k, tolerance, epsilon) : forward_->IntegralFunction(x0, x1, k, tolerance);
  }
  const Spec& spec() const { return spec_; }

 private:
  Spec spec_;
  std::unique_ptr<ArcLengthIntegrator> forward_;
  std::unique_ptr<InverseArcLengthIntegrator> inverse_;
};

struct Dense {
  std::function<double(double)> f;
  Spec spec;
  double x0, x1, k0, k1, tolerance;
};

Spec random_spec(bool inverse) {
  static const double as[] = {1, 2, 0.5, 3.25}, bs[] = {0, 0.5, 1, 0.125}, cs[] = {0, 0.25, 1};
  static const double acc[] = {1e-4, 1e-3, 1e-5, 1e-6};
  static const double first[] = {1e-3, 1e-2, 1e-1, 1e-4}, max[] = {1, 0.1, 10, 0.03};
  Spec s;
  s.inverse = inverse;
  s.speed = {as[sim::choose(4)], bs[sim::choose(4)], inverse ? 0 : cs[sim::choose(3)], 0.25 * sim::choose(3), 0.125 * sim::choose(2), 0, 1};
  if (sim::flip(1, 3)) {
    static const double ws[] = {1, 4, 12, 0.3};
    s.speed.f = s.speed.a * 0.3;
    s.speed.w = ws[sim::choose(4)];
  }
  s.config.parameter_lower_bound = 0.5 * sim::choose(3);
  s.config.image_lower_bound = 0.25 * sim::choose(3);
  s.config.k = Vector2(sim::choose(2), sim::choose(2));
  s.config.initial_step_size_target = first[sim::choose(4)];
  s.config.maximum_step_size = std::max(max[sim::choose(4)], s.config.initial_step_size_target);
  if (s.speed.w * s.config.maximum_step_size > 1.3) s.speed.f = 0;  // a step must not jump over a whole wave
  s.config.target_accuracy = acc[sim::choose(4)];
  SIM_EVENT((inverse ? "an inverse integrator: speed " : "an integrator: speed ") + dbl(s.speed.a) + " + " + dbl(s.speed.b) + " p + " + dbl(s.speed.c) + " p^2 + " + dbl(s.speed.d) + " k0 + " + dbl(s.speed.e) +
            " k1 + " + dbl(s.speed.f) + " sin(" + dbl(s.speed.w) + " p), bounds " + dbl(s.config.parameter_lower_bound) + " and " + dbl(s.config.image_lower_bound) + ", steps " + dbl(s.config.initial_step_size_target) + " to " +
            dbl(s.config.maximum_step_size) + ", accuracy " + dbl(s.config.target_accuracy));
  return s;
}

double tolerance_of(const Spec& s) { return 30 * s.config.target_accuracy; }

void compare(const Spec& s, double x, double k0, double k1, double got, const char* what) {
  sim::Quiet q;
  double exact = s.exact(x, k0, k1);
  double off = std::fabs(got - exact) / s.config.target_accuracy;
  sim::probe(off < 1e-3 ? "error_below_0.001_accuracy" : off < 1 ? "error_below_accuracy" : off < 5 ? "error_below_5_accuracies" : "error_above_5_accuracies");
  std::string q_text = std::string(what) + (s.inverse ? " inverse(" : " length(") + dbl(x) + ") at offset (" + dbl(k0) + ", " + dbl(k1) + ")";
  if (!(off * s.config.target_accuracy <= tolerance_of(s))) {
    Integrator fresh(s, 7);
    double f = fresh.evaluate(x, Vector2(k0, k1));
    // What a fresh integrator misses by as much is not due to what came before.
    if (std::fabs(f - exact) > tolerance_of(s) / 2) { sim::probe("hard_to_integrate"); return; }
    sim::violation("wrong-answer", q_text + " is " + dbl(got) + ", but a fresh integrator says " + dbl(f) + " and the exact answer is " + dbl(exact) +
                                       "; the accuracy is " + dbl(s.config.target_accuracy));
  }
  sim::mix_state(hash_of(q_text));
}

struct Client {
  int id = 0;
  std::vector<std::unique_ptr<Integrator>> integrators;
  std::vector<Dense> dense;
  double last = -1;  // what was asked for before
};

// Makes an attempt at `f` under the run's faults. Returns whether it gave a result.
template <class F, class G>
bool troubled(int client, bool valid, bool hopeless_from, double from, const std::string& name, F f, G fresh) {
  Trouble& t = trouble(client);
  static const uint32_t lim[] = {5, 40, 300, 2500};
  uint32_t k = alloc_faults() && sim::flip(1, 3) ? 1 + sim::choose(lim[sim::choose(4)]) : 0;
  bool more = k && sim::flip(1, 3);
  t.on = true;
  t.fired = false;
  t.lasting = hopeless_from;
  t.from = from;
  SIM_EVENT(num(client) + ": " + name + (k ? " with allocation " + num(k) + " failing" : std::string()) + (hopeless_from ? " with no value beyond " + dbl(from) : std::string()));
  Outcome o = attempt(f, k, more);
  t.on = false;
  sim::Quiet q;
  sim::event(o.threw ? "-> " + o.what : "-> done");
  if (o.threw) {
    if (o.injected) sim::probe("hit_by_allocation_failure");
    else if (t.fired) sim::probe("hit_by_integrand");
    if (valid && !o.injected && !t.fired) {
      // Some questions are too hard for any integrator.
      Outcome f = attempt(fresh);
      sim::check(f.threw, "threw", name + " threw " + o.what + ", but a fresh integrator answers it");
      sim::probe("too_hard_for_a_fresh_integrator");
    }
  } else {
    if (t.fired) sim::probe("answered_despite_a_missing_value");
    sim::check(valid, "invalid-accepted", name + " was accepted");
  }
  return !o.threw;
}

void one_step(Client* c, const std::vector<Dense>* shared, bool nan_runs) {
  static const double ks[] = {0, 1, -0.5, 2};
  int what = sim::choose(8);
  if (what >= 5 && (!c->dense.empty() || !shared->empty())) {
    const Dense& d = c->dense.empty() || (!shared->empty() && sim::flip(1, 2)) ? (*shared)[sim::choose(shared->size())] : c->dense[sim::choose(c->dense.size())];
    double x = d.x0 + (d.x1 - d.x0) * sim::choose(9) / 8.;
    int side = sim::choose(8);
    bool valid = true;
    double at = x;
    if (side == 6) { x = d.x1; at = d.x1 + d.tolerance / 2; }
    if (side == 7) { at = d.x1 + 2 * d.tolerance; valid = false; }
    double got = 0;
    if (troubled(c->id, valid, false, 0, "dense function at " + sim::quietly([&] { return dbl(at); }), [&] { got = d.f(at); }, [] {})) compare(d.spec, x, d.k0, d.k1, got, "dense");
    return;
  }
  size_t which = sim::choose(c->integrators.size());
  if (sim::flip(1, 10)) {
    // The integrator goes, another one comes; what it handed out stays.
    sim::probe("integrator_replaced");
    { sim::Quiet q; SIM_EVENT(num(c->id) + ": an integrator is destroyed"); }
    Spec next = random_spec(sim::flip(1, 2));
    c->integrators[which].reset();
    c->integrators[which] = std::make_unique<Integrator>(next, c->id);
    c->last = -1;
  }
  Integrator& in = *c->integrators[which];
  const Spec& s = in.spec();
  double k0 = ks[sim::choose(4)] , k1 = ks[sim::choose(2)];
  if (s.speed.at(s.config.parameter_lower_bound, k0, k1) < 0.2) k0 = 0;
  Vector2 k(k0, k1);
  double x = s.lower() + sim::choose(33) / 8.;
  if (sim::flip(1, 4) && c->last >= s.lower()) {  // almost, or exactly, the same again
    static const double ds[] = {0, 1e-3, -1e-3, -1e-6, 1e-6, 1e-10, -1e-10, 1e-14, -1e-14, 2e-2, -2e-2, -2e-3};
    x = std::max(s.lower(), c->last + ds[sim::choose(12)]);
  }
  c->last = x;
  bool lasting = nan_runs && sim::flip(1, 6);
  double from = s.config.parameter_lower_bound + sim::choose(17) / 4.;
  if (lasting) sim::probe("integrand_without_value");
  if (what == 4 && sim::flip(1, 3)) {
    // Before the start of the domain: rejected, and nothing else changes.
    troubled(c->id, false, false, 0, "evaluation before the domain", [&] { in.evaluate(s.lower() - 0.5, k); }, [] {});
    return;
  }
  if (what < 4) {
    double got = 0;
    if (troubled(c->id, true, lasting, from, sim::quietly([&] { return (s.inverse ? "inverse " : "length ") + dbl(x) + " at " + dbl(k0) + "," + dbl(k1); }), [&] { got = in.evaluate(x, k); }, [&] { Integrator(s, 7).evaluate(x, k); }))
      compare(s, x, k0, k1, got, "evaluated");
    return;
  }
  Dense d{{}, s, s.lower() + sim::choose(3) / 8., 0, k0, k1, 1e-3};
  d.x1 = d.x0 + (1 + sim::choose(24)) / 8.;
  if (troubled(c->id, true, lasting, from, sim::quietly([&] { return "dense function from " + dbl(d.x0) + " to " + dbl(d.x1) + " at " + dbl(k0) + "," + dbl(k1); }),
               [&] { d.f = in.function(d.x0, d.x1, k, d.tolerance, s.inverse ? 1e-6 : 0); },
               [&] { Integrator(s, 7).function(d.x0, d.x1, k, d.tolerance, s.inverse ? 1e-6 : 0); })) {
    sim::Quiet q;
    c->dense.push_back(std::move(d));
  }
}
}  // namespace w

void workload() {
  using namespace w;
  sim::set_step_cap(60000000);
  bool nan_runs;
  uint32_t rate;
  {
    sim::Quiet q;
    alloc_faults() = sim::flip(1, 2);
    nan_runs = sim::flip(1, 4);
    static const uint32_t rates[] = {0, 60, 600, 4000};
    rate = rates[sim::choose(4)];
    sim::mark_nontrivial();
  }
  int n = sim::flip(1, 4) ? 2 + sim::choose(2) : 1;
  if (n > 1) sim::probe("several_threads");
  std::vector<Client> clients(n);
  for (int c = 0; c < n; ++c) {
    clients[c].id = c;
    for (int i = 0, m = 1 + sim::choose(2); i < m; ++i) clients[c].integrators.push_back(std::make_unique<Integrator>(random_spec(sim::flip(1, 2)), c));
  }
  std::vector<Dense> shared;
  if (n > 1) {
    for (int i = 0, m = sim::choose(3); i < m; ++i) one_step(&clients[0], &shared, false);
    sim::Quiet q;
    shared.swap(clients[0].dense);
  }
  sim::set_rate(sim::F_TASK_THROW, rate);
  int steps = 1 + sim::choose(14);
  auto run = [&](int c) { for (int i = 0; i < steps; ++i) one_step(&clients[c], &shared, nan_runs); };
  if (n == 1) run(0);
  else {
    std::vector<int> ids;
    for (int c = 0; c < n; ++c) {
      int id = sim::spawn([&, c] { run(c); });
      sim::Quiet q;
      ids.push_back(id);
    }
    for (int id : ids) sim::join(id);
  }
  // Without faults, everything still answers.
  sim::set_rate(sim::F_TASK_THROW, 0);
  { sim::Quiet q; alloc_faults() = false; }
  for (auto& c : clients) for (int i = 0; i < 3; ++i) one_step(&c, &shared, false);
  if (sim::flip(1, 2)) for (auto& c : clients) c.integrators.clear();
  for (auto& c : clients) for (auto& d : c.dense) for (int i = 0; i < 2; ++i) {
    double x = i ? d.x1 : d.x0, got = d.f(x);
    compare(d.spec, x, d.k0, d.k1, got, "dense");
  }
}
