// P19: programs are independent, one after another, interleaved or on
// different threads.
#include "capi.h"

#include <atomic>
#include <thread>

using namespace verif;
using conex::Program;
using conex::SolverConfiguration;

namespace {

// One program's life, step by step.
struct Job {
  struct Solve {
    SolverConfiguration cfg;
    VectorXd b;
    bool c_interface;
    unsigned seed;
  };
  Problem p;
  std::vector<Solve> solves;
  bool random = false;  // estimates eigenvalues from rand()

  std::shared_ptr<Program> prog;
  size_t next = 0;
  std::vector<double> result;

  size_t Steps() const { return solves.size() + 1; }
  void Reset() {
    prog.reset();
    next = 0;
    result.clear();
  }
  void Step(bool seeded) {
    if (next == 0) {
      prog = std::make_shared<Program>(p.m);
      result.push_back(BuildInto(prog.get(), p));
      next++;
      return;
    }
    Solve& s = solves[next - 1];
    next++;
    VectorXd y = VectorXd::Constant(p.m, -77);
    if (seeded) srand(s.seed);
    bool ok;
    if (s.c_interface) {
      auto cc = ToC(s.cfg);
      ok = CONEX_Maximize(prog.get(), s.b.data(), p.m, &cc, y.data(), p.m);
    } else {
      ok = conex::Solve(s.b, *prog, s.cfg, y.data());
    }
    auto st = prog->Status();
    result.insert(result.end(), {double(ok), double(st.num_iterations), double(st.primal_infeasible), double(st.dual_infeasible)});
    result.insert(result.end(), y.data(), y.data() + p.m);
    if (prog->stats)
      for (int i = 0; i < prog->stats->num_iter; i++) {
        CONEX_IterationStats x = {0, 0};
        CONEX_GetIterationStats(prog.get(), &x, i);
        result.push_back(x.mu);
      }
    if (prog->is_initialized && st.num_iterations > 0)
      for (size_t i = 0; i < p.cones.size(); i++) {
        auto& k = p.cones[i];
        if (k.type != LIN && k.type != LMI) continue;
        int n = prog->GetDualVariableSize(i);
        VectorXd x = VectorXd::Constant(n, -77);
        CONEX_GetDualVariable(prog.get(), i, x.data(), n, 1);
        result.insert(result.end(), x.data(), x.data() + n);
      }
  }
};

Job RandomJob(Rng* r, bool random_allowed, int max_m) {
  Job j;
  bool quadratic = r->chance(.2);
  GenOptions o;
  o.max_m = max_m;
  o.structured = r->chance(.5);
  o.epi = r->chance(.2);
  o.equality = r->chance(.3);
  o.herm = random_allowed;
  if (quadratic) o.soc = o.quad = o.epi = o.lmi = o.herm = false;
  o.quadratic_cost = quadratic;
  j.p = RandomProblem(r, o);
  for (auto& k : j.p.cones) j.random |= k.type == HERM;
  for (int k = r->range(1, 3); k > 0; k--) {
    Job::Solve s;
    s.cfg = RandomConfig(r, quadratic);
    s.cfg.initialization_mode = k > 0 && r->chance(.3);
    if (r->chance(.4)) s.cfg = SolverConfiguration();
    if (quadratic) s.cfg.enable_line_search = 1, s.cfg.enable_rescaling = 0;
    s.b = r->chance(.7) ? VectorXd(-j.p.cost) : VectorXd(r->vector(j.p.m));
    s.c_interface = r->chance(.4);
    s.seed = r->u64();
    j.solves.push_back(s);
  }
  // A warm start of a new program continues from memory it does not have.
  j.solves[0].cfg.initialization_mode = 0;
  return j;
}

bool Same(const std::vector<double>& a, const std::vector<double>& b) {
  return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}
std::string FirstDifference(const std::vector<double>& a, const std::vector<double>& b) {
  for (size_t i = 0; i < std::min(a.size(), b.size()); i++)
    if (memcmp(&a[i], &b[i], sizeof(double))) return Fmt("result %d is %.17g instead of %.17g: ", (int)i, b[i], a[i]);
  return Fmt("%d results instead of %d: ", (int)b.size(), (int)a.size());
}

// Results of each job alone.
std::vector<std::vector<double>> Alone(std::vector<Job>* jobs, bool seeded) {
  std::vector<std::vector<double>> out;
  for (auto& j : *jobs) {
    while (j.next < j.Steps()) j.Step(seeded);
    out.push_back(j.result);
    j.Reset();
  }
  return out;
}

void Interleaved(Ctx& c) {
  Rng& r = c.rng;
  std::vector<Job> jobs;
  for (int k = r.range(2, 5); k > 0; k--) jobs.push_back(RandomJob(&r, true, 6));
  if (r.chance(.3)) jobs.push_back(jobs[0]), jobs.back().Reset();
  std::vector<std::vector<double>> want = Alone(&jobs, true);
  size_t left = 0;
  for (auto& j : jobs) left += j.Steps();
  std::string order;
  while (left) {
    int k = r.range(0, jobs.size() - 1);
    if (jobs[k].next >= jobs[k].Steps()) continue;
    jobs[k].Step(true);
    order += 'a' + k;
    left--;
  }
  for (size_t k = 0; k < jobs.size(); k++)
    c.Check(Same(want[k], jobs[k].result), "interleaved",
            "a program depends on others (" + order + "): " + FirstDifference(want[k], jobs[k].result) + Describe(jobs[k].p));
  c.Count("interleaved_programs", jobs.size());
  c.Count("values_compared", want[0].size());
  c.Distinct(order);
  c.Sample(order);
}

// Relaxed atomics only: nothing here orders what the threads do.
std::atomic<int> ready, active, most;
std::atomic<long> together;

void Threads(Ctx& c) {
  Rng& r = c.rng;
  int n = r.range(2, 6);
  std::vector<std::vector<Job>> jobs(n);
  std::vector<std::vector<std::vector<double>>> want(n);
  bool hermitian = r.chance(.4);
  for (auto& js : jobs)
    for (int k = r.range(1, 3); k > 0; k--) js.push_back(RandomJob(&r, hermitian, c.thorough ? 8 : 5));
  if (r.chance(.3))
    for (int i = 1; i < n; i++) jobs[i] = std::vector<Job>(0), jobs[i].push_back(RandomJob(&r, false, 4));
  if (r.chance(.3)) {
    // Everyone does the same.
    Rng same(r.u64());
    for (auto& js : jobs) {
      Rng copy = same;
      js.clear();
      js.push_back(RandomJob(&copy, hermitian, 6));
    }
  }
  // In the sanitizer's build the first run of everything is concurrent, for
  // the sake of what is initialised at first use.
#ifndef VERIF_SANITIZED
  for (int i = 0; i < n; i++) want[i] = Alone(&jobs[i], false);
#endif
  ready = 0, active = 0, most = 0, together = 0;
  std::vector<uint64_t> seeds;
  for (int i = 0; i < n; i++) seeds.push_back(r.u64());
  std::vector<std::thread> threads;
  for (int i = 0; i < n; i++)
    threads.emplace_back([&, i] {
      Rng mine(seeds[i]);
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
      for (auto& j : jobs[i])
        while (j.next < j.Steps()) {
          if (mine.chance(.2)) std::this_thread::sleep_for(std::chrono::microseconds(mine.range(1, 100)));
          if (mine.chance(.2)) std::this_thread::yield();
          int a = active.fetch_add(1, std::memory_order_relaxed) + 1;
          if (a > 1) together.fetch_add(1, std::memory_order_relaxed);
          if (a > most.load(std::memory_order_relaxed)) most.store(a, std::memory_order_relaxed);
          j.Step(false);
          active.fetch_sub(1, std::memory_order_relaxed);
        }
    });
  for (auto& t : threads) t.join();
#ifdef VERIF_SANITIZED
  std::vector<std::vector<std::vector<double>>> got(n);
  for (int i = 0; i < n; i++)
    for (auto& j : jobs[i]) {
      got[i].push_back(j.result);
      j.Reset();
    }
  for (int i = 0; i < n; i++) {
    want[i] = Alone(&jobs[i], false);
    for (size_t k = 0; k < jobs[i].size(); k++) jobs[i][k].result = got[i][k];
  }
#endif
  for (int i = 0; i < n; i++)
    for (size_t k = 0; k < jobs[i].size(); k++) {
      Job& j = jobs[i][k];
      c.Count("programs_on_threads");
      if (j.random) {
        c.Count("programs_on_threads:random_estimates");
        continue;
      }
      c.Check(Same(want[i][k], j.result), "threads",
              Fmt("one of %d threads: ", n) + FirstDifference(want[i][k], j.result) + Describe(j.p));
      c.Count("values_compared", want[i][k].size());
      c.Distinct("thread " + Signature(j.p));
    }
  c.Count("threads", n);
  c.Count("steps_during_others", together.load());
  c.Max("steps_at_a_time", most.load());
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, {{"interleaved", 1500, 15000, Interleaved}, {"threads", 1200, 10000, Threads}});
}
