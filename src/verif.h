// Driver framework: deterministic cases, event counting, violation reporting.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace verif {

using Eigen::MatrixXd;
using Eigen::VectorXd;

inline uint64_t SplitMix(uint64_t* s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {
    SplitMix(&s);
    SplitMix(&s);
  }
  uint64_t u64() { return SplitMix(&s); }
  double uniform() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * uniform(); }
  int range(int a, int b) {  // inclusive
    return a + static_cast<int>(u64() % static_cast<uint64_t>(b - a + 1));
  }
  bool chance(double p) { return uniform() < p; }
  double normal() {
    double u = uniform(), v = uniform();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
  }
  MatrixXd matrix(int r, int c) {
    MatrixXd m(r, c);
    for (int j = 0; j < c; j++)
      for (int i = 0; i < r; i++) m(i, j) = normal();
    return m;
  }
  VectorXd vector(int n) { return matrix(n, 1); }
  template <typename T>
  void shuffle(std::vector<T>* v) {
    for (int i = static_cast<int>(v->size()) - 1; i > 0; i--) {
      std::swap((*v)[i], (*v)[range(0, i)]);
    }
  }
  // k distinct values of 0..n-1 in random order.
  std::vector<int> subset(int n, int k) {
    std::vector<int> v(n);
    for (int i = 0; i < n; i++) v[i] = i;
    shuffle(&v);
    v.resize(k);
    return v;
  }
};

inline std::string Fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

inline std::string JsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      o += Fmt("\\u%04x", c);
    } else {
      o += c;
    }
  }
  return o;
}

inline std::string Str(const MatrixXd& m) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (int i = 0; i < m.rows(); i++) {
    for (int j = 0; j < m.cols(); j++) o << (j ? "," : "") << m(i, j);
    if (i + 1 < m.rows()) o << ";";
  }
  o << "]";
  return o.str();
}
inline std::string Str(const std::vector<int>& v) {
  std::ostringstream o;
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
  return o.str();
}

struct Driver;
struct Ctx {
  Driver* d;
  Rng rng{1};
  bool thorough = false;
  int index = 0;
  bool replay = false;
  std::string scenario;

  void Violate(const std::string& key, const std::string& msg);
  void Count(const std::string& name, double n = 1);
  void Max(const std::string& name, double v);
  // A distinct non-trivial situation this case observed.
  void Distinct(const std::string& signature);
  void Sample(const std::string& text);
  // Returns ok.  On failure reports.
  bool Check(bool ok, const std::string& key, const std::string& msg) {
    Count("monitor_evaluations");
    if (!ok) Violate(key, msg);
    return ok;
  }
  // |a-b| <= tol with NaN failing.
  bool Near(double a, double b, double tol, const std::string& key,
            const std::string& what) {
    double e = std::fabs(a - b);
    return Check(e <= tol, key,
                 Fmt("%s: %.17g vs %.17g (|diff| %.3g > %.3g)", what.c_str(), a,
                     b, e, tol));
  }
};

struct Scenario {
  std::string name;
  int quick;
  int thorough;
  std::function<void(Ctx&)> run;
};

struct Driver {
  FILE* out = nullptr;
  int progress_fd = -1;
  std::map<std::string, double> counts;
  std::map<std::string, double> maxima;
  std::set<std::string> distinct;
  std::vector<std::string> samples;
  std::map<std::string, int> violations_per_key;
  int cases = 0;
  void Line(const std::string& s) {
    fputs(s.c_str(), out);
    fputc('\n', out);
    fflush(out);
  }
};

inline void Ctx::Violate(const std::string& key, const std::string& msg) {
  int& n = d->violations_per_key[key];
  n++;
  if (n <= 5 || replay) {
    d->Line(Fmt("{\"t\":\"violation\",\"scenario\":\"%s\",\"case\":%d,\"key\":\"",
                scenario.c_str(), index) +
            JsonEscape(key) + "\",\"msg\":\"" + JsonEscape(msg) + "\"}");
  }
}
inline void Ctx::Count(const std::string& name, double n) {
  d->counts[name] += n;
}
inline void Ctx::Max(const std::string& name, double v) {
  if (!std::isfinite(v)) v = 1e308;
  auto it = d->maxima.find(name);
  if (it == d->maxima.end()) {
    d->maxima[name] = v;
  } else if (v > it->second) {
    it->second = v;
  }
}
inline void Ctx::Distinct(const std::string& s) { d->distinct.insert(s); }
inline void Ctx::Sample(const std::string& s) {
  if (d->samples.size() < 3) d->samples.push_back(scenario + ": " + s);
}

inline void OnAlarm(int) { _exit(97); }

inline uint64_t CaseSeed(uint64_t seed, const std::string& name, int k) {
  uint64_t h = 1469598103934665603ull ^ (seed * 0x9e3779b97f4a7c15ull);
  for (char c : name) h = (h ^ (unsigned char)c) * 1099511628211ull;
  h ^= static_cast<uint64_t>(k) * 0xd6e8feb86659fd93ull;
  uint64_t s = h;
  return SplitMix(&s);
}

// driver --out F --progress F --seed S --tier T --shard i/n [--from scen,case]
//        [--scenario NAME --case K]
inline int Main(int argc, char** argv, const std::vector<Scenario>& scenarios) {
  std::string out = "/dev/stderr", progress, tier = "quick", only, from_scen;
  long long seed = 1;
  int shard = 0, nshards = 1, only_case = -1, from_case = -1, timeout = 60;
  double scale = 1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--out") out = v;
    else if (a == "--progress") progress = v;
    else if (a == "--seed") seed = atoll(v.c_str());
    else if (a == "--tier") tier = v;
    else if (a == "--shard") sscanf(v.c_str(), "%d/%d", &shard, &nshards);
    else if (a == "--scenario") only = v;
    else if (a == "--case") only_case = atoi(v.c_str());
    else if (a == "--timeout") timeout = atoi(v.c_str());
    else if (a == "--scale") scale = atof(v.c_str());
    else if (a == "--from") {
      size_t p = v.find(',');
      from_scen = v.substr(0, p);
      from_case = atoi(v.c_str() + p + 1);
    }
  }
  Driver d;
  d.out = fopen(out.c_str(), "a");
  if (!d.out) return 3;
  if (!progress.empty())
    d.progress_fd = open(progress.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
  signal(SIGALRM, OnAlarm);
  bool skipping = !from_scen.empty();
  for (auto& s : scenarios) {
    if (!only.empty() && s.name != only) continue;
    int n = tier == "thorough" ? s.thorough : s.quick;
    n = std::max(n > 0 ? 1 : 0, static_cast<int>(n * scale));
    int lo = 0, hi = n;
    if (only_case >= 0) {
      lo = only_case;
      hi = only_case + 1;
    }
    for (int k = lo; k < hi; k++) {
      if (only_case < 0 && k % nshards != shard) continue;
      if (skipping) {
        if (s.name == from_scen && k == from_case) skipping = false;
        continue;  // the case named by --from is itself skipped
      }
      Ctx c;
      c.d = &d;
      c.index = k;
      c.scenario = s.name;
      c.thorough = tier == "thorough";
      c.replay = only_case >= 0;
      c.rng = Rng(CaseSeed(seed, s.name, k));
      srand(static_cast<unsigned>(c.rng.u64()));
      if (d.progress_fd >= 0) {
        std::string p = s.name + "," + std::to_string(k) + "\n";
        if (pwrite(d.progress_fd, p.data(), p.size(), 0) < 0) return 3;
        if (ftruncate(d.progress_fd, p.size()) != 0) return 3;
      }
      alarm(timeout);
      s.run(c);
      alarm(0);
      d.cases++;
      d.counts["cases:" + s.name]++;
    }
  }
  std::string j = Fmt("{\"t\":\"summary\",\"cases\":%d,\"counts\":{", d.cases);
  bool first = true;
  for (auto& c : d.counts) {
    j += (first ? "\"" : ",\"") + JsonEscape(c.first) + Fmt("\":%.17g", c.second);
    first = false;
  }
  j += "},\"maxima\":{";
  first = true;
  for (auto& c : d.maxima) {
    j += (first ? "\"" : ",\"") + JsonEscape(c.first) + Fmt("\":%.6g", c.second);
    first = false;
  }
  j += "},\"distinct\":[";
  first = true;
  for (auto& s : d.distinct) {
    j += (first ? "\"" : ",\"") + JsonEscape(s) + "\"";
    first = false;
  }
  j += "],\"samples\":[";
  first = true;
  for (auto& s : d.samples) {
    j += (first ? "\"" : ",\"") + JsonEscape(s) + "\"";
    first = false;
  }
  j += "]}";
  d.Line(j);
  fclose(d.out);
  return 0;
}

}  // namespace verif
