#include <ftw.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <sstream>
#include "seams.hpp"
#include "sim.hpp"

namespace sim {

double Rng::LogUni(double a, double b) { return std::exp(Uni(std::log(a), std::log(b))); }
double Rng::Gauss() { double u = Uni(); if (u < 1e-300) u = 1e-300; return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * Uni()); }

std::string Fmt(const char* f, ...) {
  va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
uint64_t Hash64(const void* d, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)d;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001B3ull; h ^= h >> 31; }
  return h;
}
uint64_t Hash64(const std::string& s) { return Hash64(s.data(), s.size()); }

// ---------------------------------------------------------------- script text form
static std::string Esc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\"; else o += c; } return o;
}
static std::string Unesc(const std::string& s) {
  std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\' && i + 1 < s.size()) { ++i; o += s[i] == 'n' ? '\n' : s[i]; } else o += s[i]; } return o;
}
void Script::SortEvents() { std::stable_sort(ev.begin(), ev.end(), [](const Event& x, const Event& y) { return x.t < y.t; }); }
std::string Script::Text() const {
  std::string o = "property " + property + "\nseed " + std::to_string(seed) + "\n";
  for (auto& kv : p) o += Fmt("param %s %.17g\n", kv.first.c_str(), kv.second);
  for (auto& kv : sp) o += "text " + kv.first + " " + Esc(kv.second) + "\n";
  for (auto& e : ev) {
    o += Fmt("event %ld %s", e.t, e.kind.c_str()); for (double d : e.a) o += Fmt(" %.17g", d);
    if (!e.s.empty()) o += " | " + Esc(e.s);
    o += "\n";
  }
  return o;
}
bool Script::Parse(const std::string& text, Script& out, std::map<std::string, std::string>* meta) {
  std::istringstream is(text); std::string line;
  while (std::getline(is, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ls(line); std::string w; ls >> w;
    if (w == "property") ls >> out.property;
    else if (w == "seed") ls >> out.seed;
    else if (w == "param") { std::string k, v; ls >> k >> v; out.p[k] = strtod(v.c_str(), nullptr); }
    else if (w == "text") { std::string k; ls >> k; std::string r; std::getline(ls, r); out.sp[k] = Unesc(r.size() ? r.substr(1) : r); }
    else if (w == "event") {
      Event e; std::string head = line, tail; size_t bar = line.find(" | ");
      if (bar != std::string::npos) { head = line.substr(0, bar); e.s = Unesc(line.substr(bar + 3)); }
      std::istringstream hs(head); std::string v; hs >> w >> e.t >> e.kind; while (hs >> v) e.a.push_back(strtod(v.c_str(), nullptr));
      out.ev.push_back(e);
    } else if (meta) { std::string r; std::getline(ls, r); (*meta)[w] = r.size() ? r.substr(1) : r; }
  }
  return !out.property.empty();
}

// ---------------------------------------------------------------- registry
static std::vector<Property>& Reg() { static std::vector<Property> v; return v; }
void Register(Property p) { Reg().push_back(std::move(p)); }
const std::vector<Property>& Properties() { return Reg(); }
static const Property* Find(const std::string& id) { for (auto& p : Reg()) if (p.id == id) return &p; return nullptr; }

// ---------------------------------------------------------------- child side
static int g_result_fd = -1, g_trace_fd = -1;
static void Emit(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = syscall(SYS_write, g_result_fd, s.data() + o, s.size() - o); if (n <= 0) _exit(96); o += n; } }
static Ctx* g_ctx = nullptr;
[[noreturn]] static void Finish(Ctx& c, const Violation* v) {
  g_clock.active = g_disk.active = g_entropy.active = false;
  std::string o = Fmt("H %llx\nT %.17g\nN %d\n", (unsigned long long)c.hash, c.sim_time_s, (int)c.nontrivial);
  auto word = [](std::string k) { for (char& ch : k) if (ch == ' ') ch = '_'; return k; };
  for (auto& kv : c.counts) o += Fmt("C %s %.17g\n", word(kv.first).c_str(), kv.second);
  if (c.evaluated) c.probes["evaluated"] = c.evaluated;
  for (auto& kv : c.probes) o += Fmt("P %s %.17g\n", word(kv.first).c_str(), kv.second);
  for (uint64_t s : c.states) o += Fmt("S %llx\n", (unsigned long long)s);
  if (v) o += "V " + v->key + "\t" + Esc(v->detail) + "\n";
  o += "X\n"; Emit(o); _exit(0);
}
void Ctx::Fail(const std::string& key, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); char b[3000]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  Violation v{key, b}; Finish(*this, &v);
}
void Ctx::Check(bool ok, const std::string& key, const char* fmt, ...) {
  evaluated++;
  if (ok) return;
  va_list ap; va_start(ap, fmt); char b[3000]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  Violation v{key, b}; Finish(*this, &v);
}
void Ctx::Near(double got, double want, double tol, const std::string& key, const std::string& what) {
  evaluated++;
  if (std::fabs(got - want) <= tol) return;
  Fail(key, "%s: got %.15g, expected %.15g (tolerance %.3g)", what.c_str(), got, want, tol);
}
void Ctx::AllowExit() { Emit("A\n"); }
void Ctx::State(const std::string& s) { State(Hash64(s)); }
void Ctx::Trace(const char* fmt, ...) {
  if (!tracing) return;
  va_list ap; va_start(ap, fmt); char b[3000]; int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n] = '\n'; syscall(SYS_write, g_trace_fd, b, n + 1);
}

// ---------------------------------------------------------------- parent side
static std::string g_base;
static int RmCb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void RmTree(const std::string& d) {
  if (g_base.empty() || d.compare(0, g_base.size(), g_base) != 0) return;
  nftw(d.c_str(), RmCb, 32, FTW_DEPTH | FTW_PHYS);
}
struct Result {
  bool done = false; uint64_t hash = 0; double sim_time = 0; bool nontrivial = false;
  std::map<std::string, double> counts, probes; std::vector<uint64_t> states;
  bool violated = false; Violation v; bool harness_error = false;
};
struct Job { Script script; int slot = 0; pid_t pid = 0; int fd = -1; std::string out; bool audit = false; uint64_t expect = 0; bool is_repeat = false; double t0 = 0; };
static double Now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void Spawn(const Property& P, Job& j, bool tracing, int noise) {
  std::string dir = g_base + "/s" + std::to_string(j.slot), err = dir + ".err";
  RmTree(dir); mkdir(dir.c_str(), 0755);
  int pfd[2]; if (pipe(pfd)) { perror("pipe"); exit(2); }
  fcntl(pfd[0], F_SETPIPE_SZ, 1 << 20);
  fflush(stdout);
  j.t0 = Now(); j.out.clear(); j.fd = pfd[0]; j.pid = fork();
  if (j.pid < 0) { perror("fork"); exit(2); }
  if (j.pid == 0) {
    close(pfd[0]); g_result_fd = pfd[1]; g_trace_fd = dup(1);
    if (chdir(dir.c_str())) _exit(97);
    int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644), n = open("/dev/null", O_RDWR);
    dup2(n, 0); dup2(n, 1); dup2(e, 2);
    struct rlimit rl = {(rlim_t)P.cpu_limit_s, (rlim_t)P.cpu_limit_s + 5}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
    struct rlimit rf = {512u << 20, 512u << 20}; setrlimit(RLIMIT_FSIZE, &rf);
    if (noise) { volatile char* g = (volatile char*)alloca(60000); for (int i = 0; i < 60000; i++) g[i] = (char)(noise * 37 + i * 11); mallopt(M_PERTURB, 1 + (noise * 53) % 250); }
    Ctx c; c.tracing = tracing; g_ctx = &c;
    P.execute(j.script, c);
    Finish(c, nullptr);
  }
  close(pfd[1]); fcntl(j.fd, F_SETFL, O_NONBLOCK);
}
static Result Collect(Job& j, int status) {
  Result r; std::istringstream is(j.out); std::string line; bool exit_ok = false;
  while (std::getline(is, line)) {
    if (line.empty()) continue;
    std::istringstream ls(line.substr(1)); std::string k;
    switch (line[0]) {
      case 'H': ls >> std::hex >> r.hash; break;
      case 'T': ls >> r.sim_time; break;
      case 'N': ls >> r.nontrivial; break;
      case 'C': { double d; ls >> k >> d; r.counts[k] = d; break; }
      case 'P': { double d; ls >> k >> d; r.probes[k] = d; break; }
      case 'S': { uint64_t u; ls >> std::hex >> u; r.states.push_back(u); break; }
      case 'V': { r.violated = true; size_t t = line.find('\t'); r.v.key = line.substr(2, t - 2); r.v.detail = Unesc(line.substr(t + 1)); break; }
      case 'A': exit_ok = true; break;
      case 'X': r.done = true; break;
    }
  }
  if (!r.done) {
    std::string e = ReadFile(g_base + "/s" + std::to_string(j.slot) + ".err"), sum, head;
    size_t p = e.find("SUMMARY: "); if (p != std::string::npos) sum = e.substr(p, e.find('\n', p) - p);
    p = e.find("ERROR: AddressSanitizer"); if (p != std::string::npos) head = e.substr(p, std::min<size_t>(1200, e.size() - p)); else head = e.substr(e.size() > 600 ? e.size() - 600 : 0);
    if (WIFEXITED(status) && (WEXITSTATUS(status) == 96 || WEXITSTATUS(status) == 97)) { r.harness_error = true; r.v = {"harness", "harness I/O error"}; return r; }
    if (WIFEXITED(status) && exit_ok && sum.empty()) { r.done = true; return r; }
    r.violated = true;
    if (WIFSIGNALED(status)) {
      int s = WTERMSIG(status);
      if (s == SIGKILL) { r.violated = false; r.harness_error = true; r.v = {"harness", "run killed (out of memory?)"}; return r; }
      r.v.key = s == SIGXCPU ? "no-progress" : Fmt("crash-signal-%d", s);
    } else {
      r.v.key = Fmt("terminated-exit-%d", WEXITSTATUS(status));
      if (sum.find("AddressSanitizer") != std::string::npos) { std::istringstream ss(sum.substr(9)); std::string a, b; ss >> a >> b; r.v.key = "memory-error-" + b; }
      else if (e.find("runtime error:") != std::string::npos) r.v.key = "undefined-behaviour";
    }
    r.v.detail = (sum.empty() ? std::string("the code under test terminated the process") : sum) + " :: " + head;
    for (auto& kv : r.counts) (void)kv;
  }
  return r;
}
static bool Pump(Job& j) {  // true when the child has finished
  char b[65536]; ssize_t n;
  while ((n = read(j.fd, b, sizeof b)) > 0) j.out.append(b, n);
  return n == 0;
}
static Result RunOne(const Property& P, const Script& s, int slot, bool tracing = false, int noise = 0) {
  Job j; j.script = s; j.slot = slot; Spawn(P, j, tracing, noise);
  while (!Pump(j)) { struct pollfd pf = {j.fd, POLLIN, 0}; poll(&pf, 1, 1000); }
  int st; waitpid(j.pid, &st, 0); close(j.fd);
  return Collect(j, st);
}
// Runs candidate scripts in parallel; returns index of first (lowest index) that still violates with `key`, or -1.
static int FirstReproducing(const Property& P, const std::vector<Script>& cand, const std::string& key, int workers) {
  size_t next = 0; int best = -1; std::vector<std::pair<Job, size_t>> act;
  std::vector<bool> used(workers, false);
  while (true) {
    while (best < 0 && next < cand.size() && (int)act.size() < workers) {
      Job j; j.script = cand[next]; for (int i = 0; i < workers; i++) if (!used[i]) { j.slot = i; used[i] = true; break; }
      Spawn(P, j, false, 0); act.push_back({j, next++});
    }
    if (act.empty()) break;
    std::vector<struct pollfd> pf; for (auto& a : act) pf.push_back({a.first.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 1000);
    for (size_t i = 0; i < act.size();) {
      if (Pump(act[i].first)) {
        int st; waitpid(act[i].first.pid, &st, 0); close(act[i].first.fd);
        Result r = Collect(act[i].first, st); used[act[i].first.slot] = false;
        if (r.violated && r.v.key == key && (best < 0 || (int)act[i].second < best)) best = act[i].second;
        act.erase(act.begin() + i);
      } else i++;
    }
  }
  return best;
}
static Script Minimise(const Property& P, Script s, const std::string& key, int workers, double budget_s, long& tried) {
  double t0 = Now(); size_t chunk = std::max<size_t>(1, s.ev.size() / 2);
  while (!s.ev.empty() && Now() - t0 < budget_s) {
    std::vector<Script> cand;
    for (size_t o = 0; o < s.ev.size(); o += chunk) {
      Script c = s; c.ev.erase(c.ev.begin() + o, c.ev.begin() + std::min(s.ev.size(), o + chunk)); cand.push_back(c);
      if (cand.size() >= 64) break;
    }
    tried += cand.size(); int b = FirstReproducing(P, cand, key, workers);
    if (b >= 0) { s = cand[b]; if (chunk > s.ev.size() && !s.ev.empty()) chunk = s.ev.size(); continue; }
    if (chunk == 1) {  // try the tail beyond the first 64 candidates
      bool any = false;
      for (size_t o = 64; o < s.ev.size() && Now() - t0 < budget_s; o += 64) {
        cand.clear(); for (size_t k = o; k < std::min(s.ev.size(), o + 64); k++) { Script c = s; c.ev.erase(c.ev.begin() + k); cand.push_back(c); }
        tried += cand.size(); b = FirstReproducing(P, cand, key, workers); if (b >= 0) { s = cand[b]; any = true; break; }
      }
      if (!any) break;
    } else chunk = std::max<size_t>(1, chunk / 2);
  }
  for (auto& kv : P.simple) {
    if (Now() - t0 > budget_s) break;
    auto it = s.p.find(kv.first); if (it == s.p.end() || it->second == kv.second) continue;
    std::vector<Script> cand(1, s); cand[0].p[kv.first] = kv.second; tried++;
    if (FirstReproducing(P, cand, key, workers) == 0) s = cand[0];
  }
  return s;
}

static std::string JStr(const std::string& s) {
  std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += Fmt("\\u%04x", c); else o += c; } return o + "\"";
}
static std::string JMap(const std::map<std::string, double>& m) {
  std::string o = "{"; bool f = true; for (auto& kv : m) { o += (f ? "" : ", ") + JStr(kv.first) + Fmt(": %.15g", kv.second); f = false; } return o + "}";
}
struct Known { std::string property, key, text; };
static std::vector<Known> LoadKnown(const std::string& path) {
  std::vector<Known> v; std::istringstream is(ReadFile(path)); std::string line;
  while (std::getline(is, line)) {
    if (line.compare(0, 6, "known:") != 0) continue;
    std::istringstream ls(line.substr(6)); std::string a, b, r; ls >> a >> b; std::getline(ls, r);
    if (a.compare(0, 9, "property=") == 0 && b.compare(0, 4, "key=") == 0) v.push_back({a.substr(9), b.substr(4), r.size() ? r.substr(1) : r});
  }
  return v;
}

static int Check(const Property& P, const std::string& tier, uint64_t base, long runs_override, double budget, const std::string& replay_dir,
                 const std::string& evidence, const std::string& known_path, int workers) {
  bool thorough = tier == "thorough"; long want = runs_override > 0 ? runs_override : thorough ? P.thorough_runs : P.quick_runs;
  double t0 = Now(); std::vector<Known> known = LoadKnown(known_path);
  std::map<std::string, double> counts, probes; std::set<uint64_t> states, histories; double sim_time = 0;
  long done = 0, nontrivial = 0, audits = 0, audit_bad = 0, errors = 0; std::vector<std::string> samples;
  std::vector<Script> fixed; if (P.fixed) fixed = P.fixed();
  std::map<std::string, std::pair<Script, Result>> viol;  // one per key, the lowest seed
  std::map<std::string, long> known_hits;
  std::vector<Job> act; std::vector<bool> used(workers, false); std::vector<Job> repeat; long next = 0, total = want + (long)fixed.size();
  bool stop = false;
  while (true) {
    while (!stop && (int)act.size() < workers && (next < total || !repeat.empty())) {
      Job j;
      if (!repeat.empty()) { j = repeat.back(); repeat.pop_back(); }
      else {
        if (next < (long)fixed.size()) j.script = fixed[next];
        else { uint64_t seed = base * 1000003ull + (uint64_t)(next - fixed.size()); j.script = P.generate(seed, thorough); j.script.seed = seed; j.script.property = P.id; }
        j.audit = next % 40 == 7; next++;
        if (samples.size() < 2 && (next == 1 || next == total / 2)) samples.push_back(j.script.Text().substr(0, 1500));
      }
      for (int i = 0; i < workers; i++) if (!used[i]) { j.slot = i; used[i] = true; break; }
      Spawn(P, j, false, j.is_repeat ? 7 : 0); act.push_back(j);
    }
    if (act.empty()) break;
    std::vector<struct pollfd> pf; for (auto& a : act) pf.push_back({a.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 1000);
    for (size_t i = 0; i < act.size();) {
      if (!Pump(act[i])) { i++; continue; }
      Job j = act[i]; act.erase(act.begin() + i); int st; waitpid(j.pid, &st, 0); close(j.fd); used[j.slot] = false;
      Result r = Collect(j, st);
      if (r.harness_error) { errors++; fprintf(stderr, "harness error: %s\n", r.v.detail.c_str()); continue; }
      if (j.is_repeat) { audits++; if (r.hash != j.expect) { audit_bad++; if (audit_bad < 4) fprintf(stderr, "note: seed %llu is not exactly repeatable\n", (unsigned long long)j.script.seed); } continue; }
      done++; sim_time += r.sim_time; nontrivial += r.nontrivial; histories.insert(r.hash);
      for (auto& kv : r.counts) counts[kv.first] += kv.second;
      for (auto& kv : r.probes) probes[kv.first] += kv.second;
      if (states.size() < 2000000) states.insert(r.states.begin(), r.states.end());
      if (r.violated) {
        bool k = false; for (auto& kn : known) if (kn.property == P.id && kn.key == r.v.key) { known_hits[kn.key]++; k = true; }
        if (!k) { auto it = viol.find(r.v.key); if (it == viol.end() || j.script.seed < it->second.first.seed) viol[r.v.key] = {j.script, r}; stop = stop || viol.size() >= 1; }
      } else if (j.audit) { Job q; q.script = j.script; q.is_repeat = true; q.expect = r.hash; repeat.push_back(q); }
    }
    if (Now() - t0 > budget) stop = true;
  }
  for (auto& kn : known) if (kn.property == P.id && known_hits.count(kn.key)) printf("KNOWN-FINDING: property=%s %s (%ld runs)\n", P.id.c_str(), kn.text.c_str(), known_hits[kn.key]);
  int rc = 0; double search_s = Now() - t0;
  for (auto& kv : viol) {
    long tried = 0; Script m = Minimise(P, kv.second.first, kv.first, workers, 45, tried);
    Result r = RunOne(P, m, 0), r2 = RunOne(P, m, 1);
    if (!r.violated) { m = kv.second.first; r = RunOne(P, m, 0); r2 = RunOne(P, m, 1); }
    mkdir(replay_dir.c_str(), 0755);
    std::string path = replay_dir + "/" + P.id + "-" + std::to_string(m.seed) + ".replay";
    bool exact = r.violated && r2.violated && r.hash == r2.hash && r.v.key == r2.v.key;
    WriteFile(path, "# replay of a violation of " + P.id + " found by the simulator; run: sim/run.py --replay <this file>\n" + m.Text() +
                        "violation " + kv.first + "\ndetail " + Esc(r.violated ? r.v.detail : kv.second.second.v.detail) +
                        Fmt("\nhistory %llx\n", (unsigned long long)(r.violated ? r.hash : kv.second.second.hash)));
    printf("violation %s: %s\n  seed %llu; minimised from %zu to %zu events in %ld trial runs; replays exactly: %s\n", kv.first.c_str(),
           (r.violated ? r.v : kv.second.second.v).detail.c_str(), (unsigned long long)m.seed, kv.second.first.ev.size(), m.ev.size(), tried, exact ? "yes" : "no");
    printf("VIOLATION property=%s replay=%s\n", P.id.c_str(), path.c_str());
    rc = 1;
  }
  double wall = Now() - t0;
  std::string o = "{\n \"property\": " + JStr(P.id) + ",\n \"tier\": " + JStr(tier) + Fmt(",\n \"seed\": %llu,\n \"level\": \"exploration\",\n", (unsigned long long)base);
  o += " \"coverage\": {\n" + Fmt("  \"evaluations\": %ld,\n  \"distinct_nontrivial\": %ld,\n", done, (long)std::min<size_t>(histories.size(), nontrivial));
  o += "  \"rule\": " + JStr("one evaluation = one simulated run of a script generated from its seed; non-trivial = the run injected at least one fault or scheduling perturbation and evaluated the property; distinct = different recorded history hash") + ",\n";
  o += "  \"samples\": ["; for (size_t i = 0; i < samples.size(); i++) o += (i ? ", " : "") + JStr(samples[i]); o += "],\n";
  o += Fmt("  \"runs_per_hour\": %.0f,\n  \"simulated_time_s\": %.6g,\n  \"distinct_histories\": %zu,\n  \"distinct_states\": %zu,\n", done / std::max(1e-9, search_s) * 3600, sim_time, histories.size(), states.size());
  o += "  \"states_measure\": " + JStr(P.states_measure) + ",\n  \"faults_and_events_injected\": " + JMap(counts) + ",\n  \"predicates\": " + JMap(probes) + ",\n";
  o += Fmt("  \"repeatability_audits\": %ld,\n  \"repeatability_mismatches\": %ld,\n  \"harness_errors\": %ld,\n", audits, audit_bad, errors);
  o += "  \"real_code\": " + JStr(P.real) + ",\n  \"stubs\": " + JStr(P.stub) + ",\n  \"requested_runs\": " + std::to_string(want) + "\n },\n";
  o += " \"assumptions\": [" + JStr(P.level_note) + "],\n" + Fmt(" \"wall_s\": %.2f,\n \"violations\": %zu\n}\n", wall, viol.size());
  if (!evidence.empty()) WriteFile(evidence, o);
  printf("%s %s: %ld runs (%ld non-trivial, %zu distinct histories, %zu states), %.0f simulated s, %.1f s wall, repeatability %ld/%ld\n", P.id.c_str(), tier.c_str(), done, nontrivial,
         histories.size(), states.size(), sim_time, wall, audits - audit_bad, audits);
  if (rc == 0 && done < std::max(1L, want / 50)) { fprintf(stderr, "too few runs completed\n"); return 2; }
  if (rc == 0 && errors > done / 10) return 2;
  return rc;
}

int Main(int argc, char** argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("S2ESIM_ASLR_TRIED")) {
    setenv("S2ESIM_ASLR_TRIED", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  setenv("TZ", "UTC", 1); tzset();
  std::string id, tier = "quick", replay_dir = "/verif/replays", evidence, known = "/verif/known_findings.txt", replay, dump; uint64_t seed = 1; long runs = 0, once = -1;
  double budget = 0; int workers = (int)sysconf(_SC_NPROCESSORS_ONLN); if (workers < 1) workers = 1; if (workers > 16) workers = 16;
  bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--check") id = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--runs") runs = atol(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--replay-dir") replay_dir = nx();
    else if (a == "--evidence") evidence = nx(); else if (a == "--known") known = nx(); else if (a == "--replay") replay = nx();
    else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--once") once = atol(nx().c_str()); else if (a == "--list") list = true; else if (a == "--dump") dump = nx();
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  if (list) { for (auto& p : Reg()) printf("%s\n", p.id.c_str()); return 0; }
  const char* tmp = getenv("TMPDIR"); std::string root = tmp && *tmp && access(tmp, W_OK) == 0 ? tmp : "/tmp"; if (access("/dev/shm", W_OK) == 0) root = "/dev/shm";
  g_base = root + "/s2esim.XXXXXX"; std::vector<char> b(g_base.begin(), g_base.end()); b.push_back(0);
  if (!mkdtemp(b.data())) { perror("mkdtemp"); return 2; }
  g_base = b.data();
  struct Clean { ~Clean() { std::string d = g_base; RmTree(d); } } clean;
  if (!replay.empty()) {
    Script s; std::map<std::string, std::string> meta; if (!Script::Parse(ReadFile(replay), s, &meta)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    const Property* P = Find(s.property); if (!P) return 2;
    Result r = RunOne(*P, s, 0, true);
    printf("history %llx (recorded %s)\n", (unsigned long long)r.hash, meta["history"].c_str());
    if (r.violated) { printf("violation %s: %s\nVIOLATION property=%s replay=%s\n", r.v.key.c_str(), r.v.detail.c_str(), s.property.c_str(), replay.c_str()); return 1; }
    printf("no violation\n"); return 0;
  }
  const Property* P = Find(id); if (!P) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
  if (once >= 0) {
    Script s = P->generate(once, tier == "thorough"); s.seed = once; s.property = P->id; if (!dump.empty()) WriteFile(dump, s.Text());
    double t = Now(); Result r = RunOne(*P, s, 0, true);
    printf("hash %llx simtime %g nontrivial %d wall %.3f counts %s probes %s\n", (unsigned long long)r.hash, r.sim_time, r.nontrivial, Now() - t, JMap(r.counts).c_str(), JMap(r.probes).c_str());
    if (r.violated || r.harness_error) printf("%s: %s\n", r.v.key.c_str(), r.v.detail.c_str());
    return r.violated;
  }
  if (budget <= 0) budget = tier == "thorough" ? 600 : 60;
  return Check(*P, tier, seed, runs, budget, replay_dir, evidence, known, workers);
}
}  // namespace sim
