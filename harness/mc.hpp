// Stateless model-checking core: depth-first enumeration of every choice sequence of a harness body.
//
// The body is re-executed from scratch for each sequence (the code under test cannot be copied
// mid-run); mc::choose(n, label) is the only source of nondeterminism.  Replaying a prefix must meet
// the same number of alternatives at every point, otherwise the run is nondeterministic and the
// explorer stops with a hard error (exit 3) instead of reporting anything.
#pragma once
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <unistd.h>
#include <time.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Skip {};  // thrown by shard_point()/skip() *outside* of code under test only

struct Point {
  int c;
  int n;
  const char* label;
};

struct Violation {
  std::string prop, key, msg;
};

struct Report {
  std::string key, msg;
  std::vector<int> choices;
  std::vector<std::string> labels;
};

class Explorer {
 public:
  // ---- configuration -------------------------------------------------------------------------
  std::string prop;     // property under check
  std::string tier = "quick";
  bool thorough() const { return tier == "thorough"; }
  bool dump_samples = false;
  int shard = 0, nshards = 1;
  double limit_s = 1e9;
  bool replay = false;
  std::vector<int> replay_choices;
  std::string out_path, cur_path;
  std::map<std::string, std::string> opt;

  // ---- counters ------------------------------------------------------------------------------
  std::uint64_t executions = 0, transitions = 0, nontrivial = 0, checks = 0, skipped = 0;
  std::unordered_set<std::uint64_t> states;
  std::unordered_set<std::uint64_t> outcomes;
  std::map<std::string, std::uint64_t> tally;
  std::map<std::string, double> maxima;
  bool capped = false;
  std::vector<std::string> samples;
  std::vector<Report> reports;

  // ---- called by harness bodies --------------------------------------------------------------
  int choose(int n, const char* label) {
    if (n <= 0) hard("choose with no alternatives");
    const std::size_t i = pos_++;
    if (replay) {
      int c = i < replay_choices.size() ? replay_choices[i] : 0;
      if (c >= n) hard("replay choice out of range");
      path_.push_back({c, n, label});
      publish(i, c);
      return c;
    }
    if (i < path_.size()) {
      if (path_[i].n != n) hard("nondeterministic execution: number of alternatives changed");
      publish(i, path_[i].c);
      return path_[i].c;
    }
    path_.push_back({0, n, label});
    publish(i, 0);
    return 0;
  }
  bool flag(const char* label) { return choose(2, label) == 1; }
  template <class T>
  const T& pick(const std::vector<T>& v, const char* label) {
    return v[static_cast<std::size_t>(choose(static_cast<int>(v.size()), label))];
  }
  // A choice whose non-default alternatives consume one unit of the deviation budget.
  int deviations_left = 1 << 30;
  int deviate(int n, const char* label) {
    if (deviations_left <= 0) return 0;
    const int c = choose(n, label);
    if (c != 0) --deviations_left;
    return c;
  }
  // Everything chosen so far identifies the shard that owns this execution.
  void shard_point() {
    if (replay || nshards <= 1) return;
    std::uint64_t h = 1469598103934665603ull;
    for (std::size_t i = 0; i < pos_; ++i) h = mix(h, static_cast<std::uint64_t>(path_[i].c));
    h ^= h >> 29;
    if (static_cast<int>(h % static_cast<std::uint64_t>(nshards)) != shard) throw Skip{};
  }
  void skip() { throw Skip{}; }
  void state(std::uint64_t h) {
    ++transitions;
    if (states.size() < kMaxStates) states.insert(h);
  }
  void outcome(std::uint64_t h) {
    if (outcomes.size() < kMaxStates) outcomes.insert(h);
  }
  void count(const std::string& k, std::uint64_t by = 1) { tally[k] += by; }
  void maximum(const std::string& k, double v) {
    auto [it, fresh] = maxima.emplace(k, v);
    if (!fresh && v > it->second) it->second = v;
  }
  // Record that the property does not hold on the current execution.
  void fail(const std::string& p, const std::string& key, const std::string& msg) {
    if (p != prop) return;
    if (pending_.size() < 4) pending_.push_back({p, key, msg});
  }
  bool want(const char* p) const { return prop == p; }
  void trivial() { trivial_ = true; }
  std::string describe_path() const {
    std::ostringstream s;
    for (std::size_t i = 0; i < std::min(pos_, path_.size()); ++i)
      s << (i ? " " : "") << path_[i].label << "=" << path_[i].c;
    return s.str();
  }
  void set_sample_text(std::string t) { sample_text_ = std::move(t); }

  static std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
  }
  static std::uint64_t bits(double d) {
    std::uint64_t u;
    std::memcpy(&u, &d, 8);
    return u;
  }

  // (std::chrono is replaced by a controlled clock in some harnesses)
  static double mono() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
  }

  // ---- the exploration loop ------------------------------------------------------------------
  template <class F>
  int run(F&& body) {
    const double t0 = mono();
    open_cur();
    for (;;) {
      pos_ = 0;
      if (replay) path_.clear();
      pending_.clear();
      trivial_ = false;
      sample_text_.clear();
      deviations_left = 1 << 30;
      bool was_skipped = false;
      try {
        body();
      } catch (const Skip&) {
        was_skipped = true;
      } catch (const std::exception& e) {
        fail(prop, "uncaught-exception", std::string("uncaught exception: ") + e.what());
      }
      if (cur_) cur_[kCurMax + 1] = static_cast<int>(++ticks_);
      if (!replay && pos_ < path_.size()) hard("nondeterministic execution: path got shorter");
      if (was_skipped) {
        ++skipped;
      } else {
        ++executions;
        if (!trivial_) ++nontrivial;
        // samples: a few executions spread over the run (first, and then at powers of four)
        if ((executions & (executions - 1)) == 0 && samples.size() < 12) {
          samples.push_back(sample_text_.empty() ? describe_path()
                                                 : describe_path() + " :: " + sample_text_);
        }
        for (const auto& v : pending_) report(v);
      }
      if (replay) break;
      if (reports.size() >= 6) break;
      // advance the odometer
      while (!path_.empty() && path_.back().c + 1 >= path_.back().n) path_.pop_back();
      if (path_.empty()) break;
      ++path_.back().c;
      if ((executions & 15) == 0 || (skipped & 1023) == 0) {
        const double el = mono() - t0;
        if (el > limit_s) {
          capped = true;
          break;
        }
      }
    }
    write_out();
    return 0;
  }

  void parse(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto next = [&]() -> std::string {
        if (i + 1 >= argc) hard("missing argument");
        return argv[++i];
      };
      if (a == "--prop") prop = next();
      else if (a == "--tier") tier = next();
      else if (a == "--shard") {
        std::string s = next();
        std::sscanf(s.c_str(), "%d/%d", &shard, &nshards);
      } else if (a == "--limit") limit_s = std::atof(next().c_str());
      else if (a == "--out") out_path = next();
      else if (a == "--cur") cur_path = next();
      else if (a == "--replay") {
        replay = true;
        std::string s = next();
        if (s[0] == '@') {  // a file
          std::ifstream f(s.substr(1));
          s.assign(std::istreambuf_iterator<char>(f), {});
        }
        std::stringstream ss(s);
        std::string tok;
        while (std::getline(ss, tok, ',')) if (!tok.empty()) replay_choices.push_back(std::atoi(tok.c_str()));
      } else if (a == "--opt") {
        std::string s = next();
        auto e = s.find('=');
        opt[s.substr(0, e)] = e == std::string::npos ? "1" : s.substr(e + 1);
      } else hard("unknown argument " + a);
    }
  }

  [[noreturn]] void hard(const std::string& why) {
    std::fprintf(stderr, "HARD ERROR: %s (at %s)\n", why.c_str(), describe_path().c_str());
    std::fflush(stderr);
    ::_exit(3);
  }

 private:
  static constexpr std::size_t kMaxStates = 3000000;
  std::vector<Point> path_;
  std::size_t pos_ = 0;
  std::vector<Violation> pending_;
  bool trivial_ = false;
  std::string sample_text_;
  std::set<std::string> seen_keys_;
  int* cur_ = nullptr;
  static constexpr int kCurMax = 4000;
  unsigned ticks_ = 0;

  void open_cur() {
    if (cur_path.empty()) return;
    int fd = ::open(cur_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) return;
    if (::ftruncate(fd, (kCurMax + 2) * sizeof(int)) != 0) return;
    void* m = ::mmap(nullptr, (kCurMax + 2) * sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    ::close(fd);
    if (m != MAP_FAILED) cur_ = static_cast<int*>(m);
  }
  void publish(std::size_t i, int c) {
    if (cur_ && i < static_cast<std::size_t>(kCurMax)) {
      cur_[1 + i] = c;
      cur_[0] = static_cast<int>(i) + 1;
    }
  }
  void report(const Violation& v) {
    if (!seen_keys_.insert(v.key).second) return;
    Report r;
    r.key = v.key;
    r.msg = v.msg;
    for (std::size_t i = 0; i < std::min(pos_, path_.size()); ++i) {
      r.choices.push_back(path_[i].c);
      r.labels.push_back(path_[i].label);
    }
    reports.push_back(std::move(r));
  }
  static void write_hashes(const std::string& p, const std::unordered_set<std::uint64_t>& hs) {
    std::FILE* f = std::fopen(p.c_str(), "wb");
    if (!f) return;
    std::vector<std::uint64_t> v(hs.begin(), hs.end());
    if (!v.empty()) std::fwrite(v.data(), 8, v.size(), f);
    std::fclose(f);
  }
  static std::string esc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
      if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
      else if (ch < 0x20 || ch >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
      else o += static_cast<char>(ch);
    }
    return o + "\"";
  }
  void write_out() {
    if (out_path.empty()) {
      std::printf("executions=%llu transitions=%llu states=%zu outcomes=%zu nontrivial=%llu skipped=%llu checks=%llu capped=%d reports=%zu\n",
                  (unsigned long long)executions, (unsigned long long)transitions, states.size(), outcomes.size(),
                  (unsigned long long)nontrivial, (unsigned long long)skipped, (unsigned long long)checks, (int)capped, reports.size());
      for (auto& [k, v] : tally) std::printf("  %s: %llu\n", k.c_str(), (unsigned long long)v);
      for (auto& [k, v] : maxima) std::printf("  max %s: %g\n", k.c_str(), v);
      for (auto& r : reports) {
        std::printf("VIOL key=%s\n  %s\n  choices:", r.key.c_str(), r.msg.c_str());
        for (std::size_t i = 0; i < r.choices.size(); ++i) std::printf(" %s=%d", r.labels[i].c_str(), r.choices[i]);
        std::printf("\n  --replay ");
        for (int c : r.choices) std::printf("%d,", c);
        std::printf("\n");
      }
      if (dump_samples) for (auto& s : samples) std::printf("  sample: %s\n", s.c_str());
      return;
    }
    std::FILE* f = std::fopen(out_path.c_str(), "w");
    if (!f) hard("cannot write output");
    std::fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"nontrivial\":%llu,\"skipped\":%llu,\"checks\":%llu,\"capped\":%s",
                 (unsigned long long)executions, (unsigned long long)transitions,
                 (unsigned long long)nontrivial, (unsigned long long)skipped,
                 (unsigned long long)checks, capped ? "true" : "false");
    std::fprintf(f, ",\"tally\":{");
    bool first = true;
    for (auto& [k, v] : tally) { std::fprintf(f, "%s%s:%llu", first ? "" : ",", esc(k).c_str(), (unsigned long long)v); first = false; }
    std::fprintf(f, "},\"maxima\":{");
    first = true;
    for (auto& [k, v] : maxima) { std::fprintf(f, "%s%s:\"%.6g\"", first ? "" : ",", esc(k).c_str(), v); first = false; }
    std::fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& s : samples) { std::fprintf(f, "%s%s", first ? "" : ",", esc(s).c_str()); first = false; }
    std::fprintf(f, "],\"reports\":[");
    first = true;
    for (auto& r : reports) {
      std::fprintf(f, "%s{\"key\":%s,\"msg\":%s,\"choices\":[", first ? "" : ",", esc(r.key).c_str(), esc(r.msg).c_str());
      first = false;
      for (std::size_t i = 0; i < r.choices.size(); ++i) std::fprintf(f, "%s%d", i ? "," : "", r.choices[i]);
      std::fprintf(f, "],\"labels\":[");
      for (std::size_t i = 0; i < r.labels.size(); ++i) std::fprintf(f, "%s%s", i ? "," : "", esc(r.labels[i]).c_str());
      std::fprintf(f, "]}");
    }
    std::fprintf(f, "]}\n");
    std::fclose(f);
    write_hashes(out_path + ".states", states);
    write_hashes(out_path + ".outcomes", outcomes);
  }
};

inline Explorer X;

// FNV-style incremental hash for states.
struct Hash {
  std::uint64_t h = 0x9ae16a3b2f90404full;
  Hash& add(std::uint64_t v) { h = Explorer::mix(h, v); return *this; }
  Hash& d(double v) { return add(Explorer::bits(v)); }
  template <class V> Hash& vec(const V& v) {
    add(static_cast<std::uint64_t>(v.size()));
    for (long i = 0; i < static_cast<long>(v.size()); ++i) d(v.data()[i]);
    return *this;
  }
};

inline bool same_bits(double a, double b) {
  return Explorer::bits(a) == Explorer::bits(b) || (std::isnan(a) && std::isnan(b)) || a == b;
}

template <class... A>
std::string cat(const A&... a) {
  std::ostringstream s;
  s.precision(17);
  (s << ... << a);
  return s.str();
}

}  // namespace mc
