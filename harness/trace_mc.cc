// C22: exported traces.  Programs of nested, sequential, throwing, unwinding-time and other-thread
// scopes are enumerated under a clock the harness owns; the exported JSON is parsed with a strict
// parser and compared with the list of scopes that ended normally.
#include <sys/syscall.h>
#include <unistd.h>
#include <chrono>
#include <limits>
#include <new>
#include <thread>
#include <mini_opt/tracing.hpp>
#include <nlohmann/json.hpp>
#include "mc.hpp"
using namespace mini_opt;
using mc::X;
using mc::cat;
using json = nlohmann::json;

// ---- the clock seam: definitions here take precedence over the ones in libstdc++.so ---------------
static std::int64_t g_now_ns = 0;
static int g_now_calls = 0;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  ++g_now_calls;
  return time_point(duration(g_now_ns));
}
steady_clock::time_point steady_clock::now() noexcept {
  ++g_now_calls;
  return time_point(duration(g_now_ns));
}
} } }

struct Expect {
  std::vector<std::string> names;  // acceptable spellings
  std::int64_t start_ns, end_ns;
  std::uint32_t tid;
};
struct Boom {};

static std::vector<Expect> g_exp;
static int g_ops_left = 0;
static std::vector<std::int64_t> g_deltas;
static std::size_t g_tick = 0;
static std::vector<std::string_view> g_names;
static int g_max_depth = 3;

static std::uint32_t gettid_() { return static_cast<std::uint32_t>(syscall(SYS_gettid)); }
static void tick() { g_now_ns += g_deltas[g_tick++ % g_deltas.size()]; }

static void compare(const std::string& text, const std::vector<Expect>& want, const char* when) {
  ++X.checks;
  json j;
  try {
    j = json::parse(text);
  } catch (const std::exception& e) {
    X.fail("C22", "invalid-json", cat("exported trace is not valid JSON (", when, "): ", e.what(), "\n", text.substr(0, 600)));
    return;
  }
  try {
    const json& ev = j.at("traceEvents");
    if (!ev.is_array()) throw std::runtime_error("traceEvents is not an array");
    if (ev.size() != want.size()) {
      X.fail("C22", "event-count", cat(when, ": ", ev.size(), " events exported, ", want.size(), " scopes ended normally\n", text.substr(0, 800)));
      return;
    }
    for (std::size_t i = 0; i < want.size(); ++i) {
      const json& e = ev.at(i);
      const Expect& w = want[i];
      const std::string name = e.at("name").get<std::string>();
      bool ok = false;
      for (auto& n : w.names) ok |= n == name;
      if (!ok) X.fail("C22", "name", cat(when, ": event ", i, " is named ", json(name).dump(), ", expected ", json(w.names[0]).dump()));
      if (e.at("ph").get<std::string>() != "X") X.fail("C22", "phase", cat("event ", i, " phase ", e.at("ph").dump()));
      for (const char* f : {"ts", "dur", "pid", "tid"})
        if (!e.at(f).is_number_integer()) X.fail("C22", "number", cat("event ", i, " field ", f, " is ", e.at(f).dump()));
      const long double ts = e.at("ts").is_number_unsigned() ? (long double)e.at("ts").get<std::uint64_t>() : (long double)e.at("ts").get<std::int64_t>();
      const long double du = e.at("dur").is_number_unsigned() ? (long double)e.at("dur").get<std::uint64_t>() : (long double)e.at("dur").get<std::int64_t>();
      const long double dur_ns = (long double)w.end_ns - (long double)w.start_ns;
      if (!(fabsl(ts * 1000 - (long double)w.start_ns) < 1000))
        X.fail("C22", "start", cat(when, ": event ", i, " ts=", (double)ts, "us, scope started at ", w.start_ns, "ns"));
      if (!(fabsl(du * 1000 - dur_ns) < 1000))
        X.fail("C22", "duration", cat(when, ": event ", i, " dur=", (double)du, "us, scope lasted ", (double)dur_ns, "ns"));
      if (e.at("pid").get<std::uint64_t>() != static_cast<std::uint64_t>(getpid())) X.fail("C22", "pid", cat("pid ", e.at("pid").dump()));
      if (e.at("tid").get<std::uint64_t>() != w.tid) X.fail("C22", "tid", cat("event ", i, " tid ", e.at("tid").dump(), " expected ", w.tid));
    }
  } catch (const std::exception& e) {
    X.fail("C22", "structure", cat(when, ": ", e.what(), "\n", text.substr(0, 600)));
  }
}

static void check_now(const char* when) {
  const std::string a = trace_collector::get_instance()->get_trace_json();
  compare(a, g_exp, when);
  const std::string b = trace_collector::get_instance()->get_trace_json();
  if (a != b) X.fail("C22", "export-changes", cat("a second export differs from the first"));
}

static void block(int depth);

template <class Body>
static void in_scope(int flavour, Body&& body) {
  std::int64_t start = 0;
  const std::uint32_t tid = gettid_();
  std::vector<std::string> names;
  auto finish = [&] { g_exp.push_back({names, start, g_now_ns, tid}); };
  if (flavour < static_cast<int>(g_names.size())) {
    names = {std::string(g_names[flavour])};
    { start = g_now_ns; scoped_trace t(g_names[flavour]); tick(); body(); tick(); }
    finish();
  } else if (flavour == static_cast<int>(g_names.size())) {
    names = {"macro_identifier"};
    { start = g_now_ns; MINI_OPT_SCOPED_TRACE(macro_identifier); tick(); body(); tick(); }
    finish();
  } else if (flavour == static_cast<int>(g_names.size()) + 1) {
    // the documentation asks for a string literal here
    names = {"literal", "\"literal\""};
    { start = g_now_ns; MINI_OPT_SCOPED_TRACE("literal"); tick(); body(); tick(); }
    finish();
  } else {
    names = {__FUNCTION__};
    { start = g_now_ns; MINI_OPT_FUNCTION_TRACE(); tick(); body(); tick(); }
    finish();
  }
  // two events may have equal start; completion order is the order in which finish() runs
}

struct UnwindGuard {
  bool armed;
  ~UnwindGuard() { if (armed) in_scope(0, [] {}); }
};

static void block(int depth) {
  while (g_ops_left > 0) {
    const int nscopes = 2;
    const int op = X.choose(depth < g_max_depth ? 8 : 4, "op");
    --g_ops_left;
    tick();
    switch (op) {
      case 0: return;
      case 1: throw Boom{};
      case 2: check_now("mid-run"); break;
      case 3:  // a scope that only lives while an exception from an inner scope is being handled
        try { in_scope(0, [] { throw Boom{}; }); } catch (const Boom&) { in_scope(1 % nscopes, [] {}); }
        break;
      case 4: case 5: in_scope(op - 4, [&] { block(depth + 1); }); break;
      case 6: try { in_scope(0, [&] { block(depth + 1); }); } catch (const Boom&) {} break;
      case 7: { UnwindGuard g{true}; block(depth + 1); break; }
    }
  }
}

int main(int argc, char** argv) {
  X.parse(argc, argv);
  const bool T = X.thorough();
  static const char kSub[] = "prefix-middle-suffix";
  static const char kNul[] = "a\0b";
  const std::vector<std::string_view> all_names{
      "plain", "", "with \"quotes\"", "back\\slash", "new\nline", "tab\tcr\r", std::string_view("\x01\x1f\x7f", 3),
      "{}", "{0} {name} {{", "}}", "%s%n", "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", std::string_view(kSub + 7, 6), std::string_view(kNul, 3),
      "\\", "\"", "\\\"", "</script>", "/", "\b\f", "trailing\\"};

  return X.run([&] {
    const int mode = X.choose(5, "mode");
    g_exp.clear();
    g_tick = 0;
    g_names = {"alpha", "beta"};
    g_deltas = {1700, 0, 999, 1000, 23456, 1};
    g_now_ns = 1000000000123456789ll;
    g_max_depth = 3;
    auto* c = trace_collector::get_instance();
    // An empty collector for every execution (its destructor is not accessible here, so the previous
    // contents are leaked).
    new (c) trace_collector();
    if (mode == 0) {  // programs
      g_ops_left = 1 + X.choose(T ? 7 : 6, "ops");
      if (X.choose(2, "clock stands still")) g_deltas = {0};
      try { block(0); } catch (const Boom&) {}
      check_now("end");
    } else if (mode == 1) {  // names and scope flavours, in pairs
      const int k = X.choose(static_cast<int>(all_names.size()) + 3, "name");
      const int k2 = X.choose(static_cast<int>(all_names.size()) + 3, "name2");
      const bool nested = X.flag("nested");
      X.shard_point();
      g_names = all_names;
      in_scope(k, [&] { if (nested) in_scope(k2, [] {}); });
      if (!nested) in_scope(k2, [] {});
      check_now("names");
    } else if (mode == 2) {  // clock values
      const std::vector<std::int64_t> t0s{0, 1, -1, 999, 1000, -999, -1000, 1000000000000000000ll, std::numeric_limits<std::int64_t>::max() / 4, -(std::numeric_limits<std::int64_t>::max() / 4)};
      const std::vector<std::int64_t> ds{0, 1, 999, 1000, 1001, 1999, 2000, 1000000, 3600000000000ll, 86400000000000ll * 365, -1, -1000, -5000000, 4294967296000ll, 2147483648000ll};
      g_now_ns = X.pick(t0s, "start");
      const std::int64_t d1 = X.pick(ds, "duration"), d2 = X.pick(ds, "duration2");
      X.shard_point();
      g_deltas = {d1, 0, d2, 0};
      in_scope(0, [&] {});
      in_scope(1, [&] {});
      check_now("clock");
    } else if (mode == 3) {  // other threads, one after the other, interleaved with this one
      const int n = X.choose(4, "threads");
      const bool reuse = X.flag("reuse");
      X.shard_point();
      in_scope(0, [] {});
      for (int i = 0; i < n; ++i) {
        std::thread th([&] { in_scope(1, [&] { if (reuse) in_scope(0, [] {}); }); if (reuse) in_scope(1, [] {}); });
        th.join();
        in_scope(0, [] {});
      }
      check_now("threads");
    } else {  // retention, on a collector of its own and through the global one
      const std::vector<int> counts{0, 1, 2, 99998, 99999, 100000, 100001, 100002, 100007, 150000, 200001};
      const int n = X.pick(counts, "count");
      const int mid = X.choose(2, "export-midway");
      X.shard_point();
      trace_collector& mine = *new trace_collector();
      auto submit = [&](int i) {
        mine.submit_event(trace_event{i % 2 ? std::string_view("odd") : std::string_view("even"), 5000000 + i, 4294967295u, static_cast<std::uint32_t>(4294960000u + i % 7), 1000ll * i});
      };
      for (int i = 0; i < n; ++i) {
        if (mid && i == n / 2) (void)mine.get_trace_json();
        submit(i);
      }
      const std::string text = mine.get_trace_json();
      ++X.checks;
      try {
        const json j = json::parse(text);
        const json& ev = j.at("traceEvents");
        const int keep = std::min(n, 100000);
        if (static_cast<int>(ev.size()) != keep) X.fail("C22", "retention", cat(n, " events submitted, ", ev.size(), " retained"));
        else
          for (int i = 0; i < keep; ++i) {
            const int id = n - keep + i;
            const json& e = ev[static_cast<std::size_t>(i)];
            if (e.at("ts").get<std::int64_t>() != 5000000 + id || e.at("dur").get<std::int64_t>() != id ||
                e.at("name").get<std::string>() != (id % 2 ? "odd" : "even") || e.at("pid").get<std::uint64_t>() != 4294967295u ||
                e.at("tid").get<std::uint64_t>() != static_cast<std::uint64_t>(4294960000u + id % 7)) {
              X.fail("C22", "retention-order", cat("event ", i, " of ", keep, " is ", e.dump(), ", expected number ", id));
              break;
            }
          }
      } catch (const std::exception& e) {
        X.fail("C22", "retention-json", cat(n, " events: ", e.what()));
      }
      X.state(mc::Hash().add(mode).add(n).add(mid).h);
      X.outcome(mc::Hash().add(n).h);
      return;
    }
    mc::Hash h;
    h.add(mode);
    for (auto& e : g_exp) {
      for (char ch : e.names[0]) h.add(static_cast<unsigned char>(ch));
      h.add(e.start_ns).add(e.end_ns);
      X.state(h.h);
    }
    X.outcome(mc::Hash().add(g_exp.size()).h);
  });
}
