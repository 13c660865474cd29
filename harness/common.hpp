// Shared runner for the property monitors: deterministic case generation, violation recording,
// coverage counters, crash attribution (the case under way is always on disk).
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mon {

using cd = std::complex<double>;

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed) {}
    std::uint64_t next() {
        s += 0x9e3779b97f4a7c15ull;
        auto z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    double u() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int lo, int hi) { // inclusive
        return lo + static_cast<int>(next() % static_cast<std::uint64_t>(hi - lo + 1));
    }
    bool p(double prob) { return u() < prob; }
    template<class T> T pick(std::vector<T> const& v) { return v[next() % v.size()]; }
    double q(double a, double b, int den = 64) { // multiple of 1/den: exact in float
        return std::round(u(a, b) * den) / den;
    }
    template<class T> void shuffle(std::vector<T>& v) {
        for (std::size_t k = v.size(); k > 1; --k) { std::swap(v[k - 1], v[next() % k]); }
    }
};

inline std::uint64_t hash64(std::uint64_t h, std::uint64_t v) {
    Rng r(h ^ (v * 0xff51afd7ed558ccdull));
    return r.next();
}
inline std::uint64_t hash64(std::uint64_t h, std::string const& v) {
    for (auto c : v) { h = hash64(h, static_cast<unsigned char>(c)); }
    return h;
}

inline std::string json_escape(std::string const& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') { o += "\\n"; }
        else if (c < 0x20) { o += ' '; }
        else { o += static_cast<char>(c); }
    }
    return o;
}

/// Thrown by the monitors to end a case after a violation was recorded
struct CaseFailed {};
/// Thrown by a generator that produced something outside of the property's domain
struct CaseSkipped { std::string why; };

struct Violation { std::string key, what, replay; };

struct Context {
    std::string prop;
    std::uint64_t seed = 1;
    std::string case_name;       ///< "r<k>" random or "p:<name>" pinned
    std::string describe;        ///< how the case was made (filled by the case as it goes)
    Rng rng{0};
    std::vector<Violation> violations;
    std::map<std::string, std::int64_t> counters;
    std::map<std::string, std::unordered_set<std::uint64_t>> distinct;
    std::vector<std::string> samples;
    std::int64_t evaluations = 0, skipped = 0;
    bool nontrivial = false;     ///< set by the case
    std::uint64_t signature = 0; ///< what made it distinct
    bool verbose = false;

    void count(std::string const& name, std::int64_t n = 1) { counters[name] += n; }
    void seen(std::string const& set, std::uint64_t h) {
        auto& d = distinct[set];
        if (d.size() < 200000) { d.insert(h); }
    }
    void sig(std::uint64_t v) { signature = hash64(signature, v); }
    void note(std::string const& s) { describe += s; describe += ' '; if (verbose) { std::fprintf(stderr, "%s\n", s.c_str()); } }

    /// A monitor found the property broken
    void violation(std::string const& what) {
        if (violations.size() < 20) {
            violations.push_back({case_name, what, describe});
        }
        if (verbose) { std::fprintf(stderr, "violation in %s: %s\n  %s\n", case_name.c_str(), what.c_str(), describe.c_str()); }
        throw CaseFailed{};
    }
    void check(bool ok, std::string const& what) {
        ++counters["monitor_checks"];
        if (!ok) { violation(what); }
    }
    template<class F> void require(bool ok, F what) {
        ++counters["monitor_checks"];
        if (!ok) { violation(what()); }
    }
};

inline std::string str(double v) { char b[64]; std::snprintf(b, sizeof b, "%.9g", v); return b; }
inline std::string str(cd v) { return "(" + str(v.real()) + "," + str(v.imag()) + ")"; }
template<class T> std::string istr(T v) { return std::to_string(v); }

using CaseFn = std::function<void(Context&)>;

struct Suite {
    std::string prop;
    CaseFn random_case;
    std::vector<std::pair<std::string, CaseFn>> pinned;
    std::string rule;
};

namespace detail {
    inline int& progress_fd() { static int fd = -1; return fd; }
    inline void progress(std::string const& s) {
        auto fd = progress_fd();
        if (fd < 0) { return; }
        char buf[256];
        std::snprintf(buf, sizeof buf, "%-240s\n", s.c_str());
        if (pwrite(fd, buf, std::strlen(buf), 0) < 0) { std::abort(); }
    }
}

inline void run_case(Suite const& s, Context& c, std::string const& name, CaseFn const& fn) {
    c.case_name = name;
    c.describe.clear();
    c.nontrivial = false;
    c.signature = 0;
    c.rng = Rng(hash64(hash64(c.seed, s.prop), name));
    detail::progress(name);
    ++c.evaluations;
    try {
        fn(c);
    } catch (CaseFailed const&) {
        return;
    } catch (CaseSkipped const& e) {
        ++c.skipped;
        c.count("skipped: " + e.why);
        return;
    } catch (std::exception const& e) {
        try { c.violation(std::string("unexpected exception: ") + e.what()); } catch (CaseFailed const&) {}
        return;
    }
    if (c.nontrivial) {
        c.seen("cases", c.signature);
        if (c.samples.size() < 3) { c.samples.push_back(name + ": " + c.describe.substr(0, 700)); }
    }
}

/// --seed S --from A --to B --step D [--case NAME] --out FILE --progress FILE
inline int main_suite(Suite const& s, int argc, char** argv) {
    Context c;
    c.prop = s.prop;
    long from = 0, to = 10, step = 1;
    std::string out, only, progress;
    bool pinned = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") { c.seed = std::strtoull(val().c_str(), nullptr, 10); }
        else if (a == "--from") { from = std::atol(val().c_str()); }
        else if (a == "--to") { to = std::atol(val().c_str()); }
        else if (a == "--step") { step = std::atol(val().c_str()); }
        else if (a == "--case") { only = val(); c.verbose = true; }
        else if (a == "--out") { out = val(); }
        else if (a == "--progress") { progress = val(); }
        else if (a == "--pinned") { pinned = true; }
        else if (a == "--list-pinned") {
            for (auto const& p : s.pinned) { std::printf("p:%s\n", p.first.c_str()); }
            return 0;
        }
    }
    if (!progress.empty()) {
        detail::progress_fd() = open(progress.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
    }

    if (!only.empty()) {
        bool found = false;
        if (only.compare(0, 2, "p:") == 0) {
            for (auto const& p : s.pinned) {
                if ("p:" + p.first == only) { run_case(s, c, only, p.second); found = true; }
            }
        } else {
            run_case(s, c, only, s.random_case); found = true;
        }
        if (!found) { std::fprintf(stderr, "no such case\n"); return 3; }
        std::fprintf(stderr, "%s\n", c.describe.c_str());
    } else {
        if (pinned) {
            for (auto const& p : s.pinned) { run_case(s, c, "p:" + p.first, p.second); }
        }
        if (s.random_case) {
            for (auto k = from; k < to; k += step) {
                run_case(s, c, "r" + std::to_string(k), s.random_case);
            }
        }
    }
    detail::progress("done");

    if (!out.empty()) {
        std::ostringstream j;
        j << "{\"prop\":\"" << s.prop << "\",\"rule\":\"" << json_escape(s.rule) << "\"";
        j << ",\"evaluations\":" << c.evaluations << ",\"skipped\":" << c.skipped;
        j << ",\"counters\":{";
        auto first = true;
        for (auto const& p : c.counters) {
            j << (first ? "" : ",") << '"' << json_escape(p.first) << "\":" << p.second; first = false;
        }
        j << "},\"distinct\":{";
        first = true;
        for (auto const& p : c.distinct) {
            j << (first ? "" : ",") << '"' << json_escape(p.first) << "\":["; first = false;
            auto f2 = true;
            for (auto h : p.second) { j << (f2 ? "" : ",") << (h >> 12); f2 = false; }
            j << "]";
        }
        j << "},\"samples\":[";
        first = true;
        for (auto const& p : c.samples) { j << (first ? "" : ",") << '"' << json_escape(p) << '"'; first = false; }
        j << "],\"violations\":[";
        first = true;
        for (auto const& v : c.violations) {
            j << (first ? "" : ",") << "{\"key\":\"" << json_escape(v.key) << "\",\"what\":\"" << json_escape(v.what)
              << "\",\"case\":\"" << json_escape(v.replay) << "\"}";
            first = false;
        }
        j << "]}\n";
        auto f = std::fopen(out.c_str(), "w");
        if (!f) { return 3; }
        std::fputs(j.str().c_str(), f);
        std::fclose(f);
    }
    return c.violations.empty() ? 0 : 1;
}

} // namespace mon
