// Core of the runtime-monitoring harness: deterministic case runner, violation recorder,
// coverage ("what did the monitors observe") accounting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
#include <fstream>
#include <memory>
#include <exception>
#include <stdexcept>
#include <chrono>
#include <algorithm>
#include <mutex>
#include <atomic>

namespace vh
{
    // ---- deterministic random numbers -------------------------------------------------------
    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(seed) {}
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
        int range(int lo, int hi) { return (int)(lo + (int64_t)below((uint64_t)((int64_t)hi - lo + 1))); } // inclusive
        int64_t range64(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
        bool chance(int percent) { return (int)below(100) < percent; }
        double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
        template <typename T> const T& pick(const std::vector<T>& v) { return v[(size_t)below(v.size())]; }
        template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
        template <typename T> void shuffle(std::vector<T>& v)
        {
            for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[(size_t)below(i)]);
        }
        std::vector<uint8_t> bytes(size_t n)
        {
            std::vector<uint8_t> r(n);
            size_t i = 0;
            for (; i + 8 <= n; i += 8) { uint64_t v = next(); memcpy(&r[i], &v, 8); }
            if (i < n) { uint64_t v = next(); memcpy(&r[i], &v, n - i); }
            return r;
        }
    };

    inline uint64_t hash64(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
    {
        const uint8_t* b = (const uint8_t*)p;
        for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
        h ^= h >> 29; h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
        return h;
    }
    inline uint64_t hash64(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) { return hash64(s.data(), s.size(), h); }

    // ---- violations ---------------------------------------------------------------------------
    struct Violation
    {
        std::string key, msg;
    };

    [[noreturn]] inline void fail(const std::string& key, const std::string& msg) { throw Violation{ key, msg }; }

#define VH_CHECK(cond, key, expr) do { ::vh::ctx().evals++; if (!(cond)) { std::ostringstream _o; _o << expr; ::vh::fail(key, std::string(#cond) + " -- " + _o.str()); } } while (0)
#define VH_EQ(a, b, key, expr) do { ::vh::ctx().evals++; const auto _va = (a); const auto _vb = (b); if (!(_va == _vb)) { std::ostringstream _o; _o << #a " == " #b ": got <" << _va << "> vs <" << _vb << "> -- " << expr; ::vh::fail(key, _o.str()); } } while (0)

    // ---- context --------------------------------------------------------------------------------
    struct Ctx
    {
        std::string property;
        uint64_t seed = 1;
        bool thorough = false;
        bool verbose = false;
        uint64_t caseNo = 0;
        uint64_t evals = 0;
        std::map<std::string, uint64_t> events;
        std::unordered_set<uint64_t> distinct;
        std::vector<std::string> samples;
        struct Rec { uint64_t caseNo; std::string key, msg; };
        std::vector<Rec> violations;
        std::string currentDesc;     // description of the running case (for reports)
        void ev(const std::string& n, uint64_t k = 1) { events[n] += k; }
        // a distinct non-trivial situation that the monitors judged
        // (mixed into one signature per case; a case that never calls this counts as trivial)
        uint64_t sig = 0; bool nontrivial = false;
        void seen(const std::string& situation) { sig = hash64(situation, sig ^ 0xcbf29ce484222325ull); nontrivial = true; }
        void seenHash(uint64_t h) { sig = hash64(&h, sizeof(h), sig ^ 0xcbf29ce484222325ull); nontrivial = true; }
        void sample(const std::string& s) { if (samples.size() < 6) samples.push_back(s); }
    };
    inline Ctx& ctx() { static Ctx c; return c; }
    inline void ev(const std::string& n, uint64_t k = 1) { ctx().ev(n, k); }

    inline std::string jsonEscape(const std::string& s)
    {
        std::string o;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
            else if (c == '\n') o += "\\n";
            else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
            else o += (char)c;
        }
        return o;
    }

    struct Options
    {
        uint64_t casesQuick = 100, casesThorough = 1000;
        bool catchForeign = true;  // an exception of std::exception type escaping the case body is a violation
    };

    using CaseFn = std::function<void(Rng&, uint64_t)>;

    // progress is written to a file so that the driver knows the case number after a crash
    inline void writeProgress(const char* path, uint64_t n)
    {
        static FILE* f = nullptr;
        if (!path) return;
        if (!f) f = fopen(path, "w");
        if (!f) return;
        rewind(f); fprintf(f, "%020llu\n", (unsigned long long)n); fflush(f);
    }

    inline int runMain(int argc, char** argv, const char* property, const Options& opt, const CaseFn& fn)
    {
        Ctx& c = ctx();
        c.property = property;
        uint64_t worker = 0, workers = 1, onlyCase = UINT64_MAX, cases = 0;
        const char* out = nullptr; const char* progress = nullptr;
        double softBudget = 1e9; uint64_t from = 0;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
            if (a == "--seed") c.seed = strtoull(nx(), 0, 10);
            else if (a == "--tier") c.thorough = std::string(nx()) == "thorough";
            else if (a == "--worker") worker = strtoull(nx(), 0, 10);
            else if (a == "--workers") workers = strtoull(nx(), 0, 10);
            else if (a == "--case") onlyCase = strtoull(nx(), 0, 10);
            else if (a == "--cases") cases = strtoull(nx(), 0, 10);
            else if (a == "--from") from = strtoull(nx(), 0, 10);
            else if (a == "--out") out = nx();
            else if (a == "--progress") progress = nx();
            else if (a == "--budget") softBudget = atof(nx());
            else if (a == "-v") c.verbose = true;
        }
        if (cases == 0) cases = c.thorough ? opt.casesThorough : opt.casesQuick;
        auto t0 = std::chrono::steady_clock::now();
        uint64_t ran = 0; bool stoppedEarly = false;
        for (uint64_t i = from; i < cases || onlyCase != UINT64_MAX; ++i)
        {
            if (onlyCase != UINT64_MAX) i = onlyCase;
            else if (i % workers != worker) continue;
            c.caseNo = i; c.currentDesc.clear(); c.sig = 0; c.nontrivial = false;
            writeProgress(progress, i);
            Rng rng(hash64(&i, sizeof(i), 0x1234567ull + c.seed * 0x9E3779B97F4A7C15ull));
            try { fn(rng, i); }
            catch (const Violation& v)
            {
                c.violations.push_back({ i, v.key, v.msg + (c.currentDesc.empty() ? "" : " [case: " + c.currentDesc + "]") });
            }
            catch (const std::exception& e)
            {
                c.violations.push_back({ i, "unexpected-exception", std::string("exception escaped: ") + e.what() + " [case: " + c.currentDesc + "]" });
            }
            ++ran;
            if (c.nontrivial) c.distinct.insert(c.sig);
            if (c.verbose && !c.violations.empty()) std::cerr << "case " << i << ": " << c.violations.back().key << ": " << c.violations.back().msg << "\n";
            if (onlyCase != UINT64_MAX) break;
            if (c.violations.size() >= 10) break;
            double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (el > softBudget) { stoppedEarly = true; break; }
        }
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        std::ostringstream o;
        o << "{\"property\":\"" << property << "\",\"cases\":" << ran << ",\"evals\":" << c.evals << ",\"stopped_early\":" << (stoppedEarly ? "true" : "false")
            << ",\"wall\":" << el << ",\"events\":{";
        bool first = true;
        for (auto& e : c.events) { o << (first ? "" : ",") << "\"" << jsonEscape(e.first) << "\":" << e.second; first = false; }
        o << "},\"samples\":["; first = true;
        for (auto& s : c.samples) { o << (first ? "" : ",") << "\"" << jsonEscape(s) << "\""; first = false; }
        o << "],\"violations\":["; first = true;
        for (auto& v : c.violations) { o << (first ? "" : ",") << "{\"case\":" << v.caseNo << ",\"key\":\"" << jsonEscape(v.key) << "\",\"msg\":\"" << jsonEscape(v.msg) << "\"}"; first = false; }
        o << "],\"distinct\":["; first = true; size_t cnt = 0;
        for (auto h : c.distinct) { if (++cnt > 200000) break; o << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
        o << "]}\n";
        if (out) { std::ofstream f(out); f << o.str(); f.close(); if (!f) return 3; }
        else
        {
            std::cerr << "cases=" << ran << " evals=" << c.evals << " distinct=" << c.distinct.size() << " wall=" << el << " violations=" << c.violations.size() << "\n";
            for (auto& e : c.events) std::cerr << "  " << e.first << "=" << e.second << "\n";
            for (auto& v : c.violations) std::cerr << "  VIOLATION case " << v.caseNo << " key=" << v.key << " " << v.msg << "\n";
        }
        return c.violations.empty() ? 0 : 1;
    }

    // hex helpers
    inline std::string hex(const uint8_t* p, size_t n, size_t maxn = 48)
    {
        std::string s; char b[4];
        for (size_t i = 0; i < n && i < maxn; ++i) { snprintf(b, sizeof(b), "%02x", p[i]); s += b; }
        if (n > maxn) s += "..";
        return s;
    }
    inline std::string diffBytes(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b)
    {
        std::ostringstream o; o << "sizes " << a.size() << "/" << b.size();
        size_t n = std::min(a.size(), b.size());
        for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) { o << ", first difference at " << i << ": " << (int)a[i] << " vs " << (int)b[i]; break; }
        return o.str();
    }
}
