// Common part of all check executables: deterministic randomness, event counting, violation recording.
// A check executable runs numbered cases. Each case derives everything random from (seed, module, case).
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {
    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed) {}
        uint64_t next() {
            uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            return z ^ (z >> 31);
        }
        // 0 .. n-1
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
        bool chance(unsigned num, unsigned den) { return below(den) < num; }
        template<class C> auto& pick(C& c) { return c[below(c.size())]; }
    };

    inline uint64_t mix(uint64_t a, uint64_t b) {
        Rng r(a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15ULL));
        return r.next() ^ (a << 7);
    }
    inline uint64_t hash(const std::string& s) {
        uint64_t h = 1469598103934665603ULL;
        for(unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
        return h;
    }

    // Thrown to abandon the current case after a violation
    struct Stop {};

    struct Violation {
        std::string key, msg;
        long kase;
        std::string ops;
    };

    struct State {
        uint64_t seed = 1;
        bool thorough = false;
        long only = -1;
        long shard = 0, shards = 1;
        std::string out = ".";
        std::string module;
        long kase = -1;
        std::mutex m;
        std::map<std::string, uint64_t> events;
        std::unordered_set<uint64_t> distinct;
        std::vector<std::string> samples;
        std::vector<Violation> violations;
        uint64_t evaluations = 0;
        char* cur = nullptr; // shared mapping, survives a crash: text of the current case
        size_t curpos = 0;
        bool failed_in_case = false;
    };
    inline State& S() {
        static State* s = new State();
        return *s;
    }
    constexpr size_t CURSIZE = 1 << 18;

    inline std::string fmtv(const char* f, va_list l) {
        char buf[4096];
        vsnprintf(buf, sizeof buf, f, l);
        return buf;
    }
    inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
    inline std::string fmt(const char* f, ...) {
        va_list l;
        va_start(l, f);
        auto r = fmtv(f, l);
        va_end(l);
        return r;
    }

    // Append a line to the trace of the current case
    inline void op(const char* f, ...) __attribute__((format(printf, 1, 2)));
    inline void op(const char* f, ...) {
        va_list l;
        va_start(l, f);
        auto r = fmtv(f, l);
        va_end(l);
        auto& s = S();
        std::lock_guard<std::mutex> g(s.m);
        if(s.curpos + r.size() + 2 >= CURSIZE) {
            // keep the newest half
            size_t half = CURSIZE / 2;
            memmove(s.cur, s.cur + s.curpos - half, half);
            s.curpos = half;
            if(r.size() + 2 >= CURSIZE - s.curpos) r.resize(1000);
        }
        memcpy(s.cur + s.curpos, r.data(), r.size());
        s.curpos += r.size();
        s.cur[s.curpos++] = '\n';
        s.cur[s.curpos] = 0;
    }
    inline void count(const std::string& ev, uint64_t n = 1) {
        auto& s = S();
        std::lock_guard<std::mutex> g(s.m);
        s.events[ev] += n;
    }
    inline void distinct(uint64_t h) {
        auto& s = S();
        std::lock_guard<std::mutex> g(s.m);
        if(s.distinct.size() < 2000000) s.distinct.insert(h);
    }
    inline void eval(uint64_t n = 1) {
        auto& s = S();
        std::lock_guard<std::mutex> g(s.m);
        s.evaluations += n;
    }
    inline void sample(const std::string& t) {
        auto& s = S();
        std::lock_guard<std::mutex> g(s.m);
        if(s.samples.size() < 3) s.samples.push_back(t.substr(0, 600));
    }

    // A line of what the case observed, which must not depend on how the library is built (compared by check.py)
    inline std::string& transcript() {
        static std::string* t = new std::string();
        return *t;
    }
    inline void say(const char* f, ...) __attribute__((format(printf, 1, 2)));
    inline void say(const char* f, ...) {
        va_list l;
        va_start(l, f);
        transcript() += fmtv(f, l) + "\n";
        va_end(l);
    }
    // End of the case: its hash, and the text where a single case is run
    inline void end_transcript() {
        auto& s = S();
        FILE* f = fopen((s.out + "/transcripts.txt").c_str(), "a");
        fprintf(f, "%ld %016llx\n", s.kase, (unsigned long long)hash(transcript()));
        fclose(f);
        if(s.only >= 0) {
            f = fopen((s.out + "/transcript.txt").c_str(), "w");
            fwrite(transcript().data(), 1, transcript().size(), f);
            fclose(f);
        }
        transcript().clear();
    }

    inline std::string esc(const std::string& in) {
        std::string o;
        char b[8];
        for(unsigned char c : in) {
            if(c == '"' || c == '\\') { o += '\\'; o += c; }
            else if(c == '\n') o += "\\n";
            else if(c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o;
    }

    inline void write_result(bool complete) {
        auto& s = S();
        std::string o = "{\"complete\":" + std::string(complete ? "true" : "false") + ",\"evaluations\":" + std::to_string(s.evaluations);
        o += ",\"events\":{";
        bool first = true;
        for(auto&& e : s.events) {
            o += (first ? "" : ",") + ("\"" + esc(e.first) + "\":" + std::to_string(e.second));
            first = false;
        }
        o += "},\"samples\":[";
        first = true;
        for(auto&& e : s.samples) {
            o += (first ? "" : ",") + ("\"" + esc(e) + "\"");
            first = false;
        }
        o += "],\"violations\":[";
        first = true;
        for(auto&& v : s.violations) {
            o += std::string(first ? "" : ",") + "{\"key\":\"" + esc(v.key) + "\",\"msg\":\"" + esc(v.msg) + "\",\"case\":" + std::to_string(v.kase) + ",\"ops\":\"" + esc(v.ops) + "\"}";
            first = false;
        }
        o += "]}";
        FILE* f = fopen((s.out + "/result.json").c_str(), "w");
        fwrite(o.data(), 1, o.size(), f);
        fclose(f);
        f = fopen((s.out + "/distinct.bin").c_str(), "wb");
        for(auto h : s.distinct) fwrite(&h, 8, 1, f);
        fclose(f);
    }

    // Record a violation without leaving the case (usable inside callbacks of the library and other threads)
    inline void soft(const std::string& key, const std::string& msg) {
        auto& s = S();
        std::lock_guard<std::mutex> g(s.m);
        s.failed_in_case = true;
        size_t same = 0;
        for(auto&& v : s.violations) same += v.key == key;
        if(same < 2 && s.violations.size() < 60) {
            std::string ops(s.cur, s.curpos);
            if(ops.size() > 20000) ops = "..." + ops.substr(ops.size() - 20000);
            s.violations.push_back({ key, msg, s.kase, ops });
            fprintf(stderr, "VH-VIOLATION key=%s case=%ld %s\n", key.c_str(), s.kase, msg.c_str());
        }
    }
    [[noreturn]] inline void fail(const std::string& key, const std::string& msg) {
        soft(key, msg);
        throw Stop();
    }
#define REQ(cond, key, ...) do { if(!(cond)) ::vh::fail(key, std::string(#cond) + ": " + ::vh::fmt(__VA_ARGS__)); } while(0)
#define SOFT(cond, key, ...) do { if(!(cond)) ::vh::soft(key, std::string(#cond) + ": " + ::vh::fmt(__VA_ARGS__)); } while(0)

    inline void init(int argc, char** argv, const char* module) {
        auto& s = S();
        s.module = module;
        for(int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if(a == "--seed") s.seed = strtoull(v.c_str(), nullptr, 10);
            else if(a == "--tier") s.thorough = v == "thorough";
            else if(a == "--out") s.out = v;
            else if(a == "--case") s.only = atol(v.c_str());
            else if(a == "--shard") { s.shard = atol(v.c_str()); s.shards = atol(v.substr(v.find('/') + 1).c_str()); }
        }
        int fd = open((s.out + "/current.txt").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if(fd < 0 || ftruncate(fd, CURSIZE + 16)) { perror("current.txt"); exit(2); }
        s.cur = (char*)mmap(nullptr, CURSIZE + 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }

    // Start of a new case: clears the trace
    inline void begin_case(long k, const char* part) {
        auto& s = S();
        {
            std::lock_guard<std::mutex> g(s.m);
            s.kase = k;
            s.curpos = 0;
            s.failed_in_case = false;
            memset(s.cur, 0, 64);
        }
        op("case=%ld part=%s seed=%llu", k, part, (unsigned long long)s.seed);
    }

    // Runs cases [0, n) of a part. Case numbers are globally unique: part base + index.
    inline void run_cases(const char* part, long base, long n, const std::function<void(Rng&, long)>& f) {
        auto& s = S();
        for(long i = 0; i < n; ++i) {
            long k = base + i;
            if(s.only >= 0 ? k != s.only : k % s.shards != s.shard) continue;
            begin_case(k, part);
            Rng r(mix(mix(s.seed, hash(s.module)), k));
            try {
                f(r, i);
                count(std::string("cases:") + part);
            } catch(const Stop&) {
            } catch(const std::exception& e) {
                soft(s.module + ":unexpected-exception", std::string("exception escaped to the caller: ") + e.what());
            }
            eval();
            std::set<std::string> keys;
            for(auto&& v : s.violations) keys.insert(v.key);
            if(keys.size() >= 12 || s.violations.size() >= 40) break;
        }
    }
    inline int finish() {
        write_result(true);
        fflush(stdout);
        fflush(stderr);
        // Static destructors of the program under test are not part of any check
        _exit(0);
    }
}
