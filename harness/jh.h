// Helpers shared by the check modules: objects with observable lifetime, reference kinds, worker threads.
#pragma once
#include "vh.h"
#include <baron/baron.h>
#include <condition_variable>
#include <deque>
#include <jnivm.h>
#include <memory>
#include <pthread.h>
#include <thread>

namespace jh {
    using vh::fmt;

    // Lifetime ledger of every Tracked object of the current case. 0 = never created, 1 = alive, 2 = destroyed
    struct Ledger {
        std::mutex m;
        std::vector<char> state;
        std::vector<std::string> errors;
        int create() {
            std::lock_guard<std::mutex> g(m);
            state.push_back(1);
            return (int)state.size() - 1;
        }
        void destroy(int id) {
            std::lock_guard<std::mutex> g(m);
            if(id < 0 || (size_t)id >= state.size()) return; // object of an earlier, abandoned case
            if(state[id] != 1) errors.push_back(fmt("object %d destroyed twice", id));
            state[id] = 2;
        }
        bool alive(int id) {
            std::lock_guard<std::mutex> g(m);
            return state[id] == 1;
        }
        size_t living() {
            std::lock_guard<std::mutex> g(m);
            size_t n = 0;
            for(auto s : state) n += s == 1;
            return n;
        }
    };
    inline std::shared_ptr<Ledger>& ledger() {
        static std::shared_ptr<Ledger> l = std::make_shared<Ledger>();
        return l;
    }
    inline void new_ledger() { ledger() = std::make_shared<Ledger>(); }

    // Member objects keep their ledger, so destruction after the end of a case is harmless
    struct Track {
        std::shared_ptr<Ledger> l = ledger();
        int id;
        uint32_t magic = 0x600df00d;
        Track() : id(l->create()) {}
        Track(const Track&) : id(l->create()) {}
        ~Track() {
            if(magic != 0x600df00d) l->errors.push_back("destructor ran on a destroyed object");
            magic = 0xdeaddead;
            l->destroy(id);
        }
    };
    struct Tracked : jnivm::Object {
        Track t;
        int id() const { return t.id; }
    };

    inline jnivm::Object* raw(jobject o) { return (jnivm::Object*)o; }
    // Identity of what a reference denotes, computed the way the library's users do
    inline std::shared_ptr<jnivm::Object> deref(jnivm::ENV* env, jobject o) {
        return jnivm::JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(env, o);
    }
    template<class T> inline jobject local(jnivm::ENV* env, const std::shared_ptr<T>& p) {
        return (jobject)jnivm::JNITypes<std::shared_ptr<T>>::ToJNIType(env, p);
    }
    inline jclass klass(jnivm::ENV* env, const std::shared_ptr<jnivm::Class>& c) {
        return (jclass)jnivm::JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(env, c);
    }

    // A thread which executes closures one at a time, while the caller waits: cross-thread histories with a
    // deterministic order
    class Worker {
        std::mutex m;
        std::condition_variable cv;
        std::function<void()> job;
        bool busy = false, stop = false;
        std::exception_ptr err;
        std::thread th;
    public:
        Worker() : th([this] {
            std::unique_lock<std::mutex> l(m);
            for(;;) {
                cv.wait(l, [this] { return busy || stop; });
                if(!busy) return;
                auto j = std::move(job);
                l.unlock();
                try {
                    j();
                } catch(...) {
                    err = std::current_exception();
                }
                j = nullptr;
                l.lock();
                busy = false;
                cv.notify_all();
            }
        }) {}
        void run(std::function<void()> f) {
            std::unique_lock<std::mutex> l(m);
            job = std::move(f);
            busy = true;
            cv.notify_all();
            cv.wait(l, [this] { return !busy; });
            auto e = err;
            err = nullptr;
            if(e) std::rethrow_exception(e);
        }
        ~Worker() {
            {
                std::lock_guard<std::mutex> l(m);
                stop = true;
            }
            cv.notify_all();
            th.join();
        }
    };

    // Kinds of references to one object. Local, global and weak ones and references made from those.
    enum RefKind { RLocal, RGlobal, RWeak, RGlobalOfGlobal, RGlobalOfWeak, RWeakOfGlobal, RWeakOfWeak, RKINDS };
    inline const char* kind_name(int k) {
        static const char* n[] = { "local", "global", "weak", "global(global)", "global(weak)", "weak(global)", "weak(weak)" };
        return n[k];
    }
    // Owns the references it makes
    struct Refs {
        JNIEnv* env;
        std::vector<jobject> globals;
        std::vector<jweak> weaks;
        explicit Refs(JNIEnv* e) : env(e) {}
        jobject g(jobject o) {
            auto r = env->NewGlobalRef(o);
            if(r) globals.push_back(r);
            return r;
        }
        jobject w(jobject o) {
            auto r = env->NewWeakGlobalRef(o);
            if(r) weaks.push_back(r);
            return (jobject)r;
        }
        jobject make(jobject o, int kind) {
            if(!o) return nullptr;
            switch(kind) {
            case RGlobal: return g(o);
            case RWeak: return w(o);
            case RGlobalOfGlobal: return g(g(o));
            case RGlobalOfWeak: return g(w(o));
            case RWeakOfGlobal: return w(g(o));
            case RWeakOfWeak: return w(w(o));
            default: return o;
            }
        }
        void release() {
            for(auto r : globals) env->DeleteGlobalRef(r);
            for(auto r : weaks) env->DeleteWeakGlobalRef(r);
            globals.clear();
            weaks.clear();
        }
    };
    // Long names which differ in little: in some cases all names of a case get the same padding, for names which only
    // differ far behind or before it
    struct Stretch {
        std::string pad;
        int side = 0;
        explicit Stretch(vh::Rng& r, int num = 1, int den = 5) {
            if(!r.chance(num, den)) return;
            static const int lens[] = { 15, 16, 17, 30, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000, 4096 };
            pad = std::string(lens[r.below(22)], "qQ_"[r.below(3)]);
            side = r.below(3);
            vh::count("cases:long names");
        }
        std::string operator()(const std::string& n) const {
            if(pad.empty() || n.empty() || n[0] == '<') return n;
            return side == 0 ? pad + n : side == 1 ? n + pad : pad + n + pad;
        }
    };
    // n valid names which are easily taken for each other: of one length and differing in a single character anywhere, prefixes, other case or order
    inline std::vector<std::string> lookalikes(vh::Rng& r, size_t n, bool path) {
        static const char letters[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
        auto word = [&](size_t l) { std::string w; while(w.size() < l) w += letters[r.below(52)]; return w; };
        std::vector<std::string> out;
        std::set<std::string> have;
        auto add = [&](const std::string& s) { if(!s.empty() && have.insert(s).second) out.push_back(s); };
        auto fresh = [&] {
            static const int lens[] = { 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 90, 130, 257 };
            std::string s;
            if(path) for(int k = r.below(4); k-- > 0;) s += word(1 + r.below(12)) + "/";
            s += word(lens[r.below(21)]);
            if(path && r.chance(1, 4)) s += "$" + word(1 + r.below(9));
            add(s);
        };
        while(out.size() < n) {
            if(out.empty() || r.chance(1, 12)) { fresh(); continue; }
            auto s = r.chance(1, 2) ? out[0] : r.pick(out);
            size_t at = r.chance(1, 3) ? s.size() - 1 : r.chance(1, 4) ? 0 : r.below(s.size());
            auto letter = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
            switch(r.below(8)) {
            case 0: case 1: case 2: case 3: if(letter(s[at])) s[at] = letters[r.below(52)]; break;
            case 4: s.insert(at + 1 < s.size() && letter(s[at]) ? at : s.size(), 1, letters[r.below(52)]); break;
            case 5: if(s.size() > 1 && letter(s.back()) && letter(s[s.size() - 2])) s.pop_back(); break;
            case 6: if(letter(s[at])) s[at] ^= ' '; break;
            default: if(at + 1 < s.size() && letter(s[at]) && letter(s[at + 1])) std::swap(s[at], s[at + 1]); break;
            }
            add(s);
        }
        for(size_t k = out.size(); k-- > 1;) std::swap(out[k], out[r.below(k + 1)]);
        return out;
    }
    inline void check_ledger(const char* key) {
        auto l = ledger();
        for(auto& e : l->errors) vh::fail(key, e);
    }
}
