// C04: class lookup is a function of the name. Model: a map from names to classes.
#include "jh.h"
#include <fake-jni/jvm.h>
using namespace jh;
using namespace jnivm;

template<int N> struct Reg4 : Extends<Object> {
    int n = N;
};
static const char* builtin[] = { "java/lang/Object", "java/lang/Class", "java/lang/String", "java/nio/ByteBuffer", "java/lang/Throwable",
    "java/lang/reflect/Method", "java/lang/reflect/Field", "java/lang/ref/WeakReference", "internal/lang/Global" };

struct NameGen {
    vh::Rng& r;
    int style;
    Stretch stretch { r };
    std::string seg() { return r.chance(1, 2) ? stretch(seg1()) : seg1(); }
    std::string seg1() {
        static const char* s[] = { "a", "b", "c", "ab", "A", "aa", "Lx", "I", "long_name_of_a_class", "\xc3\xa9" };
        if(r.chance(1, 12)) {
            std::string o;
            for(int i = r.below(40); i >= 0; --i) o += "abcXYZ019_-<>()"[r.below(15)];
            return o;
        }
        return s[r.below(style == 0 ? 3 : 10)];
    }
    std::string next() {
        std::string n;
        bool deep = r.chance(1, 40);
        for(int i = r.below(style == 1 ? 1 : deep ? 60 : 3); i > 0; --i) n += seg() + "/";
        n += seg();
        for(int i = r.chance(1, 2) ? r.below(deep ? 60 : 4) : 0; i > 0; --i) n += "$" + (r.chance(1, 20) ? std::string() : seg());
        if(r.chance(1, 6)) {
            n = r.chance(1, 3) ? std::string(1, "ZBCSIJFD"[r.below(8)]) : "L" + n + ";";
            for(int i = r.below(deep ? 300 : 3); i >= 0; --i) n = "[" + n;
        }
        return n;
    }
};

// A name which is easily taken for another one
static std::string resembling(vh::Rng& r, std::string n) {
    auto subst = [&](char a, const char* b, bool all) {
        std::string o;
        bool done = false;
        for(char c : n) {
            if(c == a && (all || !done)) { o += b; done = true; }
            else o += c;
        }
        n = o;
    };
    size_t at = r.below(n.size());
    switch(r.below(22)) {
    case 0: subst('/', ".", true); break;
    case 1: subst('$', ".", true); break;
    case 2: subst('$', "/", r.chance(1, 2)); break;
    case 3: subst('/', "$", r.chance(1, 2)); break;
    case 4: subst('/', "_", true); break;
    case 5: subst('$', "_", true); break;
    case 6: subst('/', "//", false); break;
    case 7: subst('$', "$$", false); break;
    case 8: subst('/', "\\", true); break;
    case 9: n = "/" + n; break;
    case 10: n += "/"; break;
    case 11: n += "$"; break;
    case 12: n = "L" + n + ";"; break;
    case 13: n += ";"; break;
    case 14: n += "[]"; break;
    case 15: n += r.chance(1, 2) ? " " : "\t"; break;
    case 16: n[at] ^= ' '; if(!n[at]) n[at] = 'q'; break;
    case 17: n.insert(at, 1, n[at]); break;
    case 18: n.erase(at, 1); break;
    case 19: { char c = n[at]; n[at] = n[n.size() - 1]; n[n.size() - 1] = c; break; }
    case 20: n[at] = (char)(128 + r.below(128)); break;
    default: n += "$" + std::to_string(r.below(12)); break;
    }
    return n.empty() ? "q" : n;
}

// Outer classes become known with an inner one
static std::vector<std::string> implied(const std::string& n) {
    std::vector<std::string> r = { n };
    if(n[0] == '[') return r;
    size_t start = n.rfind('/');
    start = start == std::string::npos ? 0 : start + 1;
    for(size_t p = n.find('$', start); p != std::string::npos; p = n.find('$', p + 1)) r.push_back(n.substr(0, p));
    return r;
}

struct World {
    JNIEnv* env;
    ENV* e;
    bool returnnull;
    std::map<std::string, Class*> known; // null: known to exist but not looked at yet
    std::map<Class*, std::string> back;
    std::vector<std::shared_ptr<Class>> keep;

    void learn(const std::string& n) {
        for(auto& i : implied(n)) known.emplace(i, nullptr);
    }
    void got(const std::string& n, std::shared_ptr<Class> c, const char* how) {
        REQ(c, "C04:known-class-not-found", "%s of %s gave null", how, n.c_str());
        REQ(c->getName() == n, "C04:wrong-name", "%s of %s gave a class named %s", how, n.c_str(), c->getName().c_str());
        learn(n);
        auto& k = known[n];
        if(!k) {
            REQ(!back.count(c.get()), "C04:shared-class", "%s of %s gave the class of %s", how, n.c_str(), back[c.get()].c_str());
            k = c.get();
            back[c.get()] = n;
            keep.push_back(c);
        } else {
            REQ(k == c.get(), "C04:second-class", "%s of %s gave another class than before", how, n.c_str());
            vh::count("repeated-lookups");
        }
    }
    std::shared_ptr<Class> cls(jclass c) { return c ? JNITypes<std::shared_ptr<Class>>::JNICast(e, c) : nullptr; }
};

template<int N> static std::shared_ptr<Class> regN(World& w, const std::string& n, jobject& inst) {
    auto c = w.e->GetClass<Reg4<N>>(n.c_str());
    inst = local(w.e, std::make_shared<Reg4<N>>());
    return c;
}
using RegFn = std::shared_ptr<Class> (*)(World&, const std::string&, jobject&);
static RegFn regs[] = { regN<0>, regN<1>, regN<2>, regN<3>, regN<4>, regN<5>, regN<6>, regN<7> };

int main(int argc, char** argv) {
    vh::init(argc, argv, "C04");
    bool T = vh::S().thorough;
    vh::run_cases("lookup histories", 0, T ? 4000 : 800, [&](vh::Rng& r, long i) {
        bool fake = i % 4 == 3;
        World w;
        w.returnnull = fake || i % 2;
        std::unique_ptr<jnivm::VM> vm;
        std::unique_ptr<FakeJni::Jvm> fvm;
        if(fake) {
            fvm = std::make_unique<FakeJni::Jvm>();
            FakeJni::LocalFrame f(*fvm);
            w.env = &f.getJniEnv();
        } else {
            vm = std::make_unique<jnivm::VM>(false, w.returnnull);
            w.env = vm->GetJNIEnv();
        }
        w.e = ENV::FromJNIEnv(w.env);
        vh::op("mode %s %s", fake ? "fake-jni" : "jnivm", w.returnnull ? "unknown classes null" : "unknown classes fabricated");
        for(auto b : builtin) w.learn(b);
        NameGen g { r, (int)r.below(3) };
        std::vector<std::string> pool;
        for(int k = 3 + r.below(25); k > 0; --k) {
            auto n = g.next();
            pool.push_back(n);
            if(r.chance(1, 3) && n.size() > 1) pool.push_back(n.substr(0, n.size() - 1));
            if(r.chance(1, 4)) pool.push_back(n + "$" + g.seg());
            if(r.chance(1, 4)) pool.push_back(n + "/" + g.seg());
            if(r.chance(1, 6)) pool.push_back("[L" + n + ";");
            if(r.chance(1, 2)) {
                pool.push_back(resembling(r, r.pick(pool)));
                vh::count("resembling names");
            }
        }
        for(auto b : builtin) if(r.chance(1, 4)) pool.push_back(b);
        std::vector<int> freeT = { 0, 1, 2, 3, 4, 5, 6, 7 };
        std::map<std::string, jobject> instances;
        uint64_t trace = 0;
        for(int k = 20 + r.below(60); k > 0; --k) {
            auto& n = r.pick(pool);
            // a fresh copy each time: identity of the text must not matter
            std::string name(n.c_str());
            int what = r.below(10);
            trace = vh::mix(trace, vh::hash(name) * 16 + what);
            if(what < 5) {
                vh::op("FindClass %s", name.c_str());
                auto c = w.cls(w.env->FindClass(name.c_str()));
                if(w.returnnull && !w.known.count(name)) {
                    REQ(!c, "C04:fabricated", "FindClass of the unknown %s gave a class named %s", name.c_str(), c->getName().c_str());
                    vh::count("unknown-null");
                } else w.got(name, c, "FindClass");
            } else if(what == 5) {
                vh::op("GetClass %s", name.c_str());
                w.got(name, w.e->GetClass(name.c_str()), "ENV::GetClass");
            } else if(what == 6 && fake) {
                vh::op("findClass %s", name.c_str());
                auto c = fvm->findClass(name.c_str());
                if(!w.known.count(name)) REQ(!c, "C04:fabricated", "findClass of the unknown %s gave a class", name.c_str());
                else w.got(name, c, "findClass");
            } else if(what == 7 && !freeT.empty() && name[0] != '[' && !instances.count(name)) {
                bool isb = false;
                for(auto b : builtin) isb |= name == b;
                if(isb) continue;
                int t = freeT.back();
                freeT.pop_back();
                vh::op("GetClass<Reg4<%d>> %s", t, name.c_str());
                jobject inst;
                w.got(name, regs[t](w, name, inst), "GetClass<T>");
                instances[name] = inst;
                vh::count("registrations");
            } else if(what == 8 && !w.returnnull) {
                // mentioning a class in a looked up descriptor
                if(name[0] == '[' || name.find(';') != std::string::npos) continue;
                vh::op("mention %s", name.c_str());
                w.env->GetStaticMethodID(w.env->FindClass("c04/Mention"), "m", ("(L" + name + ";)V").c_str());
                w.learn("c04/Mention");
            } else {
                for(auto& in : instances) {
                    auto c = w.cls(w.env->GetObjectClass(in.second));
                    w.got(in.first, c, "GetObjectClass of an instance");
                    vh::count("instances");
                }
            }
            vh::count("ops");
        }
        // every name, in reverse and sorted order, still denotes the same class; unknown ones are still unknown
        std::set<std::string> names(pool.begin(), pool.end());
        for(auto& k : w.known) names.insert(k.first);
        for(auto& n : names) {
            if(w.known.count(n)) w.got(n, w.cls(w.env->FindClass(n.c_str())), "final FindClass");
            else if(w.returnnull) REQ(!w.env->FindClass(n.c_str()), "C04:fabricated", "an earlier failed lookup made %s known", n.c_str());
        }
        if(fake) {
            std::map<std::string, int> seen;
            for(auto& c : fvm->getClasses()) seen[c->getName()]++;
            for(auto& k : w.known) if(k.second) REQ(seen[k.first] == 1, "C04:getClasses", "%s is listed %d times", k.first.c_str(), seen[k.first]);
            for(auto& n : names) if(!w.known.count(n)) REQ(seen[n] == 0, "C04:getClasses", "the never registered %s is listed", n.c_str());
        }
        vh::distinct(trace);
        if(i < 2) vh::sample(fmt("%zu names looked up, e.g. %s", names.size(), names.begin()->c_str()));
    });
    // many classes at once: all different, each found again in any order
    vh::run_cases("crowds", 100000, T ? 160 : 24, [&](vh::Rng& r, long i) {
        jnivm::VM vm(false, i % 2);
        World w;
        w.returnnull = i % 2;
        w.env = vm.GetJNIEnv();
        w.e = ENV::FromJNIEnv(w.env);
        for(auto b : builtin) w.learn(b);
        std::set<std::string> all;
        size_t n = 500 + r.below(T ? 6000 : 2500);
        int base = 2 + r.below(40);
        const char* sep[] = { "", "/", "$", "a/b/c/", "a/B$", "x" };
        const char* prefixes[] = { "", "p/", "p/q/r/", "P$", "[Lp/", "long/package/name/with/many/parts/" };
        std::string pre = prefixes[r.below(6)];
        while(all.size() < n) {
            if(r.chance(1, 3)) {
                NameGen g { r, (int)r.below(3) };
                all.insert(pre + g.next());
                continue;
            }
            // numbers in some base as names
            std::string name;
            for(size_t v = all.size(); ; v /= base) {
                name += (char)((v % base < 26 ? 'a' : 'A' - 26) + v % base);
                if(v < (size_t)base) break;
                if(r.chance(1, 50)) name += sep[r.below(6)];
            }
            all.insert(pre + name + (pre[0] == '[' ? ";" : ""));
        }
        std::vector<std::string> names(all.begin(), all.end());
        for(int round = 0; round < 3; ++round) {
            for(size_t k = names.size(); k > 1; --k) std::swap(names[k - 1], names[r.below(k)]);
            for(auto& name : names) {
                if(w.returnnull && !w.known.count(name)) {
                    if(r.chance(1, 3)) REQ(!w.env->FindClass(std::string(name).c_str()), "C04:fabricated", "FindClass of the unknown %s gave a class", name.c_str());
                    if(r.chance(1, 4)) continue;
                    w.got(name, w.e->GetClass(std::string(name).c_str()), "ENV::GetClass");
                } else w.got(name, r.chance(1, 4) ? w.e->GetClass(std::string(name).c_str()) : w.cls(w.env->FindClass(std::string(name).c_str())), "lookup in a crowd");
                vh::count("lookups in crowds");
            }
        }
        vh::distinct(r.next());
    });
    return vh::finish();
}
