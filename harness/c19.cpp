// C19: attaching and removing native libraries.
#include "jh.h"
#include <baron/baron.h>
#include <dlfcn.h>
#include <fake-jni/fake-jni.h>
#include <fstream>
#include <sys/stat.h>
using namespace jh;
using namespace jnivm;

namespace {
    struct MyFake : FakeJni::Jvm { VM* vm() { return this; } };
    struct MyBaron : Baron::Jvm { VM* vm() { return this; } };

    struct Machine;
    struct Handle {
        bool open = true, null = false;
        int set = 0;
        std::string path;               // opened path
        bool load = true, unload = true; // entry points of the file
        std::set<std::string> suffix_load, suffix_unload; // of the program
        int loads = 0, unloads = 0;
        Machine* loaded_by = nullptr;
    };
    constexpr int SLOTS = 512;
    Handle* slots[SLOTS];
    int used_slots;

    struct File { bool openable, load, unload; };
    struct World {
        std::map<std::string, File> files;
        bool program_openable = true;
        std::set<std::string> suffix_load, suffix_unload;
        std::vector<std::string> log;
    } world;
    struct Ev { int slot; char what; std::string suffix; };
    std::vector<Ev> events;
    struct Machine {
        JavaVM* jvm;
        VM* vm;
        int id;
        std::function<void(const std::string&)> attach, remove;
    };
    std::vector<Machine*> machines;
    // nested operations of entry points: path of the library -> action
    std::map<std::string, std::function<void(Machine*)>> on_load, on_unload;
    bool dying;

    // What the entry points do with the machine
    Machine* use(JavaVM* vm, const char* who) {
        JNIEnv* env = nullptr;
        SOFT(vm, "C19:machine", "%s without a machine", who);
        if(!vm) return nullptr;
        SOFT(vm->GetEnv((void**)&env, JNI_VERSION_1_6) == JNI_OK && env, "C19:machine", "%s: no environment", who);
        if(!env) return nullptr;
        Machine* m = nullptr;
        for(auto x : machines) if(VM::FromJavaVM(vm) == x->vm) m = x;
        SOFT(m, "C19:machine", "%s got an unknown machine", who);
        env->PushLocalFrame(4);
        auto c = env->FindClass("c19/Ident");
        SOFT(c, "C19:machine", "%s does not find a class", who);
        auto f = env->GetStaticMethodID(c, "ident", "()I");
        int id = env->CallStaticIntMethod(c, f);
        SOFT(m && id == m->id, "C19:machine", "%s runs on machine %d", who, id);
        // symbols nobody declared
        auto u = env->FindClass("c19/Unknown");
        if(u) env->GetMethodID(u, "unknown", "()V"), env->GetStaticFieldID(u, "unknown", "I");
        SOFT(env->GetStringLength(env->NewStringUTF("abc")) == 3, "C19:machine", "%s: wrong length", who);
        auto cls = env->FindClass("c19/Natives");
        static JNINativeMethod n = { (char*)"go", (char*)"(I)I", (void*)+[](JNIEnv*, jclass, jint x) -> jint { return x + 1; } };
        if(cls) {
            if(!strcmp(who, "load")) env->RegisterNatives(cls, &n, 1);
        }
        env->PopLocalFrame(nullptr);
        return m;
    }
    jint load(int slot, const std::string& suffix, JavaVM* vm) {
        auto h = slots[slot];
        events.push_back({ slot, 'L', suffix });
        vh::count("loads");
        SOFT(h->open, "C19:load", "load entry point of %s runs while it is not open", h->path.c_str());
        SOFT(!h->loads++, "C19:load-twice", "load entry point of %s%s", h->path.c_str(), suffix.c_str());
        auto m = use(vm, "load");
        h->loaded_by = m;
        auto it = on_load.find(h->null ? suffix : h->path);
        if(it != on_load.end() && m) { auto f = it->second; f(m); }
        return JNI_VERSION_1_6;
    }
    void unload(int slot, const std::string& suffix, JavaVM* vm) {
        auto h = slots[slot];
        events.push_back({ slot, 'U', suffix });
        vh::count(dying ? "unloads at the end" : "unloads");
        SOFT(h->open, "C19:unload", "unload entry point of %s runs while it is not open", h->path.c_str());
        SOFT(!h->unloads++, "C19:unload-twice", "unload entry point of %s%s", h->path.c_str(), suffix.c_str());
        auto m = use(vm, "unload");
        SOFT(!h->loads || h->loaded_by == m, "C19:machine", "unloaded from another machine than loaded from");
        if(!dying) {
            auto it = on_unload.find(h->null ? suffix : h->path);
            if(it != on_unload.end() && m) { auto f = it->second; f(m); }
        }
    }
    // one pair of entry points per handle; suffixed ones are numbered by the name
    std::vector<std::string> suffixes { "alpha", "beta", "alphabet", "a_b", "x" };
    const std::vector<std::string> suffix_names = suffixes;
    template<int I> struct Entry {
        static jint onload(JavaVM* vm, void* r) { SOFT(!r, "C19:reserved", "not null"); return load(I, "", vm); }
        static void onunload(JavaVM* vm, void* r) { SOFT(!r, "C19:reserved", "not null"); unload(I, "", vm); }
        template<int S> static jint sload(JavaVM* vm, void* r) { return load(I, suffixes[S], vm); }
        template<int S> static void sunload(JavaVM* vm, void* r) { unload(I, suffixes[S], vm); }
        static void* get(const std::string& sym) {
            if(sym == "JNI_OnLoad") return (void*)&onload;
            if(sym == "JNI_OnUnload") return (void*)&onunload;
            using L = jint (*)(JavaVM*, void*);
            using U = void (*)(JavaVM*, void*);
            static L ls[] = { sload<0>, sload<1>, sload<2>, sload<3>, sload<4> };
            static U us[] = { sunload<0>, sunload<1>, sunload<2>, sunload<3>, sunload<4> };
            for(size_t s = 0; s < suffixes.size(); ++s) {
                if(sym == "JNI_OnLoad_" + suffixes[s]) return (void*)ls[s];
                if(sym == "JNI_OnUnload_" + suffixes[s]) return (void*)us[s];
            }
            return nullptr;
        }
    };
    template<int... I> std::vector<void* (*)(const std::string&)> entries(std::integer_sequence<int, I...>) { return { Entry<I>::get... }; }
    std::vector<void* (*)(const std::string&)> entry = entries(std::make_integer_sequence<int, SLOTS>());

    template<int SET> struct Stand {
        static void* open(const char* path, int) {
            Handle h;
            h.set = SET;
            if(!path) {
                if(!world.program_openable) { vh::count("failed program opens"); return nullptr; }
                h.null = true;
                h.path = "(program)";
                h.suffix_load = world.suffix_load;
                h.suffix_unload = world.suffix_unload;
            } else {
                auto it = world.files.find(path);
                if(it == world.files.end() || !it->second.openable) { vh::count("failed opens"); return nullptr; }
                h.path = path;
                h.load = it->second.load;
                h.unload = it->second.unload;
            }
            if(used_slots >= SLOTS) return nullptr;
            slots[used_slots] = new Handle(h);
            events.push_back({ used_slots, 'O', "" });
            return (void*)(intptr_t)(0x1000 + 16 * used_slots++);
        }
        static int slot(void* handle, const char* what) {
            intptr_t v = (intptr_t)handle - 0x1000;
            if(v < 0 || v % 16 || v / 16 >= used_slots) { vh::soft("C19:handle", fmt("%s of %p, which is no handle", what, handle)); return -1; }
            int i = v / 16;
            if(slots[i]->set != SET) vh::soft("C19:handle", fmt("%s by other functions than the library was opened with", what));
            if(!slots[i]->open) vh::soft("C19:closed", fmt("%s of the closed %s", what, slots[i]->path.c_str()));
            return i;
        }
        static void* sym(void* handle, const char* name) {
            int i = slot(handle, "dlsym");
            if(i < 0) return nullptr;
            auto h = slots[i];
            std::string n = name;
            if(!h->null) {
                if(n == "JNI_OnLoad" ? h->load : n == "JNI_OnUnload" ? h->unload : false) return entry[i](n);
                return nullptr;
            }
            // the program itself: its own plain entry points are not those of the library
            if(n == "JNI_OnLoad" || n == "JNI_OnUnload") return entry[i](n);
            if(n.rfind("JNI_OnLoad_", 0) == 0 && h->suffix_load.count(n.substr(11))) return entry[i](n);
            if(n.rfind("JNI_OnUnload_", 0) == 0 && h->suffix_unload.count(n.substr(13))) return entry[i](n);
            return nullptr;
        }
        static int close(void* handle) {
            int i = slot(handle, "dlclose");
            if(i < 0) return 1;
            slots[i]->open = false;
            events.push_back({ i, 'C', "" });
            vh::count("closes");
            return 0;
        }
        static FakeJni::LibraryOptions options() { return FakeJni::LibraryOptions(open, sym, close); }
    };

    // Model of one attached library
    struct Att { bool program; bool load, unload; bool entryless; };
    struct Sim {
        std::unique_ptr<MyFake> fake;
        std::unique_ptr<MyBaron> baron;
        std::unique_ptr<Worker> w;
        Machine m;
        FakeJni::Jvm* jvm = nullptr;
        std::map<std::string, Att> att;
    };
    struct Ident : Extends<Object> {};
}

static void reset() {
    for(int i = 0; i < used_slots; ++i) delete slots[i];
    used_slots = 0;
    world = World();
    events.clear();
    machines.clear();
    on_load.clear();
    on_unload.clear();
    dying = false;
}

// Entry points of this program for the cases with the real loader
static int real_loads, real_unloads;
extern "C" __attribute__((visibility("default"), used)) jint JNI_OnLoad_c19static(JavaVM* vm, void*) { ++real_loads; use(vm, "load"); return JNI_VERSION_1_6; }
extern "C" __attribute__((visibility("default"), used)) void JNI_OnUnload_c19static(JavaVM* vm, void*) { ++real_unloads; use(vm, "unload"); }

static void setup(Sim& s, int kind, int id) {
    auto make = [&] {
        if(kind) { s.baron.reset(new MyBaron); s.jvm = s.baron.get(); s.m.vm = s.baron->vm(); if(kind == 2) s.baron->denyClass("c19/Unknown"); }
        else { s.fake.reset(new MyFake); s.jvm = s.fake.get(); s.m.vm = s.fake->vm(); }
        s.m.jvm = s.jvm;
        s.m.id = id;
        machines.push_back(&s.m);
        auto env = s.m.vm->GetEnv();
        auto c = env->GetClass<Ident>("c19/Ident");
        c->Hook(env.get(), "ident", [id]() -> jint { return id; });
        env->GetClass("c19/Natives");
    };
    if(id) s.w.reset(new Worker);
    if(s.w) s.w->run(make); else make();
}
template<class F> static void on(Sim& s, F f) { if(s.w) s.w->run(f); else f(); }

int main(int argc, char** argv) {
    vh::init(argc, argv, "C19");
    bool T = vh::S().thorough;
    vh::run_cases("library histories", 0, T ? 60000 : 4000, [&](vh::Rng& r, long i) {
        reset();
        std::vector<std::string> paths { "libone.so", "libtwo.so", "/lib/three.so", "four", "", "alpha", "beta", "alphabet", "a_b", "x", "a/x", "x.y", "/", "." };
        Stretch stretch(r);
        for(size_t k = 0; k < suffixes.size(); ++k) suffixes[k] = stretch(suffix_names[k]);
        for(auto&& p : paths) p = stretch(p);
        for(auto&& p : paths) world.files[p] = { r.chance(1, 2), !r.chance(1, 5), !r.chance(1, 5) };
        auto mutate = [&] {
            for(auto&& s : suffixes) {
                if(r.chance(1, 2)) world.suffix_load.insert(s); else world.suffix_load.erase(s);
                if(r.chance(1, 2)) world.suffix_unload.insert(s); else world.suffix_unload.erase(s);
            }
            world.program_openable = !r.chance(1, 6);
        };
        mutate();
        int n = 1 + r.below(2);
        Sim sims[2];
        uint64_t h = n;
        for(int k = 0; k < n; ++k) { int kind = r.below(3); setup(sims[k], kind, k); h = vh::mix(h, kind); }
        std::vector<Handle> want_done; // none
        // expected event effects of an attach
        auto model_attach = [&](Sim& s, const std::string& p, std::vector<std::pair<char, std::string>>& want) {
            if(s.att.count(p)) { vh::count("repeated attaches"); return; }
            auto it = world.files.find(p);
            if(it != world.files.end() && it->second.openable) {
                s.att[p] = { false, it->second.load, it->second.unload, false };
                if(it->second.load) want.push_back({ 'L', "" });
                vh::count("attached");
            } else if(!p.empty() && p.find('/') == p.npos && p.find('.') == p.npos && world.program_openable) {
                bool l = world.suffix_load.count(p), u = world.suffix_unload.count(p);
                s.att[p] = { true, l, u, !l && !u };
                if(l) want.push_back({ 'L', p });
                vh::count(l || u ? "attached statically" : "ignored");
            } else vh::count("ignored");
        };
        auto check_handles = [&](const char* after) {
            // every open handle belongs to an attached library, every attached library has one
            std::map<std::string, int> open;
            int program = 0, want_program_min = 0, want_program_max = 0;
            std::map<std::string, int> want;
            for(int k = 0; k < n; ++k) for(auto&& a : sims[k].att) if(sims[k].jvm) {
                if(a.second.program) { want_program_max++; if(!a.second.entryless) want_program_min++; }
                else want[a.first]++;
            }
            for(int k = 0; k < used_slots; ++k) {
                auto x = slots[k];
                if(x->open) { if(x->null) ++program; else open[x->path]++; }
                REQ(x->loads <= 1 && x->unloads <= 1, "C19:twice", "%s: %d loads, %d unloads", x->path.c_str(), x->loads, x->unloads);
                REQ(x->open || x->null || x->unloads == (int)x->unload, "C19:no-unload", "after %s: %s was closed without its unload entry point", after, x->path.c_str());
                REQ(!x->open || !x->unloads, "C19:unloaded", "after %s: %s is open, but was unloaded", after, x->path.c_str());
            }
            REQ(open == want, "C19:open", "after %s: %zu libraries are open instead of %zu, or other ones", after, open.size(), want.size());
            REQ(program >= want_program_min && program <= want_program_max, "C19:open-program", "after %s: the program is open %d times, not %d", after, program, want_program_max);
        };
        // reported events of a step: loads and unloads in order
        size_t pos = 0;
        auto calls = [&] {
            std::vector<std::pair<char, std::string>> got;
            for(; pos < events.size(); ++pos) if(events[pos].what == 'L' || events[pos].what == 'U') got.push_back({ events[pos].what, slots[events[pos].slot]->null ? events[pos].suffix : std::string("/") + slots[events[pos].slot]->path });
            return got;
        };
        auto text = [](const std::vector<std::pair<char, std::string>>& v) { std::string s; for(auto&& x : v) s += x.first + (":" + x.second) + " "; return s; };
        auto same = [](const std::vector<std::pair<char, std::string>>& got, const std::multiset<std::pair<char, std::string>>& w) { return std::multiset<std::pair<char, std::string>>(got.begin(), got.end()) == w; };
        // a crowd of libraries
        if(r.chance(1, 40)) {
            int crowd = 20 + r.below(300);
            vh::op("machines attach %d libraries", crowd);
            for(int k = 0; k < crowd; ++k) {
                auto p = stretch("crowd" + std::to_string(k) + ".so");
                world.files[p] = { true, !r.chance(1, 5), !r.chance(1, 5) };
                auto& s = sims[r.below(n)];
                std::vector<std::pair<char, std::string>> want;
                model_attach(s, p, want);
                for(auto&& x : want) x.second = "/" + p;
                on(s, [&] { s.jvm->attachLibrary(p, "", k % 2 ? Stand<1>::options() : Stand<0>::options()); });
                auto got = calls();
                REQ(got == want, "C19:calls", "after attaching %s ran [%s] instead of [%s]", p.c_str(), text(got).c_str(), text(want).c_str());
                if(r.chance(1, 3)) paths.push_back(p);
            }
            check_handles("the crowd");
            vh::count("cases:crowds of libraries");
        }
        int steps = 10 + r.below(30);
        for(int st = 0; st < steps && used_slots < SLOTS - 20; ++st) {
            auto& s = sims[r.below(n)];
            if(!s.jvm) continue;
            auto p = r.chance(1, 12) ? std::string("missing") : r.pick(paths);
            int op = r.below(20);
            h = vh::mix(h, vh::hash(p) + op);
            std::vector<std::pair<char, std::string>> want;
            const char* what = "attaching";
            int set = r.below(2);
            auto do_attach = [&](Sim& s, const std::string& p) {
                if(p.empty() && set) { s.jvm->attachLibrary("", "", set ? Stand<1>::options() : Stand<0>::options()); return; }
                s.jvm->attachLibrary(p, r.chance(1, 2) ? "" : "options", set ? Stand<1>::options() : Stand<0>::options());
            };
            auto rename = [&](const std::string& p, std::vector<std::pair<char, std::string>> v) { for(auto&& x : v) if(x.second.empty()) x.second = "/" + p; return v; };
            if(op < 10) {
                vh::op("machine %d attaches '%s' with functions %d", s.m.id, p.c_str(), set);
                // a library which attaches another one in its load entry point
                std::string other;
                if(r.chance(1, 6)) {
                    other = r.pick(paths);
                    auto it = world.files.find(p);
                    bool willload = !s.att.count(p) && it != world.files.end() && it->second.openable && it->second.load;
                    if(other == p || !willload) other.clear();
                    else {
                        vh::op("its load entry point attaches '%s'", other.c_str());
                        on_load[p] = [&, other](Machine*) { do_attach(s, other); };
                        vh::count("nested attaches");
                        model_attach(s, p, want);
                        want = rename(p, want);
                        std::vector<std::pair<char, std::string>> w2;
                        model_attach(s, other, w2);
                        for(auto&& x : rename(other, w2)) want.push_back(x);
                    }
                }
                bool nested = !other.empty();
                if(!nested) { model_attach(s, p, want); want = rename(p, want); }
                on(s, [&] { do_attach(s, p); });
                on_load.clear();
            } else if(op < 16) {
                what = "removing";
                vh::op("machine %d removes '%s'", s.m.id, p.c_str());
                auto it = s.att.find(p);
                std::string other;
                if(it != s.att.end()) {
                    if(it->second.unload) want.push_back({ 'U', it->second.program ? p : "/" + p });
                    if(it->second.unload && r.chance(1, 6)) {
                        other = r.pick(paths);
                        if(other != p) {
                            vh::op("its unload entry point removes '%s'", other.c_str());
                            on_unload[p] = [&, other](Machine*) { s.jvm->removeLibrary(other); };
                            vh::count("nested removals");
                            auto o = s.att.find(other);
                            if(o != s.att.end()) {
                                if(o->second.unload) want.push_back({ 'U', o->second.program ? other : "/" + other });
                                s.att.erase(o);
                            }
                        }
                    }
                    s.att.erase(p);
                    vh::count("removed");
                } else vh::count("removals of nothing");
                on(s, [&] { s.jvm->removeLibrary(p, r.chance(1, 2) ? "" : "options"); });
                on_unload.clear();
            } else if(op < 19) {
                // the file system changes; what is attached as nothing stays out of it
                what = "a change of files";
                bool ambiguous = false;
                for(int k = 0; k < n; ++k) { auto it = sims[k].att.find(p); ambiguous |= it != sims[k].att.end() && it->second.entryless; }
                if(!ambiguous) world.files[p] = { r.chance(1, 2), !r.chance(1, 5), !r.chance(1, 5) };
                if(r.chance(1, 3)) {
                    bool any = false;
                    for(int k = 0; k < n; ++k) for(auto&& a : sims[k].att) any |= a.second.entryless;
                    if(!any) mutate();
                }
            } else if(n == 2 && r.chance(1, 3)) {
                // a machine ends
                what = "the end of a machine";
                vh::op("machine %d ends", s.m.id);
                std::multiset<std::pair<char, std::string>> w;
                for(auto&& a : s.att) if(a.second.unload) w.insert({ 'U', a.second.program ? a.first : "/" + a.first });
                calls();
                dying = true;
                on(s, [&] { s.fake.reset(); s.baron.reset(); });
                dying = false;
                s.jvm = nullptr;
                s.att.clear();
                auto got = calls();
                REQ(same(got, w), "C19:end", "at the end of machine %d ran %s", s.m.id, text(got).c_str());
                check_handles(what);
                continue;
            }
            auto got = calls();
            REQ(got == want, "C19:calls", "after %s '%s' ran [%s] instead of [%s]", what, p.c_str(), text(got).c_str(), text(want).c_str());
            check_handles(what);
            vh::count("verifications");
        }
        for(int k = 0; k < n; ++k) if(sims[k].jvm) {
            auto& s = sims[k];
            vh::op("machine %d ends", k);
            std::multiset<std::pair<char, std::string>> w;
            for(auto&& a : s.att) if(a.second.unload) w.insert({ 'U', a.second.program ? a.first : "/" + a.first });
            dying = true;
            on(s, [&] { s.fake.reset(); s.baron.reset(); });
            dying = false;
            s.jvm = nullptr;
            s.att.clear();
            auto got = calls();
            REQ(same(got, w), "C19:end", "at the end of machine %d ran %s", k, text(got).c_str());
            check_handles("the end");
        }
        for(int k = 0; k < used_slots; ++k) REQ(!slots[k]->open, "C19:never-closed", "%s", slots[k]->path.c_str());
        vh::distinct(h);
    });
    // the real loader
    vh::run_cases("real libraries", 1000000, T ? 400 : 64, [&](vh::Rng& r, long i) {
        reset();
        std::string dir = vh::S().out + "/lib" + std::to_string(i);
        mkdir(dir.c_str(), 0755);
        std::vector<std::string> paths;
        char self[4096];
        ssize_t len = readlink("/proc/self/exe", self, sizeof self - 1);
        self[len > 0 ? len : 0] = 0;
        std::string src = std::string(self, strrchr(self, '/') - self) + "/libc19lib.so";
        int n = 1 + r.below(3);
        for(int k = 0; k < n; ++k) {
            auto p = dir + "/lib" + std::to_string(k) + ".so";
            std::ifstream in(src, std::ios::binary);
            std::ofstream(p, std::ios::binary) << in.rdbuf();
            paths.push_back(p);
        }
        paths.push_back("c19static");
        paths.push_back("c19missing");
        paths.push_back(dir + "/missing.so");
        paths.push_back("");
        real_loads = real_unloads = 0;
        Sim s;
        setup(s, i % 3, 0);
        std::map<std::string, int> loads, unloads;
        std::string key;
        auto env = s.m.vm->GetEnv();
        auto c = env->GetClass("c19/Real");
        c->Hook(env.get(), "loaded", [&](std::shared_ptr<String> p) { loads[*p]++; });
        c->Hook(env.get(), "unloaded", [&](std::shared_ptr<String> p) { unloads[*p]++; });
        std::set<std::string> att;
        std::map<std::string, int> wl, wu;
        int wsl = 0, wsu = 0;
        uint64_t h = i % 3;
        auto verify = [&] {
            REQ(loads == wl && unloads == wu && real_loads == wsl && real_unloads == wsu, "C19:real", "loads or unloads of real libraries");
            for(int k = 0; k < n; ++k) {
                void* p = dlopen(paths[k].c_str(), RTLD_LAZY | RTLD_NOLOAD);
                REQ((bool)p == (bool)att.count(paths[k]), "C19:real-open", "%s is %s", paths[k].c_str(), p ? "loaded" : "not loaded");
                if(p) dlclose(p);
            }
        };
        int steps = 10 + r.below(20);
        for(int st = 0; st < steps; ++st) {
            auto& p = r.pick(paths);
            bool file = p.size() && p[0] == '/' && p.find("missing") == p.npos;
            h = vh::mix(h, vh::hash(p.substr(p.rfind('/') + 1)));
            if(r.chance(3, 5)) {
                vh::op("attach %s", p.c_str());
                s.jvm->attachLibrary(p);
                if(att.insert(p).second) { if(file) wl[p]++; if(p == "c19static") ++wsl; }
            } else {
                vh::op("remove %s", p.c_str());
                s.jvm->removeLibrary(p);
                if(att.erase(p)) { if(file) wu[p]++; if(p == "c19static") ++wsu; }
            }
            verify();
            vh::count("real steps");
        }
        for(auto& p : att) { if(p.size() && p[0] == '/' && p.find("missing") == p.npos) wu[p]++; if(p == "c19static") ++wsu; }
        att.clear();
        env.reset();
        c.reset();
        s.fake.reset();
        s.baron.reset();
        verify();
        for(int k = 0; k < n; ++k) unlink(paths[k].c_str());
        rmdir(dir.c_str());
        vh::distinct(h);
    });
    return vh::finish();
}
