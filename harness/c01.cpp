// C01: local references live exactly as long as their local frame.
// Model: per thread a stack of frames, each a multiset of object ids. An object whose last reference leaves the
// model must be destroyed by the very operation that removed it, one still in the model must not be.
#include "makers.h"
using namespace jh;

struct Holder : Tracked {
    std::shared_ptr<Tracked> slot;
};

struct Sim {
    jnivm::VM vm;
    JNIEnv* env = nullptr;
    jnivm::ENV* e = nullptr;
    struct Obj {
        jobject ref;
        bool pinned; // held by a shared_ptr of the test or a global
        std::shared_ptr<Tracked> pin;
        jobject global = nullptr;
    };
    std::map<int, Obj> objs;
    std::vector<std::multiset<int>> frames;
    size_t maxdepth = 0;
    uint64_t trace = 0;

    void bind() {
        vm.GetJavaVM()->AttachCurrentThread(&env, nullptr);
        e = jnivm::ENV::FromJNIEnv(env);
        frames.assign(1, {});
    }
    int refs(int id) {
        int n = 0;
        for(auto& f : frames) n += f.count(id);
        return n;
    }
    void note(int kind, int a) { trace = vh::mix(trace, kind * 1000 + a); }

    void verify(const char* after) {
        auto& l = *ledger();
        for(auto it = objs.begin(); it != objs.end();) {
            int id = it->first;
            auto& o = it->second;
            bool should = refs(id) > 0 || o.pin || o.global;
            bool is = l.alive(id);
            if(should && !is) vh::fail("C01:destroyed-early", fmt("after %s: object %d has %d local references%s but was destroyed", after, id, refs(id), o.pin || o.global ? " and is pinned" : ""));
            if(!should && is) vh::fail("C01:destroyed-late", fmt("after %s: object %d has no reference left but still exists", after, id));
            if(refs(id) > 0) {
                // usable: identity, kind and class can be asked through the reference
                auto* t = dynamic_cast<Tracked*>(raw(o.ref));
                REQ(t && t->id() == id, "C01:wrong-object", "after %s: reference of object %d", after, id);
                REQ(env->GetObjectRefType(o.ref) == JNILocalRefType, "C01:ref-type", "object %d", id);
                vh::count("live-checks");
            } else if(!should) {
                vh::count("death-checks");
            }
            if(!should) it = objs.erase(it);
            else ++it;
        }
        check_ledger("C01:double-destroy");
        vh::count("verifications");
    }
    int reg(const std::shared_ptr<Tracked>& p, bool pin) {
        int id = p->id();
        objs[id] = { (jobject)static_cast<jnivm::Object*>(p.get()), pin, pin ? p : nullptr };
        return id;
    }
    void addref(int id, jobject r, const char* how) {
        REQ(r && raw(r) == raw(objs[id].ref), "C01:ref-identity", "%s of object %d", how, id);
        frames.back().insert(id);
    }
    void drop_one(int id) {
        for(size_t i = frames.size(); i-- > 0;) {
            auto f = frames[i].find(id);
            if(f != frames[i].end()) {
                frames[i].erase(f);
                return;
            }
        }
    }
};

static std::shared_ptr<Tracked> returned; // what the hooked function returns

static void history(vh::Rng& r, long idx, bool thread) {
    new_ledger();
    Sim s;
    auto body = [&] {
        s.bind();
        auto env = s.env;
        auto e = s.e;
        auto cls = e->GetClass<Tracked>("c01/Tracked");
        auto hcls = e->GetClass<Holder>("c01/Holder");
        cls->Hook(e, "<init>", [](jnivm::ENV* env, jnivm::Class* c) -> std::shared_ptr<jnivm::Object> {
            auto o = std::make_shared<Tracked>();
            return o;
        });
        cls->Hook(e, "make", []() -> std::shared_ptr<Tracked> { return returned; });
        hcls->Hook(e, "slot", &Holder::slot);
        env->PushLocalFrame(0);
        jclass jc = env->FindClass("c01/Tracked");
        jmethodID init = env->GetStaticMethodID(jc, "make", "()Lc01/Tracked;");
        REQ(init, "C01:setup", "make not found");
        auto holder = std::make_shared<Holder>();
        jobject jholder = local(e, holder);
        jfieldID slot = env->GetFieldID((jclass)(jnivm::Object*)hcls.get(), "slot", "Lc01/Tracked;");
        jobject arr = env->NewObjectArray(4, jc, nullptr);
        // setup frame stays the model's bottom: its references are never popped by the history, unless all frames are
        std::vector<std::shared_ptr<jnivm::Object>> keep = { deref(e, arr) };
        s.frames.push_back({});
        size_t bottom = 2;
        int steps = (int)r.range(20, vh::S().thorough ? 400 : 160);
        int bias = (int)r.below(3); // 0 balanced, 1 deep, 2 shallow
        std::vector<int> ids;
        auto any = [&]() -> int {
            // an object with a local reference now
            std::vector<int> c;
            for(auto& o : s.objs) if(s.refs(o.first) > 0) c.push_back(o.first);
            return c.empty() ? -1 : (int)r.pick(c);
        };
        for(int i = 0; i < steps; ++i) {
            int k = (int)r.below(19);
            if(bias == 1 && r.chance(1, 4)) k = 0;
            const char* what = "";
            switch(k) {
            case 0: { // push
                if(s.frames.size() > 60) continue;
                int cap = r.chance(1, 3) ? 0 : r.chance(1, 10) ? (int)r.below(5000) : (int)r.below(40);
                vh::op("PushLocalFrame(%d)", cap);
                REQ(env->PushLocalFrame(cap) == 0, "C01:push-result", "PushLocalFrame(%d)", cap);
                s.frames.push_back({});
                s.maxdepth = std::max(s.maxdepth, s.frames.size());
                what = "PushLocalFrame";
                break;
            }
            case 1:
            case 2: { // pop
                if(s.frames.size() <= bottom) continue;
                int res = -1;
                jobject rref = nullptr;
                int mode = (int)r.below(3);
                if(mode == 1 && (res = any()) >= 0) {
                    rref = s.objs[res].ref;
                } else if(mode == 2 && !s.objs.empty()) {
                    // result through a global reference
                    for(auto& o : s.objs) if(o.second.global) { res = o.first; rref = o.second.global; break; }
                }
                if(!rref) res = -1;
                vh::op("PopLocalFrame(%d) at depth %zu", res, s.frames.size());
                auto out = env->PopLocalFrame(rref);
                s.frames.pop_back();
                if(res >= 0) {
                    REQ(raw(out) == raw(s.objs[res].ref), "C01:pop-result", "object %d", res);
                    s.frames.back().insert(res);
                } else {
                    REQ(out == nullptr, "C01:pop-result", "null result");
                }
                what = "PopLocalFrame";
                break;
            }
            case 3: { // new object through the C++ boundary
                auto p = std::make_shared<Tracked>();
                bool pin = r.chance(1, 5);
                int id = s.reg(p, pin);
                auto ref = local(e, p);
                vh::op("local ref for new object %d%s in frame %zu", id, pin ? " pinned" : "", s.frames.size());
                s.addref(id, ref, "new reference");
                what = "creating";
                break;
            }
            case 4: { // through a call
                returned = std::make_shared<Tracked>();
                int id = s.reg(returned, false);
                vh::op("CallStaticObjectMethod -> %d", id);
                jobject ref = r.chance(1, 2) ? env->CallStaticObjectMethod(jc, init) : env->CallStaticObjectMethodA(jc, init, nullptr);
                returned = nullptr;
                s.addref(id, ref, "call result");
                what = "CallStaticObjectMethod";
                break;
            }
            case 5:
            case 6: { // additional reference
                int id = any();
                if(id < 0) continue;
                vh::op("NewLocalRef(%d)", id);
                s.addref(id, env->NewLocalRef(s.objs[id].ref), "NewLocalRef");
                what = "NewLocalRef";
                break;
            }
            case 7:
            case 8:
            case 9: {
                int id = any();
                if(id < 0) continue;
                vh::op("DeleteLocalRef(%d)", id);
                auto ref = s.objs[id].ref;
                s.drop_one(id);
                env->DeleteLocalRef(ref);
                what = "DeleteLocalRef";
                break;
            }
            case 10: { // global pins
                int id = any();
                if(id < 0 || s.objs[id].global) continue;
                vh::op("NewGlobalRef(%d)", id);
                s.objs[id].global = env->NewGlobalRef(s.objs[id].ref);
                what = "NewGlobalRef";
                break;
            }
            case 11: { // unpin
                for(auto& o : s.objs) {
                    if(o.second.global && r.chance(1, 2)) {
                        vh::op("DeleteGlobalRef(%d)", o.first);
                        env->DeleteGlobalRef(o.second.global);
                        o.second.global = nullptr;
                        what = "DeleteGlobalRef";
                        break;
                    }
                    if(o.second.pin && r.chance(1, 2)) {
                        vh::op("unpin(%d)", o.first);
                        o.second.pin = nullptr;
                        what = "dropping the C++ pointer";
                        break;
                    }
                }
                break;
            }
            case 12: { // local reference from a global one
                for(auto& o : s.objs) {
                    if(o.second.global) {
                        vh::op("NewLocalRef(global %d)", o.first);
                        s.addref(o.first, env->NewLocalRef(o.second.global), "NewLocalRef(global)");
                        what = "NewLocalRef(global)";
                        break;
                    }
                }
                break;
            }
            case 13: { // via a field
                int id = any();
                if(id < 0) continue;
                vh::op("field round trip %d", id);
                env->SetObjectField(jholder, slot, s.objs[id].ref);
                REQ(s.objs.count(id) && holder->slot && holder->slot->id() == id, "C01:field", "object %d", id);
                s.addref(id, env->GetObjectField(jholder, slot), "GetObjectField");
                holder->slot = nullptr;
                what = "GetObjectField";
                break;
            }
            case 14: { // via an array
                int id = any();
                if(id < 0) continue;
                vh::op("array round trip %d", id);
                env->SetObjectArrayElement((jobjectArray)arr, 2, s.objs[id].ref);
                s.addref(id, env->GetObjectArrayElement((jobjectArray)arr, 2), "GetObjectArrayElement");
                env->SetObjectArrayElement((jobjectArray)arr, 2, nullptr);
                what = "GetObjectArrayElement";
                break;
            }
            case 15: { // null operations change nothing
                vh::op("null operations");
                REQ(env->NewLocalRef(nullptr) == nullptr, "C01:null", "NewLocalRef(null)");
                env->DeleteLocalRef(nullptr);
                what = "null operations";
                break;
            }
            case 16: {
                int cap = r.chance(1, 4) ? (int)r.below(5000) : (int)r.below(64);
                vh::op("EnsureLocalCapacity(%d)", cap);
                REQ(env->EnsureLocalCapacity(cap) == 0, "C01:capacity", "%d", cap);
                what = "EnsureLocalCapacity";
                break;
            }
            case 18: { // a big frame
                if(!r.chance(1, 5)) continue;
                int n = (int)r.range(10, 90), id = any();
                vh::op("%d references", n);
                while(n-- > 0) {
                    if(id >= 0 && r.chance(1, 3)) {
                        s.addref(id, env->NewLocalRef(s.objs[id].ref), "NewLocalRef");
                    } else {
                        auto p = std::make_shared<Tracked>();
                        id = s.reg(p, false);
                        s.addref(id, local(e, p), "new reference");
                    }
                }
                what = "many references";
                vh::count("big frames");
                break;
            }
            case 17: { // pop everything, even more often than pushed, and go on
                if(!r.chance(1, 6)) continue;
                size_t n = s.frames.size() + r.below(3);
                vh::op("pop everything (%zu pops)", n);
                // the array and holder are kept alive by the history itself
                for(size_t j = 0; j < n; ++j) env->PopLocalFrame(nullptr);
                s.frames.assign(1, {});
                s.verify("popping all frames");
                // a usable empty frame is left: rebuild the setup on top of it
                bottom = 1;
                what = "popping all frames";
                vh::count("underflows");
                break;
            }
            }
            s.note(k, (int)s.frames.size());
            s.verify(what);
            vh::count("ops");
        }
        if(thread) {
            vh::op("DetachCurrentThread");
            s.vm.GetJavaVM()->DetachCurrentThread();
            s.frames.assign(1, {});
            auto env2 = s.env;
            // pinned objects survive, all others are destroyed
            auto& l = *ledger();
            keep.clear();
            for(auto& o : s.objs) {
                bool should = o.second.pin || o.second.global;
                REQ(l.alive(o.first) == should, "C01:detach", "object %d, pinned %d", o.first, (int)should);
                vh::count("detach-checks");
            }
            JNIEnv* again = nullptr;
            s.vm.GetJavaVM()->AttachCurrentThread(&again, nullptr);
            auto p = std::make_shared<Tracked>();
            int id = p->id();
            auto ref = local(jnivm::ENV::FromJNIEnv(again), p);
            p = nullptr;
            REQ(l.alive(id), "C01:reattach", "object %d", id);
            for(auto& o : s.objs) if(o.second.global) { again->DeleteGlobalRef(o.second.global); o.second.global = nullptr; }
            s.vm.GetJavaVM()->DetachCurrentThread();
            REQ(!l.alive(id), "C01:detach", "object %d of the second attachment", id);
        }
    };
    if(thread) {
        Worker w;
        w.run(body);
    } else {
        body();
    }
    vh::distinct(s.trace);
    vh::count("max-depth-sum", s.maxdepth);
    if(idx < 3) vh::sample(fmt("%s history, deepest nesting %zu frames; first operations: %s", thread ? "second thread" : "main thread", s.maxdepth, std::string(vh::S().cur, std::min<size_t>(400, vh::S().curpos)).c_str()));
}

// Deep recursion of frames, each with its own objects, popped with results handed down
static void deep(vh::Rng& r, long) {
    new_ledger();
    jnivm::VM vm;
    auto env = vm.GetJNIEnv();
    auto e = vm.GetEnv().get();
    int depth = (int)r.range(100, vh::S().thorough ? 3000 : 800);
    auto& l = *ledger();
    std::vector<std::pair<int, int>> perframe; // [first, last) ids
    std::map<int, jobject> refof;
    for(int round = 0; round < 2; ++round) {
        perframe.clear();
        vh::op("push %d frames", depth);
        for(int d = 0; d < depth; ++d) {
            env->PushLocalFrame((int)r.below(5));
            int n = (int)r.below(4);
            int first = (int)l.state.size();
            for(int i = 0; i < n; ++i) {
                auto p = std::make_shared<Tracked>();
                refof[p->id()] = local(e, p);
            }
            perframe.push_back({ first, first + n });
        }
        jobject carry = nullptr;
        int carried = -1;
        for(int d = depth; d-- > 0;) {
            auto pf = perframe[d];
            for(int i = pf.first; i < pf.second; ++i) REQ(l.alive(i), "C01:destroyed-early", "object %d of frame %d while at frame %d", i, d, d);
            bool take = pf.second > pf.first && r.chance(1, 2);
            int prev = carried;
            if(take) {
                carried = pf.first;
                carry = refof[carried];
            }
            vh::op("pop %d result %d", d, carried);
            carry = env->PopLocalFrame(carry);
            for(int i = pf.first; i < pf.second; ++i) REQ(l.alive(i) == (i == carried), "C01:pop", "object %d after popping its frame %d, result was %d", i, d, carried);
            if(prev >= 0 && prev != carried) REQ(!l.alive(prev), "C01:destroyed-late", "previous result %d", prev);
            if(carried >= 0) REQ(l.alive(carried) && dynamic_cast<Tracked*>(raw(carry)) && dynamic_cast<Tracked*>(raw(carry))->id() == carried, "C01:pop-result", "object %d", carried);
            vh::count("deep-pops");
        }
        if(carry) env->DeleteLocalRef(carry);
        REQ(l.living() == 0, "C01:destroyed-late", "%zu objects left", l.living());
    }
    vh::distinct(vh::mix(77, depth));
}

// Frames with references to objects of every kind, in crowds: each object's lifetime is observed through a weak pointer
static void crowd(vh::Rng& r, long idx, bool thread) {
    new_ledger();
    jnivm::VM vm(false, r.chance(1, 2));
    auto body = [&] {
        JNIEnv* env = nullptr;
        vm.GetJavaVM()->AttachCurrentThread(&env, nullptr);
        auto e = jnivm::ENV::FromJNIEnv(env);
        Makers mk(env);
        struct Ref { jobject ref; std::weak_ptr<jnivm::Object> w; int kind; };
        std::vector<std::vector<Ref>> frames(1); // one entry per object, duplicates counted in dup
        std::map<jobject, int> dup;              // further references to objects, all in the frame of the object
        uint64_t h = idx % 8 == 0;
        static const int sizes[] = { 0, 1, 2, 3, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 2000, 4097 };
        int depth = 1 + r.below(6);
        auto alive = [&](const Ref& x, const char* after) {
            auto p = x.w.lock();
            REQ(p, "C01:destroyed-early", "after %s: object made by %s has a local reference but was destroyed", after, Makers::name(x.kind));
            REQ(deref(e, x.ref) == p, "C01:wrong-object", "after %s: reference to an object made by %s", after, Makers::name(x.kind));
            REQ(env->GetObjectRefType(x.ref) == JNILocalRefType, "C01:ref-type", "object made by %s", Makers::name(x.kind));
        };
        for(int d = 0; d < depth; ++d) {
            int n = sizes[r.below(idx % 8 == 0 ? 27 : 18)], cap = r.chance(1, 2) ? n : r.chance(1, 2) ? 0 : r.below(2 * n + 1);
            int way = r.below(Makers::COUNT + 1);
            vh::op("PushLocalFrame(%d), %d references%s%s", cap, n, way < Makers::COUNT ? " by " : "", way < Makers::COUNT ? Makers::name(way) : "");
            REQ(env->PushLocalFrame(cap) == 0, "C01:push-result", "PushLocalFrame(%d)", cap);
            frames.push_back({});
            for(int i = 0; i < n; ++i) {
                int k = way < Makers::COUNT ? way : r.below(Makers::COUNT);
                auto j = mk.make(env, r, k);
                REQ(j && !env->ExceptionCheck(), "C01:setup", "%s", Makers::name(k));
                auto p = deref(e, j);
                REQ(p && p.use_count() == 2, "C01:held", "%ld owners of an object made by %s besides its local reference", p ? p.use_count() - 2 : -1, Makers::name(k));
                frames.back().push_back({ j, p, k });
                p = nullptr;
                if(r.chance(1, 10)) {
                    auto q = env->NewLocalRef(j);
                    REQ(env->IsSameObject(j, q), "C01:ref-identity", "NewLocalRef of an object made by %s", Makers::name(k));
                    dup[j]++;
                }
                vh::count(std::string("made by ") + Makers::name(k));
            }
            h = vh::mix(h, n * 32 + way);
            // deletions in random order, and others created again
            auto& f = frames.back();
            for(int del = r.below(std::min<int>(f.size(), 300) + 1); del-- > 0 && f.size();) {
                int at = r.chance(1, 3) ? (int)f.size() - 1 : r.chance(1, 3) ? 0 : (int)r.below(f.size());
                auto x = f[at];
                env->DeleteLocalRef(x.ref);
                if(dup.count(x.ref)) {
                    alive(x, "deleting one of several references");
                    if(!--dup[x.ref]) dup.erase(x.ref);
                    continue;
                }
                REQ(x.w.expired(), "C01:destroyed-late", "object made by %s still exists after deleting its local reference", Makers::name(x.kind));
                f.erase(f.begin() + at);
                vh::count("deletions");
            }
            if(f.size()) for(int m = 0; m < 8; ++m) alive(r.pick(f), "deletions");
        }
        if(thread && r.chance(1, 3)) {
            vh::op("detach with %zu frames", frames.size());
            mk.release(env);
            vm.GetJavaVM()->DetachCurrentThread();
            for(auto& f : frames) for(auto& x : f) REQ(x.w.expired(), "C01:detach", "object made by %s still exists after its thread detached", Makers::name(x.kind));
            vh::count("crowds detached");
        } else {
            while(frames.size() > 1) {
                auto f = std::move(frames.back());
                frames.pop_back();
                int res = f.size() && r.chance(1, 2) ? r.below(f.size()) : -1;
                vh::op("PopLocalFrame with %zu references", f.size());
                auto out = env->PopLocalFrame(res >= 0 ? f[res].ref : nullptr);
                for(size_t i = 0; i < f.size(); ++i) if((int)i != res) REQ(f[i].w.expired(), "C01:destroyed-late", "object made by %s still exists after popping its frame, %zu of %zu", Makers::name(f[i].kind), i, f.size());
                if(res >= 0) {
                    f[res].ref = out;
                    alive(f[res], "popping its frame as the result");
                    dup.erase(f[res].ref);
                    frames.back().push_back(f[res]);
                }
                for(size_t d = 1; d < frames.size(); ++d) for(size_t i = 0; i < frames[d].size(); i += 1 + frames[d].size() / 20) alive(frames[d][i], "popping an inner frame");
                vh::count("crowds popped", f.size());
            }
            for(auto& x : frames[0]) { alive(x, "popping all"); env->DeleteLocalRef(x.ref); REQ(x.w.expired(), "C01:destroyed-late", "the last result, made by %s, still exists", Makers::name(x.kind)); }
            mk.release(env);
        }
        vh::distinct(h);
    };
    if(thread) { Worker w; w.run(body); } else body();
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C01");
    bool t = vh::S().thorough;
    vh::run_cases("main-thread histories", 0, t ? 6000 : 400, [](vh::Rng& r, long i) { history(r, i, false); });
    vh::run_cases("second-thread histories", 100000, t ? 3000 : 200, [](vh::Rng& r, long i) { history(r, i, true); });
    vh::run_cases("deep nesting", 200000, t ? 300 : 16, [](vh::Rng& r, long i) { deep(r, i); });
    vh::run_cases("crowds of all kinds", 300000, t ? 4000 : 320, [](vh::Rng& r, long i) { crowd(r, i, i % 2); });
    return vh::finish();
}
