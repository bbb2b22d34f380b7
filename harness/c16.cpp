// C16: reflection. Identifiers of every origin are turned into objects and back.
#include "crowd.h"
#include "graph.h"
#include <fake-jni/fake-jni.h>
using namespace jh;
using namespace jnivm;
using namespace graph;

namespace {
    struct Id {
        bool field, st, ctor;
        void* id;
        int cls;
        int tag; // what calling it yields, -1: nothing known
        std::string text;
    };
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C16");
    bool T = vh::S().thorough;
    std::vector<std::vector<Ent>> worlds = { world<0>(), world<2>(), world<5>() };
    vh::run_cases("reflection", 0, T ? 4000 : 300, [&](vh::Rng& r, long i) {
        auto& w = worlds[i % worlds.size()];
        jnivm::VM vm(false, r.chance(1, 2));
        auto e0 = vm.GetEnv().get();
        auto env0 = e0->GetJNIEnv();
        Worker other;
        ENV* oe = nullptr;
        other.run([&] { JNIEnv* x; vm.GetJavaVM()->AttachCurrentThread(&x, nullptr); oe = ENV::FromJNIEnv(x); });
        auto on = [&](std::function<void(ENV*)> f) {
            auto g = [&](ENV* e) {
                e->GetJNIEnv()->PushLocalFrame(16);
                f(e);
                REQ(!e->GetJNIEnv()->ExceptionCheck(), "C16:exception", "pending");
                e->GetJNIEnv()->PopLocalFrame(nullptr);
            };
            if(r.chance(1, 4)) other.run([&] { g(oe); });
            else g(e0);
        };
        int N = 3 + r.below(NC - 3);
        std::vector<std::shared_ptr<Class>> c(NC);
        for(int k = 0; k < NC; ++k) c[k] = w[k].reg(e0, ("c16/K" + std::to_string(k)).c_str());
        std::vector<Id> ids;
        Stretch stretch(r);
        std::vector<std::string> names = { stretch("f"), stretch("g"), "<x>", stretch("get") };
        int tags = 0;
        std::set<void*> known;
        auto add = [&](Id x) {
            if(!x.id || !known.insert(x.id).second) return;
            ids.push_back(x);
            vh::count(x.text.substr(0, x.text.find(' ')) + (x.tag < 0 ? " placeholders" : " identifiers"));
        };
        int count = r.chance(1, 8) ? 300 : 25;
        for(int n = 0; n < count; ++n) {
            if(n >= 25) names.push_back(stretch("m" + std::to_string(n)));
            int k = r.below(N), tag = ++tags;
            std::string name = names[r.below(names.size())];
            int what = r.below(6), sig = r.below(3);
            bool real = r.chance(3, 4);
            on([&](ENV* e) {
                auto env = e->GetJNIEnv();
                auto jc = klass(e, c[k]);
                static const char* ms[] = { "()I", "(I)I", "(Ljava/lang/String;)I" };
                static const char* fs[] = { "I", "J", "Ljava/lang/String;" };
                auto hook = [&](auto f) {
                    if(!real) return;
                    if(what == 0) c[k]->Hook(e, name, decltype(f)(f));
                    else c[k]->HookInstanceFunction(e, name, decltype(f)(f));
                };
                if(what <= 1) {
                    if(!real) name = "u" + std::to_string(n); // has no implementation in any base class
                    if(sig == 0) hook([tag](ENV*) -> jint { return tag; });
                    else if(sig == 1) hook([tag](ENV*, jint) -> jint { return tag; });
                    else hook([tag](ENV*, std::shared_ptr<String>) -> jint { return tag; });
                    auto id = what == 0 ? env->GetStaticMethodID(jc, name.c_str(), ms[sig]) : env->GetMethodID(jc, name.c_str(), ms[sig]);
                    if(known.count(id)) for(auto& x : ids) if(x.id == id) x.tag = tag;
                    add({ false, what == 0, false, id, k, real ? tag : -1, fmt("method %s%s of class %d", name.c_str(), ms[sig], k) });
                } else if(what <= 3) {
                    bool st = what == 2;
                    if(!real) name = "u" + std::to_string(n);
                    if(real) {
                        if(st) c[k]->HookGetterFunction(e, name, [tag](ENV*, Class*) -> jint { return tag; });
                        else c[k]->HookInstanceGetterFunction(e, name, [tag](ENV*, Object*) -> jint { return tag; });
                        sig = 0;
                    }
                    auto id = st ? env->GetStaticFieldID(jc, name.c_str(), fs[sig]) : env->GetFieldID(jc, name.c_str(), fs[sig]);
                    if(known.count(id)) for(auto& x : ids) if(x.id == id) x.tag = tag;
                    add({ true, st, false, id, k, real ? tag : -1, fmt("field %s %s of class %d", name.c_str(), fs[sig], k) });
                } else {
                    auto id = env->GetMethodID(jc, "<init>", ms[sig] == std::string("()I") ? "()V" : sig == 1 ? "(I)V" : "(Ljava/lang/String;)V");
                    add({ false, true, true, id, k, -1, fmt("constructor %d of class %d", sig, k) });
                }
            });
        }
        // objects which are no reflection
        std::vector<jobject> alien;
        on([&](ENV* e) {
            auto env = e->GetJNIEnv();
            auto keep = [&](jobject o) { alien.push_back(env->NewGlobalRef(o)); };
            keep((jobject)env->NewStringUTF("f"));
            keep((jobject)env->FindClass("java/lang/reflect/Method"));
            keep((jobject)env->FindClass("java/lang/reflect/Field"));
            keep((jobject)klass(e, c[0]));
            keep((jobject)env->NewIntArray(2));
            keep((jobject)env->NewObjectArray(1, klass(e, c[1]), nullptr));
            keep(env->NewDirectByteBuffer(&r, 1));
            keep(local(e, std::make_shared<Throwable>()));
            keep(local(e, std::make_shared<Object>()));
            for(int k = 0; k < 3; ++k) keep(local(e, w[k].make()));
        });
        uint64_t h = ids.size();
        int rounds = 30 + r.below(30);
        std::vector<std::pair<int, jobject>> kept;
        for(int n = 0; n < rounds && !ids.empty(); ++n) on([&](ENV* e) {
            auto env = e->GetJNIEnv();
            Refs refs(env);
            int x = r.below(ids.size());
            auto& d = ids[x];
            vh::op("%s %s", d.st ? "static" : "instance", d.text.c_str());
            h = vh::mix(h, vh::hash(d.text));
            // the declaring class or one derived from it (identifier as inherited)
            int k = d.cls;
            for(int y = 0; y < NC; ++y) if(r.chance(1, 4) && env->IsAssignableFrom(klass(e, c[y]), klass(e, c[d.cls]))) k = y;
            auto jc = (jclass)refs.make((jobject)klass(e, c[k]), r.below(RKINDS));
            auto to = [&](bool st) { return d.field ? env->ToReflectedField(jc, (jfieldID)d.id, st) : env->ToReflectedMethod(jc, (jmethodID)d.id, st); };
            auto o = to(d.st);
            if(d.ctor) { // under either flag
                auto p = to(!d.st);
                REQ(o || p, "C16:constructor", "%s has no reflection", d.text.c_str());
                if(!o) o = p;
            } else {
                REQ(o, "C16:to", "%s: null", d.text.c_str());
                REQ(!to(!d.st), "C16:wrong-flag", "%s: not null with the wrong static flag", d.text.c_str());
            }
            REQ(env->IsInstanceOf(o, env->FindClass(d.field ? "java/lang/reflect/Field" : "java/lang/reflect/Method")), "C16:class", "%s: its object is of another class", d.text.c_str());
            REQ(!env->IsInstanceOf(o, env->FindClass(d.field ? "java/lang/reflect/Method" : "java/lang/reflect/Field")), "C16:class", "%s: its object is of both classes", d.text.c_str());
            auto back = [&](jobject o, Id& d) {
                int kind = r.below(RKINDS);
                auto p = refs.make(o, kind);
                auto id = d.field ? (void*)env->FromReflectedField(p) : (void*)env->FromReflectedMethod(p);
                REQ(id == d.id, "C16:from", "%s by %s reference: %s identifier", d.text.c_str(), kind_name(kind), id ? "another" : "no");
                auto wrong = d.field ? (void*)env->FromReflectedMethod(p) : (void*)env->FromReflectedField(p);
                REQ(!wrong, "C16:wrong-kind", "%s is both a method and a field", d.text.c_str());
                vh::count("round trips");
                if(d.tag > 0) { // it is usable
                    auto obj = local(e, w[d.cls].make());
                    auto jd = klass(e, c[d.cls]);
                    jvalue a[1] = {};
                    jint v;
                    if(d.field) v = d.st ? env->GetStaticIntField(jd, (jfieldID)id) : env->GetIntField(obj, (jfieldID)id);
                    else v = d.st ? env->CallStaticIntMethodA(jd, (jmethodID)id, a) : env->CallIntMethodA(obj, (jmethodID)id, a);
                    REQ(v == d.tag, "C16:use", "%s: %d instead of %d", d.text.c_str(), v, d.tag);
                }
            };
            back(o, d);
            if(r.chance(1, 3)) kept.emplace_back(x, r.chance(1, 2) ? env->NewGlobalRef(o) : (jobject)env->NewWeakGlobalRef(o));
            if(!kept.empty() && r.chance(1, 2)) {
                auto& q = r.pick(kept);
                back(q.second, ids[q.first]);
                REQ(env->IsSameObject(q.second, o) == (q.first == x), "C16:identity", "%s and %s", ids[q.first].text.c_str(), d.text.c_str());
                vh::count("kept reflections");
            }
            auto p = refs.make(env->NewLocalRef(r.pick(alien)), r.below(RKINDS));
            REQ(!env->FromReflectedMethod(p) && !env->FromReflectedField(p), "C16:alien", "an object which is no reflection has an identifier");
            vh::count("aliens");
            refs.release();
        });
        other.run([&] { vm.GetJavaVM()->DetachCurrentThread(); });
        vh::distinct(h);
    });
    vh::run_cases("crowds", 400000, T ? 1600 : 80, [&](vh::Rng& r, long) { crowd::run("C16", r, crowd::FUNCTIONS | crowd::FIELDS | crowd::REFLECT); });
    return vh::finish();
}
