// Many members with names which are easily taken for each other, in few classes: registered, replaced, looked up, used and reflected in random order.
#pragma once
#include "jh.h"
#include <fake-jni/fake-jni.h>
namespace crowd {
using namespace jh;
using namespace jnivm;
enum { FUNCTIONS = 1, FIELDS = 2, NATIVES = 4, REFLECT = 8 };
template<int N> struct C : Object {};
struct Cell { jlong v = 0; std::shared_ptr<Object> o; };
constexpr int NAT = 48;
inline int ran;
template<int K> void native(JNIEnv*, jobject) { ran = K; }
template<int... K> std::vector<void*> natives(std::integer_sequence<int, K...>) { return { (void*)native<K>... }; }

struct Member {
    bool field, st;
    int cls, sig;
    std::string name;
    bool real = false;    // registered
    bool get = false, set = false;
    std::shared_ptr<Cell> cell;
    void* id = nullptr;   // once looked up
};
static const char* const msigs[] = { "()I", "(I)I", "(J)J", "(Ljava/lang/String;)J", "([I)J", "()Ljava/lang/Object;", "(ILjava/lang/Object;)Ljava/lang/Object;", "(DF)D", "(ZBCSIJFD)V" };
static const char* const fsigs[] = { "I", "J", "Ljava/lang/Object;", "D" };

inline void run(const char* P, vh::Rng& r, unsigned parts) {
    std::string key = std::string(P) + ":crowd";
#define CROWD(c, ...) REQ(c, key.c_str(), __VA_ARGS__)
    FakeJni::Jvm jvm;
    FakeJni::LocalFrame frame(jvm);
    bool nulls = r.chance(1, 2);
    std::unique_ptr<VM> plain;
    auto e = ENV::FromJNIEnv(&frame.getJniEnv());
    if(!(parts & NATIVES)) { plain.reset(new VM(false, nulls)); e = plain->GetEnv().get(); }
    else nulls = true;
    auto env = e->GetJNIEnv();
    auto cn = lookalikes(r, 3, true);
    std::shared_ptr<Class> c[3] = { e->GetClass<C<0>>(cn[0].c_str()), e->GetClass<C<1>>(cn[1].c_str()), e->GetClass<C<2>>(cn[2].c_str()) };
    std::shared_ptr<Object> o[3] = { std::make_shared<C<0>>(), std::make_shared<C<1>>(), std::make_shared<C<2>>() };
    static const size_t sizes[] = { 12, 30, 60, 100, 200, 400 };
    size_t n = sizes[r.below(6)];
    auto names = lookalikes(r, std::max<size_t>(n / 3, 4), false);
    vh::op("%zu names", names.size());
    std::vector<Member> all;
    std::map<std::tuple<bool, bool, int, int, std::string>, size_t> index;
    std::map<std::tuple<int, std::string>, int> nats;
    static const auto fns = natives(std::make_integer_sequence<int, NAT>());
    jlong counter = 1000;
    auto member = [&](bool field, bool st, int cls, int sig, const std::string& name) -> Member& {
        auto it = index.emplace(std::make_tuple(field, st, cls, sig, name), all.size());
        if(it.second) { Member m; m.field = field; m.st = st; m.cls = cls; m.sig = sig; m.name = name; all.push_back(m); }
        return all[it.first->second];
    };
    auto text = [&](const Member& m) { return fmt("%s %s %s %s of %s", m.st ? "static" : "instance", m.field ? "field" : "method", m.name.c_str(), m.field ? fsigs[m.sig] : msigs[m.sig], cn[m.cls].c_str()); };
    auto some = [&]() -> Member& {
        if(all.size() && r.chance(1, 2)) return r.chance(1, 3) && all.size() > 60 ? all[r.below(10)] : r.pick(all);
        bool field = parts & FIELDS && (!(parts & FUNCTIONS) || r.chance(1, 2));
        return member(field, r.chance(1, 2), r.below(3), r.below(field ? 4 : 9), r.pick(names));
    };
    auto enroll = [&](Member& m) {
        auto cell = m.cell ? m.field ? m.cell : std::make_shared<Cell>() : std::make_shared<Cell>();
        if(!m.field || !m.cell) { cell->v = ++counter; cell->o = std::make_shared<C<0>>(); }
        auto cl = c[m.cls].get();
        vh::op("register %s as %lld", text(m).c_str(), (long long)cell->v);
        if(!m.field) {
#define HOOKS(R, BODY, ...) do { if(m.st) cl->Hook(e, m.name, [cell](ENV*, ##__VA_ARGS__) -> R BODY); else cl->HookInstanceFunction(e, m.name, [cell](ENV*, ##__VA_ARGS__) -> R BODY); } while(0)
            switch(m.sig) {
            case 0: HOOKS(jint, { return (jint)cell->v; }); break;
            case 1: HOOKS(jint, { return (jint)cell->v + a; }, jint a); break;
            case 2: HOOKS(jlong, { return cell->v + a; }, jlong a); break;
            case 3: HOOKS(jlong, { return cell->v + (jlong)a->size(); }, std::shared_ptr<String> a); break;
            case 4: HOOKS(jlong, { return cell->v + a->getSize(); }, std::shared_ptr<Array<jint>> a); break;
            case 5: HOOKS(std::shared_ptr<Object>, { return cell->o; }); break;
            case 6: HOOKS(std::shared_ptr<Object>, { return a ? a : cell->o; }, jint, std::shared_ptr<Object> a); break;
            case 7: HOOKS(jdouble, { return cell->v + a + b; }, jdouble a, jfloat b); break;
            default: HOOKS(void, { cell->v += b + ch + s + i + j + (jlong)f + (jlong)d + z; }, jboolean z, jbyte b, jchar ch, jshort s, jint i, jlong j, jfloat f, jdouble d); break;
            }
        } else {
            int what = r.below(3); // getter, setter or both
#define ACC(T, G, S) do { \
                if(what != 1) { if(m.st) cl->HookGetterFunction(e, m.name, [cell](ENV*, Class*) -> T { return G; }); else cl->HookInstanceGetterFunction(e, m.name, [cell](ENV*, Object*) -> T { return G; }); } \
                if(what != 0) { if(m.st) cl->HookSetterFunction(e, m.name, [cell](ENV*, Class*, T v) { S; }); else cl->HookInstanceSetterFunction(e, m.name, [cell](ENV*, Object*, T v) { S; }); } \
            } while(0)
            switch(m.sig) {
            case 0: ACC(jint, (jint)cell->v, cell->v = v); break;
            case 1: ACC(jlong, cell->v, cell->v = v); break;
            case 2: ACC(std::shared_ptr<Object>, cell->o, cell->o = v); break;
            default: ACC(jdouble, (jdouble)cell->v, cell->v = (jlong)v); break;
            }
            m.get |= what != 1;
            m.set |= what != 0;
        }
        vh::count(m.real ? "crowds: replaced" : m.id ? "crowds: placeholder implemented" : "crowds: registered");
        m.real = true;
        m.cell = cell;
    };
    auto lookup = [&](Member& m) -> void* {
        std::string name(m.name.c_str()); // a fresh copy
        auto jc = klass(e, c[m.cls]);
        void* id = m.field ? (void*)(m.st ? env->GetStaticFieldID(jc, name.c_str(), fsigs[m.sig]) : env->GetFieldID(jc, name.c_str(), fsigs[m.sig]))
                 : (void*)(m.st ? env->GetStaticMethodID(jc, name.c_str(), msigs[m.sig]) : env->GetMethodID(jc, name.c_str(), msigs[m.sig]));
        env->ExceptionClear();
        if(nulls && !m.real) CROWD(!id, "%s of nobody is found", text(m).c_str());
        else CROWD(id, "%s is not found", text(m).c_str());
        CROWD(!m.id || m.id == id, "%s has another identifier than before", text(m).c_str());
        vh::count(m.real ? "crowds: found" : id ? "crowds: placeholders" : "crowds: not found");
        return m.id = id;
    };
    auto use = [&](Member& m) {
        if(!m.id && !lookup(m)) return;
        auto jc = klass(e, c[m.cls]);
        auto jo = local(e, o[m.cls]);
        jvalue a[8] = {};
        auto T = text(m);
        if(!m.field) {
            auto id = (jmethodID)m.id;
            jlong base = m.real ? m.cell->v : 0, got = 0, want = base;
            auto oc = local(e, std::make_shared<C<1>>());
            bool obj = false;
            jobject ro = nullptr;
            jobject wo = nullptr;
            switch(m.sig) {
            case 0: got = m.st ? env->CallStaticIntMethodA(jc, id, a) : env->CallIntMethodA(jo, id, a); break;
            case 1: a[0].i = r.below(1000); want += m.real ? a[0].i : 0; got = m.st ? env->CallStaticIntMethodA(jc, id, a) : env->CallIntMethodA(jo, id, a); break;
            case 2: a[0].j = (jlong)(r.next() >> 8); want += m.real ? a[0].j : 0; got = m.st ? env->CallStaticLongMethodA(jc, id, a) : env->CallLongMethodA(jo, id, a); break;
            case 3: a[0].l = (jobject)env->NewStringUTF("four"); want += m.real ? 4 : 0; got = m.st ? env->CallStaticLongMethodA(jc, id, a) : env->CallLongMethodA(jo, id, a); break;
            case 4: a[0].l = (jobject)env->NewIntArray(7); want += m.real ? 7 : 0; got = m.st ? env->CallStaticLongMethodA(jc, id, a) : env->CallLongMethodA(jo, id, a); break;
            case 5: case 6:
                obj = true;
                if(m.sig == 6 && r.chance(1, 2)) a[1].l = wo = oc;
                else if(m.real) wo = local(e, m.cell->o);
                ro = m.st ? env->CallStaticObjectMethodA(jc, id, a) : env->CallObjectMethodA(jo, id, a);
                break;
            case 7: a[0].d = r.below(100); a[1].f = r.below(100); want += m.real ? (jlong)(a[0].d + a[1].f) : 0; got = (jlong)(m.st ? env->CallStaticDoubleMethodA(jc, id, a) : env->CallDoubleMethodA(jo, id, a)); break;
            default:
                a[0].z = 1; a[1].b = -2; a[2].c = 65535; a[3].s = -3000; a[4].i = 70000; a[5].j = 1; a[6].f = 2; a[7].d = 3;
                if(m.st) env->CallStaticVoidMethodA(jc, id, a); else env->CallVoidMethodA(jo, id, a);
                if(m.real) { want += 1 - 2 + 65535 - 3000 + 70000 + 1 + 2 + 3; got = m.cell->v; }
            }
            if(obj) { if(m.real) CROWD(env->IsSameObject(ro, wo), "%s yields another object", T.c_str()); }
            else CROWD(got == want, "%s yields %lld, not %lld", T.c_str(), (long long)got, (long long)want);
            vh::count(m.real ? "crowds: calls" : "crowds: placeholder calls");
        } else {
            auto id = (jfieldID)m.id;
            jlong want = m.real && m.get ? m.cell->v : 0, got = want;
            switch(m.sig) {
            case 0: got = m.st ? env->GetStaticIntField(jc, id) : env->GetIntField(jo, id); break;
            case 1: got = m.st ? env->GetStaticLongField(jc, id) : env->GetLongField(jo, id); break;
            case 2: { auto x = m.st ? env->GetStaticObjectField(jc, id) : env->GetObjectField(jo, id); if(m.real && m.get) CROWD(env->IsSameObject(x, local(e, m.cell->o)), "%s is another object", T.c_str()); break; }
            default: got = (jlong)(m.st ? env->GetStaticDoubleField(jc, id) : env->GetDoubleField(jo, id));
            }
            CROWD(got == want, "%s is %lld, not %lld", T.c_str(), (long long)got, (long long)want);
            jlong v = ++counter;
            auto x = std::make_shared<C<2>>();
            std::shared_ptr<Object> before = m.cell ? m.cell->o : nullptr;
            jlong bv = m.cell ? m.cell->v : 0;
            switch(m.sig) {
            case 0: if(m.st) env->SetStaticIntField(jc, id, v); else env->SetIntField(jo, id, v); break;
            case 1: if(m.st) env->SetStaticLongField(jc, id, v); else env->SetLongField(jo, id, v); break;
            case 2: if(m.st) env->SetStaticObjectField(jc, id, local(e, x)); else env->SetObjectField(jo, id, local(e, x)); break;
            default: if(m.st) env->SetStaticDoubleField(jc, id, v); else env->SetDoubleField(jo, id, v);
            }
            if(m.real) {
                if(m.sig == 2) CROWD(m.cell->o == (m.set ? std::static_pointer_cast<Object>(x) : before), "%s was %swritten", T.c_str(), m.set ? "not " : "");
                else CROWD(m.cell->v == (m.set ? v : bv), "%s was %swritten", T.c_str(), m.set ? "not " : "");
            }
            vh::count("crowds: accesses");
        }
        CROWD(!env->ExceptionCheck(), "%s raises", T.c_str());
    };
    auto reflect = [&](Member& m) {
        if(!m.id && !lookup(m)) return;
        auto jc = klass(e, c[m.cls]);
        auto ref = m.field ? env->ToReflectedField(jc, (jfieldID)m.id, m.st) : env->ToReflectedMethod(jc, (jmethodID)m.id, m.st);
        CROWD(ref, "%s has no reflection", text(m).c_str());
        auto id = m.field ? (void*)env->FromReflectedField(ref) : (void*)env->FromReflectedMethod(ref);
        CROWD(id == m.id, "%s: the reflection has %s identifier", text(m).c_str(), id ? "another" : "no");
        CROWD(!(m.field ? env->ToReflectedField(jc, (jfieldID)m.id, !m.st) : env->ToReflectedMethod(jc, (jmethodID)m.id, !m.st)), "%s is reflected with the wrong flag", text(m).c_str());
        vh::count("crowds: reflected");
    };
    // what every registered member holds: nothing changes but the member which is used
    auto verify = [&] {
        for(auto& k : index) if(all[k.second].id) {
            env->PushLocalFrame(8);
            use(all[k.second]);
            env->PopLocalFrame(nullptr);
        }
        for(auto& k : nats) {
            auto m = c[std::get<0>(k.first)]->getMethod("()V", std::get<1>(k.first).c_str());
            CROWD(m, "native %s of %s is not found", std::get<1>(k.first).c_str(), cn[std::get<0>(k.first)].c_str());
        }
        vh::count("crowds: verified");
    };
    for(size_t step = 0; step < 2 * n; ++step) {
        env->PushLocalFrame(16);
        int what = r.below(8);
        if(parts & NATIVES && r.chance(1, 2)) {
            int k = r.below(3);
            if(r.chance(1, 2)) {
                std::vector<JNINativeMethod> ms;
                std::vector<std::string> ns;
                for(int q = 1 + r.below(r.chance(1, 5) ? 60 : 4); q-- > 0;) ns.push_back(r.pick(names));
                std::sort(ns.begin(), ns.end());
                ns.erase(std::unique(ns.begin(), ns.end()), ns.end());
                for(auto& q : ns) { int f = r.below(NAT); ms.push_back({ (char*)q.c_str(), (char*)"()V", fns[f] }); nats[{ k, q }] = f; }
                vh::op("%zu natives of %s", ms.size(), cn[k].c_str());
                CROWD(env->RegisterNatives(klass(e, c[k]), ms.data(), ms.size()) == 0, "RegisterNatives");
                vh::count("crowds: natives registered", ms.size());
            } else if(r.chance(1, 12)) {
                vh::op("UnregisterNatives %s", cn[k].c_str());
                env->UnregisterNatives(klass(e, c[k]));
                for(auto it = nats.begin(); it != nats.end();) if(std::get<0>(it->first) == k) it = nats.erase(it); else ++it;
                vh::count("crowds: natives unregistered");
            }
            for(int q = 0; q < 3; ++q) {
                auto& name = r.pick(names);
                k = r.below(3);
                auto it = nats.find({ k, name });
                auto m = c[k]->getMethod("()V", name.c_str());
                CROWD((bool)m == (it != nats.end()), "native %s of %s is %sfound", name.c_str(), cn[k].c_str(), m ? "" : "not ");
                if(m) {
                    ran = -1;
                    if(r.chance(1, 2)) m.invoke(*env, o[k].get()); else m.invoke(*env, c[k].get());
                    CROWD(ran == it->second, "native %s of %s: %d ran instead of %d", name.c_str(), cn[k].c_str(), ran, it->second);
                    vh::count("crowds: natives called");
                }
            }
        } else if(parts & (FUNCTIONS | FIELDS)) {
            auto& m = some();
            if(what < 3) enroll(m);
            else if(what < 5) lookup(m);
            else if(what == 5 && parts & REFLECT) reflect(m);
            else use(m);
        }
        env->PopLocalFrame(nullptr);
        if(step % 100 == 99) verify();
    }
    verify();
    vh::distinct(vh::mix(r.s, n));
#undef CROWD
}
}
