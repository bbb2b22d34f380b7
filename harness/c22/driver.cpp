// Linked to a dump: registers it on a fresh machine and looks up everything which was recorded
#include <baron/baron.h>
#include <fstream>
#include <cstring>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <jnivm.h>
using namespace jnivm;
#ifdef FAKE
void InitJNIBinding(FakeJni::Jvm* vm);
#else
void InitJNIBinding(jnivm::ENV* env);
#endif
template<class... A> void fail(const char* f, A... a) {
    printf("FAIL ");
    printf(f, a...);
    printf("\n");
}
int main(int argc, char** argv) {
    unsigned n = 0, calls = 0;
    {
#ifdef FAKE
    FakeJni::Jvm jvm; // knows nothing but what is registered
    auto e = ENV::FromJNIEnv(FakeJni::JniEnv::getCurrentEnv());
    InitJNIBinding(&jvm);
#else
    jnivm::VM vm(false, true);
    auto e = vm.GetEnv().get();
    InitJNIBinding(e);
#endif
    auto env = e->GetJNIEnv();
    std::ifstream f(argv[1]);
    std::string kind, cls, name, sig;
    std::map<std::string, jobject> objects;
    struct M { std::string kind, cls, name, sig; };
    std::vector<M> all;
    while(f >> kind >> cls) {
        name = sig = "";
        if(kind != "class") f >> name >> sig;
        all.push_back({ kind, cls, name, sig });
    }
    // constructors first: they give objects to call the rest on
    for(int pass = 0; pass < 2; ++pass) for(auto&& m : all) {
        if((m.kind == "ctor" || m.kind == "class") != (pass == 0)) continue;
        env->PushLocalFrame(50);
        auto c = env->FindClass(m.cls.c_str());
        ++n;
        auto what = m.kind + " " + m.cls + " " + m.name + " " + m.sig;
        if(!c) { fail("%s: no class", what.c_str()); continue; }
        auto cc = JNITypes<std::shared_ptr<Class>>::JNICast(e, c);
        std::vector<jvalue> none(64);
        memset(none.data(), 0, 64 * sizeof(jvalue));
        if(m.kind == "class") {
            if(cc->nativeprefix != m.cls) fail("%s: found %s", what.c_str(), cc->nativeprefix.c_str());
            if(!objects.count(m.cls) && cc->Instantiate) {
                auto o = env->NewGlobalRef((jobject)JNITypes<std::shared_ptr<Object>>::ToJNIReturnType(e, cc->Instantiate(e)));
                objects[m.cls] = o;
            }
        } else if(m.kind == "field" || m.kind == "sfield") {
            bool st = m.kind == "sfield";
            auto id = st ? env->GetStaticFieldID(c, m.name.c_str(), m.sig.c_str()) : env->GetFieldID(c, m.name.c_str(), m.sig.c_str());
            auto fld = (Field*)id;
            if(!id) { fail("%s: not found", what.c_str()); continue; }
            if(fld->name != m.name || fld->type != m.sig || fld->_static != st || !fld->getnativehandle || !fld->setnativehandle) fail("%s: is no registered field of this kind", what.c_str());
            auto o = objects.count(m.cls) ? objects[m.cls] : nullptr;
            if((st || o) && m.sig == "I") {
                if(st) env->SetStaticIntField(c, id, 77); else env->SetIntField(o, id, 77);
                if((st ? env->GetStaticIntField(c, id) : env->GetIntField(o, id)) != 77) fail("%s: reads something else than was written", what.c_str());
                ++calls;
            } else if((st || o) && (m.sig[0] == 'L' || m.sig[0] == '[')) {
                if(st ? env->GetStaticObjectField(c, id) : env->GetObjectField(o, id)) fail("%s: is not null", what.c_str());
                ++calls;
            }
        } else {
            bool st = m.kind == "smethod";
            auto id = st ? env->GetStaticMethodID(c, m.name.c_str(), m.sig.c_str()) : env->GetMethodID(c, m.name.c_str(), m.sig.c_str());
            auto me = (Method*)id;
            if(!id) { fail("%s: not found", what.c_str()); continue; }
            if(me->name != m.name || !me->nativehandle || me->native || me->_static != (st || m.kind == "ctor") || (m.kind != "ctor" && me->signature != m.sig)) fail("%s: is no registered method of this kind", what.c_str());
            if(m.kind == "ctor") {
                auto o = env->NewObjectA(c, id, none.data());
                if(!o || !env->IsSameObject(env->GetObjectClass(o), c)) fail("%s: constructs nothing of the class", what.c_str());
                else objects[m.cls] = env->NewGlobalRef(o);
                ++calls;
            } else if(st || objects.count(m.cls)) {
                auto o = st ? nullptr : objects[m.cls];
                bool zero = true;
                switch(m.sig[m.sig.find(')') + 1]) {
#define CASE(l, T) case l: zero = !(st ? env->CallStatic##T##MethodA(c, id, none.data()) : env->Call##T##MethodA(o, id, none.data())); break
                CASE('Z', Boolean); CASE('B', Byte); CASE('C', Char); CASE('S', Short); CASE('I', Int); CASE('J', Long); CASE('F', Float); CASE('D', Double); CASE('L', Object); CASE('[', Object);
                case 'V': if(st) env->CallStaticVoidMethodA(c, id, none.data()); else env->CallVoidMethodA(o, id, none.data()); break;
                }
                if(!zero) fail("%s: the stub returns something", what.c_str());
                ++calls;
            }
            if(env->ExceptionCheck()) { env->ExceptionDescribe(); env->ExceptionClear(); fail("%s: calling the stub raised an exception", what.c_str()); }
        }
        env->PopLocalFrame(nullptr);
    }
    for(auto&& o : objects) env->DeleteGlobalRef(o.second);
    }
    printf("DONE %u %u\n", n, calls);
    fflush(stdout);
    _Exit(0);
}
