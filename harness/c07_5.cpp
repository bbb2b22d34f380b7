// Calls of functions with up to 255 parameters of mixed types
#include "values.h"
using namespace jnivm;

namespace {
    using Types = std::tuple<jint, jlong, jdouble, jfloat, jbyte, jchar, jshort, jboolean, jobject>;
    static const char codes[] = "IJDFBCSZL";
    constexpr size_t kind(size_t n, size_t i, size_t seed) { return (i * 7 + n * 3 + (i * i + seed) / 5 + seed) % 9; }
    std::vector<uint64_t> seen;
    template<class T> uint64_t bits(T t) { uint64_t x = 0; memcpy(&x, &t, sizeof t); return x; }
    template<class T> T unbits(uint64_t x) { T t; memcpy(&t, &x, sizeof t); return t; }
    struct Long {
        std::string descriptor;
        std::function<void(ENV*, Class*, const std::string&, jint)> hook;
        std::function<jint(JNIEnv*, jclass, jobject, jmethodID, const std::vector<jvalue>&, int)> call;
        size_t n, seed;
    };
    template<class T> T of(const jvalue& v) { return unbits<T>((uint64_t)v.j); }
    template<size_t N, size_t S, size_t... I> Long make(std::index_sequence<I...>) {
        Long l;
        l.n = N; l.seed = S;
        l.descriptor = "(";
        for(size_t i = 0; i < N; ++i) { auto c = codes[kind(N, i, S)]; l.descriptor += c == 'L' ? std::string("Ljava/lang/Object;") : std::string(1, c); }
        l.descriptor += ")I";
        l.hook = [](ENV* e, Class* c, const std::string& name, jint result) {
            auto f = [result](std::tuple_element_t<kind(N, I, S), Types>... a) -> jint { seen = { bits(a)... }; return result; };
            c->Hook(e, name, decltype(f)(f));
            c->HookInstanceFunction(e, name, [f](Object*, std::tuple_element_t<kind(N, I, S), Types>... a) -> jint { return f(a...); });
        };
        l.call = [](JNIEnv* env, jclass c, jobject o, jmethodID id, const std::vector<jvalue>& v, int form) -> jint {
            switch(form) {
            case 0: return env->functions->CallStaticIntMethodA(env, c, id, (jvalue*)v.data());
            case 1: return env->functions->CallIntMethodA(env, o, id, (jvalue*)v.data());
            case 2: return env->functions->CallStaticIntMethod(env, c, id, of<std::tuple_element_t<kind(N, I, S), Types>>(v[I])...);
            case 3: return env->functions->CallIntMethod(env, o, id, of<std::tuple_element_t<kind(N, I, S), Types>>(v[I])...);
            case 4: return env->CallStaticIntMethod(c, id, of<std::tuple_element_t<kind(N, I, S), Types>>(v[I])...);
            default: return env->functions->CallNonvirtualIntMethod(env, o, c, id, of<std::tuple_element_t<kind(N, I, S), Types>>(v[I])...);
            }
        };
        return l;
    }
    template<size_t N, size_t S> Long make() { return make<N, S>(std::make_index_sequence<N>()); }
}

void c07_long(vh::Rng& r) {
    static std::vector<Long> fs { make<100, 1>(), make<127, 2>(), make<128, 3>(), make<129, 4>(), make<160, 5>(), make<200, 6>(), make<254, 7>(), make<255, 8>() };
    static const char* forms[] = { "static array", "instance array", "static variadic", "instance variadic", "static variadic wrapper", "nonvirtual variadic" };
    VM vm(false, r.chance(1, 2));
    auto e = vm.GetEnv().get();
    auto env = e->GetJNIEnv();
    auto c = e->GetClass("c07/Long");
    std::vector<jint> result;
    for(size_t k = 0; k < fs.size(); ++k) { result.push_back((jint)r.next()); fs[k].hook(e, c.get(), "f", result[k]); }
    auto o = std::make_shared<Object>();
    o->clazz = c;
    for(int s = 0; s < 12; ++s) {
        env->PushLocalFrame(8);
        auto jc = env->FindClass("c07/Long");
        auto jo = jh::local(e, o);
        auto k = r.below(fs.size());
        auto& f = fs[k];
        int form = r.below(6);
        bool st = form == 0 || form == 2 || form == 4;
        std::vector<jvalue> v(f.n);
        std::vector<uint64_t> want;
        for(size_t i = 0; i < f.n; ++i) {
            auto x = r.chance(1, 5) ? (r.chance(1, 2) ? 0 : ~0ull) : r.next();
            switch(codes[kind(f.n, i, f.seed)]) {
            case 'I': x &= 0xffffffff; break;
            case 'F': x &= 0xffffffff; if((x & 0x7f800000) == 0x7f800000) x &= ~0x40000000ull; break;
            case 'D': if((x & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) x &= ~0x4000000000000000ull; break;
            case 'B': x &= 0xff; break;
            case 'C': case 'S': x &= 0xffff; break;
            case 'Z': x &= 1; break;
            case 'L': x = r.chance(1, 3) ? 0 : (uint64_t)(r.chance(1, 2) ? jo : (jobject)jc); break;
            }
            v[i].j = (jlong)x;
            want.push_back(x);
        }
        auto id = st ? env->GetStaticMethodID(jc, "f", f.descriptor.c_str()) : env->GetMethodID(jc, "f", f.descriptor.c_str());
        REQ(id, "C07:long-lookup", "%zu parameters", f.n);
        seen.clear();
        vh::op("%s call of %zu parameters", forms[form], f.n);
        auto got = f.call(env, jc, jo, id, v, form);
        REQ(!env->ExceptionCheck() && seen.size() == f.n, "C07:long-call", "%s, %zu parameters: the function was not called", forms[form], f.n);
        for(size_t i = 0; i < f.n; ++i) REQ(seen[i] == want[i], "C07:long-argument", "%s, %zu parameters: argument %zu (%c) is %llx, passed %llx", forms[form], f.n, i, codes[kind(f.n, i, f.seed)], (unsigned long long)seen[i], (unsigned long long)want[i]);
        REQ(got == result[k], "C07:long-result", "%s, %zu parameters", forms[form], f.n);
        vh::count(vh::fmt("more than a hundred parameters: %s", forms[form]));
        env->PopLocalFrame(nullptr);
    }
}
