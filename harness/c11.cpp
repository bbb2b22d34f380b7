// C11: strings, against an own codec of modified UTF-8. Buffers are exact heap blocks (ASan) or sit between guard values.
#include "jh.h"
using namespace jh;
using namespace jnivm;
typedef std::vector<jchar> U16;

namespace {
    std::string encode(const jchar* p, size_t n) {
        std::string o;
        for(size_t i = 0; i < n; ++i) {
            unsigned c = p[i];
            if(c >= 1 && c <= 0x7f) o += (char)c;
            else if(c <= 0x7ff) { o += (char)(0xc0 + c / 64); o += (char)(0x80 + c % 64); }
            else { o += (char)(0xe0 + c / 4096); o += (char)(0x80 + c / 64 % 64); o += (char)(0x80 + c % 64); }
        }
        return o;
    }
    // kinds of units, so that every sequence of encoding lengths occurs
    jchar unit(vh::Rng& r, int style) {
        static const jchar edges[] = { 0, 1, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xff, 0x100, 0x3ff, 0x400, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0x3fff, 0x4000,
            0x7fff, 0x8000, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff };
        switch(style) {
        case 0: return 'a' + r.below(26);
        case 1: return 0;
        case 2: return r.below(0x800);
        case 3: return r.below(0x10000);
        case 4: return 0xd800 + r.below(0x800);
        case 5: return 0x80 + r.below(0x10);
        default: return edges[r.below(sizeof edges / sizeof *edges)];
        }
    }
    U16 units(vh::Rng& r, bool T, size_t big = 0) {
        size_t n;
        switch(r.below(8)) {
        case 0: n = r.below(3); break;
        case 1: n = r.below(300); break;
        case 2: n = r.chance(1, 4) ? r.below(T ? 100000 : 5000) : 7; break;
        default: n = r.below(20);
        }
        if(big) n = big;
        int style = r.below(9);
        U16 u(n);
        for(auto& c : u) c = unit(r, style < 7 ? style : r.below(7));
        return u;
    }
    std::string show(const U16& u) {
        std::string s = fmt("%zu units:", u.size());
        for(size_t i = 0; i < u.size() && i < 24; ++i) s += fmt(" %x", u[i]);
        return s;
    }
    struct Lit {
        U16 u;
        std::string b; // its bytes
        const char* origin;
    };
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C11");
    bool T = vh::S().thorough;
    // everything observable of one string
    auto whole = [&](JNIEnv* env, jstring s, const Lit& l) {
        auto d = fmt("%s %s", l.origin, show(l.u).c_str());
        auto& u = l.u;
        REQ(env->GetStringLength(s) == (jsize)u.size(), "C11:length", "%s: %d", d.c_str(), env->GetStringLength(s));
        REQ(env->GetStringUTFLength(s) == (jsize)l.b.size(), "C11:utf-length", "%s: %d instead of %zu", d.c_str(), env->GetStringUTFLength(s), l.b.size());
        jboolean copy = 7;
        auto c = env->GetStringChars(s, &copy);
        REQ(c && copy <= 1, "C11:chars", "%s", d.c_str());
        REQ(std::equal(u.begin(), u.end(), c), "C11:chars", "%s", d.c_str());
        auto crit = env->GetStringCritical(s, nullptr);
        REQ(crit && std::equal(u.begin(), u.end(), crit), "C11:critical", "%s", d.c_str());
        env->ReleaseStringCritical(s, crit);
        REQ(std::equal(u.begin(), u.end(), c), "C11:chars-after-release", "%s", d.c_str());
        env->ReleaseStringChars(s, c);
        copy = 7;
        auto b = env->GetStringUTFChars(s, &copy);
        REQ(b && copy <= 1, "C11:utf-chars", "%s", d.c_str());
        REQ(!memcmp(b, l.b.c_str(), l.b.size() + 1), "C11:utf-chars", "%s: not the encoding and a terminator", d.c_str());
        env->ReleaseStringUTFChars(s, b);
        REQ(env->GetStringLength(s) == (jsize)u.size(), "C11:length", "%s: changed by reading", d.c_str());
        vh::count("whole reads");
    };
    auto region = [&](JNIEnv* env, jstring s, const Lit& l, jsize start, jsize len, bool exact) {
        auto d = fmt("%s %s, region %d+%d", l.origin, show(l.u).c_str(), start, len);
        bool ok = start >= 0 && len >= 0 && (int64_t)start + len <= (int64_t)l.u.size();
        REQ(!env->ExceptionCheck(), "C11:stray-exception", "before %s", d.c_str());
        {
            size_t want = ok ? len : 0, guard = exact ? 0 : 8;
            std::unique_ptr<jchar[]> buf(new jchar[want + 2 * guard]);
            for(size_t i = 0; i < want + 2 * guard; ++i) buf[i] = 0x5a5a;
            auto p = buf.get() + guard;
            env->GetStringRegion(s, start, len, p);
            REQ((bool)env->ExceptionCheck() == !ok, "C11:region-exception", "%s", d.c_str());
            env->ExceptionClear();
            if(ok) REQ(std::equal(p, p + len, l.u.begin() + start), "C11:region", "%s: other units", d.c_str());
            for(size_t i = 0; i < guard; ++i) REQ(buf[i] == 0x5a5a && p[want + i] == 0x5a5a, "C11:region-overrun", "%s: wrote %zd outside", d.c_str(), i);
        }
        {
            auto want = ok ? encode(l.u.data() + start, len) : "";
            size_t guard = exact ? 0 : 8, n = ok ? want.size() + 1 : 0;
            std::unique_ptr<char[]> buf(new char[n + 2 * guard]);
            memset(buf.get(), 0x5a, n + 2 * guard);
            auto p = buf.get() + guard;
            env->GetStringUTFRegion(s, start, len, p);
            REQ((bool)env->ExceptionCheck() == !ok, "C11:utf-region-exception", "%s", d.c_str());
            env->ExceptionClear();
            if(ok) REQ(!memcmp(p, want.c_str(), n), "C11:utf-region", "%s: other bytes", d.c_str());
            for(size_t i = 0; i < guard; ++i) REQ(buf[i] == 0x5a && p[n + i] == 0x5a, "C11:utf-region-overrun", "%s: wrote %zd outside", d.c_str(), i);
        }
        vh::count(ok ? "regions" : "bad regions");
    };
    auto make = [&](vh::Rng& r, ENV* e, const U16& u, int how, Lit& l) -> jstring {
        auto env = e->GetJNIEnv();
        l.u = u;
        l.b = encode(u.data(), u.size());
        switch(how) {
        case 0: {
            l.origin = "NewString";
            // an exact, unterminated block
            std::unique_ptr<jchar[]> p(new jchar[u.size()]);
            std::copy(u.begin(), u.end(), p.get());
            return env->NewString(p.get(), u.size());
        }
        case 1: {
            l.origin = "NewStringUTF";
            std::unique_ptr<char[]> p(new char[l.b.size() + 1]);
            memcpy(p.get(), l.b.c_str(), l.b.size() + 1);
            return env->NewStringUTF(p.get());
        }
        default:
            l.origin = "native String";
            return (jstring)local(e, std::make_shared<String>(l.b));
        }
    };

    vh::run_cases("every unit", 0, T ? 64 : 16, [&](vh::Rng& r, long i) {
        jnivm::VM vm;
        auto e = vm.GetEnv().get();
        auto env = e->GetJNIEnv();
        long n = T ? 64 : 16;
        for(long c = i; c < 0x10000; c += n) {
            env->PushLocalFrame(8);
            Lit l;
            U16 u = { (jchar)c };
            auto k = r.below(3);
            if(k) u.push_back(unit(r, 6));
            if(k == 2) u.insert(u.begin(), unit(r, 6));
            auto s = make(r, e, u, r.below(3), l);
            whole(env, s, l);
            region(env, s, l, 0, u.size(), true);
            region(env, s, l, u.size() - 1, 1, true);
            vh::distinct(vh::hash(l.b));
            env->PopLocalFrame(nullptr);
        }
        vh::count("units", 0x10000 / n);
    });

    vh::run_cases("strings", 100, T ? 20000 : 1500, [&](vh::Rng& r, long) {
        jnivm::VM vm(false, r.chance(1, 2));
        auto e = vm.GetEnv().get();
        auto env = e->GetJNIEnv();
        Worker w;
        ENV* we = nullptr;
        w.run([&] { JNIEnv* x; vm.GetJavaVM()->AttachCurrentThread(&x, nullptr); we = ENV::FromJNIEnv(x); });
        auto str = e->GetClass<String>("java/lang/String");
        std::shared_ptr<String> seen;
        auto k = e->GetClass("c11/K");
        k->Hook(e, "echo", [&](std::shared_ptr<String> s) { seen = s; return s; });
        std::vector<std::pair<jobject, Lit>> all;
        Refs refs(env);
        int n = 1 + r.below(5);
        for(int x = 0; x < n; ++x) {
            Lit l;
            auto u = units(r, T);
            vh::op("string %d: %s", x, show(u).c_str());
            auto s = make(r, e, u, r.below(3), l);
            REQ(s && env->IsInstanceOf((jobject)s, env->FindClass("java/lang/String")), "C11:class", "%s", l.origin);
            all.emplace_back((jobject)refs.g((jobject)s), l);
            vh::distinct(vh::hash(l.b + l.origin));
        }
        int m = 4 + r.below(8);
        for(int x = 0; x < m; ++x) {
            auto f = [&](ENV* e) {
                auto env = e->GetJNIEnv();
                Refs refs(env);
                env->PushLocalFrame(16);
                auto& p = r.pick(all);
                auto kind = r.below(RKINDS);
                auto l = refs.make(env->NewLocalRef(p.first), kind);
                auto s = (jstring)l;
                auto& u = p.second.u;
                vh::op("read %s by %s", show(u).c_str(), kind_name(kind));
                switch(r.below(5)) {
                case 0: whole(env, s, p.second); break;
                case 1: case 2: case 3: {
                    int64_t N = u.size();
                    int64_t start, len;
                    switch(r.below(8)) {
                    case 0: start = 0; len = N; break;
                    case 1: start = r.below(N + 1); len = N - start; break;
                    case 2: start = r.below(N + 1); len = 0; break;
                    case 3: start = r.below(N + 1); len = N - start + 1 + r.below(3); break;
                    case 4: start = -1 - (int64_t)r.below(3); len = r.below(N + 4); break;
                    case 5: start = N + 1 + r.below(3); len = r.below(3); break;
                    case 6: {
                        static const jsize ext[] = { INT32_MAX, INT32_MIN, -1, 0, 1, INT32_MAX - 1, 0x40000000 };
                        start = ext[r.below(7)];
                        len = ext[r.below(7)];
                        break;
                    }
                    default: start = r.below(N + 1); len = r.below(N - start + 1);
                    }
                    region(env, s, p.second, start, len, r.chance(1, 2));
                    break;
                }
                default: {
                    auto cls = klass(e, k);
                    auto id = env->GetStaticMethodID(cls, "echo", "(Ljava/lang/String;)Ljava/lang/String;");
                    auto back = (jstring)env->CallStaticObjectMethod(cls, id, s);
                    REQ(seen && *(std::string*)seen.get() == p.second.b, "C11:native-view", "native code sees other bytes");
                    REQ(seen->asStdString() == p.second.b, "C11:native-view", "asStdString differs");
                    REQ(env->IsSameObject((jobject)back, (jobject)s), "C11:native-view", "echo returned another string");
                    whole(env, back, p.second);
                    seen = nullptr;
                    vh::count("native views");
                }
                }
                REQ(!env->ExceptionCheck(), "C11:stray-exception", "left behind");
                refs.release();
                env->PopLocalFrame(nullptr);
            };
            if(r.chance(1, 4)) w.run([&] { f(we); });
            else f(e);
        }
        // reading one string never changed another
        for(auto& p : all) whole(env, (jstring)p.first, p.second);
        refs.release();
        w.run([&] { vm.GetJavaVM()->DetachCurrentThread(); });
    });
    // Characters of several strings in use at the same time
    vh::run_cases("held characters", 300000, T ? 4000 : 300, [&](vh::Rng& r, long) {
        jnivm::VM vm(false, r.chance(1, 2));
        auto e = vm.GetEnv().get();
        auto env = e->GetJNIEnv();
        Worker w;
        ENV* we = nullptr;
        w.run([&] { JNIEnv* x; vm.GetJavaVM()->AttachCurrentThread(&x, nullptr); we = ENV::FromJNIEnv(x); });
        std::vector<std::pair<jstring, Lit>> all;
        Refs refs(env);
        for(int n = 1 + r.below(4); n-- > 0;) {
            Lit l;
            auto s = make(r, e, units(r, false), r.below(3), l);
            all.emplace_back((jstring)refs.g((jobject)s), l);
        }
        struct Held { int s, how; const void* p; };
        std::vector<Held> held;
        uint64_t h = 0;
        auto verify = [&](const Held& x) {
            auto& l = all[x.s].second;
            if(x.how == 2) REQ(!memcmp(x.p, l.b.c_str(), l.b.size() + 1), "C11:held", "UTF-8 characters of string %d are others", x.s);
            else REQ(std::equal(l.u.begin(), l.u.end(), (const jchar*)x.p), "C11:held", "%s characters of string %d are others", x.how ? "critical" : "UTF-16", x.s);
        };
        for(int n = 5 + r.below(40); n-- > 0;) {
            auto f = [&](ENV* e) {
                auto env = e->GetJNIEnv();
                if(held.size() && r.chance(2, 5)) {
                    size_t k = r.chance(1, 2) ? held.size() - 1 : r.below(held.size());
                    auto x = held[k];
                    held.erase(held.begin() + k);
                    verify(x);
                    auto s = all[x.s].first;
                    vh::op("release %d of string %d", x.how, x.s);
                    if(x.how == 0) env->ReleaseStringChars(s, (const jchar*)x.p);
                    else if(x.how == 1) env->ReleaseStringCritical(s, (const jchar*)x.p);
                    else env->ReleaseStringUTFChars(s, (const char*)x.p);
                } else {
                    Held x { (int)r.below(all.size()), (int)r.below(3), nullptr };
                    auto s = all[x.s].first;
                    vh::op("get %d of string %d", x.how, x.s);
                    if(x.how == 0) x.p = env->GetStringChars(s, nullptr);
                    else if(x.how == 1) x.p = env->GetStringCritical(s, nullptr);
                    else x.p = env->GetStringUTFChars(s, nullptr);
                    REQ(x.p, "C11:held", "null");
                    held.push_back(x);
                    h = vh::mix(h, x.how * 8 + x.s);
                    vh::count("held characters");
                    if(held.size() > 1) vh::count("held at the same time");
                }
                if(r.chance(1, 6)) { // other strings come and go
                    env->PushLocalFrame(4);
                    Lit l;
                    auto s = make(r, e, units(r, false), r.below(3), l);
                    whole(env, s, l);
                    env->PopLocalFrame(nullptr);
                }
            };
            if(r.chance(1, 4)) w.run([&] { f(we); }); else f(e);
            for(auto& x : held) verify(x);
        }
        while(held.size()) {
            auto x = held.back();
            held.pop_back();
            verify(x);
            auto s = all[x.s].first;
            if(x.how == 0) env->ReleaseStringChars(s, (const jchar*)x.p);
            else if(x.how == 1) env->ReleaseStringCritical(s, (const jchar*)x.p);
            else env->ReleaseStringUTFChars(s, (const char*)x.p);
        }
        for(auto& p : all) whole(env, p.first, p.second);
        refs.release();
        w.run([&] { vm.GetJavaVM()->DetachCurrentThread(); });
        vh::distinct(h);
    });
    // Around the sizes where a narrower type, a fixed buffer or a chunk would end
    vh::run_cases("big strings", 200000, T ? 200 : 32, [&](vh::Rng& r, long i) {
        jnivm::VM vm;
        auto e = vm.GetEnv().get();
        auto env = e->GetJNIEnv();
        static const size_t at[] = { 127, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8192, 16384, 21845, 21846, 32767, 32768, 65535, 65536, 87382, 131072, 262144 };
        auto u = units(r, T, at[i % 20] + r.below(5) - 2);
        Lit l;
        env->PushLocalFrame(8);
        auto s = make(r, e, u, r.below(3), l);
        vh::op("%s", show(u).c_str());
        whole(env, s, l);
        int64_t N = u.size();
        for(int k = 0; k < 8; ++k) {
            int64_t start = r.chance(1, 2) ? r.below(N + 1) : N - 1 - (int64_t)r.below(20), len = r.chance(1, 2) ? N - start : r.below(N - start + 1);
            region(env, s, l, start, len, k & 1);
        }
        for(int64_t start : { 32767, 32768, 65535, 65536 }) if(start <= N) region(env, s, l, start, N - start, r.chance(1, 2));
        region(env, s, l, N, 1, true);
        region(env, s, l, 1, N, false);
        env->ExceptionClear();
        vh::distinct(vh::hash(l.b));
        env->PopLocalFrame(nullptr);
        vh::count("big units", N);
    });
    return vh::finish();
}
