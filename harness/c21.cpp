// C21: descriptors of any content. The deciding oracle is the sanitizer (texts live in exactly sized allocations);
// results, errors and untouched neighbours are checked too.
#include "jh.h"
#include <baron/baron.h>
#include <jnivm/internal/codegen/parseJNIType.h>
using namespace jh;
using namespace jnivm;

namespace {
    struct Box : Extends<Object> { jint v = 5; };
    struct MyBaron : Baron::Jvm { VM* vm() { return this; } };
    // exactly sized copy
    struct Text {
        char* p;
        explicit Text(const std::string& s) : p((char*)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); }
        ~Text() { free(p); }
    };
    // arguments in memory of exactly n slots
    struct Args {
        struct raw { unsigned gp, fp; void* overflow; void* save; };
        std::vector<uint64_t> slots;
        uint64_t* p;
        va_list l;
        explicit Args(size_t n) {
            p = (uint64_t*)malloc(n * 8 + 8);
            memset(p, 0, n * 8 + 8);
            auto r = (raw*)l;
            r->gp = 48;
            r->fp = 176;
            r->overflow = p;
            r->save = nullptr;
        }
        ~Args() { free(p); }
    };
    std::string show(const std::string& s) { return s.size() > 120 ? vh::esc(s.substr(0, 80)) + "... (" + std::to_string(s.size()) + ")" : vh::esc(s); }

    std::string type(vh::Rng& r, int depth = 0) {
        static const char* prim = "ZBCSIJFD";
        switch(r.below(depth > 3 ? 8 : 12)) {
        default: return std::string(1, prim[r.below(8)]);
        case 8: case 9: {
            static const char* n[] = { "java/lang/String", "java/lang/Object", "c21/Box", "c21/A$B", "X", "a/b/c", "java/lang/Class", "c21/L", "L", "V", "I", "c21/Unknown$In$ner" };
            return "L" + std::string(n[r.below(12)]) + ";";
        }
        case 10: case 11: return "[" + type(r, depth + 1);
        }
    }
    std::string valid(vh::Rng& r, bool method) {
        if(!method) return type(r);
        std::string s = "(";
        int n = r.below(r.chance(1, 6) ? 30 : 6);
        for(int k = 0; k < n; ++k) s += type(r);
        return s + ")" + (r.chance(1, 3) ? "V" : type(r));
    }
    const std::string alphabet = "()[LVZBCSIJFD;/$.<>a-*+";
    std::string mutate(vh::Rng& r, std::string s) {
        int n = 1 + r.below(3);
        for(int k = 0; k < n; ++k) {
            size_t p = r.below(s.size() + 1);
            switch(r.below(6)) {
            case 0: if(p < s.size()) s.erase(p, 1 + r.below(3)); break;
            case 1: s.insert(p, 1, alphabet[r.below(alphabet.size())]); break;
            case 2: if(p < s.size()) s[p] = alphabet[r.below(alphabet.size())]; break;
            case 3: s.resize(p); break;
            case 4: s += s.substr(p); break;
            case 5: if(p < s.size()) s[p] = (char)(1 + r.below(255)); break;
            }
        }
        return s;
    }
    std::string repeat(const std::string& s, size_t n) {
        std::string o;
        while(o.size() < n) o += s;
        return o;
    }
    std::string longone(vh::Rng& r, size_t max) {
        size_t n = 200 + r.below(r.chance(1, 2) ? 3000 : max);
        static const char* unit[] = { "[", "(", ")", "L", "I", ";", "a", "V", "La;", "[I", "D", "()", "[L", "Lx", "\xff", "Ljava/lang/String;", "[[J", "L;" };
        std::string u = repeat(unit[r.below(18)], n), o;
        // class names of limited depth
        switch(r.below(6)) {
        case 0: o = u; break;
        case 1: o = "(" + u; break;
        case 2: o = "(" + u + ")V"; break;
        case 3: o = "()" + u; break;
        case 4: o = "(L" + u + ";)L" + u + ";"; break;
        case 5: o = "(" + u + ")" + u; break;
        }
        if(o.size() > 65535) o.resize(65535);
        return o;
    }
    // names nested in at most 255 packages and classes
    std::string nested(vh::Rng& r) {
        int n = 1 + r.below(255);
        std::string o = r.chance(1, 2) ? "(L" : "()[L";
        for(int k = 0; k < n; ++k) o += "p" + std::string(r.chance(1, 8) ? "" : "/");
        if(r.chance(1, 2)) for(size_t k = std::count(o.begin(), o.end(), '/'); k < 250; ++k) o += "$i";
        return o + (r.chance(1, 2) ? "" : o[1] == 'L' ? ";)V" : ";");
    }
    // names with more separators than that are not generated
    bool toodeep(const std::string& s) {
        size_t n = 0;
        for(char c : s) {
            if(c == '/' || c == '$') { if(++n > 255) return true; }
            else if(c == ';') n = 0;
        }
        return false;
    }
    // number of arguments a well-formed method descriptor takes; -1 if malformed
    int argcount(const std::string& s) {
        size_t p = 1;
        int n = 0;
        if(s.empty() || s[0] != '(') return -1;
        auto one = [&](bool v) {
            while(p < s.size() && s[p] == '[') { ++p; v = false; }
            if(p >= s.size()) return false;
            if(s[p] == 'L') { p = s.find(';', p); if(p == s.npos) return false; }
            else if(!strchr(v ? "ZBCSIJFDV" : "ZBCSIJFD", s[p])) return false;
            ++p;
            return true;
        };
        while(p < s.size() && s[p] != ')') { if(!one(false)) return -1; ++n; }
        if(p >= s.size()) return -1;
        ++p;
        return one(true) && p == s.size() ? n : -1;
    }

    template<class F> bool guarded(const char* what, F f) {
        try {
            f();
            return true;
        } catch(const vh::Stop&) {
            throw;
        } catch(const std::exception&) {
            vh::count("errors reported");
        } catch(...) {
            vh::soft("C21:error", std::string(what) + " threw something which is no std::exception");
        }
        return false;
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C21");
    bool T = vh::S().thorough;
    auto run = [&](vh::Rng& r, long i, std::function<std::string(bool)> gen, int n, bool big) {
        int mode = r.below(4);
        std::unique_ptr<jnivm::VM> plain;
        std::unique_ptr<MyBaron> baron;
        jnivm::VM* vm;
        if(mode == 3) { baron.reset(new MyBaron); vm = baron->vm(); }
        else { plain.reset(new jnivm::VM(false, mode == 2)); vm = plain.get(); }
        bool null = mode == 2;
        auto e = vm->GetEnv().get();
        auto env = e->GetJNIEnv();
        auto c = e->GetClass<Box>("c21/Box");
        c->Hook(e, "ok", []() -> jint { return 42; });
        c->HookInstance(e, "v", &Box::v);
        auto other = e->GetClass("c21/Other");
        auto cl = (jclass)env->NewGlobalRef((jobject)klass(e, c)), cl2 = (jclass)env->NewGlobalRef((jobject)klass(e, other));
        auto obj = env->NewGlobalRef(local(e, std::make_shared<Box>()));
        auto okid = env->GetStaticMethodID(cl, "ok", "()I");
        auto fid = env->GetFieldID(cl, "v", "I");
        for(int k = 0; k < n; ++k) {
            bool method = r.chance(2, 3);
            auto s = gen(method);
            s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
            if(toodeep(s)) continue;
            vh::op("%s '%s'", method ? "method" : "field", show(s).c_str());
            vh::distinct(vh::hash(s));
            vh::count("descriptors");
            int want = argcount(s);
            vh::count(want < 0 ? "malformed" : "well-formed");
            env->PushLocalFrame(32);
            auto use = r.chance(1, 2) ? cl : cl2;
            if(method) {
                bool stat = r.chance(1, 2), ctor = !stat && r.chance(1, 5);
                jmethodID id = nullptr;
                Text t(s);
                std::string name = ctor ? "<init>" : "m" + std::to_string(r.below(4));
                guarded("lookup", [&] { id = stat ? env->GetStaticMethodID(use, name.c_str(), t.p) : env->GetMethodID(use, name.c_str(), t.p); });
                SOFT(!null || !id, "C21:null", "found '%s'", show(s).c_str());
                if(id) {
                    vh::count("method placeholders");
                    auto m = (Method*)id;
                    SOFT(m->name == name && (ctor || m->signature == s), "C21:identity", "'%s' is stored as '%s'", show(s).c_str(), show(m->signature).c_str());
                    size_t slots = want >= 0 ? want : s.size();
                    if(slots == 0) slots = 0;
                    std::vector<jvalue> a(slots + 1);
                    memset(a.data(), 0, sizeof(jvalue) * a.size());
                    for(int form = 0; form < 2; ++form) {
                        auto check = [&](jobject o) { SOFT(!o || env->GetObjectClass(o), "C21:result", "'%s' gave an object without class", show(s).c_str()); if(o) vh::count("object results"); };
                        auto zero = [&](double v) { SOFT(v == 0, "C21:result", "'%s' gave %g", show(s).c_str(), v); };
                        guarded("call", [&] {
                            Args l(slots);
                            int k = r.below(5);
                            if(ctor) { check(form ? env->NewObjectV(use, id, l.l) : env->NewObjectA(use, id, a.data())); return; }
                            if(stat) switch(k) {
                                case 0: check(form ? env->CallStaticObjectMethodV(use, id, l.l) : env->CallStaticObjectMethodA(use, id, a.data())); break;
                                case 1: zero(form ? env->CallStaticIntMethodV(use, id, l.l) : env->CallStaticIntMethodA(use, id, a.data())); break;
                                case 2: zero(form ? env->CallStaticDoubleMethodV(use, id, l.l) : env->CallStaticDoubleMethodA(use, id, a.data())); break;
                                case 3: form ? env->CallStaticVoidMethodV(use, id, l.l) : env->CallStaticVoidMethodA(use, id, a.data()); break;
                                case 4: zero(form ? env->CallStaticBooleanMethodV(use, id, l.l) : env->CallStaticBooleanMethodA(use, id, a.data())); break;
                            } else switch(k) {
                                case 0: check(form ? env->CallObjectMethodV(obj, id, l.l) : env->CallObjectMethodA(obj, id, a.data())); break;
                                case 1: zero(form ? env->CallLongMethodV(obj, id, l.l) : env->CallLongMethodA(obj, id, a.data())); break;
                                case 2: zero(form ? env->CallFloatMethodV(obj, id, l.l) : env->CallFloatMethodA(obj, id, a.data())); break;
                                case 3: form ? env->CallNonvirtualVoidMethodV(obj, use, id, l.l) : env->CallNonvirtualVoidMethodA(obj, use, id, a.data()); break;
                                case 4: check(form ? env->CallNonvirtualObjectMethodV(obj, use, id, l.l) : env->CallNonvirtualObjectMethodA(obj, use, id, a.data())); break;
                            }
                            vh::count("calls");
                        });
                    }
                    // object results always, they interpret the descriptor
                    guarded("call", [&] { if(!ctor) { auto o = stat ? env->CallStaticObjectMethodA(use, id, a.data()) : env->CallObjectMethodA(obj, id, a.data()); SOFT(!o || env->GetObjectClass(o), "C21:result", "no class"); } });
                    if(!env->ExceptionCheck()) {} else env->ExceptionClear();
                    guarded("generating", [&] {
                        auto h = m->GenerateHeader("Cls"), st = m->GenerateStubs("scope", "Cls"), b = m->GenerateJNIBinding("scope", "Cls");
                        SOFT(h.find(ctor ? "Cls" : name) != h.npos && st.size() && b.size(), "C21:generated", "nothing for '%s'", show(s).c_str());
                        vh::count("generated");
                    });
                }
            } else {
                bool stat = r.chance(1, 2);
                jfieldID id = nullptr;
                Text t(s);
                std::string name = "f" + std::to_string(r.below(4));
                guarded("lookup", [&] { id = stat ? env->GetStaticFieldID(use, name.c_str(), t.p) : env->GetFieldID(use, name.c_str(), t.p); });
                SOFT(!null || !id, "C21:null", "found '%s'", show(s).c_str());
                if(id) {
                    vh::count("field placeholders");
                    auto m = (Field*)id;
                    SOFT(m->name == name && m->type == s, "C21:identity", "'%s' is stored as '%s'", show(s).c_str(), show(m->type).c_str());
                    guarded("access", [&] {
                        auto o = stat ? env->GetStaticObjectField(use, id) : env->GetObjectField(obj, id);
                        SOFT(!o || env->GetObjectClass(o), "C21:result", "'%s' gave an object without class", show(s).c_str());
                        if(o) vh::count("object results");
                        SOFT((stat ? env->GetStaticIntField(use, id) : env->GetIntField(obj, id)) == 0, "C21:result", "'%s'", show(s).c_str());
                        SOFT((stat ? env->GetStaticDoubleField(use, id) : env->GetDoubleField(obj, id)) == 0, "C21:result", "'%s'", show(s).c_str());
                        if(stat) { env->SetStaticObjectField(use, id, obj); env->SetStaticLongField(use, id, 3); }
                        else { env->SetObjectField(obj, id, obj); env->SetLongField(obj, id, 3); }
                        vh::count("accesses");
                    });
                    if(env->ExceptionCheck()) env->ExceptionClear();
                    guarded("generating", [&] {
                        auto h = m->GenerateHeader(), st = m->GenerateStubs("scope", "Cls"), b = m->GenerateJNIBinding("scope", "Cls");
                        SOFT(h.find(name) != h.npos && b.size(), "C21:generated", "nothing for '%s'", show(s).c_str());
                        vh::count("generated");
                    });
                }
            }
            env->PopLocalFrame(nullptr);
            // nobody else was harmed
            jvalue none[1];
            REQ(env->CallStaticIntMethodA(cl, okid, none) == 42 && env->GetStaticMethodID(cl, "ok", "()I") == okid && env->GetIntField(obj, fid) == 5, "C21:neighbour", "after '%s'", show(s).c_str());
        }
        guarded("dump", [&] {
            auto d = vm->GeneratePreDeclaration() + vm->GenerateHeader() + vm->GenerateStubs() + vm->GenerateJNIPreDeclaration() + vm->GenerateJNIBinding();
            SOFT(d.find("c21") != d.npos, "C21:generated", "no dump");
            vh::count("dumps");
        });
    };
    vh::run_cases("mutated descriptors", 0, T ? 40000 : 2400, [&](vh::Rng& r, long i) {
        run(r, i, [&](bool m) { auto s = valid(r, r.chance(9, 10) ? m : !m); return r.chance(1, 6) ? s : mutate(r, s); }, 12, false);
    });
    vh::run_cases("random descriptors", 1000000, T ? 40000 : 2400, [&](vh::Rng& r, long i) {
        bool limited = r.chance(2, 3);
        run(r, i, [&](bool m) {
            std::string s(r.below(r.chance(1, 4) ? 200 : 24), ' ');
            for(auto& c : s) c = limited ? alphabet[r.below(alphabet.size())] : (char)(1 + r.below(255));
            return (r.chance(1, 3) ? "(" : "") + s;
        }, 12, false);
    });
    vh::run_cases("long descriptors", 2000000, T ? 3000 : 240, [&](vh::Rng& r, long i) {
        run(r, i, [&](bool) { return longone(r, 65000); }, 1, true);
        vh::count("long");
    });
    vh::run_cases("nested names", 3000000, T ? 4000 : 240, [&](vh::Rng& r, long i) {
        run(r, i, [&](bool) { return nested(r); }, 2, true);
        vh::count("nested");
    });
    return vh::finish();
}
