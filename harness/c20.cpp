// C20: deny rules of the fabricating compatibility machine.
#include "graph.h"
#include <baron/baron.h>
using namespace jh;
using namespace jnivm;
using namespace graph;

namespace {
    struct MyBaron : Baron::Jvm {
        using Baron::Jvm::Jvm;
        VM* vm() { return this; }
    };
    enum Kind { IMETHOD, SMETHOD, IFIELD, SFIELD, CTOR, KINDS };
    const char* kname[] = { "method", "static method", "field", "static field", "constructor" };
    struct Rule { std::string name, sig, cls; };
    template<class... P> void hook_method(ENV* e, Class* c, bool st, const std::string& n, int tag) {
        if(st) c->Hook(e, n, [tag](ENV*, P...) -> jint { return tag; });
        else c->HookInstanceFunction(e, n, [tag](ENV*, P...) -> jint { return tag; });
    }
    template<class T> void hook_field(ENV* e, Class* c, bool st, const std::string& n, T v) {
        if(st) c->HookGetterFunction(e, n, [v](ENV*, Class*) -> T { return v; });
        else c->HookInstanceGetterFunction(e, n, [v](ENV*, Object*) -> T { return v; });
    }
    const std::vector<std::string> msigs { "()I", "(I)I", "(Ljava/lang/String;)I", "()V", "(I)Ljava/lang/String;", "()Lc20/Mentioned;" };
    const std::vector<std::string> fsigs { "I", "J", "Ljava/lang/String;", "Lc20/Mentioned;", "[I" };
    const std::vector<std::string> csigs { "()V", "(I)V" };
    struct Key {
        int cls, kind;
        std::string name, sig;
        bool operator<(const Key& o) const { return std::tie(cls, kind, name, sig) < std::tie(o.cls, o.kind, o.name, o.sig); }
    };
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C20");
    bool T = vh::S().thorough;
    std::vector<std::vector<Ent>> worlds = { world<0>(), world<2>(), world<3>() };
    vh::run_cases("deny histories", 0, T ? 12000 : 900, [&](vh::Rng& r, long i) {
        auto& w = worlds[i % worlds.size()];
        std::vector<std::string> names { "f", "ff", "g", "x", "getX", "<init>" };
        // classes: of the graph, then fabricated ones
        std::vector<std::string> cnames;
        for(int k = 0; k < NC; ++k) cnames.push_back("c20/K" + std::to_string(k));
        for(auto n : { "c20/Fab", "c20/Fab2", "Fab", "c20/K1x", "java/lang/Object", "java/lang/String" }) cnames.push_back(n);
        std::vector<std::string> lookups { "a", "b", "a/b", "a/b$c", "a$b", "a$b$c", "b/a", "aa", "c20/Mentioned", "c20/A", "[I", "[La;", "[[I", "java/lang/String", "java/lang/Class", "c20/K3", "c20/Fab" };
        Stretch stretch(r);
        for(auto&& n : names) n = stretch(n);
        auto grow = [&](std::vector<std::string>& v) { for(auto&& n : v) if(n[0] != '[' && n.rfind("java/", 0) != 0 && n != "c20/Mentioned") n = stretch(n); };
        grow(cnames);
        grow(lookups);
        std::vector<Rule> mrules, frules;
        std::set<std::string> crules;
        auto random_class = [&] { auto s = r.chance(1, 3) ? r.pick(lookups) : r.pick(cnames); return s; };
        std::map<Key, int> real; // implementation
        std::map<Key, void*> fabricated;
        auto pickkey = [&](auto& m) { auto it = m.begin(); std::advance(it, r.below(m.size())); return it->first; };
        auto deny = [&](Baron::Jvm* j) {
            bool old = r.chance(1, 3);
            switch(r.below(3)) {
            case 0: {
                auto n = r.chance(1, 8) ? r.pick(cnames) : r.pick(lookups);
                vh::op("deny class '%s'", n.c_str());
                crules.insert(n);
                if(old) j->blacklistClass(n.c_str()); else j->denyClass(n.c_str());
                vh::count("class rules");
                break;
            }
            case 1: case 2: {
                bool m = r.chance(1, 2);
                Rule u { r.chance(1, 4) ? "" : r.pick(names), "", "" };
                if(!r.chance(1, 3)) u.sig = u.name == "<init>" && m ? csigs[r.below(2)] : m ? msigs[r.below(msigs.size())] : fsigs[r.below(fsigs.size())];
                if(!r.chance(1, 3)) u.cls = random_class();
                if(r.chance(1, 2) && (real.size() || fabricated.size())) {
                    // about a member there is
                    auto q = real.size() && (fabricated.empty() || r.chance(2, 3)) ? pickkey(real) : pickkey(fabricated);
                    m = q.kind == IMETHOD || q.kind == SMETHOD || q.kind == CTOR;
                    u = { r.chance(1, 4) ? "" : q.name, r.chance(1, 3) ? "" : q.sig, r.chance(1, 3) ? "" : r.chance(1, 2) ? cnames[q.cls] : r.pick(cnames) };
                }
                if(u.name.empty() && u.sig.empty() && u.cls.empty() && !r.chance(1, 8)) u.name = "ff"; // everything, rarely
                vh::op("deny %s '%s' '%s' '%s'", m ? "method" : "field", u.name.c_str(), u.sig.c_str(), u.cls.c_str());
                bool three = !u.cls.empty() || r.chance(1, 2);
                if(m) {
                    if(old) { if(three) j->blacklistMethod(u.name.c_str(), u.sig.c_str(), u.cls.c_str()); else j->blacklistMethod(u.name.c_str(), u.sig.c_str()); }
                    else { if(three) j->denyMethod(u.name.c_str(), u.sig.c_str(), u.cls.c_str()); else j->denyMethod(u.name.c_str(), u.sig.c_str()); }
                    mrules.push_back(u);
                } else {
                    if(old) { if(three) j->blacklistField(u.name.c_str(), u.sig.c_str(), u.cls.c_str()); else j->blacklistField(u.name.c_str(), u.sig.c_str()); }
                    else { if(three) j->denyField(u.name.c_str(), u.sig.c_str(), u.cls.c_str()); else j->denyField(u.name.c_str(), u.sig.c_str()); }
                    frules.push_back(u);
                }
                vh::count(std::string("rules with ") + (u.name.empty() ? "" : "name ") + (u.sig.empty() ? "" : "descriptor ") + (u.cls.empty() ? "" : "class"));
            }
            }
        };
        auto matches = [](const std::vector<Rule>& rules, const std::string& n, const std::string& s, const std::string& c, bool anyclass = false) {
            for(auto&& u : rules)
                if((u.name.empty() || u.name == n) && (u.sig.empty() || u.sig == s) && (u.cls.empty() || anyclass || u.cls == c)) return true;
            return false;
        };
        // rules given before the machine starts, or later
        std::unique_ptr<MyBaron> machine;
        if(r.chance(1, 2)) {
            int n = r.below(6);
            machine.reset(new MyBaron([&](Baron::Jvm* j) { for(int k = 0; k < n; ++k) deny(j); }));
            vh::count("early rules", n);
        } else machine.reset(new MyBaron);
        auto vm = machine->vm();
        auto e = vm->GetEnv().get();
        auto env = e->GetJNIEnv();
        Worker other;
        JNIEnv* env2 = nullptr;
        other.run([&] { machine->AttachCurrentThread(&env2, nullptr); });
        Refs refs(env);
        // a crowd of rules for symbols nobody looks up
        if(r.chance(1, 10)) {
            int n = 20 + r.below(1000);
            vh::op("%d rules about other symbols", n);
            auto j = machine.get();
            for(int k = 0; k < n; ++k) {
                auto z = "zz" + std::to_string(k);
                switch(r.below(6)) {
                case 0: j->denyClass(("zz/" + z).c_str()); crules.insert("zz/" + z); break;
                case 1: j->denyMethod(z.c_str(), r.pick(msigs).c_str()); break;
                case 2: j->denyField(z.c_str(), "", r.pick(cnames).c_str()); break;
                case 3: { auto& n = r.pick(names); j->denyMethod(n.c_str(), "", z.c_str()); mrules.push_back({ n, "", z }); break; }
                case 4: j->denyField("", "", z.c_str()); frules.push_back({ "", "", z }); break;
                case 5: j->denyMethod("", z.c_str()); break;
                }
            }
            vh::count("cases:crowds of rules");
        }
        // known classes; 2: perhaps (mentioned by another)
        std::map<std::string, int> known;
        for(auto&& c : machine->getClasses()) known[c->nativeprefix] = 1;
        std::vector<std::shared_ptr<Class>> c(cnames.size());
        auto know = [&](const std::string& n) {
            known[n] = 1;
            for(size_t p = n.find('$'); p != n.npos; p = n.find('$', p + 1)) if(!known.count(n.substr(0, p))) known[n.substr(0, p)] = 2;
        };
        int registered = 3 + r.below(NC - 3);
        std::vector<std::vector<int>> anc(cnames.size());
        for(size_t k = 0; k < cnames.size(); ++k) {
            if((int)k < NC) c[k] = w[k].reg(e, cnames[k].c_str()); else c[k] = e->GetClass(cnames[k].c_str());
            know(cnames[k]);
            anc[k].push_back(k);
            if((int)k < NC) {
                for(size_t a = 0; a < anc[k].size(); ++a) for(int b : w[anc[k][a]].bases) if(std::find(anc[k].begin(), anc[k].end(), b) == anc[k].end()) anc[k].push_back(b);
                anc[k].push_back(NC + 4); // java/lang/Object
            }
        }
        std::map<Key, void*> last;
        int tags = 0;
        uint64_t h = i % 3;
        int steps = 60 + r.below(80);
        for(int st = 0; st < steps; ++st) {
            bool two = r.chance(1, 3);
            auto en = two ? env2 : env;
            auto on = [&](const std::function<void()>& f) { if(two) other.run(f); else f(); };
            int op = r.below(10);
            if(op == 0) {
                deny(machine.get());
            } else if(op == 1) {
                // a real member, perhaps of a denied name
                int k = r.below(cnames.size() - 2), kind = r.below(4);
                auto n = names[r.below(names.size() - 1)];
                int tag = ++tags, s = r.below(3);
                bool stat = kind == SMETHOD || kind == SFIELD;
                std::string sig = kind <= SMETHOD ? msigs[s] : fsigs[s];
                vh::op("register %s %s %s of %s", kname[kind], n.c_str(), sig.c_str(), cnames[k].c_str());
                if(kind <= SMETHOD) {
                    if(s == 0) hook_method<>(e, c[k].get(), stat, n, tag);
                    else if(s == 1) hook_method<jint>(e, c[k].get(), stat, n, tag);
                    else hook_method<std::shared_ptr<String>>(e, c[k].get(), stat, n, tag);
                } else {
                    if(s == 0) hook_field<jint>(e, c[k].get(), stat, n, tag);
                    else if(s == 1) hook_field<jlong>(e, c[k].get(), stat, n, tag);
                    else hook_field<std::shared_ptr<String>>(e, c[k].get(), stat, n, std::make_shared<String>(std::to_string(tag)));
                }
                Key q { k, kind, n, sig };
                real[q] = tag;
                fabricated.erase(q);
                last.clear();
                vh::count("registrations");
            } else if(op <= 3) {
                auto n = r.pick(lookups);
                bool denied = crules.count(n);
                int state = known.count(n) ? known[n] : 0;
                size_t before = machine->getClasses().size();
                bool native = r.chance(1, 4);
                vh::op("%s class %s", native ? "find" : "look up", n.c_str());
                std::string got;
                bool found = false;
                on([&] {
                    en->PushLocalFrame(4);
                    if(native) {
                        auto x = machine->findClass(n.c_str());
                        found = (bool)x;
                        if(x) got = x->nativeprefix;
                    } else {
                        auto x = en->FindClass(n.c_str());
                        found = x;
                        if(x) got = std::static_pointer_cast<Class>(deref(ENV::FromJNIEnv(en), (jobject)x))->nativeprefix;
                        REQ(!en->ExceptionCheck(), "C20:pending", "a lookup left an exception");
                    }
                    en->PopLocalFrame(nullptr);
                });
                SOFT(machine->isClassDenied(n.c_str()) == denied && machine->isClassBlacklisted(n.c_str()) == denied, "C20:query", "class %s", n.c_str());
                if(state == 1) REQ(found, denied ? "C20:known-class" : "C20:class", "the known class %s is %sdenied and not found", n.c_str(), denied ? "" : "not ");
                else if(!denied) REQ(found, "C20:class", "unknown class %s, which no rule matches, is not fabricated", n.c_str());
                else if(state == 0) REQ(!found, "C20:denied-class", "denied class %s was fabricated", n.c_str());
                if(found) { REQ(got == n, "C20:class", "%s instead of %s", got.c_str(), n.c_str()); know(n); }
                else {
                    REQ(machine->getClasses().size() == before, "C20:trace", "a denied lookup of class %s made a class", n.c_str());
                    known.erase(n);
                    vh::count("denied classes");
                }
                vh::count(found ? denied ? "known denied classes" : "found classes" : "null classes");
                h = vh::mix(h, vh::hash(n) + denied * 2 + found);
            } else {
                int k = r.below(cnames.size()), kind = r.chance(1, 8) ? CTOR : r.below(4);
                std::string n0, sig0;
                if(r.chance(1, 2) && (real.size() || fabricated.size())) {
                    auto q = real.size() && (fabricated.empty() || r.chance(2, 3)) ? pickkey(real) : pickkey(fabricated);
                    kind = q.kind;
                    n0 = q.name;
                    sig0 = q.sig;
                    if(r.chance(1, 2)) k = q.cls;
                }
                bool method = kind == IMETHOD || kind == SMETHOD || kind == CTOR;
                std::string n = kind == CTOR ? "<init>" : names[r.below(names.size() - 1)];
                std::string sig = kind == CTOR ? csigs[r.below(2)] : method ? r.chance(2, 3) ? msigs[r.below(3)] : msigs[r.below(msigs.size())] : fsigs[r.below(fsigs.size())];
                if(!n0.empty()) n = n0, sig = sig0;
                bool denied = matches(method ? mrules : frules, n, sig, cnames[k]);
                Key q { k, kind, n, sig };
                std::vector<Key> candidates, fabs;
                for(int a : anc[k]) {
                    Key x { a, kind, n, sig };
                    if(kind == CTOR && a != k) continue;
                    if(real.count(x)) candidates.push_back(x);
                    if(fabricated.count(x)) fabs.push_back(x);
                }
                vh::op("look up %s %s %s of %s", kname[kind], n.c_str(), sig.c_str(), cnames[k].c_str());
                size_t members = c[k]->methods.size() + c[k]->fields.size(), classes = machine->getClasses().size();
                void* id = nullptr;
                int kindref = r.below(RKINDS);
                on([&] {
                    en->PushLocalFrame(8);
                    Refs refs(en);
                    auto j = (jclass)refs.make((jobject)klass(ENV::FromJNIEnv(en), c[k]), kindref);
                    switch(kind) {
                    case IMETHOD: case CTOR: id = en->GetMethodID(j, n.c_str(), sig.c_str()); break;
                    case SMETHOD: id = en->GetStaticMethodID(j, n.c_str(), sig.c_str()); break;
                    case IFIELD: id = en->GetFieldID(j, n.c_str(), sig.c_str()); break;
                    case SFIELD: id = en->GetStaticFieldID(j, n.c_str(), sig.c_str()); break;
                    }
                    REQ(!en->ExceptionCheck(), "C20:pending", "a lookup left an exception");
                    refs.release();
                    // use it
                    if(id && candidates.size() && (kind == SMETHOD || kind == SFIELD)) {
                        int got = -1;
                        auto cl = klass(ENV::FromJNIEnv(en), c[k]);
                        jvalue a[2];
                        memset(a, 0, sizeof a);
                        if(kind == SMETHOD) got = en->CallStaticIntMethodA(cl, (jmethodID)id, a);
                        else if(sig == "I") got = en->GetStaticIntField(cl, (jfieldID)id);
                        else if(sig == "J") got = en->GetStaticLongField(cl, (jfieldID)id);
                        bool fits = got == -1 || got == 0 && fabs.size(); // a placeholder given out earlier may stay in the way of an inherited member
                        for(auto&& x : candidates) fits |= real[x] == got;
                        REQ(fits, "C20:implementation", "%s %s %s of %s gave %d", kname[kind], n.c_str(), sig.c_str(), cnames[k].c_str(), got);
                        if(denied) vh::count("used denied registered members");
                    }
                    en->PopLocalFrame(nullptr);
                });
                if(method) SOFT(machine->isMethodDenied(n.c_str(), sig.c_str(), cnames[k].c_str()) == denied && machine->isMethodBlacklisted(n.c_str(), sig.c_str(), cnames[k].c_str()) == denied
                                && machine->isMethodDenied(n.c_str(), sig.c_str()) == matches(mrules, n, sig, "", true), "C20:query", "method %s %s %s", n.c_str(), sig.c_str(), cnames[k].c_str());
                else SOFT(machine->isFieldDenied(n.c_str(), sig.c_str(), cnames[k].c_str()) == denied && machine->isFieldBlacklisted(n.c_str(), sig.c_str(), cnames[k].c_str()) == denied
                          && machine->isFieldDenied(n.c_str(), sig.c_str()) == matches(frules, n, sig, "", true), "C20:query", "field %s %s %s", n.c_str(), sig.c_str(), cnames[k].c_str());
                bool is_known = candidates.size() || fabs.size();
                if(is_known) {
                    REQ(id, denied ? "C20:known-member" : "C20:member", "the %s %s %s %s of %s is not found", candidates.size() ? "registered" : "earlier fabricated", kname[kind], n.c_str(), sig.c_str(), cnames[k].c_str());
                    vh::count(!denied ? "known members" : candidates.empty() ? "denied fabricated members" : real.count(q) ? "denied registered members" : "denied inherited members");
                    if(last.count(q)) REQ(last[q] == id, "C20:stable", "another identifier");
                } else if(denied) {
                    REQ(!id, "C20:denied-member", "%s %s %s of %s was fabricated", kname[kind], n.c_str(), sig.c_str(), cnames[k].c_str());
                    REQ(c[k]->methods.size() + c[k]->fields.size() == members, "C20:trace", "the denied lookup of %s %s %s made a member of %s", kname[kind], n.c_str(), sig.c_str(), cnames[k].c_str());
                    REQ(machine->getClasses().size() == classes, "C20:trace", "the denied lookup of %s %s %s of %s made a class", kname[kind], n.c_str(), sig.c_str(), cnames[k].c_str());
                    vh::count("denied members");
                } else {
                    REQ(id, "C20:member", "unknown %s %s %s of %s, which no rule matches, is not fabricated", kname[kind], n.c_str(), sig.c_str(), cnames[k].c_str());
                    fabricated[q] = id;
                    if(sig.find("Mentioned") != sig.npos && known.find("c20/Mentioned") == known.end()) known["c20/Mentioned"] = 2;
                    vh::count("fabricated members");
                }
                if(id) last[q] = id;
                h = vh::mix(h, vh::hash(n + sig) + k * 64 + kind * 8 + denied * 4 + is_known * 2);
            }
        }
        // unused mentions of the other machine: rules are not shared
        if(i % 8 == 0) {
            std::thread([&] {
                MyBaron second;
                auto env = second.vm()->GetJNIEnv();
                for(auto&& n : crules) REQ(env->FindClass(n.c_str()), "C20:shared", "class rules of another machine");
                auto cl = env->FindClass("c20/Fab");
                for(auto&& u : mrules) if(u.name != "<init>") SOFT(env->GetMethodID(cl, u.name.empty() ? "f" : u.name.c_str(), u.sig.empty() ? "()I" : u.sig.c_str()), "C20:shared", "method rules of another machine");
            }).join();
        }
        vh::distinct(h);
    });
    return vh::finish();
}
