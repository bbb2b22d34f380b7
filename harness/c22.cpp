// C22: generated wrapper code. Random usage is recorded, the dump compiled and linked against the library together with
// a driver, which runs the registration code on a fresh machine and looks everything up again.
#include "jh.h"
#include <baron/baron.h>
#include <fstream>
#include <sys/wait.h>
using namespace jh;
using namespace jnivm;

namespace {
    struct MyBaron : Baron::Jvm { VM* vm() { return this; } };
    std::string slurp(const std::string& p, size_t max = 1 << 22) {
        std::ifstream f(p, std::ios::binary);
        std::string s((std::istreambuf_iterator<char>(f)), {});
        return s.substr(0, max);
    }
    int run(const std::string& cmd) {
        int s = system(cmd.c_str());
        return WIFEXITED(s) ? WEXITSTATUS(s) : 1000 + s;
    }
    struct Cls {
        std::string name;        // with packages and outer classes
        int outer = -1, depth = 0;
        std::set<std::string> names; // taken members
        bool builtin = false;
    };
    // Order in which the dump defines classes: classes of a package, each followed by its inner classes, then packages
    void order(Namespace& n, std::map<std::string, int>& pos) {
        std::function<void(Class&)> cls = [&](Class& c) {
            int p = pos.size();
            pos[c.nativeprefix] = p;
            for(auto&& i : c.classes) cls(*i);
        };
        for(auto&& c : n.classes) cls(*c);
        for(auto&& p : n.namespaces) order(*p, pos);
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C22");
    bool T = vh::S().thorough;
    vh::run_cases("recorded usage", 0, T ? 1200 : 26, [&](vh::Rng& r, long i) {
        std::string dir = vh::S().out + "/dump" + std::to_string(vh::S().kase), dump = dir + "/dump.cpp", rec = dir + "/records";
        run("mkdir -p '" + dir + "'");
        std::ofstream records(rec);
        std::vector<std::string> simple { "A", "B", "Foo", "Bar", "Activity", "Store", "Point3D", "a", "Value_", "_Hidden", "Longer1Name", "List", "Map", "Entry" };
        std::vector<std::string> packs { "", "", "com/", "com/example/", "com/example/deep/er/", "a/", "a/a/", "java/util/", "java/lang/", "x1/_y/", "com/java/lang/" };
        auto ident = [&](char first, int n) {
            std::string o(1, first);
            // no keyword and no macro has capitals and digits in alternation
            for(int k = 0; k < n; ++k) o += k % 2 ? (char)('A' + r.below(26)) : (char)('0' + r.below(10));
            return o;
        };
        for(int k = 0; k < 6; ++k) simple.push_back(ident("ABCxyz_"[r.below(7)], 1 + r.below(k == 0 ? 120 : 12)));
        for(int k = 0; k < 3; ++k) packs.push_back((r.chance(1, 2) ? r.pick(packs) : "") + ident('p', 1 + r.below(20)) + "/");
        // classes named much like those of the library
        static const char* near[] = { "java/lang/StringBuilder", "java/lang/ClassLoader", "java/lang/Objects", "java/lang/ThrowableInfo", "java/lang/Strin", "java/lang/reflect/Methods", "java/lang/reflect/FieldAccess",
            "java/lang/ref/WeakReferenceQueue", "java/lang/ref/SoftReference", "java/nio/ByteBuffers", "java/nio/CharBuffer", "internal/lang/Globals", "com/example/String", "java/util/Objects", "java/lang2/String", "java/lang/Integer" };
        std::vector<std::string> members { "get", "set", "value", "onCreate", "x", "y1", "_z", "getValue", "setValue", "run", "main", "a", "com", "list", "doIt", "count", "toString", "equals", "hashCode", "length", "open", "close", "name2", "Flags", "MAX_VALUE", "instance" };
        std::vector<Cls> cs;
        std::set<std::string> taken, pk;
        for(auto&& p : packs) for(size_t q = p.find('/'); q != p.npos; q = p.find('/', q + 1)) pk.insert(p.substr(0, q));
        size_t nc = 1 + r.below(i % 4 == 0 ? 40 : 14);
        // packages without classes can not be named otherwise: a class is never a package
        for(size_t k = 0; k < nc; ++k) {
            Cls c;
            if(cs.size() && r.chance(1, 3)) {
                int o = r.below(cs.size());
                if(cs[o].depth > 2) continue;
                auto n = r.pick(simple);
                if(cs[o].name.size() >= n.size() && cs[o].name.substr(cs[o].name.find_last_of("/$") + 1) == n) continue;
                c.name = cs[o].name + "$" + n;
                c.outer = o;
                c.depth = cs[o].depth + 1;
                if(!taken.insert(c.name).second) continue;
                cs[o].names.insert(n);
            } else {
                bool like = r.chance(1, 6);
                c.name = like ? near[r.below(sizeof(near) / sizeof(*near))] : r.pick(packs) + r.pick(simple);
                if(like) vh::count("classes named like those of the library");
                if(pk.count(c.name) || !taken.insert(c.name).second) continue;
            }
            c.names.insert(c.name.substr(c.name.find_last_of("/$") + 1));
            cs.push_back(c);
        }
        std::unique_ptr<jnivm::VM> plain;
        std::unique_ptr<MyBaron> baron;
        jnivm::VM* vm;
        if(r.chance(1, 3)) { baron.reset(new MyBaron); vm = baron->vm(); }
        else { plain.reset(new jnivm::VM); vm = plain.get(); }
        auto e = vm->GetEnv().get();
        auto env = e->GetJNIEnv();
        // inner classes first sometimes: that makes their outer class known too
        std::vector<int> perm(cs.size());
        for(size_t k = 0; k < cs.size(); ++k) perm[k] = k;
        for(size_t k = cs.size(); k-- > 1;) std::swap(perm[k], perm[r.below(k + 1)]);
        for(int k : perm) {
            vh::op("class %s", cs[k].name.c_str());
            REQ(env->FindClass(cs[k].name.c_str()), "C22:class", "%s", cs[k].name.c_str());
            records << "class " << cs[k].name << "\n";
            vh::count("classes");
            if(cs[k].outer >= 0) vh::count("inner classes");
        }
        std::map<std::string, int> pos;
        order(vm->np, pos);
        for(auto&& c : cs) REQ(pos.count(c.name), "C22:class", "%s is in no package", c.name.c_str());
        auto type = [&](int of) {
            std::string t;
            static const char* lib[] = { "Object", "String", "Class", "Throwable", "reflect/Method", "reflect/Field", "ref/WeakReference" };
            if(r.chance(1, 2)) t = std::string(1, "ZBCSIJFD"[r.below(8)]);
            else if(r.chance(1, 4)) t = "L" + std::string(r.chance(1, 8) ? "java/nio/ByteBuffer" : std::string("java/lang/") + lib[r.below(7)]) + ";";
            else {
                auto& c = r.pick(cs);
                if(c.outer >= 0 && pos[cs[c.outer].name] > pos[cs[of].name]) t = "Ljava/lang/String;";
                else { t = "L" + c.name + ";"; vh::count(c.outer >= 0 ? "inner class mentions" : "class mentions"); }
            }
            while(r.chance(1, 5)) t = "[" + t;
            return t;
        };
        size_t nm = r.below(i % 4 == 0 ? 250 : 60);
        std::set<std::string> ctors;
        uint64_t h = 0;
        for(size_t k = 0; k < nm; ++k) {
            int of = r.below(cs.size());
            auto& c = cs[of];
            auto cl = env->FindClass(c.name.c_str());
            int kind = r.below(6);
            auto n = r.pick(members) + (r.chance(1, 3) ? std::to_string(r.below(10)) : "");
            if(r.chance(1, 12)) n = ident("gsqZ_"[r.below(5)], 1 + r.below(200));
            if(kind != 2 && !c.names.insert(n).second) continue;
            std::string sig;
            if(kind <= 2) {
                sig = "(";
                int np = r.below(r.chance(1, 8) ? 12 : r.chance(1, 20) ? 60 : 4);
                if(np > 12) vh::count("long parameter lists");
                for(int a = 0; a < np; ++a) sig += type(of);
                sig += ")" + (kind == 2 || r.chance(1, 4) ? "V" : type(of));
                if(kind == 2 && !ctors.insert(c.name + sig).second) continue;
            } else sig = type(of);
            vh::op("%d %s %s %s", kind, c.name.c_str(), n.c_str(), sig.c_str());
            h = vh::mix(h, vh::hash(c.name + n + sig) + kind);
            const char* what = "";
            void* id = nullptr;
            switch(kind) {
            case 0: id = env->GetMethodID(cl, n.c_str(), sig.c_str()); what = "method"; break;
            case 1: id = env->GetStaticMethodID(cl, n.c_str(), sig.c_str()); what = "smethod"; break;
            case 2: id = env->GetMethodID(cl, "<init>", sig.c_str()); n = "<init>"; what = "ctor"; break;
            case 3: id = env->GetFieldID(cl, n.c_str(), sig.c_str()); what = "field"; break;
            case 4: id = env->GetStaticFieldID(cl, n.c_str(), sig.c_str()); what = "sfield"; break;
            case 5: {
                // natives are implemented by the library's user, wrappers do not declare them
                std::string ns = "()V";
                JNINativeMethod nm = { (char*)n.c_str(), (char*)ns.c_str(), (void*)+[](JNIEnv*, jobject) {} };
                env->RegisterNatives(cl, &nm, 1);
                vh::count("natives");
                continue;
            }
            }
            REQ(id, "C22:recording", "%s %s %s", c.name.c_str(), n.c_str(), sig.c_str());
            records << what << " " << c.name << " " << n << " " << sig << "\n";
            vh::count(std::string(what) + "s");
        }
        records.close();
#ifdef FAKE
        // the parts printStatistics prints, and the dump to a file
        if(r.chance(1, 3)) {
            std::ofstream(dump) << vm->GeneratePreDeclaration() << "\n" << vm->GenerateHeader() << vm->GenerateStubs() << vm->GenerateJNIBinding() << "\nvoid InitJNIBinding(FakeJni::Jvm* vm) {\n"
                                << vm->GenerateJNIPreDeclaration() << "\n}\n";
            vh::count("assembled dumps");
        } else
#endif
        {
            vm->GenerateClassDump(dump.c_str());
            vh::count("file dumps");
        }
        auto text = slurp(dump);
        REQ(text.size(), "C22:dump", "empty");
        std::string flags = "-std=c++17 -w -O0 -DJNI_DEBUG -DEnableJNIVMGC -DJNI_RETURN_NON_ZERO -I'" REPO "/include' ";
        std::string log = dir + "/log";
        auto save = [&](const std::string& more) { return more.substr(0, 2500); };
        if(r.chance(1, 3)) {
            int rc = run("g++ " + flags + " -fsyntax-only '" + dump + "' > '" + log + "' 2>&1");
            vh::op("%s", text.substr(0, 60000).c_str());
            REQ(rc == 0, "C22:compile", "g++: %s", save(slurp(log, 3000)).c_str());
            vh::count("checked by g++");
        }
        int rc = run(CXX " " + flags + " -fsanitize=address,undefined -fno-sanitize=function '" + dump + "' '" DRIVER "' " LIBS " -o '" + dir + "/prog' -ldl -pthread > '" + log + "' 2>&1");
        if(rc) vh::op("%s", text.substr(0, 60000).c_str());
        REQ(rc == 0, "C22:compile", "clang++: %s", save(slurp(log, 3000)).c_str());
        vh::count("compiled");
        rc = run("timeout 100 '" + dir + "/prog' '" + rec + "' > '" + log + "' 2>&1");
        auto out = slurp(log);
        if(rc || out.find("FAIL") != out.npos) vh::op("%s", text.substr(0, 60000).c_str());
        REQ(rc == 0 && out.find("FAIL") == out.npos, "C22:run", "status %d: %s", rc, save(out.find("FAIL") != out.npos ? out.substr(out.find("FAIL")) : out).c_str());
        unsigned n = 0, calls = 0;
        REQ(sscanf(out.c_str(), "DONE %u %u", &n, &calls) == 2, "C22:run", "%s", save(out).c_str());
        vh::count("resolved", n);
        vh::count("called stubs", calls);
        run("rm -r '" + dir + "'");
        vh::distinct(h);
    });
    return vh::finish();
}
