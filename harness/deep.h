#pragma once
#include "jh.h"
using namespace jh;
using namespace jnivm;
// A long chain, and a class with many bases
namespace {
    constexpr int DEEP = 48, WIDE = 24;
    template<int N> struct Deep5 : Extends<Deep5<N - 1>> { jint own = N; };
    template<> struct Deep5<0> : Extends<> { jint own = 0; };
    template<int N> struct Base5 : Extends<> { jint own = 1000 + N; };
    template<class S> struct Wide5T;
    template<int... N> struct Wide5T<std::integer_sequence<int, N...>> : jnivm::impl::Extends<void, Base5<N>...> {};
    using Wide5 = Wide5T<std::make_integer_sequence<int, WIDE>>;
    struct Below5 : Extends<Wide5> {};
    template<int N> std::shared_ptr<Class> regdeep(ENV* e, const std::string& n) { return e->GetClass<Deep5<N>>(n.c_str()); }
    template<int N> std::shared_ptr<Class> regbase(ENV* e, const std::string& n) { return e->GetClass<Base5<N>>(n.c_str()); }
    template<int N> std::shared_ptr<Object> mkdeep() { return std::make_shared<Deep5<N>>(); }
    template<int N> std::shared_ptr<Object> mkbase() { return std::make_shared<Base5<N>>(); }
    template<int N> jobject passwide(ENV* e, std::shared_ptr<Below5> p) { return local(e, std::shared_ptr<Base5<N>>(p)); }
    using Reg5 = std::shared_ptr<Class> (*)(ENV*, const std::string&);
    using Mk5 = std::shared_ptr<Object> (*)();
    template<int... N> std::vector<std::pair<Reg5, Mk5>> deeps(std::integer_sequence<int, N...>) { return { { regdeep<N>, mkdeep<N> }... }; }
    template<int... N> std::vector<std::pair<Reg5, Mk5>> bases(std::integer_sequence<int, N...>) { return { { regbase<N>, mkbase<N> }... }; }
    template<int... N> std::vector<jobject (*)(ENV*, std::shared_ptr<Below5>)> passes(std::integer_sequence<int, N...>) { return { passwide<N>... }; }
    template<int N> void hookdeep(ENV* e, Class* c, const std::string& n) { c->Hook(e, n, &Deep5<N>::own); }
    template<int N> void hookbase(ENV* e, Class* c, const std::string& n) { c->Hook(e, n, &Base5<N>::own); }
    template<int N> jint* owndeep(Object* o) { return &dynamic_cast<Deep5<N>*>(o)->own; }
    template<int N> jint* ownbase(Object* o) { return &dynamic_cast<Base5<N>*>(o)->own; }
    struct Own5 { void (*hook)(ENV*, Class*, const std::string&); jint* (*own)(Object*); };
    template<int... N> std::vector<Own5> owndeeps(std::integer_sequence<int, N...>) { return { { hookdeep<N>, owndeep<N> }... }; }
    template<int... N> std::vector<Own5> ownbases(std::integer_sequence<int, N...>) { return { { hookbase<N>, ownbase<N> }... }; }
    // All of them as classes of one machine: levels 0..DEEP-1, then the bases of Wide5, Wide5 and Below5
    struct DeepWorld {
        enum { WIDEST = DEEP + WIDE, BELOW, ALL };
        std::vector<std::shared_ptr<Class>> c;
        std::vector<std::pair<Reg5, Mk5>> d = deeps(std::make_integer_sequence<int, DEEP>()), b = bases(std::make_integer_sequence<int, WIDE>());
        DeepWorld(ENV* e, vh::Rng& r) : c(ALL) {
            Stretch stretch(r);
            std::vector<int> order;
            for(int n = 0; n < DEEP + WIDE; ++n) order.push_back(n);
            for(int n = order.size() - 1; n > 0; --n) std::swap(order[n], order[r.below(n + 1)]);
            for(auto n : order) {
                if(n < DEEP) c[n] = d[n].first(e, stretch("D" + std::to_string(n)));
                else c[n] = b[n - DEEP].first(e, stretch("B" + std::to_string(n - DEEP)));
            }
            c[WIDEST] = e->GetClass<Wide5>("Wide");
            c[BELOW] = e->GetClass<Below5>("Below");
        }
        std::shared_ptr<Object> make(int k) {
            if(k < DEEP) return d[k].second();
            if(k < WIDEST) return b[k - DEEP].second();
            if(k == WIDEST) return std::make_shared<Wide5>();
            return std::make_shared<Below5>();
        }
        static bool up(int k, int j) { // is j the class k or one of its ancestors?
            if(k == j) return true;
            if(k < DEEP) return j < k;
            return k == WIDEST ? j >= DEEP && j < WIDEST : k == BELOW && j >= DEEP && j != BELOW;
        }
        // the classes among `has` whose entry a lookup in k may find
        template<class S> static std::set<int> nearest(int k, const S& has) {
            std::set<int> out;
            if(k < DEEP) {
                for(int j = k; j >= 0; --j) if(has.count(j)) { out.insert(j); break; }
            } else {
                for(int j = k; j >= (k < WIDEST ? k : WIDEST); --j) if(has.count(j)) return { j };
                if(k >= WIDEST) for(int j = DEEP; j < WIDEST; ++j) if(has.count(j)) out.insert(j);
            }
            return out;
        }
        // mostly far apart
        static int pick(vh::Rng& r) { return r.chance(1, 4) ? DEEP - 1 : r.chance(1, 3) ? DEEP + (int)r.below(WIDE) : r.chance(1, 3) ? WIDEST + (int)r.below(2) : (int)r.below(DEEP); }
        static int above(vh::Rng& r, int k) { // the class or any ancestor
            if(k < DEEP) return r.below(k + 1);
            if(k < WIDEST) return k;
            return r.chance(1, 4) ? WIDEST : DEEP + (int)r.below(WIDE);
        }
    };
}
