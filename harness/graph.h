// Class graphs drawn at compile time: worlds of NC C++ classes, registered under run time names
#pragma once
#include "jh.h"
namespace graph {
using namespace jh;
using namespace jnivm;
#ifndef GRAPH_SALT
#define GRAPH_SALT 1
#endif
constexpr uint64_t mixc(uint64_t a) {
    a += 0x9e3779b97f4a7c15ULL;
    a = (a ^ (a >> 30)) * 0xbf58476d1ce4e5b9ULL;
    a = (a ^ (a >> 27)) * 0x94d049bb133111ebULL;
    return a ^ (a >> 31);
}
constexpr int NC = 11; // classes per world
constexpr int NW = 6;  // worlds
// Is class j a direct base of class n (j < n)?
constexpr bool edge(int w, int n, int j) {
    if(w == 0) return j == n - 1;                              // chain
    if(w == 1) return n > 0 && j == (n - 1) / 2;               // tree
    if(w == 2) return n == NC - 1 ? true : n >= 4 && j < 4 && j != n % 4; // layers, many diamonds
    return mixc(GRAPH_SALT * 1000003ULL + w * 10007 + n * 101 + j) % 4 == 0;
}
template<int W, int N> struct Node;
template<int W, int N, class Seq> struct Bases;
template<class... L> struct cat_;
template<class... A> struct types {};
template<class... A> struct cat_<types<A...>> { using type = types<A...>; };
template<class... A, class... B, class... R> struct cat_<types<A...>, types<B...>, R...> : cat_<types<A..., B...>, R...> {};
template<class T> struct toext;
template<class... A> struct toext<types<A...>> { using type = jnivm::impl::Extends<void, A...>; };
template<int W, int N, size_t... J> struct Bases<W, N, std::index_sequence<J...>> {
    // nearest first, to make the first base not always the lowest numbered one
    using list = typename cat_<types<>, std::conditional_t<edge(W, N, N - 1 - (int)J), types<Node<W, N - 1 - (int)J>>, types<>>...>::type;
    using type = typename toext<std::conditional_t<std::is_same<list, types<>>::value, types<Object>, list>>::type;
};
template<int W, int N> struct Node : Bases<W, N, std::make_index_sequence<N>>::type {
    int id = W * 100 + N;
    jint member(jint x) { return 100000 + N * 1000 + x; }
};

struct Ent {
    std::string name;
    std::shared_ptr<Class> (*reg)(ENV*, const char*);
    std::shared_ptr<Object> (*make)();
    // reference of an object of this class, handed over as a pointer to its i-th direct base (-1: itself, -2: Object)
    jobject (*pass)(ENV*, int how, std::shared_ptr<Object>& keep);
    void (*hookmember)(ENV*, Class*, const std::string&); // (I)I as a member function pointer
    std::vector<int> bases; // declared direct bases, in order, within the world
};

template<class T> std::shared_ptr<Class> reg(ENV* e, const char* n) { return e->GetClass<T>(n); }
template<class T> void hookmember(ENV* e, Class* c, const std::string& n) { c->HookInstanceFunction(e, n, &T::member); }
template<class T> std::shared_ptr<Object> make() { return std::make_shared<T>(); }
template<int W, int N, int... J> jobject passN(ENV* e, int how, std::shared_ptr<Object>& keep, std::integer_sequence<int, J...>) {
    auto p = std::make_shared<Node<W, N>>();
    keep = p;
    jobject r = nullptr;
    if(how == -1) return local(e, p);
    if(how == -2) return local(e, std::shared_ptr<Object>(p));
    auto one = [&](auto jc) {
        constexpr int j = decltype(jc)::value;
        if constexpr(j < N && edge(W, N, j)) {
            if(how == j) r = local(e, std::shared_ptr<Node<W, j>>(p));
        }
    };
    (one(std::integral_constant<int, J>()), ...);
    return r ? r : local(e, p);
}
template<int W, int N> jobject pass(ENV* e, int how, std::shared_ptr<Object>& keep) { return passN<W, N>(e, how, keep, std::make_integer_sequence<int, NC>()); }

template<int W, int... N> std::vector<Ent> worldN(std::integer_sequence<int, N...>) {
    std::vector<Ent> v = { Ent { "", reg<Node<W, N>>, make<Node<W, N>>, pass<W, N>, hookmember<Node<W, N>>, {} }... };
    for(int n = 0; n < NC; ++n) for(int j = n - 1; j >= 0; --j) if(edge(W, n, j)) v[n].bases.push_back(j);
    return v;
}
template<int W> std::vector<Ent> world() { return worldN<W>(std::make_integer_sequence<int, NC>()); }

}
