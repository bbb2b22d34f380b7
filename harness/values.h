// Random argument values for sig.h functions
#pragma once
#include "sig.h"
namespace sig {
struct Pool {
    ENV* e;
    std::vector<std::shared_ptr<Object>> objs[NTYPES];
    Pool(ENV* e, vh::Rng& r, const std::shared_ptr<Class>& foo) : e(e) {
        for(int i = 0; i < 3; ++i) {
            auto f = std::make_shared<Foo>();
            f->payload = 1000 + i;
            for(int k : { TFoo, TFooPtr, TFooRef, TFooVal }) objs[k].push_back(f);
            objs[TString].push_back(std::make_shared<String>("s" + std::to_string(i)));
            objs[TAI].push_back(std::make_shared<AI>(i));
            objs[TAJ].push_back(std::make_shared<AJ>(i + 1));
            objs[TAS].push_back(std::make_shared<AS>(i));
            objs[TAAI].push_back(std::make_shared<AAI>(i));
            objs[TAF].push_back(std::make_shared<AF>(i));
            objs[TThrowable].push_back(std::make_shared<Throwable>());
            auto c = i ? e->GetClass(("c7/C" + std::to_string(i)).c_str()) : foo;
            objs[TClass].push_back(c);
            objs[TJclass].push_back(c);
        }
        for(int k : { TJobject, TObject }) {
            objs[k].push_back(std::make_shared<Object>());
            for(int j : { TFoo, TString, TAI, TAS, TClass, TThrowable }) objs[k].push_back(objs[j][0]);
        }
    }
    // a value of type k: jvalue with noise around the member, expected bits
    jvalue value(vh::Rng& r, Refs& refs, int k, bool viafloat, uint64_t& want) {
        jvalue v;
        v.j = (jlong)r.next();
        auto special = [&](int bytes) -> uint64_t {
            uint64_t all = bytes == 8 ? ~0ULL : (1ULL << bytes * 8) - 1;
            switch(r.below(8)) {
            case 0: return 0;
            case 1: return all;
            case 2: return all >> 1;
            case 3: return (all >> 1) + 1;
            case 4: return 1;
            case 5: return all - 1;
            default: return r.next() & all;
            }
        };
        switch(k) {
        case TZ: case TBool: v.z = r.below(2); want = v.z; return v;
        case TB: v.b = special(1); want = bits(v.b); return v;
        case TC: v.c = special(2); want = bits(v.c); return v;
        case TS: v.s = special(2); want = bits(v.s); return v;
        case TI: v.i = special(4); want = bits(v.i); return v;
        case TJ: v.j = special(8); want = bits(v.j); return v;
        case TF: {
            const uint32_t sp[] = { 0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x00000001, 0x7f7fffff, 0xffc12345, 0x3f800000 };
            uint32_t b = r.chance(1, 2) ? sp[r.below(9)] : (uint32_t)r.next();
            // a signalling NaN does not survive the promotion to double of a variadic call
            if((b & 0x7f800000) == 0x7f800000 && (b & 0x7fffff)) b |= 0x400000;
            memcpy(&v.f, &b, 4);
            want = b;
            return v;
        }
        case TD: {
            const uint64_t sp[] = { 0, 1ULL << 63, 0x7ff0000000000000ULL, 0xfff0000000000000ULL, 0x7ff8000000000000ULL, 1, 0x7fefffffffffffffULL, 0xfff8123456789abcULL };
            uint64_t b = r.chance(1, 2) ? sp[r.below(8)] : r.next();
            memcpy(&v.d, &b, 8);
            want = b;
            return v;
        }
        }
        bool nul = k != TFooRef && k != TFooVal && r.chance(1, 8);
        if(nul) {
            v.l = nullptr;
            want = 0;
            return v;
        }
        auto& o = r.pick(objs[k]);
        v.l = refs.make(local(e, o), r.below(RKINDS));
        want = k == TFooVal ? 0xf000000000000000ULL | (uint32_t)std::dynamic_pointer_cast<Foo>(o)->payload : (uint64_t)(uintptr_t)o.get();
        return v;
    }
    void plan(vh::Rng& r, Refs& refs, int k, Call& c) {
        c.retobj = nullptr;
        uint64_t want = 0;
        if(k == TV) return;
        if(k < TJobject) value(r, refs, k, true, c.ret);
        else if(k == TFooVal) c.ret = (uint32_t)r.next();
        else if(!r.chance(1, 8)) c.retobj = r.pick(objs[k]);
    }
};
// Did the caller get the planned result?
inline std::string judge(ENV* e, int k, const Call& c, jvalue got) {
    if(k == TV) return "";
    if(k < TJobject) {
        uint64_t b = 0;
        int n = k == TZ || k == TBool || k == TB ? 1 : k == TC || k == TS ? 2 : k == TI || k == TF ? 4 : 8;
        memcpy(&b, &got, n);
        return b == c.ret ? "" : fmt("%llx instead of %llx", (unsigned long long)b, (unsigned long long)c.ret);
    }
    auto o = deref(e, got.l);
    if(k == TFooVal) {
        auto f = std::dynamic_pointer_cast<Foo>(o);
        return f && f->payload == (jint)c.ret ? "" : "not a copy of the returned object";
    }
    return o == c.retobj ? "" : fmt("object %p instead of %p", (void*)o.get(), (void*)c.retobj.get());
}
}
