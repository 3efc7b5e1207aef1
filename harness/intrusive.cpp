// gtl::intrusive_ptr: an object lives exactly while referenced.
// params: 0 mode (0 histories, 1 threads), 1 steps / actions per thread, 2 op mask / threads
#include "sym.h"
#include <gtl/intrusive.hpp>
#include <new>
#include <utility>
typedef uint64_t u64;
#ifndef CNT
#define CNT thread_unsafe_counter
#endif
static const unsigned NO = 8;
static int alive[NO]; static unsigned made = 0;
struct B; struct D;
typedef gtl::intrusive_ptr<B> PB; typedef gtl::intrusive_ptr<D> PD; typedef gtl::intrusive_ptr<const B> PC;
struct B : gtl::intrusive_ref_counter<B, gtl::CNT> {
    unsigned id; PB next; u64 field[4] = {};
    B() : id(made++) { alive[id]++; }
    B(const B& o) : gtl::intrusive_ref_counter<B, gtl::CNT>(o), id(made++), next(o.next) { alive[id]++; }
    B& operator=(const B& o) { gtl::intrusive_ref_counter<B, gtl::CNT>::operator=(o); next = o.next; return *this; }
    virtual ~B() { sym_assert(alive[id] == 1, "an object is destroyed twice"); alive[id]--; for (u64 f : field) sym_assert(f != ~(u64)0, "impossible"); }
    virtual int kind() const { return 0; }
};
struct D : B { u64 extra = 5; int kind() const override { return 1; } };
struct Slots { PB b[2]; PD d[2]; PC c; };
// reference: which object each pointer refers to (-1 none), which pointer members refer to which object, and detached raw references
struct Ref { int b[2] = { -1, -1 }, d[2] = { -1, -1 }, c = -1, raw = -1; int next[NO]; };
static void check(Slots& s, Ref& r) {
    int cnt[NO] = {};
    auto add = [&](int o) { if (o >= 0) cnt[o]++; };
    // objects whose last owner disappears drop their own pointer member
    bool changed = true;
    while (changed) {
        changed = false;
        for (int& x : cnt) x = 0;
        for (int i = 0; i < 2; i++) { add(r.b[i]); add(r.d[i]); }
        add(r.c); add(r.raw);
        for (unsigned o = 0; o < made; o++) add(r.next[o]);
        for (unsigned o = 0; o < made; o++) if (!cnt[o] && r.next[o] >= 0) { r.next[o] = -1; changed = true; }
    }
    for (unsigned o = 0; o < made; o++) {
        sym_assert(!(cnt[o] && !alive[o]), "an object is destroyed while a pointer refers to it");
        sym_assert(!(!cnt[o] && alive[o]), "an object outlives its last pointer");
    }
    for (int i = 0; i < 2; i++) {
        sym_assert((r.b[i] < 0) == (s.b[i].get() == nullptr) && (r.d[i] < 0) == (s.d[i].get() == nullptr), "a pointer is null or set contrary to the reference");
        if (r.b[i] >= 0) { sym_assert(s.b[i]->id == (unsigned)r.b[i], "a pointer refers to another object"); sym_assert(s.b[i]->use_count() == (unsigned)cnt[r.b[i]], "use_count() is not the number of owners"); }
        if (r.d[i] >= 0) { sym_assert(s.d[i]->id == (unsigned)r.d[i] && s.d[i]->extra == 5, "a pointer refers to another object"); sym_assert((*s.d[i]).use_count() == (unsigned)cnt[r.d[i]], "use_count() is not the number of owners"); }
    }
    sym_assert((r.c < 0) == !s.c, "a pointer is null or set contrary to the reference");
    if (r.c >= 0) sym_assert(s.c->id == (unsigned)r.c, "a pointer refers to another object");
}
static void history() {
    unsigned steps = (unsigned)sym_param(1), mask = (unsigned)sym_param(2);
    for (unsigned i = 0; i < NO; i++) alive[i] = 0;
    made = 0;
    {
        Slots s; Ref r; B* raw = nullptr;
        for (unsigned i = 0; i < NO; i++) r.next[i] = -1;
        { B* b = new B; s.b[0] = PB(b); r.b[0] = 0; D* d = new D; s.d[0] = d; r.d[0] = 1; s.b[1] = s.d[0]; r.b[1] = 1; }
        check(s, r);
        bool isD[NO]; for (bool& x : isD) x = false; isD[1] = true;
        for (unsigned k = 0; k < steps; k++) {
            unsigned op = (unsigned)sym_u64("op", 5); sym_assume(op < 22); sym_assume((mask >> op) & 1);
            unsigned i = (unsigned)sym_u64("i", 1), j = (unsigned)sym_u64("j", 1);
            switch (op) {
            case 0: s.b[i] = s.b[j]; r.b[i] = r.b[j]; break;
            case 1: s.b[i] = std::move(s.b[j]); if (i != j) { r.b[i] = r.b[j]; r.b[j] = -1; } break;
            case 2: s.b[i] = s.d[j]; r.b[i] = r.d[j]; break;
            case 3: s.b[i] = std::move(s.d[j]); r.b[i] = r.d[j]; // a converting move may leave the source set: it is then still an owner
                if (!s.d[j]) r.d[j] = -1; break;
            case 4: s.b[i].reset(); r.b[i] = -1; break;
            case 5: s.b[i].reset(s.b[j].get()); r.b[i] = r.b[j]; break;
            case 6: if (made < NO) { s.b[i] = new B; r.b[i] = (int)made - 1; } break;
            case 7: if (r.raw < 0) { raw = s.b[i].detach(); r.raw = r.b[i]; r.b[i] = -1; if (raw) sym_cover("detached"); } else { s.b[j].reset(raw, false); r.b[j] = r.raw; r.raw = -1; raw = nullptr; } break;
            case 8: if (i != j) { if (k & 1) s.b[i].swap(s.b[j]); else swap(s.b[i], s.b[j]); std::swap(r.b[i], r.b[j]); } else s.b[i].swap(s.b[i]); break;
            case 9: { PB t(s.b[i]); PB u(std::move(t)); sym_assert(!t, "a moved-from pointer still refers to the object"); s.b[j] = u; r.b[j] = r.b[i]; break; }
            case 10: { if (r.b[i] >= 0 && !isD[r.b[i]]) break; s.d[j] = gtl::static_pointer_cast<D>(s.b[i]); r.d[j] = r.b[i]; break; }
            case 11: { s.d[j] = gtl::dynamic_pointer_cast<D>(s.b[i]); r.d[j] = r.b[i] >= 0 && isD[r.b[i]] ? r.b[i] : -1; break; }
            case 12: { bool ok = r.b[i] >= 0 && isD[r.b[i]]; s.d[j] = gtl::dynamic_pointer_cast<D>(std::move(s.b[i])); r.d[j] = ok ? r.b[i] : -1; if (ok) { r.b[i] = -1; sym_cover("moved by a dynamic cast"); } break; }
            case 13: { if (r.b[i] >= 0 && !isD[r.b[i]]) break; s.d[j] = gtl::static_pointer_cast<D>(std::move(s.b[i])); r.d[j] = r.b[i]; r.b[i] = -1; break; }
            case 14: s.c = s.b[i]; r.c = r.b[i]; break;
            case 15: s.b[i] = gtl::const_pointer_cast<B>(s.c); r.b[i] = r.c; break;
            case 16: s.b[i] = gtl::const_pointer_cast<B>(std::move(s.c)); r.b[i] = r.c; r.c = -1; break;
            case 17: // pointer member; acyclic only (later objects refer to earlier ones)
                if (r.b[i] >= 0 && (r.b[j] < 0 || r.b[j] < r.b[i])) { s.b[i]->next = s.b[j]; r.next[r.b[i]] = r.b[j]; } break;
            case 18: if (r.b[i] >= 0) { int n = r.next[r.b[i]]; int old = r.b[i]; s.b[i] = s.b[i]->next; r.b[i] = n; (void)old; if (n >= 0) sym_cover("advanced along its own object's pointer"); } break;
            case 19: if (r.b[i] >= 0) { int o = r.b[i]; int n = r.next[o]; s.b[i] = std::move(s.b[i]->next); r.next[o] = -1; r.b[i] = n; } break;
            case 20: { PB* q = &s.b[i]; s.b[i] = *q; s.b[i] = std::move(*q); s.b[i] = q->get(); sym_assert((s.b[0] == s.b[1]) == (r.b[0] == r.b[1]) && (s.b[i] == nullptr) == (r.b[i] < 0) && (s.b[i] != s.d[j]) == (r.b[i] != r.d[j]), "comparison of pointers is wrong"); break; }
            case 21: if (r.b[i] >= 0 && made < NO) { unsigned o = (unsigned)r.b[i]; B* c = new B(*s.b[i]); r.next[c->id] = r.next[o]; PB p(c); sym_assert(p->use_count() == 1, "a copied object starts with another count"); { B t; t = *s.b[i]; r.next[t.id] = r.next[o]; r.next[t.id] = -1; } s.b[i]->field[0] = 1; s.b[j] = p; r.b[j] = (int)c->id; } break;
            }
            check(s, r);
        }
        for (unsigned q = 0; q < 2; q++) { s.b[q] = nullptr; r.b[q] = -1; s.d[q].reset(); r.d[q] = -1; }
        s.c.reset(); r.c = -1; check(s, r);
        if (raw) { PB last(raw, false); }
    }
    for (unsigned o = 0; o < made; o++) sym_assert(alive[o] == 0, "an object outlives all pointers");
    sym_assert(sym_live() == 0, "memory is leaked");
}
// ---- threads: each owns a pointer, writes its own field, copies and drops
struct Th { PB p; unsigned i, n; };
static void body(void* a) {
    Th& t = *(Th*)a;
    for (unsigned k = 0; k < t.n; k++) { PB q(t.p); q->field[t.i] = k + 1; }
    t.p->field[t.i] = 7 + t.i;
    t.p.reset();
}
static unsigned died_with[4];
struct E2 : B { ~E2() override { for (unsigned i = 0; i < 4; i++) died_with[i] = (unsigned)field[i]; } };
static void threads() {
    unsigned n = (unsigned)sym_param(1), nt = (unsigned)sym_param(2);
    for (unsigned i = 0; i < NO; i++) alive[i] = 0;
    made = 0;
    {
        Th t[3];
        PB p(new E2);
        for (unsigned i = 0; i < nt; i++) { t[i].p = p; t[i].i = i; t[i].n = n; }
        bool keep = sym_choice(2, "keep");
        if (!keep) p.reset();
        for (unsigned i = 1; i < nt; i++) sym_thread(body, &t[i]);
        body(&t[0]);
        if (keep) { p->field[3] = 9; p.reset(); }
        sym_join();
        sym_assert(alive[0] == 0, "the object outlives its last pointer");
        for (unsigned i = 0; i < nt; i++) sym_assert(died_with[i] == 7 + i, "the destructor does not see a write made through another pointer");
        sym_assert(!keep || died_with[3] == 9, "the destructor does not see a write made through another pointer"); sym_cover("joined");
    }
}
extern "C" void sym_main() { if (sym_param(0)) threads(); else history(); }
