// gtl::soa against a sequence of records.  params: 0 steps, 1 initial rows, 2 op mask, 3 leading concrete rows, 4 rows of another container sorted before
// ops: 0 insert 1 resize 2 clear 3 sort by a field 4 sort by a comparison 5 sort descending 6 update through a row 7 update through a view 8 update a column 9 reserve 10 copy
#include "sym.h"
#include "track.h"
#include <gtl/soa.hpp>
typedef uint8_t F0;
typedef u64 F1;
typedef gtl::soa<F0, F1, Tr, u64> SOA;
static const unsigned MAXN = 90;
struct Rec { F0 a; F1 b; u64 c; u64 id; };
struct Ref { Rec r[MAXN]; unsigned n = 0; };
static u64 next_id = 1;
static void same(SOA& t, const Ref& m) {
    sym_assert(t.size() == m.n, "size() differs from the reference");
    sym_assert(t.empty() == (m.n == 0), "empty() differs from the reference");
    sym_assert(t.get_column<0>().size() == m.n && t.get_column<1>().size() == m.n && t.get_column<2>().size() == m.n && t.get_column<3>().size() == m.n, "the columns have different lengths");
    const SOA& ct = t;
    for (unsigned i = 0; i < m.n; i++) {
        auto row = t[i];
        bool ok = std::get<0>(row) == m.r[i].a && std::get<1>(row) == m.r[i].b && std::get<3>(row) == m.r[i].id;
        std::get<2>(row).ok();
        ok = ok && std::get<2>(row).v == m.r[i].c;
        sym_assert(ok, "a record differs from the reference");
    }
    if (m.n) {
        unsigned i = m.n - 1;
        auto v = t.view<3, 1>(i); auto cv = ct.view<0>(i); auto cr = ct[0];
        sym_assert(std::get<0>(v) == m.r[i].id && std::get<1>(v) == m.r[i].b, "view() shows other fields");
        sym_assert(std::get<0>(cv) == m.r[i].a && std::get<3>(cr) == m.r[0].id, "a const row shows other fields");
        sym_assert(&std::get<0>(v) == &t.get_column<3>()[i], "view() is not a reference into the column");
    }
}
static Rec fresh() { Rec r; r.a = (F0)sym_u64("a", 8); r.b = sym_u64("b", 64); r.c = sym_u64("c", 64); r.id = next_id++; return r; }
static void put(SOA& t, const Rec& r) { t.insert(r.a, r.b, Tr(r.c), r.id); }
template<class L> static void stable(Ref& m, L less) { // insertion sort of whole records
    for (unsigned i = 1; i < m.n; i++) { Rec x = m.r[i]; unsigned j = i; while (j > 0 && less(x, m.r[j - 1])) { m.r[j] = m.r[j - 1]; j--; } m.r[j] = x; }
}
static void check_sorted(SOA& t, Ref& m, int how) {
    // the reference is sorted by the observed order of the identifiers: it must be a permutation, ordered, and stable
    sym_assert(t.size() == m.n && t.get_column<3>().size() == m.n, "sorting changes the number of records");
    bool used[MAXN] = {};
    Ref o; o.n = m.n;
    unsigned old[MAXN];
    for (unsigned i = 0; i < m.n; i++) {
        u64 id = t.get_column<3>()[i]; unsigned j = 0;
        while (j < m.n && m.r[j].id != id) j++;
        sym_assert(j < m.n && !used[j], "sorting loses or repeats a record");
        used[j] = true; o.r[i] = m.r[j]; old[i] = j;
    }
    for (unsigned i = 1; i < m.n; i++) {
        bool lt, gt;
        switch (how) {
        case 0: lt = o.r[i].a < o.r[i - 1].a; gt = o.r[i - 1].a < o.r[i].a; break;
        case 1: lt = o.r[i].b < o.r[i - 1].b; gt = o.r[i - 1].b < o.r[i].b; break;
        case 2: lt = o.r[i].c > o.r[i - 1].c; gt = o.r[i - 1].c > o.r[i].c; break;
        default: lt = (o.r[i].b & 3) < (o.r[i - 1].b & 3); gt = (o.r[i - 1].b & 3) < (o.r[i].b & 3); break;
        }
        sym_assert(!lt, "records are not in the requested order");
        sym_assert(gt || old[i - 1] < old[i], "records that compare equal change their relative order");
    }
    m = o;
}
extern "C" void sym_main() {
    unsigned steps = (unsigned)sym_param(0), init = (unsigned)sym_param(1), mask = (unsigned)sym_param(2);
    {
        if (sym_param(4)) { // another container of the same type, sorted earlier, leaves no trace
            SOA p; unsigned n = (unsigned)sym_param(4); for (unsigned i = 0; i < n; i++) p.insert((F0)(i * 37), (F1)(i * 91 % 13), Tr(i), (u64)i);
            p.sort_by_field<1>();
            for (unsigned i = 1; i < n; i++) sym_assert(std::get<1>(p[i - 1]) <= std::get<1>(p[i]) && (std::get<3>(p[i]) * 91 % 13) == std::get<1>(p[i]) && std::get<2>(p[i]).v == std::get<3>(p[i]), "records are torn by sorting");
        }
        SOA t; Ref m;
        for (unsigned i = 0; i < (unsigned)sym_param(3); i++) { Rec r{ (F0)(i * 37 + 11), (i * 91) % 17 * 1000, i * 7 % 5, next_id++ }; put(t, r); m.r[m.n++] = r; }
        for (unsigned i = 0; i < init; i++) { Rec r = fresh(); put(t, r); m.r[m.n++] = r; }
        same(t, m);
        for (unsigned s = 0; s < steps; s++) {
            unsigned op; do { op = (unsigned)sym_choice(11, "op"); sym_assume((mask >> op) & 1); } while (0);
            switch (op) {
            case 0: { Rec r = fresh(); put(t, r); m.r[m.n++] = r; break; }
            case 1: {
                unsigned n = (unsigned)sym_choice(m.n + 3, "n");
                t.resize(n);
                for (unsigned i = m.n; i < n; i++) { m.r[i] = Rec{ 0, 0, 0, 0 }; }
                m.n = n; same(t, m);
                for (unsigned i = 0; i < n; i++) if (!m.r[i].id) { m.r[i].id = next_id++; t.get_column<3>()[i] = m.r[i].id; }
                if (n) sym_cover("resized");
                break; }
            case 2: t.clear(); m.n = 0; break;
            case 3: { unsigned f = (unsigned)sym_choice(2, "field"); if (f) { t.sort_by_field<1>(); check_sorted(t, m, 1); } else { t.sort_by_field<0>(); check_sorted(t, m, 0); } sym_cover("sorted"); break; }
            case 4: t.sort_by_field<1>([](u64 x, u64 y) { return (x & 3) < (y & 3); }); check_sorted(t, m, 3); break;
            case 5: t.sort_by_field<2>([](const Tr& x, const Tr& y) { return y.v < x.v; }); check_sorted(t, m, 2); break;
            case 6: if (m.n) { unsigned i = (unsigned)sym_choice(m.n, "row"); u64 x = sym_u64("x", 64); auto r = t[i]; std::get<1>(r) = x; m.r[i].b = x; } break;
            case 7: if (m.n) { unsigned i = (unsigned)sym_choice(m.n, "row"); u64 x = sym_u64("x", 64); std::get<0>(t.view<2, 1>(i)) = Tr(x); m.r[i].c = x; } break;
            case 8: if (m.n) { unsigned i = (unsigned)sym_choice(m.n, "row"); F0 x = (F0)sym_u64("x", 8); t.get_column<0>()[i] = x; m.r[i].a = x; } break;
            case 9: { t.reserve((unsigned)sym_choice(6, "n")); break; }
            case 10: { SOA u(t); same(u, m); if (m.n) std::get<1>(u[0]) = 77; same(t, m); SOA w; Rec r = fresh(); put(w, r); w = t; same(w, m); SOA q(std::move(w)); same(q, m); break; }
            }
            same(t, m);
        }
    }
    sym_assert(trk_live == 0, "elements remain alive after the container is destroyed");
}
