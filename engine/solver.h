// SMT back end: Z3 (bit-blasting incremental solver for QF_BV; general solver when FP terms occur)
#pragma once
#include "expr.h"
#include <memory>
#include <chrono>
#include <algorithm>

enum Res { UNSAT, SAT, UNK };

static inline double nowS() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Solver {
    Z3_context ctx = nullptr;
    Z3_solver  inc = nullptr;
    u32        gen = 0;
    unsigned   rlimit = 40000000; // deterministic resource bound per query
    u64        queries = 0, satQ = 0, unsatQ = 0, unkQ = 0, cacheHits = 0, incAsserts = 0;
    double     time = 0, maxTime = 0;
    std::unordered_map<Expr*, Z3_ast> lit;
    struct CacheEnt { Res r; std::vector<std::pair<u32, u64>> asg; };
    std::unordered_map<std::string, CacheEnt> cache;

    void reset() {
        if (inc) Z3_solver_dec_ref(ctx, inc);
        if (ctx) Z3_del_context(ctx);
        Z3_config c = Z3_mk_config();
        Z3_set_param_value(c, "model", "true");
        ctx = Z3_mk_context(c); // ref counting done by the context: asts live as long as ctx
        Z3_del_config(c);
        Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
        gen++;
        inc = nullptr;
        lit.clear();
        incAsserts = 0;
    }
    Solver() { reset(); }

    Z3_solver mkInc() {
        Z3_symbol lg = Z3_mk_string_symbol(ctx, "QF_FD");
        Z3_solver s = Z3_mk_solver_for_logic(ctx, lg);
        Z3_solver_inc_ref(ctx, s);
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rlimit);
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
        return s;
    }

    Z3_sort fpSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_single(ctx) : Z3_mk_fpa_sort_double(ctx); }
    Z3_ast toF(Z3_ast bv, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, bv, fpSort(w)); }
    Z3_ast fromF(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); }
    Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(ctx, b, one1(), zero1()); }
    Z3_ast one1() { return Z3_mk_int(ctx, 1, Z3_mk_bv_sort(ctx, 1)); }
    Z3_ast zero1() { return Z3_mk_int(ctx, 0, Z3_mk_bv_sort(ctx, 1)); }
    Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(ctx, v, one1()); }

    // width-1 expressions are represented as Z3 Bool, others as BV.
    Z3_ast asBV(Expr* e) { Z3_ast t = tr(e); return e->w == 1 ? b2v(t) : t; }

    Z3_ast tr(Expr* e) {
        if (e->z && e->zgen == gen) return e->z;
        Z3_ast r = nullptr;
        switch (e->k) {
        case KConst:
            if (e->w == 1) r = e->cv ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
            else if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->cv, Z3_mk_bv_sort(ctx, e->w));
            else {
                Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(e->cv >> 64), Z3_mk_bv_sort(ctx, e->w - 64));
                Z3_ast lo = Z3_mk_unsigned_int64(ctx, (u64)e->cv, Z3_mk_bv_sort(ctx, 64));
                r = Z3_mk_concat(ctx, hi, lo);
            }
            break;
        case KSym: {
            std::string n = "s" + std::to_string(e->aux);
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), e->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w));
            break;
        }
        case KNot: r = Z3_mk_not(ctx, tr(e->a)); break;
        case KIte: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c)); break;
        case KConcat: r = Z3_mk_concat(ctx, asBV(e->a), asBV(e->b)); break;
        case KExtract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, asBV(e->a)); if (e->w == 1) r = v2b(r); break;
        case KZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, asBV(e->a)); break;
        case KSExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, asBV(e->a)); break;
        case KEq: r = Z3_mk_eq(ctx, tr(e->a), tr(e->b)); break;
        case KUlt: r = Z3_mk_bvult(ctx, asBV(e->a), asBV(e->b)); break;
        case KUle: r = Z3_mk_bvule(ctx, asBV(e->a), asBV(e->b)); break;
        case KSlt: r = Z3_mk_bvslt(ctx, asBV(e->a), asBV(e->b)); break;
        case KSle: r = Z3_mk_bvsle(ctx, asBV(e->a), asBV(e->b)); break;
        case KAnd: if (e->w == 1) { Z3_ast x[2] = { tr(e->a), tr(e->b) }; r = Z3_mk_and(ctx, 2, x); } else r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
        case KOr: if (e->w == 1) { Z3_ast x[2] = { tr(e->a), tr(e->b) }; r = Z3_mk_or(ctx, 2, x); } else r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
        case KXor: if (e->w == 1) r = Z3_mk_xor(ctx, tr(e->a), tr(e->b)); else r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
        case KFAdd: case KFSub: case KFMul: case KFDiv: {
            Z3_ast rm = Z3_mk_fpa_rne(ctx), x = toF(tr(e->a), e->w), y = toF(tr(e->b), e->w);
            Z3_ast f = e->k == KFAdd ? Z3_mk_fpa_add(ctx, rm, x, y) : e->k == KFSub ? Z3_mk_fpa_sub(ctx, rm, x, y)
                     : e->k == KFMul ? Z3_mk_fpa_mul(ctx, rm, x, y) : Z3_mk_fpa_div(ctx, rm, x, y);
            r = fromF(f); break;
        }
        case KFCmp: {
            Z3_ast x = toF(tr(e->a), e->a->w), y = toF(tr(e->b), e->a->w);
            std::vector<Z3_ast> o;
            if (e->aux & 1) o.push_back(Z3_mk_fpa_eq(ctx, x, y));
            if (e->aux & 2) o.push_back(Z3_mk_fpa_gt(ctx, x, y));
            if (e->aux & 4) o.push_back(Z3_mk_fpa_lt(ctx, x, y));
            if (e->aux & 8) { o.push_back(Z3_mk_fpa_is_nan(ctx, x)); o.push_back(Z3_mk_fpa_is_nan(ctx, y)); }
            r = o.empty() ? Z3_mk_false(ctx) : Z3_mk_or(ctx, (unsigned)o.size(), o.data()); break;
        }
        case KFToF: r = fromF(Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), toF(tr(e->a), e->a->w), fpSort(e->w))); break;
        case KFToSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), toF(tr(e->a), e->a->w), e->w); break;
        case KFToUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), toF(tr(e->a), e->a->w), e->w); break;
        case KSIToF: r = fromF(Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), asBV(e->a), fpSort(e->w))); break;
        case KUIToF: r = fromF(Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), asBV(e->a), fpSort(e->w))); break;
        case KFSqrt: r = fromF(Z3_mk_fpa_sqrt(ctx, Z3_mk_fpa_rne(ctx), toF(tr(e->a), e->w))); break;
        default: {
            Z3_ast x = asBV(e->a), y = asBV(e->b);
            switch (e->k) {
            case KAdd: r = Z3_mk_bvadd(ctx, x, y); break;
            case KSub: r = Z3_mk_bvsub(ctx, x, y); break;
            case KMul: r = Z3_mk_bvmul(ctx, x, y); break;
            case KUDiv: r = Z3_mk_bvudiv(ctx, x, y); break;
            case KSDiv: r = Z3_mk_bvsdiv(ctx, x, y); break;
            case KURem: r = Z3_mk_bvurem(ctx, x, y); break;
            case KSRem: r = Z3_mk_bvsrem(ctx, x, y); break;
            case KShl: r = Z3_mk_bvshl(ctx, x, y); break;
            case KLShr: r = Z3_mk_bvlshr(ctx, x, y); break;
            case KAShr: r = Z3_mk_bvashr(ctx, x, y); break;
            default: fprintf(stderr, "tr: kind %d\n", e->k); abort();
            }
            if (e->w == 1) r = v2b(r);
        }
        }
        e->z = r;
        e->zgen = gen;
        return r;
    }

    // Is constraints && cond satisfiable?  On SAT the assignment of the symbols involved is returned in asg.
    Res check(const std::vector<Expr*>& cons, Expr* cond, const std::vector<u32>& symsInPath, std::vector<std::pair<u32, u64>>& asg) {
        if (cond->k == KConst && !cond->cv) return UNSAT;
        // slice
        std::vector<Expr*> use;
        u64 s0 = cond->sup[0], s1 = cond->sup[1];
        std::vector<char> in(cons.size(), 0);
        for (bool ch = true; ch;) {
            ch = false;
            for (size_t i = 0; i < cons.size(); i++)
                if (!in[i] && ((cons[i]->sup[0] & s0) | (cons[i]->sup[1] & s1))) {
                    in[i] = 1; ch = true;
                    s0 |= cons[i]->sup[0]; s1 |= cons[i]->sup[1];
                    use.push_back(cons[i]);
                }
        }
        if (cond->k != KConst) use.push_back(cond);
        std::sort(use.begin(), use.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
        use.erase(std::unique(use.begin(), use.end()), use.end());
        std::string key((size_t)use.size() * 4, '\0');
        for (size_t i = 0; i < use.size(); i++) memcpy(&key[i * 4], &use[i]->id, 4);
        auto it = cache.find(key);
        if (it != cache.end()) { cacheHits++; asg = it->second.asg; return it->second.r; }
        bool fp = false;
        for (Expr* e : use) fp |= e->fp;
        double t0 = nowS();
        queries++;
        Z3_lbool res;
        Z3_model mdl = nullptr;
        Z3_solver s = nullptr;
        if (fp) {
            s = Z3_mk_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            Z3_params p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rlimit);
            Z3_solver_set_params(ctx, s, p);
            Z3_params_dec_ref(ctx, p);
            for (Expr* e : use) Z3_solver_assert(ctx, s, tr(e));
            res = Z3_solver_check(ctx, s);
        } else {
            if (incAsserts > 200) reset();
            if (!inc) inc = mkInc();
            std::vector<Z3_ast> as;
            for (Expr* e : use) {
                auto l = lit.find(e);
                if (l == lit.end()) {
                    Z3_ast b = tr(e);
                    std::string n = "p" + std::to_string(e->id);
                    Z3_ast p = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bool_sort(ctx));
                    Z3_solver_assert(ctx, inc, Z3_mk_implies(ctx, p, b));
                    incAsserts++;
                    l = lit.emplace(e, p).first;
                }
                as.push_back(l->second);
            }
            res = Z3_solver_check_assumptions(ctx, inc, (unsigned)as.size(), as.data());
            s = inc;
        }
        CacheEnt ce;
        if (res == Z3_L_TRUE) {
            satQ++;
            mdl = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, mdl);
            for (u32 si : symsInPath) {
                Expr* se = P.syms[si].e;
                if (!((se->sup[0] & s0) | (se->sup[1] & s1))) continue;
                Z3_ast out;
                u64 v = 0;
                if (Z3_model_eval(ctx, mdl, tr(se), true, &out)) {
                    if (se->w == 1) v = Z3_get_bool_value(ctx, out) == Z3_L_TRUE;
                    else if (!Z3_get_numeral_uint64(ctx, out, (uint64_t*)&v)) v = 0;
                }
                ce.asg.push_back({ si, v });
            }
            Z3_model_dec_ref(ctx, mdl);
            ce.r = SAT;
        } else if (res == Z3_L_FALSE) { unsatQ++; ce.r = UNSAT; }
        else { unkQ++; ce.r = UNK; }
        if (fp) Z3_solver_dec_ref(ctx, s);
        double dt = nowS() - t0;
        time += dt;
        if (dt > maxTime) maxTime = dt;
        asg = ce.asg;
        if (ce.r != UNK) { if (cache.size() > 400000) cache.clear(); cache.emplace(key, ce); }
        return ce.r;
    }
};
