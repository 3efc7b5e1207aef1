// ---- driver: module loading, initial memory, parallel exploration, reporting
#include <sys/mman.h>
#include <fstream>
#include <sstream>
struct SharedCtl { volatile int stop; volatile int active; volatile unsigned nextId; volatile unsigned viol; };
static SharedCtl* CTL;
static std::vector<pid_t> kids;
static unsigned myId = 0;
static double lastSplit = 0;
static void trySplit(Engine& E);

static std::string jesc(const std::string& s) {
    std::string r;
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
    return r;
}
struct Report {
    std::map<std::string, double> stat;
    std::map<std::string, u64> covers, unsup;
    std::set<std::string> lines, fnsSeen;
    std::vector<Violation> viol, wit;
    void write(const std::string& f) {
        std::ofstream o(f);
        o.precision(15);
        for (auto& [k, v] : stat) o << "S\t" << k << "\t" << v << "\n";
        for (auto& [k, v] : covers) o << "C\t" << k << "\t" << v << "\n";
        for (auto& [k, v] : unsup) o << "U\t" << k << "\t" << v << "\n";
        for (auto& k : lines) o << "L\t" << k << "\n";
        for (auto& k : fnsSeen) o << "F\t" << k << "\n";
        for (int w = 0; w < 2; w++) for (auto& v : w ? wit : viol) {
            o << (w ? "W\t" : "V\t") << v.kind << "\t" << v.msg << "\t" << v.where << "\t";
            for (size_t i = 0; i < v.vals.size(); i++) o << v.vals[i].first << "=" << v.vals[i].second << "=" << v.widths[i] << ";";
            o << "\n";
        }
        o << "E\n";
    }
    bool read(const std::string& f) {
        std::ifstream in(f);
        std::string l;
        bool ok = false;
        while (std::getline(in, l)) {
            std::vector<std::string> t; std::stringstream ss(l); std::string c;
            while (std::getline(ss, c, '\t')) t.push_back(c);
            if (t.empty()) continue;
            if (t[0] == "S") { double v = atof(t[2].c_str()); if (t[1] == "max_query_s") stat[t[1]] = std::max(stat[t[1]], v); else stat[t[1]] += v; }
            else if (t[0] == "C") covers[t[1]] += strtoull(t[2].c_str(), 0, 10);
            else if (t[0] == "U") unsup[t[1]] += strtoull(t[2].c_str(), 0, 10);
            else if (t[0] == "L") lines.insert(t[1]);
            else if (t[0] == "F") fnsSeen.insert(t[1]);
            else if (t[0] == "V" || t[0] == "W") {
                Violation v; v.kind = t[1]; v.msg = t.size() > 2 ? t[2] : ""; v.where = t.size() > 3 ? t[3] : "";
                if (t.size() > 4) {
                    std::stringstream vs(t[4]); std::string p;
                    while (std::getline(vs, p, ';')) {
                        size_t a = p.find('='), b = p.rfind('=');
                        v.vals.push_back({ p.substr(0, a), strtoull(p.substr(a + 1, b - a - 1).c_str(), 0, 10) });
                        v.widths.push_back(atoi(p.substr(b + 1).c_str()));
                    }
                }
                (t[0] == "V" ? viol : wit).push_back(v);
            } else if (t[0] == "E") ok = true;
        }
        return ok;
    }
};
static void collect(Engine& E, Report& R) {
    R.stat["paths"] = E.paths; R.stat["paths_complete"] = E.pathsOk; R.stat["paths_assume_cut"] = E.pathsAssume; R.stat["instructions"] = E.insts; R.stat["forks"] = E.forks;
    R.stat["paths_unsupported"] = E.unsup; R.stat["asserts_checked"] = E.asserts; R.stat["assert_queries"] = E.assertQ; R.stat["inst_limit_paths"] = E.limits;
    R.stat["solver_queries"] = SLV->queries; R.stat["solver_sat"] = SLV->satQ; R.stat["solver_unsat"] = SLV->unsatQ; R.stat["solver_unknown"] = SLV->unkQ; R.stat["solver_cache_hits"] = SLV->cacheHits;
    R.stat["solver_s"] = SLV->time; R.stat["max_query_s"] = SLV->maxTime; R.stat["timed_out"] = E.timedOut; R.stat["states_left"] = E.work.size();
    R.covers = E.covers; R.unsup = E.unsupMsgs; R.viol = E.viol; R.wit = E.witness;
    for (Fn* f : E.fnByIdx)
        for (auto& x : f->code)
            if (x.cov && x.I)
                for (DILocation* L = x.I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
                    std::string fn = L->getFilename().str();
                    size_t p = fn.find("include/gtl/");
                    if (p == std::string::npos) continue;
                    R.lines.insert(fn.substr(p + 12) + ":" + std::to_string(L->getLine()));
                    if (auto* sp = L->getScope()->getSubprogram()) R.fnsSeen.insert(fn.substr(p + 12) + ":" + sp->getName().str());
                }
}
static void explore(Engine& E) { // depth first until the local queue is empty
    while (!E.work.empty()) {
        if (CTL->stop) break;
        if (nowS() - E.t0 > O.timeout) { E.timedOut = true; break; }
        State* s = E.work.back();
        E.work.pop_back();
        E.runState(s);
        if (E.viol.size() && __sync_add_and_fetch(&CTL->viol, 0) + E.viol.size() >= (size_t)O.maxViol) { CTL->stop = 1; break; }
        if (O.maxPaths && E.paths >= O.maxPaths) { E.timedOut = true; break; }
        if (O.jobs > 1 && E.work.size() >= 2 && CTL->active < O.jobs) trySplit(E);
        if (P.count > 12000000) { E.timedOut = true; E.unsupMsgs["expression memory limit"]++; break; }
    }
}
// hand half of the pending states to a new worker process when a core is idle
static void trySplit(Engine& E) {
    double now = nowS();
    if (now - lastSplit < 0.05 || now - E.t0 < 0.2) return;
    if (__sync_add_and_fetch(&CTL->active, 1) > O.jobs) { __sync_fetch_and_sub(&CTL->active, 1); return; }
    lastSplit = now;
    unsigned id = __sync_fetch_and_add(&CTL->nextId, 1);
    std::deque<State*> mine, his;
    size_t i = 0;
    for (State* s : E.work) (i++ & 1 ? mine : his).push_back(s);
    if (his.size() < mine.size()) std::swap(mine, his);
    pid_t p = fork();
    if (p < 0) { __sync_fetch_and_sub(&CTL->active, 1); E.unsupMsgs["fork failed"]++; return; }
    if (p == 0) {
        myId = id; kids.clear();
        for (State* s : mine) delete s;
        E.work = his;
        E.paths = E.pathsOk = E.pathsAssume = E.insts = E.forks = E.unsup = E.limits = E.asserts = E.assertQ = 0;
        E.viol.clear(); E.witness.clear(); E.covers.clear(); E.unsupMsgs.clear(); E.qlog.clear();
        SLV->queries = SLV->satQ = SLV->unsatQ = SLV->unkQ = SLV->cacheHits = 0; SLV->time = SLV->maxTime = 0;
        lastSplit = nowS();
    } else {
        kids.push_back(p);
        for (State* s : his) delete s;
        E.work = mine;
    }
}
static void setupTypeinfo(Engine& E) {
    static const char* H[][2] = { { "_ZTISt12out_of_range", "_ZTISt11logic_error" }, { "_ZTISt12length_error", "_ZTISt11logic_error" }, { "_ZTISt16invalid_argument", "_ZTISt11logic_error" }, { "_ZTISt12domain_error", "_ZTISt11logic_error" }, { "_ZTISt11logic_error", "_ZTISt9exception" },
        { "_ZTISt9bad_alloc", "_ZTISt9exception" }, { "_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc" }, { "_ZTISt17bad_function_call", "_ZTISt9exception" }, { "_ZTISt12system_error", "_ZTISt13runtime_error" }, { "_ZTISt13runtime_error", "_ZTISt9exception" }, { "_ZTISt14overflow_error", "_ZTISt13runtime_error" }, { "_ZTISt11range_error", "_ZTISt13runtime_error" }, { "_ZTISt19bad_optional_access", "_ZTISt9exception" }, { "_ZTISt9exception", nullptr } };
    for (auto& h : H) E.M->getOrInsertGlobal(h[0], PointerType::get(E.ctx, 0));
}
int main(int argc, char** argv) {
    // deep expression recursion needs a large stack
    if (!getenv("SYMX_CHILD")) {
        struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
        rlim_t want = 1024ul << 20;
        if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want) {
            rl.rlim_cur = (rl.rlim_max == RLIM_INFINITY || rl.rlim_max > want) ? want : rl.rlim_max;
            setrlimit(RLIMIT_STACK, &rl);
            setenv("SYMX_CHILD", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&](const char* k) -> const char* { size_t n = strlen(k); if (a.compare(0, n, k) == 0 && a.size() > n && a[n] == '=') return a.c_str() + n + 1; return nullptr; };
        const char* v;
        if ((v = val("--out"))) O.out = v;
        else if ((v = val("--entry"))) O.entry = v;
        else if ((v = val("--timeout"))) O.timeout = atof(v);
        else if ((v = val("--max-inst"))) O.maxInst = strtoull(v, 0, 10);
        else if ((v = val("--jobs"))) O.jobs = atoi(v);
        else if ((v = val("--max-viol"))) O.maxViol = atoi(v);
        else if ((v = val("--read-limit"))) O.readLimit = atoi(v);
        else if ((v = val("--write-limit"))) O.writeLimit = atoi(v);
        else if ((v = val("--fork-read"))) O.forkRead = atoi(v);
        else if ((v = val("--fork-write"))) O.forkWrite = atoi(v);
        else if ((v = val("--races"))) O.races = atoi(v);
        else if ((v = val("--sched-unlock"))) O.schedUnlock = atoi(v);
        else if ((v = val("--preempt"))) O.preempt = atoi(v);
        else if ((v = val("--merge"))) O.merge = atoi(v);
        else if ((v = val("--max-paths"))) O.maxPaths = strtoull(v, 0, 10);
        else if ((v = val("--mem-gb"))) O.memGB = atof(v);
        else if ((v = val("--verbose"))) O.verbose = atoi(v);
        else if ((v = val("--params"))) { std::stringstream ss(v); std::string t; while (std::getline(ss, t, ',')) O.params.push_back(atoll(t.c_str())); }
        else if (a[0] == '-') { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
        else O.file = a;
    }
    setvbuf(stderr, nullptr, _IOLBF, 0);
    { struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)(O.memGB * (1ull << 30)); setrlimit(RLIMIT_DATA, &rl); }
    CTL = (SharedCtl*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    SLV = new Solver();
    Engine& E = *new Engine();
    SMDiagnostic err;
    E.M = parseIRFile(O.file, err, E.ctx);
    if (!E.M) { err.print("symx", errs()); return 3; }
    E.DL = &E.M->getDataLayout();
    E.initNat();
    setupTypeinfo(E);
    E.t0 = nowS();
    State* S = new State();
    S->model = std::make_shared<Model>();
    S->model->uid = ++E.uidCtr;
    for (auto& g : E.M->globals()) { E.gidx[&g] = (int)E.gvars.size(); E.gvars.push_back(&g); }
    for (auto& g : E.M->globals()) {
        Obj* o = new Obj();
        o->base = E.gaddr(&g);
        u64 sz = g.getValueType()->isSized() ? E.DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
        if (!g.hasInitializer() && sz < 64) sz = 64;
        if (sz > (1ull << SLOT) - 2 * SLOTOFF) { fprintf(stderr, "global too large: %s\n", g.getName().str().c_str()); return 3; }
        o->size = sz;
        o->kind = g.isConstant() ? OConst : OGlobal;
        o->b.assign(sz, 0);
        if (g.hasInitializer()) E.initMem(o, 0, g.getInitializer());
        S->glob.push_back(ObjRef(o));
    }
    {   // exception type hierarchy
        static const char* H[][2] = { { "_ZTISt12out_of_range", "_ZTISt11logic_error" }, { "_ZTISt12length_error", "_ZTISt11logic_error" }, { "_ZTISt16invalid_argument", "_ZTISt11logic_error" }, { "_ZTISt12domain_error", "_ZTISt11logic_error" }, { "_ZTISt11logic_error", "_ZTISt9exception" },
            { "_ZTISt9bad_alloc", "_ZTISt9exception" }, { "_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc" }, { "_ZTISt17bad_function_call", "_ZTISt9exception" }, { "_ZTISt12system_error", "_ZTISt13runtime_error" }, { "_ZTISt13runtime_error", "_ZTISt9exception" }, { "_ZTISt19bad_optional_access", "_ZTISt9exception" } };
        for (auto& h : H) { u64 d = E.stdTi(h[0]), b = E.stdTi(h[1]); if (d && b) E.typeinfoBase[d] = b; }
        for (auto& g : E.M->globals()) {
            if (!g.getName().starts_with("_ZTI") || !g.hasInitializer()) continue;
            auto* cs = dyn_cast<ConstantStruct>(g.getInitializer());
            if (cs && cs->getNumOperands() == 3) {
                std::vector<Val> v; E.constVals(cs->getOperand(2), v);
                if (!v.empty() && v[0].c >= GBASE && v[0].c < HBASE) E.typeinfoBase[E.gaddr(&g)] = v[0].c;
            }
        }
    }
    Function* entry = E.M->getFunction(O.entry);
    if (!entry || entry->isDeclaration()) { fprintf(stderr, "no entry %s\n", O.entry.c_str()); return 3; }
    S->th.emplace_back();
    S->th[0].vc = { 1 };
    // global constructors run first, on one path, in priority order
    std::vector<std::pair<u64, Function*>> ctors;
    if (auto* gc = E.M->getGlobalVariable("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (unsigned i = 0; i < ca->getNumOperands(); i++) {
                auto* cs = cast<ConstantStruct>(ca->getOperand(i));
                if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f });
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : ctors) {
        // a wrapper frame would be needed to return into; run the constructor to completion directly
        E.pushFrame(*S, E.fnOf(c.second), {});
        try { for (;;) E.step(*S); }
        catch (Engine::PathEnd& p) { if (p.why) { fprintf(stderr, "global constructor failed\n"); for (auto& [m, n] : E.unsupMsgs) fprintf(stderr, "  %s\n", m.c_str()); for (auto& v : E.viol) fprintf(stderr, "  %s %s @ %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str()); return 3; } }
        S->th[0].st = TRun; S->th[0].regs.clear(); S->th[0].stk.clear();
    }
    S->live = 0;
    E.pushFrame(*S, E.fnOf(entry), {});
    E.work.push_back(S);
    Report R;
    CTL->active = 1; CTL->nextId = 1;
    lastSplit = nowS();
    std::string tmp = (O.out.empty() ? std::string("/tmp/symx.") + std::to_string(getpid()) : O.out) + ".w";
    try { explore(E); } catch (std::bad_alloc&) { E.timedOut = true; E.unsupMsgs["memory limit"]++; }
    __sync_fetch_and_sub(&CTL->active, 1);
    if (myId) { // worker
        if (E.viol.size()) __sync_fetch_and_add(&CTL->viol, (unsigned)E.viol.size());
        Report W; collect(E, W);
        W.write(tmp + std::to_string(myId));
        for (pid_t p : kids) { int st; waitpid(p, &st, 0); }
        _exit(0);
    }
    collect(E, R);
    for (pid_t p : kids) { int st; waitpid(p, &st, 0); }
    for (unsigned j = 1; j < CTL->nextId; j++) {
        Report W;
        std::string f = tmp + std::to_string(j);
        if (!W.read(f)) { R.stat["worker_lost"] += 1; R.unsup["a worker process ended abnormally"]++; }
        unlink(f.c_str());
        for (auto& [k, v] : W.stat) if (k == "max_query_s") R.stat[k] = std::max(R.stat[k], v); else R.stat[k] += v;
        for (auto& [k, v] : W.covers) R.covers[k] += v;
        for (auto& [k, v] : W.unsup) R.unsup[k] += v;
        R.lines.insert(W.lines.begin(), W.lines.end());
        R.fnsSeen.insert(W.fnsSeen.begin(), W.fnsSeen.end());
        R.viol.insert(R.viol.end(), W.viol.begin(), W.viol.end());
        if (R.wit.size() < 16) R.wit.insert(R.wit.end(), W.wit.begin(), W.wit.end());
    }
    R.stat["wall_s"] = nowS() - E.t0;
    std::string js = "{\n";
    for (auto& [k, v] : R.stat) { char b[64]; if (v == (double)(i64)v) snprintf(b, 64, "%ld", (long)v); else snprintf(b, 64, "%.3f", v); js += "  \"" + k + "\": " + b + ",\n"; }
    auto mp = [&](const char* n, std::map<std::string, u64>& m) { js += std::string("  \"") + n + "\": {"; bool f = true; for (auto& [k, v] : m) { if (!f) js += ", "; f = false; js += "\"" + jesc(k) + "\": " + std::to_string(v); } js += "},\n"; };
    mp("covers", R.covers); mp("unsupported", R.unsup);
    auto st = [&](const char* n, std::set<std::string>& m) { js += std::string("  \"") + n + "\": ["; bool f = true; for (auto& k : m) { if (!f) js += ", "; f = false; js += "\"" + jesc(k) + "\""; } js += "],\n"; };
    st("functions", R.fnsSeen); st("lines", R.lines);
    js += "  \"violations\": [";
    for (size_t i = 0; i < R.viol.size(); i++) {
        auto& v = R.viol[i];
        js += std::string(i ? "," : "") + "\n    {\"kind\": \"" + jesc(v.kind) + "\", \"msg\": \"" + jesc(v.msg) + "\", \"where\": \"" + jesc(v.where) + "\", \"values\": [";
        for (size_t k = 0; k < v.vals.size(); k++) js += std::string(k ? ", " : "") + "[\"" + jesc(v.vals[k].first) + "\", " + std::to_string(v.vals[k].second) + "]";
        js += "]}";
    }
    js += "],\n  \"witness_inputs\": [";
    for (size_t i = 0, n = 0; i < R.wit.size() && n < 16; i++, n++) {
        js += std::string(i ? "," : "") + "\n    [";
        for (size_t k = 0; k < R.wit[i].vals.size(); k++) js += std::string(k ? ", " : "") + "[\"" + jesc(R.wit[i].vals[k].first) + "\", " + std::to_string(R.wit[i].vals[k].second) + "]";
        js += "]";
    }
    js += "]\n}\n";
    if (!O.out.empty()) { std::ofstream o(O.out); o << js; }
    if (O.verbose || O.out.empty()) {
        for (auto& [k, v] : R.stat) printf("%s=%.10g ", k.c_str(), v);
        printf("\n");
        for (auto& [k, v] : R.covers) printf("cover %s: %lu\n", k.c_str(), v);
        for (auto& [k, v] : R.unsup) printf("UNSUPPORTED %s: %lu\n", k.c_str(), v);
        for (auto& v : R.viol) { printf("VIOL %s: %s @ %s\n   ", v.kind.c_str(), v.msg.c_str(), v.where.c_str()); for (auto& p : v.vals) printf(" %s=%lu", p.first.c_str(), p.second); printf("\n"); }
    }
    if (O.verbose > 1) { std::vector<std::pair<u64, std::string>> v; for (auto& [k, c] : E.qlog) v.push_back({ c, k }); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 30; i++) printf("%8lu %s\n", v[i].first, v[i].second.c_str()); }
    fflush(stdout);
    _exit(0);
}
