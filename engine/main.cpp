// Parallel depth-first exploration of all paths of a harness.
#include "rt.h"
#include "interp.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <signal.h>
#include <pthread.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <fstream>
#include <set>
using std::string; using std::vector;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static const int NSLOT = 4096; static const size_t SLOTSZ = 8192;
struct Shared { pthread_mutex_t mu; int idle, nw, nq; bool stop; u64 totalPaths, totalInstr; int cands; double firstCand; u32 len[NSLOT]; u64 progress[64]; double pathStart[64]; };
static Shared* S; static Decision* Q;
static string outBase; static int wid; static double tStart, tLimit = 1e9, candGrace = 15; static u64 maxPaths = ~0ull; static bool rndOrder = false;
static std::set<string> ignoreLabels;
static string esc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::map<string, u64> unsupMsgs;
static void dumpMap(FILE* f, const char* n, const std::map<string, u64>& m) { fprintf(f, "\"%s\":{", n); bool first = true; for (auto& kv : m) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(kv.first).c_str(), (unsigned long long)kv.second); first = false; } fprintf(f, "},"); }
static void dumpStats(bool done) {
    string tmp = outBase + ".w" + std::to_string(wid) + ".tmp", fin = outBase + ".w" + std::to_string(wid) + ".json"; FILE* f = fopen(tmp.c_str(), "w"); if (!f) return;
    fprintf(f, "{");
    dumpMap(f, "labels", labelCount); dumpMap(f, "covers", coverCount); dumpMap(f, "events", eventCount); dumpMap(f, "undecided", undecidedCount); dumpMap(f, "unsupported_msgs", unsupMsgs);
    fprintf(f, "\"functions\":["); bool first = true; for (auto& s : executedFns()) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; } fprintf(f, "],");
#define D(x) fprintf(f, "\"" #x "\":%llu,", (unsigned long long)st.x);
    D(paths) D(okPaths) D(infeasible) D(exits) D(limits) D(unsupported) D(violPaths) D(instrs) D(maxInstr) D(decisions) D(forks) D(queries) D(sat) D(unsat) D(unknown) D(cacheHits) D(icp) D(quick) D(checks) D(checksSolver) D(checksSyntactic) D(checksUndecided) D(maxDepth)
    fprintf(f, "\"pending\":%llu,\"solverTime\":%.3f,\"done\":%s}", (unsigned long long)pendingStack.size(), st.solverTime, done ? "true" : "false");
    fclose(f); rename(tmp.c_str(), fin.c_str());
}
static void flushCands() {
    if (candidates.empty()) return;
    FILE* f = fopen((outBase + ".cands").c_str(), "a");
    for (auto& c : candidates) {
        if (ignoreLabels.count(c.kind + ":" + c.label)) continue;
        string s = "{\"kind\":\"" + esc(c.kind) + "\",\"label\":\"" + esc(c.label) + "\",\"where\":\"" + esc(c.where) + "\",\"values\":[";
        bool first = true; for (auto& v : c.values) { s += (first ? "" : ",") + string("[\"") + esc(v.first) + "\",\"" + esc(v.second) + "\"]"; first = false; }
        s += "]}\n"; fwrite(s.data(), 1, s.size(), f);
        pthread_mutex_lock(&S->mu); if (!S->cands++) S->firstCand = now(); pthread_mutex_unlock(&S->mu);
    }
    fclose(f); candidates.clear();
}
static void worker(const string& bc, const std::map<string, i64>& params, u64 maxInstr, const string& scratch) {
    string dir = scratch + "/w" + std::to_string(wid); mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) { perror("chdir"); _exit(3); }
    if (!interpLoad(bc, params, maxInstr)) _exit(3);
    bool idle = false; double lastDump = now(); u64 rs = 88172645463325252ull + wid * 7919;
    bool verbose = getenv("SX_VERBOSE") != nullptr;
    for (;;) {
        if (S->stop) break;
        if (now() - tStart > tLimit || S->totalPaths > maxPaths || (S->cands && now() - S->firstCand > candGrace)) { S->stop = true; break; }
        Prefix pf; bool have = false;
        if (!pendingStack.empty()) {
            if (rndOrder && (rs = rs * 6364136223846793005ull + 1442695040888963407ull, (rs >> 40) & 1)) std::swap(pendingStack[(rs >> 20) % pendingStack.size()], pendingStack.back());
            pf = std::move(pendingStack.back().prefix); pendingStack.pop_back(); have = true; }
        else {
            pthread_mutex_lock(&S->mu);
            if (S->nq > 0) { S->nq--; pf.assign(Q + S->nq * SLOTSZ, Q + S->nq * SLOTSZ + S->len[S->nq]); have = true; if (idle) { S->idle--; idle = false; } }
            else if (!idle) { idle = true; S->idle++; }
            bool done = S->idle == S->nw && S->nq == 0;
            pthread_mutex_unlock(&S->mu);
            if (!have) { if (done) break; usleep(300); continue; }
        }
        S->pathStart[wid] = now();
        double t0 = now(); End e = End::Ok; string msg;
        try { rtBeginPath(pf); interpRun(); st.okPaths++; }
        catch (PathEnd& pe) {
            e = pe.kind; msg = pe.msg;
            switch (pe.kind) { case End::Infeasible: st.infeasible++; break; case End::Violation: st.violPaths++; break; case End::Limit: st.limits++; unsupMsgs["limit: " + pe.msg]++; break; case End::Unsupported: st.unsupported++; unsupMsgs[pe.msg]++; if (verbose) fprintf(stderr, "UNSUPPORTED %s\n", pe.msg.c_str()); break; case End::Exit: st.exits++; break; default: st.okPaths++; }
        }
        st.instrs += interpInstrs(); if (interpInstrs() > st.maxInstr) st.maxInstr = interpInstrs();
        interpCleanup(); rtEndPath(); st.paths++; __sync_fetch_and_add(&S->totalPaths, 1); S->progress[wid]++;
        if (verbose) fprintf(stderr, "[%d] path %llu end=%d %s instrs=%llu pre=%zu pending=%zu %.1fms\n", wid, (unsigned long long)st.paths, (int)e, msg.c_str(), (unsigned long long)interpInstrs(), pf.size(), pendingStack.size(), (now() - t0) * 1e3);
        flushCands();
        if (S->nw > 1 && S->idle > 0 && pendingStack.size() > 0) {
            pthread_mutex_lock(&S->mu);
            size_t give = std::min<size_t>(S->idle * 2 > S->nq ? S->idle * 2 - S->nq : 0, pendingStack.size() > 1 ? pendingStack.size() / 2 : 1);
            size_t k = 0;
            while (k < give && S->nq < NSLOT && pendingStack[k].prefix.size() < SLOTSZ) { auto& p = pendingStack[k].prefix; memcpy(Q + S->nq * SLOTSZ, p.data(), p.size() * sizeof(Decision)); S->len[S->nq] = p.size(); S->nq++; k++; }
            pthread_mutex_unlock(&S->mu);
            pendingStack.erase(pendingStack.begin(), pendingStack.begin() + k);
        }
        if (now() - lastDump > 2) { dumpStats(false); lastDump = now(); }
    }
    flushCands(); dumpStats(!S->stop); _exit(0);
}
int main(int argc, char** argv) {
    string bc, scratch = "."; std::map<string, i64> params; int jobs = 8; u64 maxInstr = 50000000;
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
        if (a == "--bc") bc = nx(); else if (a == "--out") outBase = nx(); else if (a == "--scratch") scratch = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--time") tLimit = atof(nx().c_str()); else if (a == "--fp") fpMode = true; else if (a == "--qtimeout") qTimeout = atoi(nx().c_str()); else if (a == "--max-instr") maxInstr = strtoull(nx().c_str(), 0, 10);
        else if (a == "--random") rndOrder = true; else if (a == "--max-paths") maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--grace") candGrace = atof(nx().c_str()); else if (a == "--ignore") ignoreLabels.insert(nx());
        else if (a == "-p") { string kv = nx(); size_t e = kv.find('='); params[kv.substr(0, e)] = atoll(kv.c_str() + e + 1); }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    tStart = now();
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Q = (Decision*)mmap(nullptr, (size_t)NSLOT * SLOTSZ * sizeof(Decision), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    memset(S, 0, sizeof *S); pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&S->mu, &ma);
    S->nw = jobs; S->nq = 1; S->len[0] = 0;
    if (jobs == 1) { wid = 0; worker(bc, params, maxInstr, scratch); }
    vector<pid_t> pid(jobs); vector<bool> alive(jobs, true); int crashed = 0, left = jobs;
    for (int i = 0; i < jobs; i++) { pid[i] = fork(); if (pid[i] == 0) { wid = i; prctl(PR_SET_PDEATHSIG, SIGKILL); worker(bc, params, maxInstr, scratch); } }
    double stopAt = 0; bool killed = false;
    while (left > 0) {
        int stt; pid_t p = waitpid(-1, &stt, WNOHANG);
        if (p > 0) { left--; for (int i = 0; i < jobs; i++) if (pid[i] == p) alive[i] = false; if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) { crashed++; fprintf(stderr, "worker %d ended abnormally (%d)\n", (int)p, stt); pthread_mutex_lock(&S->mu); S->nw--; pthread_mutex_unlock(&S->mu); } continue; }
        if (now() - tStart > tLimit || (S->cands && now() - S->firstCand > candGrace)) S->stop = true;
        if (S->stop) { if (!stopAt) stopAt = now(); if (now() - stopAt > 10) { killed = true; for (int i = 0; i < jobs; i++) if (alive[i]) kill(pid[i], SIGKILL); } }
        usleep(2000);
    }
    FILE* f = fopen((outBase + ".master").c_str(), "w"); fprintf(f, "{\"wall\":%.3f,\"crashed\":%d,\"killed\":%s,\"stopped\":%s,\"jobs\":%d}", now() - tStart, killed ? 0 : crashed, killed ? "true" : "false", S->stop ? "true" : "false", jobs); fclose(f);
    return 0;
}
