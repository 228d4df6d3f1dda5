// see seq.h
#include "seq.h"

#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace {
struct Scen { std::string name; std::function<void()> body; std::string tier; };
std::vector<Scen> &scens() { static std::vector<Scen> s; return s; }
struct Choice { uint16_t n, idx; };
std::vector<Choice> gCh;
size_t              gPos = 0;
bool                gReplay = false, gThorough = false;
uint64_t            gNodes = 0, gTrans = 0, gExecs = 0;
std::unordered_set<uint64_t> gStates;
std::vector<std::string> gSamples;
std::set<std::string>    gKnownHit, gKnownListed;
constexpr size_t MAPSZ = 1 << 16;
char            *gMap  = nullptr; // [0..3] number of choices, then pairs
int              gPart = 0, gParts = 1;
// Sharding over processes: the subtree below the shortest decision prefix with at least 64*parts siblings belongs to one part.
// A foreign subtree is entered once (its first leaf) and then skipped; leaves above that depth are run by every part.
size_t gShardDepth = 0;
bool   gForeign    = false;
void   shard() {
    gShardDepth = 0;
    gForeign    = false;
    if (gParts <= 1) return;
    uint64_t prod = 1, index = 0;
    for (size_t i = 0; i < gPos && i < gCh.size(); i++) {
        prod *= gCh[i].n;
        index = index * gCh[i].n + gCh[i].idx;
        if (prod >= 64ull * uint64_t(gParts)) {
            gShardDepth = i + 1;
            gForeign    = int((index * 0x9E3779B97F4A7C15ull >> 32) % uint64_t(gParts)) != gPart;
            return;
        }
    }
    gForeign = gPart != 0;
}

void publish() {
    if (!gMap) return;
    auto *p = reinterpret_cast<uint16_t *>(gMap);
    size_t n = std::min<size_t>(gPos, MAPSZ / 4 - 2);
    p[0]     = uint16_t(n);
    if (n) { p[2 * n] = gCh[n - 1].idx; p[2 * n + 1] = gCh[n - 1].n; }
}
volatile uint64_t gTickExec = 0;
volatile int      gTickSame = 0;
void onTick(int) {
    if (gTickExec == gExecs) {
        gTickSame = gTickSame + 1;
        if (gTickSame >= 20) { // 20 s of CPU time inside one single execution
            static const char m[] = "HANG: one execution used 20 s of CPU time\n";
            (void) !write(2, m, sizeof m - 1);
            _exit(99);
        }
    } else { gTickExec = gExecs; gTickSame = 0; }
}
std::string jsonEsc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}
double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
} // namespace

namespace seq {
void add(const std::string &n, std::function<void()> b) { scens().push_back({ n, std::move(b), "" }); }
void add(const std::string &n, std::function<void()> b, const std::string &t) { scens().push_back({ n, std::move(b), t }); }
bool thorough() { return gThorough; }
int  choose(int n) {
    if (n <= 1) return 0;
    if (gPos < gCh.size()) {
        auto &c = gCh[gPos++];
        publish();
        if (c.n != n) { fprintf(stderr, "seqrt: nondeterministic re-execution (decision %zu: %d vs %d)\n", gPos - 1, c.n, n); _exit(98); }
        return c.idx;
    }
    if (gReplay) { fprintf(stderr, "seqrt: replay ran past the recorded decisions\n"); _exit(98); }
    gCh.push_back({ uint16_t(n), 0 });
    gPos++;
    gNodes++;
    publish();
    return 0;
}
void fail(const std::string &m) { throw Violation{ m }; }
void transition(uint64_t n) { gTrans += n; }
void state(uint64_t h) { if (gStates.size() < 20000000) gStates.insert(h); }
void state(std::string_view s) { state(hash(s)); }
void sample(const std::string &s) { if (gSamples.size() < 4) gSamples.push_back(s); }
void knownFinding(const std::string &k) { gKnownHit.insert(k); }
bool isKnown(const std::string &k) { return gKnownListed.count(k) > 0; }
std::string quote(std::string_view s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c < 32 || c >= 127 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}
} // namespace seq

// options: --list | --only NAME [--part i/n] [--tier T] [--out FILE] [--progress FILE] [--known a,b,c] [--max-seconds S]
//          --replay FILE    (lines: "scenario NAME", "tier T", "choices i/n i/n ...")
int main(int argc, char **argv) {
    std::string only, out, progress, replay, tier = "quick";
    double      maxS = 1e9;
    bool        list = false;
    for (int i = 1; i < argc; i++) {
        std::string a    = argv[i];
        auto        next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--list") list = true;
        else if (a == "--only") only = next();
        else if (a == "--out") out = next();
        else if (a == "--progress") progress = next();
        else if (a == "--replay") replay = next();
        else if (a == "--tier") tier = next();
        else if (a == "--part") sscanf(next().c_str(), "%d/%d", &gPart, &gParts);
        else if (a == "--max-seconds") maxS = atof(next().c_str());
        else if (a == "--known") {
            std::string k = next();
            size_t p = 0;
            while (p <= k.size()) { size_t e = std::min(k.find(',', p), k.size()); if (e > p) gKnownListed.insert(k.substr(p, e - p)); p = e + 1; }
        }
    }
    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r");
        if (!f) return 97;
        static char line[1 << 20];
        while (fgets(line, sizeof line, f)) {
            std::string l = line;
            while (!l.empty() && l.back() == '\n') l.pop_back();
            if (l.rfind("scenario ", 0) == 0) only = l.substr(9);
            else if (l.rfind("tier ", 0) == 0) tier = l.substr(5);
            else if (l.rfind("choices", 0) == 0) {
                const char *p = l.c_str() + 7;
                int a, b, n;
                while (sscanf(p, " %d/%d%n", &a, &b, &n) == 2) { gCh.push_back({ uint16_t(b), uint16_t(a) }); p += n; }
            }
        }
        fclose(f);
        gReplay = true;
    }
    gThorough = tier == "thorough";
    if (list) {
        for (auto &s : scens()) if (s.tier.empty() || s.tier == tier) printf("%s\n", s.name.c_str());
        return 0;
    }
    if (!progress.empty()) {
        int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, MAPSZ) == 0) gMap = static_cast<char *>(mmap(nullptr, MAPSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    }
    struct sigaction sa{};
    sa.sa_handler = onTick;
    sa.sa_flags   = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval it{ { 1, 0 }, { 1, 0 } };
    setitimer(ITIMER_PROF, &it, nullptr);

    for (auto &s : scens()) {
        if (s.name != only || !(s.tier.empty() || s.tier == tier)) continue;
        double      t0 = nowS();
        uint64_t    foreign = 0;
        std::string viol;
        bool        complete = true, violated = false;
        for (;;) {
            gPos = 0;
            publish();
            gExecs++;
            try {
                s.body();
            } catch (const seq::Violation &v) {
                violated = true;
                viol     = v.what;
            } catch (const std::exception &e) {
                violated = true;
                viol     = std::string("unexpected exception: ") + e.what();
            } catch (...) {
                violated = true;
                viol     = "unexpected exception of unknown type";
            }
            if (!violated && gPos != gCh.size() && !gReplay) { fprintf(stderr, "seqrt: execution used fewer decisions than recorded (nondeterminism)\n"); _exit(98); }
            if (violated || gReplay) break;
            shard();
            if (gForeign) {
                foreign++;
                if (gShardDepth) gCh.resize(gShardDepth);
            }
            while (!gCh.empty()) {
                if (gCh.back().idx + 1 < gCh.back().n) { gCh.back().idx++; gNodes++; break; }
                gCh.pop_back();
            }
            if (gCh.empty()) break;
            if ((gExecs & 255) == 0 && nowS() - t0 > maxS) { complete = false; break; }
        }
        gExecs -= foreign;
        if (violated) {
            printf("FAIL scenario=%s: %s\n", s.name.c_str(), viol.c_str());
            printf("choices");
            for (size_t i = 0; i < gPos && i < gCh.size(); i++) printf(" %d/%d", gCh[i].idx, gCh[i].n);
            printf("\n");
        } else
            printf("ok   scenario=%s executions=%lu nodes=%lu transitions=%lu states=%zu%s %.2fs\n", s.name.c_str(), (unsigned long) gExecs, (unsigned long) gNodes, (unsigned long) gTrans, gStates.size(), complete ? "" : " INCOMPLETE", nowS() - t0);
        if (!out.empty()) {
            FILE *f = fopen(out.c_str(), "w");
            fprintf(f, "{\"scenario\":\"%s\",\"executions\":%lu,\"nodes\":%lu,\"transitions\":%lu,\"states\":%zu,\"complete\":%s,\"wall_s\":%.2f,\"violation\":%s%s%s,\"samples\":[", s.name.c_str(), (unsigned long) gExecs, (unsigned long) gNodes, (unsigned long) gTrans, gStates.size(), complete ? "true" : "false", nowS() - t0,
                    violated ? "\"" : "null", violated ? jsonEsc(viol).c_str() : "", violated ? "\"" : "");
            for (size_t i = 0; i < gSamples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEsc(gSamples[i]).c_str());
            fprintf(f, "],\"known\":[");
            bool first = true;
            for (auto &k : gKnownHit) { fprintf(f, "%s\"%s\"", first ? "" : ",", jsonEsc(k).c_str()); first = false; }
            fprintf(f, "]}\n");
            fclose(f);
        }
        fflush(stdout);
        _exit(violated ? 1 : 0);
    }
    fprintf(stderr, "no such scenario: %s\n", only.c_str());
    return 97;
}
