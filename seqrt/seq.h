// Exhaustive enumeration driver for sequential components ("seqrt").
//
// A scenario body obtains every nondeterministic decision (input byte, operation, fault, ...) from seq::choose(n).  The
// driver re-executes the body depth first until every combination of decisions has been executed, i.e. it walks the
// complete decision tree of the scenario on the real code.  The decisions taken so far live in a memory-mapped file, so
// that even a crash / sanitizer abort / hang leaves the exact decision list behind, which is then replayed.
#pragma once
#include <cstdint>
#include <functional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace seq {
struct Violation {
    std::string what;
};

void add(const std::string &name, std::function<void()> body);                                   // both tiers
void add(const std::string &name, std::function<void()> body, const std::string &tierOnly);      // "quick" or "thorough" only
bool thorough();                                                                                  // tier of this run
int  choose(int n);                                                                               // exhaustively explored decision 0..n-1
[[noreturn]] void fail(const std::string &message);
inline void check(bool ok, const char *message) {
    if (!ok) fail(message);
}
inline void check(bool ok, const std::string &message) {
    if (!ok) fail(message);
}
// like check(), but the message is only built on failure
#define SEQ_CHECK(cond, message)                \
    do {                                        \
        if (!(cond)) ::seq::fail(message);      \
    } while (0)
void transition(uint64_t n = 1);              // one more operation performed on the code under test
void state(uint64_t hash);                    // a distinct abstract state was reached (counted via a hash set)
void state(std::string_view s);
void sample(const std::string &s);            // keep as sample case for the evidence (first few only)
void knownFinding(const std::string &key);    // this execution shows a listed known finding (see known_findings.json)
bool isKnown(const std::string &key);         // is the key listed for this property?
std::string quote(std::string_view s);        // printable form
inline uint64_t hash(std::string_view s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}
// chooses a string of length 0..maxLen over the alphabet (every such string exactly once)
inline std::string chooseString(std::string_view alphabet, int maxLen, int minLen = 0) {
    std::string s;
    while (static_cast<int>(s.size()) < maxLen) {
        bool mayStop = static_cast<int>(s.size()) >= minLen;
        int  c       = choose(static_cast<int>(alphabet.size()) + (mayStop ? 1 : 0));
        if (mayStop) {
            if (c == 0) return s;
            --c;
        }
        s.push_back(alphabet[static_cast<size_t>(c)]);
    }
    return s;
}
template<typename C>
const auto &chooseFrom(const C &c) { return c[static_cast<size_t>(choose(static_cast<int>(c.size())))]; }
} // namespace seq
