// C05/C06: base64 against an independent RFC 4648 implementation
#include "seq.h"
#include <majordomo/base64pp.hpp>
#include <memory>
#include <optional>

using Bytes = std::vector<uint8_t>;
static const char *const ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string refEncode(const Bytes &in) { // bit-stream formulation, deliberately unlike the implementation
    std::string out;
    size_t      bits = in.size() * 8;
    for (size_t p = 0; p < bits; p += 6) {
        int v = 0;
        for (size_t k = 0; k < 6; k++) {
            size_t b = p + k;
            v        = v * 2 + (b < bits ? (in[b / 8] >> (7 - b % 8)) & 1 : 0);
        }
        out += ALPHA[v];
    }
    while (out.size() % 4) out += '=';
    return out;
}
static int val(char c) {
    for (int i = 0; i < 64; i++)
        if (ALPHA[i] == c) return i;
    return -1;
}
static std::optional<Bytes> refDecode(std::string_view s) {
    if (s.size() % 4) return std::nullopt;
    size_t n = s.size();
    size_t pad = 0;
    while (pad < 2 && pad < n && s[n - 1 - pad] == '=') pad++;
    std::string bits;
    for (size_t i = 0; i < n - pad; i++) {
        int v = val(s[i]);
        if (v < 0) return std::nullopt;
        for (int k = 5; k >= 0; k--) bits += char('0' + ((v >> k) & 1));
    }
    Bytes out;
    for (size_t i = 0; i + 8 <= bits.size(); i += 8) {
        int v = 0;
        for (size_t k = 0; k < 8; k++) v = v * 2 + (bits[i + k] - '0');
        out.push_back(uint8_t(v));
    }
    return out;
}
static std::string hex(const Bytes &b) { return seq::quote(std::string(b.begin(), b.end())); }

static void roundTrip(const Bytes &in) {
    // exactly sized heap buffer: any over-read is caught
    auto buf = std::make_unique<uint8_t[]>(in.size() ? in.size() : 1);
    std::copy(in.begin(), in.end(), buf.get());
    auto enc = base64pp::encode(std::span<const uint8_t>(buf.get(), in.size()));
    seq::transition(2);
    seq::check(enc == refEncode(in), "encode(" + hex(in) + ") = " + enc + ", RFC 4648 says " + refEncode(in));
    auto dec = base64pp::decode(enc);
    seq::check(dec.has_value(), "decode rejects the encoder's own output " + enc);
    seq::check(*dec == in, "decode(encode(" + hex(in) + ")) = " + hex(*dec));
}
static void decodeAny(const std::string &s) {
    auto buf = std::make_unique<char[]>(s.size() ? s.size() : 1);
    std::copy(s.begin(), s.end(), buf.get());
    auto dec = base64pp::decode(std::string_view(buf.get(), s.size()));
    seq::transition();
    auto ref = refDecode(s);
    seq::check(dec.has_value() == ref.has_value(), std::string(dec.has_value() ? "accepts malformed text " : "rejects well-formed text ") + seq::quote(s));
    if (dec) seq::check(*dec == *ref, "decode(" + seq::quote(s) + ") = " + hex(*dec) + " expected " + hex(*ref));
}

static int reg = [] {
    seq::add("C05_all2", [] {
        Bytes b;
        int   n = seq::choose(3);
        for (int i = 0; i < n; i++) b.push_back(uint8_t(seq::choose(256)));
        seq::sample(hex(b));
        roundTrip(b);
    });
    seq::add("C05_all3", [] {
        Bytes b;
        bool  all = seq::thorough();
        for (int i = 0; i < 3; i++) {
            int c = seq::choose(all ? 256 : 128);
            // quick: 128 values covering every high/low bit pattern next to the group boundaries
            b.push_back(all ? uint8_t(c) : uint8_t(i == 1 ? ((c & 0x70) << 1) | (c & 0x0f) : (c & 1) | ((c & 0x7e) << 1)));
        }
        roundTrip(b);
    });
    seq::add("C05_positions", [] { // lengths 0..13, one arbitrary byte at one position, three backgrounds
        int   n  = seq::choose(14);
        int   bg = seq::choose(4);
        Bytes b(size_t(n), bg == 0 ? 0x00 : bg == 1 ? 0xff : 0x5a);
        if (bg == 3) for (int i = 0; i < n; i++) b[size_t(i)] = uint8_t(i * 37 + 11);
        if (n) { int p = seq::choose(n); b[size_t(p)] = uint8_t(seq::choose(256)); }
        seq::sample(hex(b));
        roundTrip(b);
    });
    seq::add("C05_long", [] { // every length up to 1024, and around larger powers of two
        static constexpr int big[] = { 2047, 2048, 3071, 3072, 3073, 3074, 3075, 4095, 4096, 4097, 6144, 8192, 12288, 12289, 16383, 16384, 24576, 24577, 24578, 49152, 65535, 65536, 65537, 98304, 98305, 196608, 196611 };
        int   n = seq::choose(1025 + int(std::size(big)));
        if (n > 1024) n = big[n - 1025];
        int   k = seq::choose(3);
        Bytes b;
        for (int i = 0; i < n; i++) b.push_back(uint8_t(k == 0 ? i : k == 1 ? i * 7 + i / 256 : 255 - i * 31));
        roundTrip(b);
    });
    seq::add("C06_all", [] { // all texts up to length 8 over one representative per class
        bool t = seq::thorough();
        std::string s = seq::chooseString(t ? "Az9/=-z" : "Az/=-", 8);
        seq::sample(seq::quote(s));
        decodeAny(s);
    });
    seq::add("C06_every_byte", [] { // one and two arbitrary bytes in well-formed groups of 4/8/12, every padding
        static const std::vector<std::string> bases = { "QUJD", "QUI=", "QQ==", "QUJDQUJD", "QUJDQUI=", "QUJDQQ==", "QUJDQUJDQQ==", "" , "A", "QUJDQ", "QUJDQUJ" };
        std::string s = seq::chooseFrom(bases);
        if (!s.empty()) {
            int p = seq::choose(int(s.size()));
            s[size_t(p)] = char(seq::choose(256));
            if (seq::choose(2)) {
                int q = seq::choose(int(s.size()));
                static const std::string rep("=A/+z{\x7f\x80\xff\0 \n@[`:-_", 17);
                s[size_t(q)] = rep[size_t(seq::choose(int(rep.size())))];
            }
        }
        decodeAny(s);
    });
    seq::add("C06_quads", [] { // every 4-character text over the full alphabet boundaries
        static const std::string rep("AZaz09+/=@[`{:-_ \0\xff", 19);
        std::string s;
        if (seq::choose(2)) s = "QUJD";
        for (int i = 0; i < 4; i++) s += rep[size_t(seq::choose(int(rep.size())))];
        decodeAny(s);
    });
    return 0;
}();
