// C29: IoBuffer as a byte sequence with a read position; C31: MultiArray
#include "seq.h"
#include <cstring>
#include <functional>
#include <IoBuffer.hpp>
#include <map>
#include <memory>
#include <optional>

using namespace opencmw;
namespace {
// ---------------------------------------------------------------- memory resource that checks every deallocation
class CheckedResource : public std::pmr::memory_resource {
    std::map<void *, size_t> live;
    void *do_allocate(size_t n, size_t) override {
        void *p = malloc(n ? n : 1);
        live[p] = n;
        return p;
    }
    void do_deallocate(void *p, size_t n, size_t) override {
        auto it = live.find(p);
        if (it == live.end()) { wrong = "memory returned to a resource that did not provide it"; return; }
        if (it->second != n) wrong = "memory block of " + std::to_string(it->second) + " bytes returned as " + std::to_string(n);
        live.erase(it);
        free(p);
    }
    bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }

public:
    std::string wrong;
    size_t      outstanding() const { return live.size(); }
};

struct Model {
    std::string bytes;
    size_t      pos   = 0;
    size_t      known = SIZE_MAX; // bytes from here on are unspecified (grown by resize)
    bool        wraps = false;    // non-owning: must not grow
};
template<typename T>
std::string raw(T v) { return { reinterpret_cast<const char *>(&v), sizeof v }; }
std::string lenText(const std::string &s) { return raw(int32_t(s.size() + 1)) + s + std::string(1, '\0'); }

struct Sys {
    CheckedResource                            res;
    std::vector<uint8_t>                       backing = std::vector<uint8_t>{ 1, 2, 3, 4, 5, 6, 7, 8 };
    std::unique_ptr<IoBuffer>                  b[2];
    Model                                      m[2];
};
void compare(const IoBuffer &b, const Model &m, const char *what) {
    SEQ_CHECK(b.size() == m.bytes.size(), std::string(what) + ": size is " + std::to_string(b.size()) + " instead of " + std::to_string(m.bytes.size()));
    SEQ_CHECK(b.position() == m.pos, std::string(what) + ": position is " + std::to_string(b.position()) + " instead of " + std::to_string(m.pos));
    SEQ_CHECK(b.empty() == m.bytes.empty(), std::string(what) + ": empty() is wrong");
    SEQ_CHECK(b.size() <= b.capacity(), std::string(what) + ": size exceeds capacity");
    const size_t n = std::min(m.known, m.bytes.size());
    for (size_t i = 0; i < n; ++i)
        if (b[i] != static_cast<uint8_t>(m.bytes[i])) seq::fail(std::string(what) + ": byte " + std::to_string(i) + " is " + std::to_string(b[i]) + " instead of " + std::to_string(static_cast<uint8_t>(m.bytes[i])));
    if (n == m.bytes.size()) SEQ_CHECK(b.asString() == m.bytes, std::string(what) + ": asString() differs from the content");
}
void construct(Sys &s, int i, int kind) {
    switch (kind) {
    case 0: s.b[i] = std::make_unique<IoBuffer>(); s.m[i] = {}; break;
    case 1: s.b[i] = std::make_unique<IoBuffer>(size_t(5)); s.m[i] = {}; break;
    case 2: s.b[i] = std::make_unique<IoBuffer>("hello", 5); s.m[i] = { "hello" }; break;
    case 3: s.b[i] = std::make_unique<IoBuffer>(size_t(3), std::pmr::polymorphic_allocator<uint8_t>(&s.res)); s.m[i] = {}; break;
    case 4: s.b[i] = std::make_unique<IoBuffer>(std::span<uint8_t>(s.backing)); s.m[i] = { std::string(s.backing.begin(), s.backing.end()), 0, SIZE_MAX, true }; break;
    case 5: {
        auto *p = static_cast<uint8_t *>(malloc(4));
        memcpy(p, "abcd", 4);
        s.b[i] = std::make_unique<IoBuffer>(p, 4, true);
        s.m[i] = { "abcd", 0, SIZE_MAX, true };
        break;
    }
    }
}
constexpr int PUTS = 12;
void put(Sys &s, int i, int op) {
    IoBuffer &b = *s.b[i];
    Model    &m = s.m[i];
    auto      add = [&](const std::string &x) {
        if (m.known < m.bytes.size()) { // content before is unspecified; keep the marker, what we add is known but follows unknown bytes
            m.bytes += x;
        } else m.bytes += x;
    };
    switch (op) {
    case 0: b.put(uint8_t(0xA1)); add(raw(uint8_t(0xA1))); break;
    case 1: b.put(int16_t(-2)); add(raw(int16_t(-2))); break;
    case 2: b.put(int64_t(0x0102030405060708)); add(raw(int64_t(0x0102030405060708))); break;
    case 3: b.put(-1.5); add(raw(-1.5)); break;
    case 4: b.put(std::string("xyz")); add(lenText("xyz")); break;
    case 5: b.put(std::string_view("")); add(lenText("")); break;
    case 6: b.put<IoBuffer::WITHOUT>(std::string_view("raw")); add("raw"); break;
    case 7: b.put(std::vector<int32_t>{ 7, -8, 9 }); add(raw(int32_t(3)) + raw(int32_t(7)) + raw(int32_t(-8)) + raw(int32_t(9))); break;
    case 8: b.put(std::vector<bool>{ true, false, true }); add(raw(int32_t(3)) + std::string("\1\0\1", 3)); break;
    case 9: b.put(std::vector<std::string>{ "a", "", "bc" }); add(raw(int32_t(3)) + lenText("a") + lenText("") + lenText("bc")); break;
    case 10: b.put(std::array<float, 2>{ 1.f, 2.f }); add(raw(int32_t(2)) + raw(1.f) + raw(2.f)); break;
    case 11: b.put(std::vector<double>{}); add(raw(int32_t(0))); break;
    }
}
constexpr int STRUCT = 15;
// returns false when the operation does not apply
bool structural(Sys &s, int i, int op) {
    IoBuffer &b = *s.b[i];
    Model    &m = s.m[i];
    const int j = 1 - i;
    switch (op) {
    case 0: b.clear(); m.bytes.clear(); m.pos = 0; m.known = SIZE_MAX; break;
    case 1: b.reset(); m.pos = 0; break;
    case 2: b.set_position(b.size()); m.pos = m.bytes.size(); break;
    case 3: if (m.wraps && m.bytes.size() < 2) return false; b.resize(2); if (m.bytes.size() < 2) { m.known = std::min(m.known, m.bytes.size()); } m.bytes.resize(2); if (m.pos > 2) { b.set_position(2); m.pos = 2; } break;
    case 4:
        if (m.wraps) return false;
        b.resize(m.bytes.size() + 9);
        m.known = std::min(m.known, m.bytes.size());
        m.bytes.resize(m.bytes.size() + 9);
        break;
    case 5:
        if (m.wraps) return false;
        b.reserve(17); SEQ_CHECK(b.capacity() >= 17, "reserve() did not provide the capacity");
        break;
    case 6:
        if (m.wraps) return false;
        b.shrink_to_fit(); SEQ_CHECK(b.capacity() == b.size(), "shrink_to_fit() left a capacity of " + std::to_string(b.capacity()) + " for " + std::to_string(b.size()) + " bytes"); break;
    case 7: { // copy construct the other one
        s.b[j] = std::make_unique<IoBuffer>(b);
        const bool w = false;
        s.m[j]       = m;
        s.m[j].wraps = w;
        break;
    }
    case 8: // copy assign to the other one
        *s.b[j]      = b;
        s.m[j]       = m;
        s.m[j].wraps = false;
        break;
    case 9: // move construct: the source must stay usable
        s.b[j]       = std::make_unique<IoBuffer>(std::move(b));
        s.m[j]       = m;
        m            = { "", 0, SIZE_MAX, m.wraps };
        SEQ_CHECK(b.size() == 0 && b.position() == 0, "a moved-from buffer still claims " + std::to_string(b.size()) + " bytes, position " + std::to_string(b.position()));
        break;
    case 10: // move assign
        *s.b[j] = std::move(b);
        s.m[j]  = m;
        construct(s, i, 0);
        break;
    case 11: { auto &self = b; b = self; m.wraps = false; break; }
    case 12: { auto &self = b; b = std::move(self); break; }
    case 13: { s.b[0]->swap(*s.b[1]); std::swap(s.m[0], s.m[1]); break; }
    case 14: b[0] = 0x5a; m.bytes[0] = 0x5a; break;
    }
    return true;
}
void histories() {
    Sys s;
    construct(s, 0, seq::choose(6));
    construct(s, 1, seq::choose(2) ? 3 : 0);
    const int depth = seq::thorough() ? 5 : 4;
    int       cur   = 0;
    for (int k = 0; k < depth; ++k) {
        int op = seq::choose(1 + PUTS / 3 + STRUCT); // a third of the typed puts, all of them in 'puts'
        if (op == 0) break;
        --op;
        static const int some[] = { 0, 3, 4, 9 };
        if (op < PUTS / 3) {
            if (s.m[cur].wraps) break; // a buffer that wraps foreign memory cannot grow
            put(s, cur, some[op]);
        } else {
            op -= PUTS / 3;
            if (op == 14 && s.m[cur].bytes.empty()) break;
            if (!structural(s, cur, op)) break;
            if (op >= 7 && op <= 10) cur = 1 - cur;
        }
        seq::transition();
        compare(*s.b[0], s.m[0], "first buffer");
        compare(*s.b[1], s.m[1], "second buffer");
        SEQ_CHECK(s.res.wrong.empty(), s.res.wrong);
    }
    if (!s.m[cur].wraps) { // whatever happened before: the buffer can be written and read
        put(s, cur, 4);
        compare(*s.b[cur], s.m[cur], "after a final write");
    }
    s.b[0].reset();
    s.b[1].reset();
    SEQ_CHECK(s.res.wrong.empty(), s.res.wrong);
    SEQ_CHECK(s.res.outstanding() == 0, "memory of the resource was not returned");
    SEQ_CHECK(s.backing.size() == 8, "");
}
// every sequence of typed writes is read back by the same sequence of typed reads
void puts() {
    IoBuffer  b(seq::choose(2) ? size_t(1) : size_t(0));
    Sys       s;
    s.b[0] = std::make_unique<IoBuffer>(b);
    const int        n = seq::thorough() ? 5 : 4;
    std::vector<int> ops;
    for (int k = 0; k < n; ++k) {
        const int op = seq::choose(PUTS + 1);
        if (op == 0) break;
        ops.push_back(op - 1);
        put(s, 0, op - 1);
        seq::transition();
    }
    compare(*s.b[0], s.m[0], "after writing");
    // exact-size copy, so that any access behind the content is visible to the address sanitizer
    IoBuffer r(reinterpret_cast<const char *>(s.b[0]->data()), s.b[0]->size());
    for (int op : ops) {
        bool ok = true;
        switch (op) {
        case 0: ok = r.get<uint8_t>() == 0xA1; break;
        case 1: ok = r.get<int16_t>() == -2; break;
        case 2: ok = r.get<int64_t>() == 0x0102030405060708; break;
        case 3: ok = r.get<double>() == -1.5; break;
        case 4: ok = r.get<std::string>() == "xyz"; break;
        case 5: ok = r.get<std::string_view>().empty(); break;
        case 6: ok = r.asString(r.position(), 3) == "raw"; r.skip(3); break;
        case 7: ok = r.getArray<int32_t>() == std::vector<int32_t>{ 7, -8, 9 }; break;
        case 8: ok = r.getArray<bool>() == std::vector<bool>{ true, false, true }; break;
        case 9: ok = r.get<std::vector<std::string>>() == std::vector<std::string>{ "a", "", "bc" }; break;
        case 10: ok = r.getArray<float, 2>() == std::array<float, 2>{ 1.f, 2.f }; break;
        case 11: ok = r.getArray<double>().empty(); break;
        }
        SEQ_CHECK(ok, "typed read " + std::to_string(op) + " does not return what was written");
    }
    SEQ_CHECK(r.position() == r.size(), "reading does not end at the end of the content");
}
// reads at every position of every content up to a length: never outside, range checks exact
void bounds() {
    const std::string content = seq::chooseString(std::string_view("\x00\x02\xff\x7f", 4), seq::thorough() ? 7 : 6);
    const size_t      pos     = static_cast<size_t>(seq::choose(static_cast<int>(content.size()) + 1));
    IoBuffer          b(content.data(), content.size());
    auto              at = [&] { b.set_position(pos); };
    const size_t      left = content.size() - pos;
    auto              value = [&](size_t k) { std::string x(8, '\0'); memcpy(x.data(), content.data() + pos, std::min(k, left)); return x; };
    auto              num   = [&]<typename T>(T) {
        at();
        const T got = b.get<T>();
        seq::transition();
        if (left >= sizeof(T)) {
            T e;
            memcpy(&e, value(sizeof(T)).data(), sizeof(T));
            SEQ_CHECK(memcmp(&got, &e, sizeof(T)) == 0, "value differs from the bytes");
            SEQ_CHECK(b.position() == pos + sizeof(T), "position after a read is wrong");
        } else {
            SEQ_CHECK(b.position() > b.size() || b.position() == b.size(), "a read behind the end does not leave the position at/behind the end");
        }
    };
    num(uint8_t{});
    num(int16_t{});
    num(int32_t{});
    num(int64_t{});
    num(float{});
    num(double{});
    {
        at();
        const auto str = b.get<std::string>();
        SEQ_CHECK(str.size() <= left, "text longer than the content");
        if (left >= 4) {
            int32_t l;
            memcpy(&l, content.data() + pos, 4);
            if (l >= 1 && static_cast<size_t>(l) <= left - 4) SEQ_CHECK(str == content.substr(pos + 4, static_cast<size_t>(l) - 1), "text differs from the bytes");
        }
        SEQ_CHECK(b.position() >= pos, "reading a text moves backwards");
    }
    { at(); const auto v = b.getArray<int16_t>(); SEQ_CHECK(v.size() * 2 <= std::max(left, size_t(4)) - 4 || left < 4, "array longer than the content"); SEQ_CHECK(b.position() >= pos, "reading an array moves backwards"); }
    { at(); const auto v = b.getArray<double>(); SEQ_CHECK(v.size() * 8 <= left, "array longer than the content"); }
    { at(); const auto v = b.getArray<bool>(); SEQ_CHECK(v.size() <= left, "array longer than the content"); }
    { at(); const auto v = b.get<std::vector<std::string>>(); SEQ_CHECK(v.size() <= left, "array longer than the content"); }
    // range-checked access
    for (size_t i = 0; i <= content.size() + 1; ++i) {
        auto throws = [&](auto f) { try { f(); return false; } catch (const std::out_of_range &) { return true; } };
        SEQ_CHECK(throws([&] { std::ignore = b.at<uint8_t>(i); }) == (i >= content.size()), "at<uint8_t>(" + std::to_string(i) + ") range check is wrong");
        SEQ_CHECK(throws([&] { std::ignore = b.at<int32_t>(i); }) == (i + 4 > content.size()), "at<int32_t>(" + std::to_string(i) + ") of " + std::to_string(content.size()) + " bytes: range check is wrong");
        SEQ_CHECK(throws([&] { at(); b.skip(static_cast<int>(i)); }) == (pos + i > content.size()), "skip() range check is wrong");
        SEQ_CHECK(throws([&] { at(); b.skip(-static_cast<int>(i)); }) == (i > pos), "backward skip() range check is wrong");
        SEQ_CHECK(throws([&] { std::ignore = b.asString(pos, static_cast<int>(i)); }) == (pos + i > content.size()), "asString() range check is wrong");
        if (pos + i <= content.size()) SEQ_CHECK(b.asString(pos, static_cast<int>(i)) == content.substr(pos, i), "asString() returns other bytes");
    }
    SEQ_CHECK(b.asString(pos) == content.substr(pos), "asString() of the rest is wrong");
}
// reading into a fixed-size array never writes beyond it
void fixedArrays() {
    const int32_t n = seq::choose(6);
    IoBuffer      b;
    std::vector<int16_t> v;
    for (int i = 0; i < n; ++i) v.push_back(static_cast<int16_t>(i + 1));
    b.put(v);
    auto              guard = std::make_unique<std::array<int16_t, 3>>();
    bool              threw = false;
    try { b.getArray<std::array<int16_t, 3>, true>(*guard); } catch (const std::out_of_range &) { threw = true; }
    seq::transition();
    SEQ_CHECK(threw == (n > 3), "range check of a fixed-size array is wrong for " + std::to_string(n));
    if (!threw)
        for (int i = 0; i < n; ++i) SEQ_CHECK((*guard)[static_cast<size_t>(i)] == v[static_cast<size_t>(i)], "element differs");
    // requestedSize limits the number of elements read
    const size_t req = static_cast<size_t>(seq::choose(5));
    b.reset();
    std::vector<int16_t> part;
    b.getArray(part, req);
    SEQ_CHECK(part.size() == std::min(req, v.size()) && std::equal(part.begin(), part.end(), v.begin()), "limited read is wrong");
}
// ---------------------------------------------------------------- MultiArray
template<uint32_t D>
void multiArray() {
    std::array<uint32_t, D> dims{};
    size_t                  count = 1;
    for (auto &d : dims) count *= (d = static_cast<uint32_t>(seq::choose(4)));
    std::vector<int> data;
    for (size_t i = 0; i < count; ++i) data.push_back(static_cast<int>(100 + i));
    const int how = seq::choose(3);
    auto      make = [&] {
        if (how == 0) return MultiArray<int, D>(data, dims);
        if (how == 1) { auto d = data; auto x = dims; return MultiArray<int, D>(std::move(d), std::move(x)); }
        MultiArray<int, D> a(dims);
        for (size_t i = 0; i < count; ++i) a[static_cast<uint32_t>(i)] = data[i];
        return a;
    };
    MultiArray<int, D>       a = make();
    const MultiArray<int, D> &c = a;
    SEQ_CHECK(c.element_count() == count && c.elements().size() == count, "element count is " + std::to_string(c.element_count()) + " instead of " + std::to_string(count));
    SEQ_CHECK(c.dimensions() == dims, "dimensions differ");
    // row-major addressing: all index tuples in order hit consecutive elements
    std::array<uint32_t, D> idx{};
    for (size_t lin = 0; lin < count; ++lin) {
        seq::transition();
        SEQ_CHECK(c.index(idx) == lin, "index() of element " + std::to_string(lin) + " is " + std::to_string(c.index(idx)));
        SEQ_CHECK(c.indices(static_cast<uint32_t>(lin)) == idx, "indices() of element " + std::to_string(lin) + " is wrong");
        SEQ_CHECK(c[idx] == data[lin] && c.get(idx) == data[lin] && c[static_cast<uint32_t>(lin)] == data[lin] && c(static_cast<uint32_t>(lin)) == data[lin], "element access is wrong");
        for (size_t d = D; d-- > 0;) {
            if (++idx[d] < dims[d]) break;
            idx[d] = 0;
        }
    }
    for (uint32_t d = 0; d < D; ++d) SEQ_CHECK(c.n(d) == dims[d], "n() is wrong");
    bool threw = false;
    try { std::ignore = c.get(static_cast<uint32_t>(count)); } catch (const std::out_of_range &) { threw = true; }
    SEQ_CHECK(threw, "get() behind the end does not throw");
    // value semantics and arithmetic
    auto b = a;
    SEQ_CHECK(b == a, "a copy differs");
    auto sum = a + b;
    b += a;
    SEQ_CHECK(sum == b && sum.dimensions() == dims, "sum differs from +=");
    auto plus = a + 5;
    auto inc  = a;
    inc += 5;
    for (size_t i = 0; i < count; ++i) {
        const auto u = static_cast<uint32_t>(i);
        SEQ_CHECK(sum[u] == 2 * data[i] && plus[u] == data[i] + 5 && inc[u] == data[i] + 5 && a[u] == data[i], "element-wise arithmetic is wrong");
    }
    if (count) {
        const auto k = static_cast<uint32_t>(seq::choose(static_cast<int>(count)));
        auto       x = a;
        x[k] += 1;
        SEQ_CHECK(!(x == a), "arrays that differ in one element compare equal");
    }
    // same elements, other shape
    for (uint32_t d = 0; d + 1 < D; ++d)
        if (dims[d] != dims[d + 1]) {
            auto od = dims;
            std::swap(od[d], od[d + 1]);
            SEQ_CHECK(!(MultiArray<int, D>(data, od) == a), "arrays of different shape compare equal");
        }
    seq::state(seq::hash(std::string(reinterpret_cast<const char *>(dims.data()), sizeof dims), D));
}
// custom layouts: rows padded and shifted inside a larger block
template<uint32_t D>
void multiArrayLayout() {
    std::array<uint32_t, D> dims{}, offs{}, strides{};
    std::array<uint32_t, D> room{};
    for (uint32_t d = 0; d < D; ++d) {
        dims[d] = static_cast<uint32_t>(1 + seq::choose(3));
        offs[d] = static_cast<uint32_t>(seq::choose(3));
        room[d] = dims[d] + offs[d] + static_cast<uint32_t>(seq::choose(2)); // padding behind
    }
    uint32_t block = 1;
    for (uint32_t d = D; d-- > 0;) {
        strides[d] = block;
        block *= room[d];
    }
    std::vector<int> data;
    for (uint32_t i = 0; i < block; ++i) data.push_back(static_cast<int>(100 + i));
    MultiArray<int, D>        a(data, dims, strides, offs);
    const MultiArray<int, D> &c = a;
    std::array<uint32_t, D>   idx{};
    size_t                    count = 1;
    for (auto d : dims) count *= d;
    auto       b    = a;
    const auto sum  = a + b;
    const auto plus = a + 5;
    b += a;
    for (size_t n = 0; n < count; ++n) {
        seq::transition();
        uint32_t lin = 0;
        for (uint32_t d = 0; d < D; ++d) lin += (offs[d] + idx[d]) * strides[d];
        SEQ_CHECK(c.index(idx) == lin, "index() with offsets is " + std::to_string(c.index(idx)) + " instead of " + std::to_string(lin));
        SEQ_CHECK(c.indices(lin) == idx, "indices() is not the inverse of index()");
        SEQ_CHECK(c[idx] == data[lin] && c.get(idx) == data[lin], "element access with offsets is wrong");
        SEQ_CHECK(sum[idx] == 2 * data[lin] && b[idx] == 2 * data[lin] && plus[idx] == data[lin] + 5, "arithmetic on a custom layout is wrong");
        for (size_t d = D; d-- > 0;) {
            if (++idx[d] < dims[d]) break;
            idx[d] = 0;
        }
    }
    for (uint32_t d = 0; d < D; ++d) SEQ_CHECK(c.n(d) == dims[d] && c.stride(d) == strides[d] && c.offset(d) == offs[d] && sum.stride(d) == strides[d] && sum.offset(d) == offs[d], "layout changed");
    SEQ_CHECK(sum == b && sum.dimensions() == dims, "sum differs from +=");
    seq::state(seq::hash(std::string(reinterpret_cast<const char *>(dims.data()), sizeof dims) + std::string(reinterpret_cast<const char *>(offs.data()), sizeof offs), D));
}
const int registered = [] {
    seq::add("C31_layout1", multiArrayLayout<1>);
    seq::add("C31_layout2", multiArrayLayout<2>);
    seq::add("C31_layout3", multiArrayLayout<3>);
    seq::add("C29_histories", histories);
    seq::add("C29_puts", puts);
    seq::add("C29_bounds", bounds);
    seq::add("C29_fixedarrays", fixedArrays);
    seq::add("C31_dim1", multiArray<1>);
    seq::add("C31_dim2", multiArray<2>);
    seq::add("C31_dim3", multiArray<3>);
    seq::add("C31_dim4", multiArray<4>);
    return 0;
}();
} // namespace
