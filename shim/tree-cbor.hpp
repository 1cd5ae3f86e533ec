// Stand-in for tree-gen's CBOR reader/writer: same interface, simple self-describing fixed-width byte encoding.
// Entry = tag byte + payload; map entries are preceded by the key.  Wrong tags and missing keys throw, as in tree-gen.
#pragma once
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>

namespace tree::cbor {

enum : char { T_NULL = 'n', T_BOOL = 'b', T_INT = 'i', T_FLOAT = 'f', T_STR = 's', T_BIN = 'x', T_ARR = 'a', T_MAP = 'm', T_END = 'e' };

inline void put64(std::string& s, std::uint64_t v) {
    char b[8];
    std::memcpy(b, &v, 8);
    s.append(b, 8);
}
inline std::uint64_t get64(const std::string& s, std::size_t at) {
    if (at + 8 > s.size())
        throw std::runtime_error("invalid CBOR: read past end of slice");
    std::uint64_t v;
    std::memcpy(&v, s.data() + at, 8);
    return v;
}

class MapWriter;
class ArrayWriter;

class StructureWriter {
protected:
    std::string* out;
    explicit StructureWriter(std::string* out)
    : out(out) {}
    void w_null() { out->push_back(T_NULL); }
    void w_bool(bool v) { out->push_back(T_BOOL), out->push_back(v ? 1 : 0); }
    void w_int(std::int64_t v) { out->push_back(T_INT), put64(*out, static_cast<std::uint64_t>(v)); }
    void w_float(double v) {
        std::uint64_t u;
        std::memcpy(&u, &v, 8);
        out->push_back(T_FLOAT), put64(*out, u);
    }
    void w_bytes(char t, const std::string& v) { out->push_back(t), put64(*out, v.size()), out->append(v); }

public:
    void close() { out->push_back(T_END); }
};

class ArrayWriter : public StructureWriter {
public:
    explicit ArrayWriter(std::string* out)
    : StructureWriter(out) {}
    void append_null() { w_null(); }
    void append_bool(bool v) { w_bool(v); }
    void append_int(std::int64_t v) { w_int(v); }
    void append_float(double v) { w_float(v); }
    void append_string(const std::string& v) { w_bytes(T_STR, v); }
    void append_binary(const std::string& v) { w_bytes(T_BIN, v); }
    ArrayWriter append_array() { return out->push_back(T_ARR), ArrayWriter(out); }
    inline MapWriter append_map();
};

class MapWriter : public StructureWriter {
    void key(const std::string& k) { w_bytes(T_STR, k); }

public:
    explicit MapWriter(std::string* out)
    : StructureWriter(out) {}
    void append_null(const std::string& k) { key(k), w_null(); }
    void append_bool(const std::string& k, bool v) { key(k), w_bool(v); }
    void append_int(const std::string& k, std::int64_t v) { key(k), w_int(v); }
    void append_float(const std::string& k, double v) { key(k), w_float(v); }
    void append_string(const std::string& k, const std::string& v) { key(k), w_bytes(T_STR, v); }
    void append_binary(const std::string& k, const std::string& v) { key(k), w_bytes(T_BIN, v); }
    ArrayWriter append_array(const std::string& k) { return key(k), out->push_back(T_ARR), ArrayWriter(out); }
    MapWriter append_map(const std::string& k) { return key(k), out->push_back(T_MAP), MapWriter(out); }
};
inline MapWriter ArrayWriter::append_map() { return out->push_back(T_MAP), MapWriter(out); }

class ArrayReader;
class MapReader;

inline std::size_t skip(const std::string& s, std::size_t at) {
    if (at >= s.size())
        throw std::runtime_error("invalid CBOR: read past end of slice");
    switch (s[at]) {
        case T_NULL: return at + 1;
        case T_BOOL: return at + 2;
        case T_INT:
        case T_FLOAT: return at + 9;
        case T_STR:
        case T_BIN: return at + 9 + get64(s, at + 1);
        case T_ARR:
        case T_MAP:
            at++;
            while (at < s.size() && s[at] != T_END)
                at = skip(s, at);
            return at + 1;
        default: throw std::runtime_error("invalid CBOR: unknown tag");
    }
}

class Reader {
    std::string s;  // exactly one item

    void want(char t) const {
        if (s.empty() || s[0] != t)
            throw std::runtime_error("unexpected CBOR structure: type mismatch");
    }

public:
    explicit Reader(std::string data)
    : s(std::move(data)) {}
    bool is_null() const { return !s.empty() && s[0] == T_NULL; }
    bool as_bool() const { return want(T_BOOL), s.at(1) != 0; }
    std::int64_t as_int() const { return want(T_INT), static_cast<std::int64_t>(get64(s, 1)); }
    double as_float() const {
        want(T_FLOAT);
        std::uint64_t u = get64(s, 1);
        double d;
        std::memcpy(&d, &u, 8);
        return d;
    }
    std::string as_string() const { return want(T_STR), s.substr(9, get64(s, 1)); }
    std::string as_binary() const { return want(T_BIN), s.substr(9, get64(s, 1)); }
    inline ArrayReader as_array() const;
    inline MapReader as_map() const;
    const std::string& slice() const { return s; }
    friend class MapReader;
};

class ArrayReader : public std::vector<Reader> {
public:
    explicit ArrayReader(const std::string& s) {
        for (std::size_t at = 1; at < s.size() && s[at] != T_END;) {
            auto n = skip(s, at);
            emplace_back(s.substr(at, n - at));
            at = n;
        }
    }
};

class MapReader {
    std::vector<std::pair<std::string, Reader>> items;

public:
    explicit MapReader(const std::string& s) {
        for (std::size_t at = 1; at < s.size() && s[at] != T_END;) {
            auto n = skip(s, at);
            auto k = Reader(s.substr(at, n - at)).as_string();
            auto m = skip(s, n);
            items.emplace_back(k, Reader(s.substr(n, m - n)));
            at = m;
        }
    }
    std::size_t count(const std::string& k) const {
        for (auto& i : items)
            if (i.first == k)
                return 1;
        return 0;
    }
    const Reader& at(const std::string& k) const {
        for (auto& i : items)
            if (i.first == k)
                return i.second;
        throw std::out_of_range("map key not found");
    }
};
inline ArrayReader Reader::as_array() const { return want(T_ARR), ArrayReader(s); }
inline MapReader Reader::as_map() const { return want(T_MAP), MapReader(s); }

}  // namespace tree::cbor
