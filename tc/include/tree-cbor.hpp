// Stand-in for tree-gen's CBOR support header (tree-gen is not available offline).
#pragma once

#include <cstdint>
#include <cstring>
#include <map>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace tree::cbor {

class Reader;
using ArrayReader = std::vector<Reader>;
using MapReader = std::map<std::string, Reader>;

/** One decoded CBOR item. */
class Reader {
public:
    enum class Kind { Null, Bool, Int, Float, Text, Bytes, Array, Map };

private:
    Kind kind_ = Kind::Null;
    bool b_ = false;
    std::int64_t i_ = 0;
    double f_ = 0;
    std::string s_;
    std::vector<Reader> a_;
    std::map<std::string, Reader> m_;

    static std::uint8_t u8(const std::string& d, size_t& p) {
        if (p >= d.size()) {
            throw std::runtime_error("invalid CBOR: read past end");
        }
        return static_cast<std::uint8_t>(d[p++]);
    }
    static std::uint64_t arg(const std::string& d, size_t& p, int info) {
        if (info < 24) {
            return static_cast<std::uint64_t>(info);
        }
        int n = info == 24 ? 1 : info == 25 ? 2 : info == 26 ? 4 : info == 27 ? 8 : 0;
        if (!n) {
            throw std::runtime_error("invalid CBOR: bad additional info");
        }
        std::uint64_t v = 0;
        while (n--) {
            v = (v << 8) | u8(d, p);
        }
        return v;
    }
    [[noreturn]] static void unexpected(const char* what) {
        throw std::runtime_error(std::string("unexpected CBOR item: expected ") + what);
    }

public:
    static Reader parse(const std::string& d, size_t& p) {
        Reader r;
        auto ib = u8(d, p);
        int major = ib >> 5;
        int info = ib & 31;
        switch (major) {
            case 0:
                r.kind_ = Kind::Int;
                r.i_ = static_cast<std::int64_t>(arg(d, p, info));
                break;
            case 1:
                r.kind_ = Kind::Int;
                r.i_ = static_cast<std::int64_t>(~arg(d, p, info));
                break;
            case 2:
            case 3: {
                r.kind_ = major == 2 ? Kind::Bytes : Kind::Text;
                auto n = arg(d, p, info);
                if (n > d.size() - p) {
                    throw std::runtime_error("invalid CBOR: string past end");
                }
                r.s_ = d.substr(p, n);
                p += n;
                break;
            }
            case 4:
            case 5: {
                r.kind_ = major == 4 ? Kind::Array : Kind::Map;
                bool indef = info == 31;
                auto n = indef ? 0 : arg(d, p, info);
                for (std::uint64_t k = 0; indef || k < n; k++) {
                    if (indef && p < d.size() && static_cast<std::uint8_t>(d[p]) == 0xFF) {
                        p++;
                        break;
                    }
                    if (major == 4) {
                        r.a_.push_back(parse(d, p));
                    } else {
                        auto key = parse(d, p);
                        r.m_[key.as_string()] = parse(d, p);
                    }
                }
                break;
            }
            case 7:
                if (info == 20 || info == 21) {
                    r.kind_ = Kind::Bool;
                    r.b_ = info == 21;
                } else if (info == 22) {
                    r.kind_ = Kind::Null;
                } else if (info == 27) {
                    r.kind_ = Kind::Float;
                    auto bits = arg(d, p, 27);
                    std::memcpy(&r.f_, &bits, 8);
                } else {
                    throw std::runtime_error("invalid CBOR: unsupported simple value");
                }
                break;
            default: throw std::runtime_error("invalid CBOR: unsupported major type");
        }
        return r;
    }
    static Reader parse(const std::string& d) {
        size_t p = 0;
        auto r = parse(d, p);
        if (p != d.size()) {
            throw std::runtime_error("invalid CBOR: garbage at end");
        }
        return r;
    }

    bool is_null() const { return kind_ == Kind::Null; }
    bool as_bool() const {
        if (kind_ != Kind::Bool) unexpected("boolean");
        return b_;
    }
    std::int64_t as_int() const {
        if (kind_ != Kind::Int) unexpected("integer");
        return i_;
    }
    double as_float() const {
        if (kind_ != Kind::Float) unexpected("float");
        return f_;
    }
    std::string as_string() const {
        if (kind_ != Kind::Text) unexpected("string");
        return s_;
    }
    std::string as_binary() const {
        if (kind_ != Kind::Bytes) unexpected("binary string");
        return s_;
    }
    const ArrayReader& as_array() const& {
        if (kind_ != Kind::Array) unexpected("array");
        return a_;
    }
    ArrayReader as_array() && {
        if (kind_ != Kind::Array) unexpected("array");
        return std::move(a_);
    }
    const MapReader& as_map() const& {
        if (kind_ != Kind::Map) unexpected("map");
        return m_;
    }
    MapReader as_map() && {
        if (kind_ != Kind::Map) unexpected("map");
        return std::move(m_);
    }
};

class MapWriter;
class ArrayWriter;

class StructureWriter {
protected:
    std::ostream* os_;
    bool open_ = true;

    explicit StructureWriter(std::ostream& os)
    : os_(&os) {}
    void head(int major, std::uint64_t v) {
        std::ostream& os = *os_;
        if (v < 24) {
            os.put(static_cast<char>((major << 5) | static_cast<int>(v)));
            return;
        }
        int n = v <= 0xFF ? 1 : v <= 0xFFFF ? 2 : v <= 0xFFFFFFFFull ? 4 : 8;
        os.put(static_cast<char>((major << 5) | (n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27)));
        for (int i = n - 1; i >= 0; i--) {
            os.put(static_cast<char>((v >> (8 * i)) & 0xFF));
        }
    }
    void w_null() { os_->put(static_cast<char>(0xF6)); }
    void w_bool(bool v) { os_->put(static_cast<char>(v ? 0xF5 : 0xF4)); }
    void w_int(std::int64_t v) { v < 0 ? head(1, ~static_cast<std::uint64_t>(v)) : head(0, static_cast<std::uint64_t>(v)); }
    void w_float(double v) {
        std::uint64_t bits;
        std::memcpy(&bits, &v, 8);
        os_->put(static_cast<char>(0xFB));
        for (int i = 7; i >= 0; i--) {
            os_->put(static_cast<char>((bits >> (8 * i)) & 0xFF));
        }
    }
    void w_string(const std::string& v) {
        head(3, v.size());
        os_->write(v.data(), static_cast<std::streamsize>(v.size()));
    }
    void w_binary(const std::string& v) {
        head(2, v.size());
        os_->write(v.data(), static_cast<std::streamsize>(v.size()));
    }

public:
    void close() {
        if (open_) {
            open_ = false;
            os_->put(static_cast<char>(0xFF));
        }
    }
};

class ArrayWriter : public StructureWriter {
public:
    explicit ArrayWriter(std::ostream& os)
    : StructureWriter(os) {
        os_->put(static_cast<char>(0x9F));
    }
    void append_null() { w_null(); }
    void append_bool(bool v) { w_bool(v); }
    void append_int(std::int64_t v) { w_int(v); }
    void append_float(double v) { w_float(v); }
    void append_string(const std::string& v) { w_string(v); }
    void append_binary(const std::string& v) { w_binary(v); }
    ArrayWriter append_array() { return ArrayWriter(*os_); }
    inline MapWriter append_map();
};

class MapWriter : public StructureWriter {
public:
    explicit MapWriter(std::ostream& os)
    : StructureWriter(os) {
        os_->put(static_cast<char>(0xBF));
    }
    void append_null(const std::string& k) { w_string(k), w_null(); }
    void append_bool(const std::string& k, bool v) { w_string(k), w_bool(v); }
    void append_int(const std::string& k, std::int64_t v) { w_string(k), w_int(v); }
    void append_float(const std::string& k, double v) { w_string(k), w_float(v); }
    void append_string(const std::string& k, const std::string& v) { w_string(k), w_string(v); }
    void append_binary(const std::string& k, const std::string& v) { w_string(k), w_binary(v); }
    ArrayWriter append_array(const std::string& k) {
        w_string(k);
        return ArrayWriter(*os_);
    }
    MapWriter append_map(const std::string& k) {
        w_string(k);
        return MapWriter(*os_);
    }
};

inline MapWriter ArrayWriter::append_map() {
    return MapWriter(*os_);
}

class Writer {
    std::ostream& os_;

public:
    explicit Writer(std::ostream& os)
    : os_(os) {}
    MapWriter start() { return MapWriter(os_); }
};

}  // namespace tree::cbor
