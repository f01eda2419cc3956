// Batch protocol shared by all drivers: requests and responses are lists of byte strings in files.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <locale>
#include <sstream>
#include <string>
#include <vector>

#include "vf_effects.hpp"

namespace vfio {
using Fields = std::vector<std::string>;

inline void handle(const Fields& in, Fields& out);  // defined by each driver

inline bool read_u32(std::FILE* f, std::uint32_t& v) {
    unsigned char b[4];
    if (std::fread(b, 1, 4, f) != 4) return false;
    v = b[0] | b[1] << 8 | b[2] << 16 | static_cast<std::uint32_t>(b[3]) << 24;
    return true;
}
inline void put_u32(std::string& s, std::uint32_t v) {
    s.push_back(static_cast<char>(v & 255));
    s.push_back(static_cast<char>(v >> 8 & 255));
    s.push_back(static_cast<char>(v >> 16 & 255));
    s.push_back(static_cast<char>(v >> 24 & 255));
}
inline bool read_msg(std::FILE* f, Fields& out) {
    std::uint32_t n = 0;
    if (!read_u32(f, n)) return false;
    out.resize(n);
    for (auto& s : out) {
        std::uint32_t len = 0;
        if (!read_u32(f, len)) return false;
        s.resize(len);
        if (len && std::fread(s.data(), 1, len, f) != len) return false;
    }
    return true;
}
inline std::string pack(const Fields& fields) {
    std::string s;
    put_u32(s, static_cast<std::uint32_t>(fields.size()));
    for (const auto& f : fields) {
        put_u32(s, static_cast<std::uint32_t>(f.size()));
        s += f;
    }
    return s;
}
/** Reads numbers alike in every locale. */
struct Words : std::istringstream {
    explicit Words(const std::string& s)
    : std::istringstream(s) {
        imbue(std::locale::classic());
    }
};
/** Numbers and truth values as no program expects them. */
struct Foreign : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
/** Digits that are no digits. */
struct Digits : std::numpunct<char> {
    char do_decimal_point() const override { return '1'; }
    char do_thousands_sep() const override { return '0'; }
    std::string do_grouping() const override { return "\3"; }
};
/** "c:NAME" sets the locale of C, "cpp:NAME" that of C and of C++, "facet" and "digits" that of C++ alone. */
inline bool set_locale(const std::string& how) {
    if (how == "facet") {
        std::locale::global(std::locale(std::locale::classic(), new Foreign));
    } else if (how == "digits") {
        std::locale::global(std::locale(std::locale::classic(), new Digits));
    } else if (how.rfind("c:", 0) == 0) {
        return std::setlocale(LC_ALL, how.c_str() + 2) != nullptr;
    } else if (how.rfind("cpp:", 0) == 0) {
        try {
            std::locale::global(std::locale(how.c_str() + 4));
        } catch (const std::runtime_error&) {
            return false;
        }
    }
    return true;
}
inline int run(int argc, char** argv) {
    if (argc < 3) return 2;
    if (auto* how = std::getenv("VF_LOCALE")) {
        if (!set_locale(how)) {
            std::fprintf(stderr, "no locale %s", how);
            return 2;
        }
    }
    auto* effects = std::getenv("VF_EFFECTS");
    const std::string hows = effects ? effects : "";
    if (effects) {   // to a directory of its own
        auto own = std::string(argv[1]) + ".cwd";
        ::mkdir(own.c_str(), 0755);
        if (::chdir(own.c_str()) != 0) return 2;
    }
    if (hows.find('u') != std::string::npos) unusual();
    std::FILE* in = std::fopen(argv[1], "rb");
    std::FILE* out = std::fopen(argv[2], "wb");
    if (!in || !out) return 2;
    Fields req, resp;
    while (read_msg(in, req)) {
        resp.clear();
        if (effects) {
            auto before = state_of_process();
            handle(req, resp);
            resp.push_back(changes(before, state_of_process()));
        } else {
            handle(req, resp);
        }
        std::string s = pack(resp);
        std::fwrite(s.data(), 1, s.size(), out);
        std::fflush(out);
    }
    std::fclose(out);
    std::fclose(in);
    return 0;
}
inline std::string num(long long v) { return std::to_string(v); }
}  // namespace vfio
