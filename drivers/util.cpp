// Calls the string helpers and the source-location classes on whatever it is given.
#include <fmt/format.h>

#include <sstream>

#include "libqasm/annotations.hpp"
#include "libqasm/utils.hpp"
#include "vf_io.hpp"

using cqasm::annotations::SourceLocation;
using Index = SourceLocation::Index;
using Range = SourceLocation::Range;

static std::uint32_t u(const std::string& s) { return static_cast<std::uint32_t>(std::stoull(s)); }
static std::string show(const Range& r) {
    return fmt::format("{} {} {} {}", r.first.line, r.first.column, r.last.line, r.last.column);
}
template <class T>
std::string six(const T& a, const T& b) {
    std::string s;
    s += a == b ? '1' : '0';
    s += a != b ? '1' : '0';
    s += a < b ? '1' : '0';
    s += a <= b ? '1' : '0';
    s += a > b ? '1' : '0';
    s += a >= b ? '1' : '0';
    return s;
}
// "-" means no file name, otherwise "+" followed by the name
static std::optional<std::string> opt(const std::string& s) {
    return s.at(0) == '-' ? std::nullopt : std::optional<std::string>{ s.substr(1) };
}
static std::string show_opt(const std::optional<std::string>& s) { return s ? "+" + *s : std::string("-"); }

void vfio::handle(const Fields& in, Fields& out) {
    const auto& op = in.at(0);
    if (op == "lower") {
        for (size_t i = 1; i < in.size(); ++i) out.push_back(cqasm::utils::to_lowercase(in[i]));
    } else if (op == "eqci") {
        for (size_t i = 1; i + 1 < in.size(); i += 2)
            out.push_back(cqasm::utils::equal_case_insensitive(in[i], in[i + 1]) ? "1" : "0");
    } else if (op == "url") {
        for (size_t i = 1; i < in.size(); ++i) out.push_back(cqasm::utils::url_encode(in[i]));
    } else if (op == "json") {
        for (size_t i = 1; i < in.size(); ++i) out.push_back(cqasm::utils::json_encode(in[i]));
    } else if (op == "rtq") {
        for (size_t i = 1; i < in.size(); ++i) out.push_back(cqasm::utils::remove_triple_quotes(in[i]));
    } else if (op == "range") {  // groups of l1 c1 l2 c2
        for (size_t i = 1; i + 3 < in.size(); i += 4) {
            Range r{ Index{ u(in[i]), u(in[i + 1]) }, Index{ u(in[i + 2]), u(in[i + 3]) } };
            Range c{ r };
            Range m{ std::move(c) };
            Range a;
            a = m;
            SourceLocation s{ std::string{ "f" }, a };
            out.push_back(show(r));
            out.push_back(show(s.range));
        }
    } else if (op == "cmp") {  // file l1 c1 l2 c2, twice
        for (size_t i = 1; i + 9 < in.size(); i += 10) {
            Range r[2];
            SourceLocation s[2];
            for (int k = 0; k < 2; ++k) {
                const auto* p = &in[i + 5 * k];
                r[k] = Range{ Index{ u(p[1]), u(p[2]) }, Index{ u(p[3]), u(p[4]) } };
                s[k] = SourceLocation{ opt(p[0]), r[k] };
            }
            out.push_back(six(r[0].first, r[1].first) + six(r[0].last, r[1].last) + six(r[0], r[1]) + six(s[0], s[1]));
            out.push_back(show_opt(s[0].file_name));
        }
    } else if (op == "expand") {  // file l1 c1 l2 c2, then positions; one case per request
        SourceLocation s{ opt(in[1]), Range{ Index{ u(in[2]), u(in[3]) }, Index{ u(in[4]), u(in[5]) } } };
        out.push_back(show(s.range));
        for (size_t i = 6; i + 1 < in.size(); i += 2) {
            s.expand_to_include(Index{ u(in[i]), u(in[i + 1]) });
            out.push_back(show(s.range));
        }
        out.push_back(show_opt(s.file_name));
    } else if (op == "print") {  // groups of file l1 c1 l2 c2
        for (size_t i = 1; i + 4 < in.size(); i += 5) {
            SourceLocation s{ opt(in[i]),
                Range{ Index{ u(in[i + 1]), u(in[i + 2]) }, Index{ u(in[i + 3]), u(in[i + 4]) } } };
            std::ostringstream os;
            os << s;
            out.push_back(os.str());
            out.push_back(fmt::format("{}", s));
        }
    } else if (op == "default") {
        SourceLocation s;
        out.push_back(show(s.range));
        out.push_back(show_opt(s.file_name));
        out.push_back(fmt::format("{}", s));
    } else {
        std::abort();
    }
}
int main(int argc, char** argv) { return vfio::run(argc, argv); }
