from seedlib import seed
import sys
only = sys.argv[1:]


def s(sid, *a, **k):
    if not only or sid in only:
        seed(sid, *a, **k)


s("u01-del-escape", "U01",
  [("src/utils.cpp", """        ret += (c == '"' || c == '\\\\' || c <= '\\x1f')
            ? fmt::format("\\\\u{:04X}", static_cast<unsigned int>(c))""",
    """        ret += (c == '"' || c == '\\\\' || !std::isprint(c & 0x7f))
            ? fmt::format("\\\\u{:04X}", static_cast<unsigned int>(c))""")],
  "Bytes 0x80..0x9f and 0xff of multi-byte characters (and DEL) are written as \\u escapes of the single byte",
  "a message or file name with a multi-byte character that has a continuation byte in 0x80..0x9f",
  r'''
#include "libqasm/utils.hpp"
#include <cstdio>
int main() {
    using cqasm::utils::json_encode;
    // e with circumflex is C3 AA (fine), right arrow is E2 86 92
    if (json_encode("\xc3\xaa") != "\xc3\xaa") { std::puts("two-byte character changed"); return 1; }
    if (json_encode("a\xe2\x86\x92" "b") != "a\xe2\x86\x92" "b") { std::puts("three-byte character changed"); return 1; }
    return 0;
}
''', ["src/utils.cpp"])

s("u02-space-plus", "U02",
  [("src/utils.cpp", """            ? std::string{ static_cast<char>(c) }
            : fmt::format("%{:02X}", static_cast<unsigned int>(c));
    });
    return ret;""",
    """            ? std::string{ static_cast<char>(c) }
            : (c == '\\t') ? std::string{ "%9" } : fmt::format("%{:02X}", static_cast<unsigned int>(c));
    });
    return ret;""")],
  "A tab is encoded with one hexadecimal digit, so the output no longer decodes to the input",
  "a file name with a tab",
  r'''
#include "libqasm/utils.hpp"
#include <cstdio>
int main() {
    auto s = cqasm::utils::url_encode("a\tb");
    if (s != "a%09b") { std::printf("%s\n", s.c_str()); return 1; }
    return 0;
}
''', ["src/utils.cpp"])

s("u03-prefix", "U03",
  [("src/utils.cpp", """    return ranges::equal(lhs, rhs, [](unsigned char l, unsigned char r) {""",
    """    return ranges::equal(std::string(lhs.c_str()), std::string(rhs.c_str()), [](unsigned char l, unsigned char r) {""")],
  "Comparison stops at the first NUL byte, so different strings compare equal",
  "two strings that first differ after an embedded NUL byte",
  r'''
#include "libqasm/utils.hpp"
#include <cstdio>
int main() {
    std::string a("ab\0cd", 5), b("AB\0ce", 5);
    if (cqasm::utils::equal_case_insensitive(a, b)) { std::puts("equal although different after NUL"); return 1; }
    return cqasm::utils::equal_case_insensitive(a, std::string("AB\0CD", 5)) ? 0 : 1;
}
''', ["src/utils.cpp"])

s("a01-range-line-only", "A01",
  [("src/annotations.cpp", "    last = std::max<Index>(last, first);",
    "    last.line = std::max(last.line, first.line);\n    last.column = last.line > first.line ? last.column : std::max(last.column, first.column);"
    .replace("last.line > first.line", "l.line != first.line"))],
  "A range whose end lies on an earlier line keeps the end's column, so it can end before it starts",
  "an end on an earlier line than the start and in a smaller column",
  r'''
#include "libqasm/annotations.hpp"
#include <cstdio>
int main() {
    using L = cqasm::annotations::SourceLocation;
    L::Range r{ { 5, 9 }, { 3, 2 } };
    if (r.last < r.first) { std::puts("ends before it starts"); return 1; }
    return 0;
}
''', ["src/annotations.cpp"])

s("a02-expand-componentwise", "A02",
  [("src/annotations.cpp", """    range.first = std::min<Index>(range.first, index);
    range.last = std::max<Index>(range.last, index);""",
    """    if (index < range.first) {
        range.first = index;
    } else if (range.last < index) {
        range.last.line = std::max(range.last.line, index.line);
        range.last.column = std::max(range.last.column, index.column);
    }""")],
  "Growing a range over several lines takes the larger column of old end and new position",
  "a position on a later line in a smaller column than the old end",
  r'''
#include "libqasm/annotations.hpp"
#include <cstdio>
int main() {
    using L = cqasm::annotations::SourceLocation;
    L l{ std::nullopt, L::Range{ { 2, 1 }, { 2, 40 } } };
    l.expand_to_include({ 3, 5 });
    if (l.range.last != L::Index{ 3, 5 }) { std::printf("%u:%u\n", l.range.last.line, l.range.last.column); return 1; }
    return 0;
}
''', ["src/annotations.cpp"])

s("v02-trailing", "V02",
  [("src/version.cpp", "    for (size_t i = 0; i < this->size() || i < other.size(); i++) {\n        auto lhs = (i < this->size()) ? (*this)[i] : 0;",
    "    for (size_t i = 0; i < std::max(this->size(), other.size()); i++) {\n        if (i >= this->size()) {\n            return -1;\n        }\n        auto lhs = (*this)[i];")],
  "A version that is a proper prefix of another compares less even if the rest is zeros: 3 < 3.0",
  "comparing versions of different length, the shorter on the left, rest zeros",
  r'''
#include "libqasm/version.hpp"
#include <cstdio>
int main() {
    using cqasm::version::Version;
    if (!(Version("3") == Version("3.0")) || Version("3") < Version("3.0.0")) { std::puts("3 and 3.0 differ"); return 1; }
    return 0;
}
''', ["src/version.cpp", "src/error.cpp", "src/utils.cpp", "src/annotations.cpp"])
