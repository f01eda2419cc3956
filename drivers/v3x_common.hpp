#pragma once
#include <sstream>
#include <string>
#include <vector>

#include "libqasm/error.hpp"
#include "tree-vfdump.hpp"
#include "vf_io.hpp"

namespace vf3 {
inline std::optional<std::string> opt(const std::string& s) {
    return s.at(0) == '-' ? std::nullopt : std::optional<std::string>{ s.substr(1) };
}
template <class T>
std::string dump(const T& root) {
    std::ostringstream os;
    os.imbue(std::locale::classic());
    ::tree::vf::dump_tree(os, root);
    return os.str();
}
template <class E>
void errors(vfio::Fields& out, const E& errs) {
    for (const auto& e : errs) {
        out.push_back(e.what());
        out.push_back(e.to_json());
    }
}
inline void more(const vfio::Fields&, vfio::Fields& out) { out.push_back("unknown op"); }
}  // namespace vf3
