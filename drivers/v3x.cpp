// Parses and analyses texts with the real library and reports everything it returns.
#include <sys/stat.h>
#include <unistd.h>

#include <fmt/format.h>

#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <typeinfo>

#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "tree-vfdump.hpp"
#include "v3x_common.hpp"

using namespace cqasm::v3x;
using vf3::dump;
using vf3::errors;
using vf3::opt;

namespace {
/** Captures what is written to the C and C++ standard streams while it lives. */
struct Quiet {
    std::ostringstream o, e;
    std::streambuf *so, *se;
    Quiet()
    : so(std::cout.rdbuf(o.rdbuf()))
    , se(std::cerr.rdbuf(e.rdbuf())) {}
    ~Quiet() {
        std::cout.rdbuf(so);
        std::cerr.rdbuf(se);
    }
    std::string text() const { return o.str() + e.str(); }
};

template <class F>
void guarded(vfio::Fields& out, F f) {
    auto n = out.size();
    try {
        f();
    } catch (const cqasm::error::Error& e) {
        out.resize(n);
        out.push_back("throw");
        out.push_back("Error");
        out.push_back(e.what());
    } catch (const std::exception& e) {
        out.resize(n);
        out.push_back("throw");
        out.push_back(typeid(e).name());
        out.push_back(e.what());
    } catch (...) {
        out.resize(n);
        out.push_back("throw");
        out.push_back("unknown");
        out.push_back("");
    }
}
}  // namespace

void vfio::handle(const Fields& in, Fields& out) {
    const auto& op = in.at(0);
    if (op == "parse") {  // text file -> status printed dump errors...
        guarded(out, [&] {
            Quiet q;
            auto r = parser::parse_string(in.at(1), opt(in.at(2)));
            out.push_back(r.errors.empty() ? "ok" : "err");
            out.push_back(q.text());
            out.push_back(dump(r.root));
            errors(out, r.errors);
        });
    } else if (op == "analyze") {  // text file -> status printed ast-before ast-after semantic errors...
        guarded(out, [&] {
            Quiet q;
            auto p = parser::parse_string(in.at(1), opt(in.at(2)));
            if (!p.errors.empty()) {
                auto a = default_analyzer("3.0");
                auto r = a.analyze(p);
                out.push_back("parse-err");
                out.push_back(q.text());
                out.push_back(dump(p.root));
                out.push_back(dump(p.root));
                out.push_back(dump(r.root));
                errors(out, p.errors);
                out.push_back("=");
                errors(out, r.errors);
                return;
            }
            auto before = dump(p.root);
            auto a = default_analyzer("3.0");
            auto r = a.analyze(p);
            out.push_back(r.errors.empty() ? "ok" : "err");
            out.push_back(q.text());
            out.push_back(before);
            out.push_back(dump(p.root));
            out.push_back(dump(r.root));
            errors(out, r.errors);
        });
    } else if (op == "analyze-few") {  // file texts... -> per text: semantic-dump error-count errors...   one analyzer each
        for (size_t i = 2; i < in.size(); ++i) {
            vfio::Fields o;
            guarded(o, [&] {
                Quiet q;
                auto p = parser::parse_string(in[i], opt(in.at(1)));
                auto a = default_analyzer("3.0");
                auto r = a.analyze(p);
                o.push_back(!p.errors.empty() ? "parse-err" : r.errors.empty() ? "ok" : "err");
                o.push_back(dump(r.root));
                errors(o, r.errors);
            });
            out.push_back(vfio::pack(o));
        }
    } else if (op == "asm") {  // text file -> status, then the dumps of both trees before and after serialisation, or the errors
        guarded(out, [&] {
            Quiet q;
            auto p = parser::parse_string(in.at(1), opt(in.at(2)));
            auto r = default_analyzer("3.0").analyze(p);
            out.push_back(r.errors.empty() ? "ok" : "err");
            if (!r.errors.empty()) {
                for (const auto& e : r.errors) out.push_back(e.what());
                return;
            }
            out.push_back(dump(p.root));
            out.push_back(dump(r.root));
            out.push_back(dump(::tree::base::deserialize<syntactic::Root>(::tree::base::serialize(p.root))));
            out.push_back(dump(::tree::base::deserialize<semantic::Program>(::tree::base::serialize(r.root))));
        });
    } else if (op == "ctor") {  // API version -> how each way of making an analyzer for it ends
        auto attempt = [&](auto f) {
            try {
                f();
                out.push_back("ok");
            } catch (const std::invalid_argument& e) {
                out.push_back(std::string("invalid_argument ") + e.what());
            } catch (const std::exception& e) {
                out.push_back(std::string("exception ") + e.what());
            }
        };
        attempt([&] { analyzer::Analyzer a{ in.at(1) }; });
        attempt([&] { (void)default_analyzer(in.at(1)); });
        attempt([&] { V3xAnalyzer a{ in.at(1) }; });
        attempt([&] { V3xAnalyzer a(in.at(1), true); });
        attempt([&] { (void)analyze_string("version 3", std::nullopt, in.at(1)); });
    } else {
        vf3::more(in, out);
    }
}

int main(int argc, char** argv) { return vfio::run(argc, argv); }
