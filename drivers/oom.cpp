// Lets allocations fail, one after the other, and looks at what the library makes of it.
#include <unistd.h>

#include <cstdio>
#include <fstream>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <new>

#include "libqasm/annotations.hpp"
#include "libqasm/error.hpp"
#include "libqasm/utils.hpp"
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/instruction_set.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "libqasm/version.hpp"
#include "v3x_common.hpp"

namespace {
bool armed = false;
long countdown = 0, made = 0, live = 0;
bool failed = false;
std::size_t last = 0;
}  // namespace
void* operator new(std::size_t n) {
    if (armed) {
        ++made;
        if (countdown > 0 && --countdown == 0) {
            failed = true;
            last = n;
            throw std::bad_alloc();
        }
    }
    ++live;
    if (auto* p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept {
    if (p) --live;
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept {
    if (p) --live;
    std::free(p);
}

using namespace cqasm::v3x;

namespace {
struct Outcome {
    std::string how;   // "" when it returned
    std::string result;
};
/** Calls f, which returns its result as a string; whatever it made is gone afterwards. */
Outcome attempt(long k, const std::function<std::string()>& f) {
    Outcome o;
    failed = false;
    made = 0;
    countdown = k;
    armed = true;
    try {
        auto r = f();
        armed = false;
        o.result = std::move(r);
    } catch (const std::bad_alloc&) {
        armed = false;
        o.how = "bad_alloc";
    } catch (const std::ios_base::failure&) {
        armed = false;
        o.how = "bad_alloc";   // in the words of a stream
    } catch (const cqasm::error::Error& e) {
        armed = false;
        o.how = std::string("Error ") + e.what();
    } catch (const std::exception& e) {
        armed = false;
        o.how = std::string("exception ") + e.what();
    } catch (...) {
        armed = false;
        o.how = "unknown";
    }
    return o;
}
struct Off {   // what the driver itself does does not fail
    bool was = armed;
    Off() { armed = false; }
    ~Off() { armed = was; }
};
template <class R>
std::string text(const R& r) {
    Off off;
    std::string s = r.root.empty() ? "none" : vf3::dump(r.root);
    for (const auto& e : r.errors) s += std::string("\n") + e.what();
    return s;
}
std::string all(const std::vector<std::string>& v) {
    Off off;
    std::string s;
    for (const auto& x : v) s += x + "\n";
    return s;
}
}  // namespace

/** Streams keep quiet about what they could not write; and a parse may end in an error instead of an exception. */
bool acceptable(const std::string& what, const std::string& ref, const std::string& result) {
    static const std::string streams[] = { "parse json", "json", "strings", "error", "error copies", "located error", "context", "location", "version" };
    for (const auto& s : streams)
        if (what == s) return true;
    if (what == "parse" || what == "analyze string" || what == "parse file" || what == "analyze file") return result.rfind("none\n", 0) == 0;
    if (what == "wrapper" || what == "parse strings") return (result.size() > 1 && result[0] == '\n') || ref.rfind(result.substr(0, result.size() - 1), 0) == 0;
    return false;
}

void vfio::handle(const Fields& in, Fields& out) {
    // what text number budget -> allocations, faults, of these thrown and returned, then per strange outcome: number, what
    const auto& what = in.at(0);
    const auto& t = in.at(1);
    const long number = std::stol(in.at(2)), budget = std::stol(in.at(3));
    std::vector<std::pair<std::string, std::function<std::string()>>> calls;
    std::optional<analyzer::Analyzer> a;
    std::optional<V3xAnalyzer> w;
    std::function<std::string()> after = [] { return std::string{}; };
    bool again = false;   // after the fault it is done once more
    std::optional<cqasm::error::Error> err;
    std::function<std::string()> f;
    parser::ParseResult p;
    analyzer::AnalysisResult ar;
    struct File {
        std::string path;
        ~File() { if (!path.empty()) std::remove(path.c_str()); }
    } file;
    namespace cu = cqasm::utils;
    auto state = [&] {   // what the analyzer knows
        auto r = a->analyze_string("version 3.0; qubit[3] q; Rx(abs(pi)) q[0]; bit b; b = measure q[1]; U(tau, 1, 2) q; nothing q", "s");
        return text(r) + text(a->analyze_string(t, "s"));
    };
    const auto fresh = [&] {   // before each attempt, where an attempt changes the analyzer
        if (!again) return;
        if (a) a.emplace(default_analyzer("3.0"));
        if (w) w.emplace();
    };
    if (what == "parse") {
        f = [&] { return text(parser::parse_string(t, "f")); };
    } else if (what == "analyze") {
        a.emplace(default_analyzer("3.0"));
        p = parser::parse_string(t, "f");
        f = [&] { return text(a->analyze(p)); };
        after = state;
    } else if (what == "analyze string") {
        a.emplace(default_analyzer("3.0"));
        f = [&] { return text(a->analyze_string(t, "f")); };
        after = state;
    } else if (what == "parse file" || what == "analyze file") {
        file.path = "oom" + std::to_string(::getpid()) + ".cq";
        std::ofstream(file.path, std::ios::binary) << t;
        if (what == "parse file") {
            f = [&] { return text(parser::parse_file(file.path, "f")); };
        } else {
            a.emplace(default_analyzer("3.0"));
            f = [&] { return text(a->analyze_file(file.path)); };
            after = state;
        }
    } else if (what == "wrapper") {
        w.emplace();
        f = [&] { return all(w->analyze_string(t)); };
        after = [&] { return all(w->analyze_string(t)); };
    } else if (what == "parse strings") {
        f = [&] { return all(V3xAnalyzer::parse_string(t, "f")); };
    } else if (what == "parse json") {
        p = parser::parse_string(t, "f");
        f = [&] { return p.to_json(); };
        after = [&] { return p.to_json(); };
    } else if (what == "json") {
        ar = default_analyzer("3.0").analyze_string(t, "f");
        f = [&] { return ar.to_json(); };
        after = [&] { return ar.to_json(); };
    } else if (what == "strings") {
        ar = default_analyzer("3.0").analyze_string(t, "f");
        f = [&] { return all(ar.to_strings()); };
        after = [&] { return all(ar.to_strings()); };
    } else if (what == "make") {
        f = [&] {
            auto x = default_analyzer("3.0");
            Off off;
            return text(x.analyze_string(t, "f"));
        };
    } else if (what == "copy") {
        a.emplace(default_analyzer("3.0"));
        f = [&] {
            analyzer::Analyzer x{ *a };
            Off off;
            return text(x.analyze_string(t, "f"));
        };
        after = state;
    } else if (what == "utils") {
        f = [&] { return cu::to_lowercase(t) + cu::json_encode(t) + cu::url_encode(t) + (cu::equal_case_insensitive(t, t + " ") ? "1" : "0"); };
    } else if (what == "error") {
        f = [&] {
            cqasm::error::Error e(t, t, { { 1, 2 }, { 3, 4 } });
            std::string s = e.what();
            return s + e.to_json();
        };
    } else if (what == "error copies") {
        err.emplace(t, t, cqasm::annotations::SourceLocation::Range{ { 1, 2 }, { 3, 4 } });
        f = [&] {
            cqasm::error::Error a1(*err);
            std::vector<cqasm::error::Error> v{ a1, *err };
            v.push_back(cqasm::error::Error(t));
            v.back() = a1;
            v.emplace_back(t);
            return v.back().to_json() + v.front().to_json();
        };
        after = [&] { return err->to_json() + err->what(); };
    } else if (what == "located error") {
        auto l = std::make_shared<cqasm::annotations::SourceLocation>(t, cqasm::annotations::SourceLocation::Range{ { 1, 2 }, { 3, 4 } });
        f = [&, l] {
            cqasm::error::Error e(t, l);
            return e.to_json();
        };
        after = [l] { return l->file_name.value_or("none"); };
    } else if (what == "context") {
        auto n = cqasm::tree::make<syntactic::Identifier>("x");
        n->set_annotation<parser::SourceLocation>(parser::SourceLocation(t, { { 1, 2 }, { 3, 4 } }));
        err.emplace(t);
        f = [&, n] {
            cqasm::error::Error e(t, &*n);
            cqasm::error::Error g(*err);
            g.context(*n);
            return e.to_json() + g.to_json();
        };
        after = [&, n] { return err->to_json() + n->get_annotation<parser::SourceLocation>().file_name.value_or("none"); };
    } else if (what == "location") {
        f = [&] {
            cqasm::annotations::SourceLocation l(t, { { 1, 2 }, { 3, 4 } });
            l.expand_to_include({ 7, 8 });
            std::ostringstream s;
            s << l;
            return s.str();
        };
    } else if (what == "version") {
        f = [&] {
            cqasm::version::Version v("3.0.17.4.5.6.7.8");
            std::ostringstream s;
            s << v;
            return std::string(v < cqasm::version::Version("3.0.18") ? "less" : "not less");
        };
    } else if (what == "register constant") {
        a.emplace(default_analyzer("3.0"));
        f = [&] { a->register_variable("one", cqasm::tree::make<values::ConstInt>(1)); Off off; return state(); };
        after = state;
        again = true;
    } else if (what == "register function") {
        a.emplace(default_analyzer("3.0"));
        f = [&] { a->register_consteval_core_function("same", "if", [](const values::Values& v) { return v[0]; }); Off off; return state(); };
        after = state;
        again = true;
    } else if (what == "register instruction") {
        a.emplace(default_analyzer("3.0"));
        f = [&] { a->register_instruction("X", "Qi"); Off off; return state(); };
        after = state;
        again = true;
    } else if (what == "register instruction by wrapper") {
        w.emplace();
        f = [&] { w->register_instruction("X", "Qi"); Off off; return all(w->analyze_string(t)); };
        after = [&] { return all(w->analyze_string(t)); };
        again = true;
    } else if (what == "resolve") {
        a.emplace(default_analyzer("3.0"));
        f = [&] {
            auto v = a->resolve_variable("pi");
            auto r = a->resolve_function("sin", { v });
            Off off;
            return vf3::dump(r);
        };
        after = state;
    } else if (what == "scope") {
        a.emplace(default_analyzer("3.0"));
        f = [&] {
            a->push_scope();
            struct Pop {
                analyzer::Analyzer& a;
                ~Pop() { a.pop_scope(); }
            } pop{ *a };
            a->register_variable("inner", cqasm::tree::make<values::ConstInt>(1));
            auto v = a->resolve_variable("inner");
            Off off;
            return vf3::dump(v);
        };
        after = state;
    } else if (what == "types") {
        f = [&] {
            auto x = types::from_spec("QVBWbif");
            return std::to_string(x.size());
        };
    } else if (what == "instruction") {
        f = [&] {
            instruction::Instruction i{ t, "QVBWbif" };
            instruction::Instruction j{ i };
            return std::string(i == j ? "equal" : "different");
        };
    } else if (what == "promote") {
        f = [&] {
            auto v = values::promote(cqasm::tree::make<values::ConstInt>(3), cqasm::tree::make<types::Float>());
            auto u = v->clone();
            Off off;
            return vf3::dump(v);
        };
    } else if (what == "unwrap") {
        ar = default_analyzer("3.0").analyze_string(t, "f");
        f = [&] {
            std::ostringstream s;
            try {
                auto r = ar.unwrap(s);
                Off off;
                return vf3::dump(r);
            } catch (const cqasm::v3x::analyzer::AnalysisFailed&) {
                return std::string("failed");
            }
        };
        after = [&] { return text(ar); };
    } else if (what == "round trip") {
        p = parser::parse_string(t, "f");
        if (!p.errors.empty()) f = [] { return std::string{}; };
        else f = [&] {
            auto data = ::tree::base::serialize(p.root);
            Off off;
            return std::string("done");
        };
        after = [&] { return text(p); };
    }
    std::string ref, then, said;
    {   // once to let everything be that is made once
        (void)attempt(0, f);
        (void)after();
    }
    {
        fresh();
        then = after();
        ref = attempt(0, f).result;
    }
    long total = made, k = 1;
    {
        fresh();
        auto n = live;
        { (void)attempt(0, f); }
        total = made;
        if (live != n && !again) said = "leaks without any fault";
    }
    out.push_back(std::to_string(total));
    out.push_back(said);
    long faults = 0, threw = 0, returned = 0;
    Fields strange;
    const long step = std::max(1L, total / budget);
    for (k = 1 + number % step; k <= total; k += step) {
        fresh();
        const auto n = live;
        long left = 0;
        {
            std::string how, result;
            bool hit;
            {
                auto o = attempt(k, f);
                hit = failed;
                how.swap(o.how);
                result.swap(o.result);
            }
            const auto extra = (how.capacity() > 15) + (result.capacity() > 15);
            left = live - n - extra;
            if (!hit) continue;
            ++faults;
            if (how == "bad_alloc") ++threw;
            else if (how.empty() && (result == ref || acceptable(what, ref, result))) ++returned;
            else {
                strange.push_back(std::to_string(k));
                strange.push_back(how.empty() ? "returned something else: " + result.substr(0, 300) : "threw " + how);
            }
        }
        if (again) {
            if (auto now = after(); now != then && now != ref) {
                strange.push_back(std::to_string(k));
                strange.push_back("is neither as before nor as afterwards");
            }
            auto o = attempt(0, f);
            if (o.how != "" || o.result != ref) {
                strange.push_back(std::to_string(k));
                strange.push_back("does something else once there is memory: " + o.how + o.result.substr(0, 300));
            }
        } else if (left != 0) {
            strange.push_back(std::to_string(k));
            strange.push_back("leaks " + std::to_string(left));
        }
        if (!again && faults % 5 == 0) {
            if (after() != then) {
                strange.push_back(std::to_string(k));
                strange.push_back("is not as before");
                break;
            }
        }
        if (strange.size() > 20) break;
    }
    fresh();
    if (after() != then) {
        strange.push_back("any");
        strange.push_back("is not as before");
    }
    out.push_back(std::to_string(faults));
    out.push_back(std::to_string(threw));
    out.push_back(std::to_string(returned));
    for (auto& s : strange) out.push_back(s);
}

int main(int argc, char** argv) { return vfio::run(argc, argv); }
