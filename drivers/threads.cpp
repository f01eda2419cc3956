// Many threads, each with an analyzer of its own, next to readers of shared finished results.
#include <sched.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <memory>
#include <new>
#include <sstream>
#include <thread>

#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/instruction_set.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "tree-vfdump.hpp"
#include "v3x_common.hpp"

using namespace cqasm::v3x;
using vf3::dump;
using vf3::errors;
using vfio::Fields;
using vfio::num;
namespace tb = ::tree::base;

// Threads give way at random allocations, so that they interleave inside the library and not only between calls.
namespace {
thread_local unsigned tl_state = 0;     // 0: not one of the threads
thread_local unsigned tl_rate = 0;      // out of 65536
std::atomic<unsigned long> yields{ 0 };
void maybe_yield() {
    if (!tl_state) return;
    tl_state = tl_state * 1664525u + 1013904223u;
    if ((tl_state >> 16) < tl_rate) {
        yields.fetch_add(1, std::memory_order_relaxed);
        if (tl_state & 0x100) {
            ::usleep((tl_state >> 9) & 63);
        } else {
            ::sched_yield();
        }
    }
}
}  // namespace
// called by the sanitizers' allocators
extern "C" void __sanitizer_malloc_hook(const volatile void*, std::size_t) { maybe_yield(); }
extern "C" void __sanitizer_free_hook(const volatile void*) {}

namespace {
std::string joined(const Fields& f) { return vfio::pack(f); }
template <class R>
std::string report(const R& r) {
    Fields out{ r.errors.empty() ? "ok" : "err", dump(r.root) };
    errors(out, r.errors);
    return joined(out);
}
template <class F>
std::string guarded(F f) {
    try {
        return f();
    } catch (const cqasm::error::Error& e) {
        return std::string("Error ") + e.what();
    } catch (const std::exception& e) {
        return std::string("exception ") + e.what();
    } catch (...) {
        return "exception";
    }
}

struct Shared {
    std::vector<std::string> texts, files;
    std::vector<std::shared_ptr<const parser::ParseResult>> parsed;
    std::vector<std::shared_ptr<const analyzer::AnalysisResult>> analysed;
    std::unique_ptr<analyzer::Analyzer> prototype;
};

analyzer::Analyzer custom() {
    auto a = default_analyzer("3.0");
    a.register_consteval_core_function("f", "i", [](const values::Values& v) -> values::Value { return v[0]; });
    a.register_instruction("H", "QQ");
    a.push_scope();
    a.register_variable("seven", cqasm::tree::make<values::ConstInt>(7));
    return a;
}

struct Own {   // what a thread keeps for itself
    std::unique_ptr<analyzer::Analyzer> analyzer, copy;
    std::unique_ptr<V3xAnalyzer> wrapper;
};

const char* const KINDS[] = { "parse_string", "analyze_string fresh", "analyze_string own", "V3xAnalyzer", "parse_file", "shared: analyse the parse result", "shared: read the parse result",
    "shared: read the analysis result", "analyzer copied from a shared one", "JSON", "analyze_file", "serialise", "queries" };
constexpr int N_KINDS = sizeof KINDS / sizeof *KINDS;

/** One operation; its outcome depends on the kind and the text alone. */
std::string perform(int kind, size_t t, const Shared& s, Own& own) {
    const auto& text = s.texts[t];
    return guarded([&]() -> std::string {
        switch (kind) {
            case 0: return report(parser::parse_string(text, "f"));
            case 1: return report(default_analyzer("3.0").analyze_string(text, "f"));
            case 2:
                if (!own.analyzer) own.analyzer = std::make_unique<analyzer::Analyzer>(custom());
                return report(own.analyzer->analyze_string(text, std::nullopt));
            case 3:
                if (!own.wrapper) own.wrapper = std::make_unique<V3xAnalyzer>();
                return joined(own.wrapper->analyze_string(text, "w"));
            case 4: return report(parser::parse_file(s.files[t], "x"));
            case 5: return report(default_analyzer("3.0").analyze(*s.parsed[t]));
            case 6: {
                const auto& p = *s.parsed[t];
                std::ostringstream os;
                for (const auto& e : p.errors) os << e << e.what() << e.to_json();
                os << report(p) << joined(p.to_strings()) << p.to_json();
                if (!p.root.empty()) {
                    os << *p.root;
                    os << dump(p.root->clone());
                    os << p.root->is_well_formed();
                }
                return os.str();
            }
            case 7: {
                const auto& r = *s.analysed[t];
                std::ostringstream os;
                for (const auto& e : r.errors) os << e << e.what() << e.to_json();
                os << report(r) << joined(r.to_strings()) << r.to_json();
                if (!r.root.empty()) {
                    os << *r.root;
                    os << dump(r.root->clone());
                    for (const auto& x : r.root->block->statements) {
                        if (auto i = x->as_gate_instruction()) os << i->instruction_ref;
                        if (auto i = x->as_non_gate_instruction()) os << i->instruction_ref;
                    }
                    for (const auto& v : r.root->variables) os << values::type_of(cqasm::tree::make<values::VariableRef>(v))->clone()->is_well_formed();
                }
                try {
                    os << dump(r.unwrap(os));
                } catch (const analyzer::AnalysisFailed&) {
                    os << "failed";
                }
                auto copy = r;
                os << report(copy);
                return os.str();
            }
            case 8:
                if (!own.copy) own.copy = std::make_unique<analyzer::Analyzer>(*s.prototype);
                return report(own.copy->analyze_string(text, "f"));
            case 9: return V3xAnalyzer{}.analyze_string_to_json(text, "j") + V3xAnalyzer::parse_string_to_json(text, "k");
            case 10: return report(default_analyzer("3.0").analyze_file(s.files[t]));
            case 11: {
                auto r = default_analyzer("3.0").analyze_string(text, "f");
                if (!r.errors.empty()) return joined(r.to_strings());
                auto bytes = tb::serialize(r.root);
                return bytes + dump(tb::deserialize<semantic::Program>(bytes));
            }
            default: {
                const auto& is = instruction::InstructionSet::get_instance();
                std::ostringstream os;
                for (const char* n : { "X", "CRk", "measure", "wait", "pow", "inv", "foo" }) {
                    os << n << is.is_named_gate(n) << is.is_gate(n) << is.is_non_gate(n) << is.is_gate_modifier(n);
                    os << guarded([&] {
                        auto p = is.get_instruction_param_types(n);
                        return p ? *p : std::string("none");
                    });
                }
                os << is.get_named_gate_map().size();
                return os.str();
            }
        }
    });
}

struct Event {
    unsigned long begin, end;
    int thread, kind;
    size_t text;
    std::string outcome;
};

// seed, threads, rounds, yield rate, "cold" or "warm", kinds (comma separated), texts...
void go(const Fields& in, Fields& out) {
    unsigned seed = static_cast<unsigned>(std::stoul(in.at(1)));
    int n = std::stoi(in.at(2)), rounds = std::stoi(in.at(3));
    unsigned rate = static_cast<unsigned>(std::stoul(in.at(4)));
    bool cold = in.at(5) == "cold";
    std::vector<int> kinds;
    std::istringstream ks(in.at(6));
    for (std::string k; std::getline(ks, k, ',');) kinds.push_back(std::stoi(k));
    Shared s;
    for (size_t i = 7; i < in.size(); ++i) {
        s.texts.push_back(in[i]);
        s.files.push_back("t" + num(static_cast<long long>(::getpid())) + "_" + num(static_cast<long long>(i)) + ".cq");
        std::ofstream(s.files.back(), std::ios::binary) << in[i];
    }
    if (!cold) {   // cold: nothing of the library has run in this process when the threads start
        for (const auto& t : s.texts) {
            s.parsed.push_back(std::make_shared<parser::ParseResult>(parser::parse_string(t, "f")));
            s.analysed.push_back(std::make_shared<analyzer::AnalysisResult>(default_analyzer("3.0").analyze_string(t, "f")));
        }
        s.prototype = std::make_unique<analyzer::Analyzer>(custom());
    }
    std::atomic<unsigned long> ticket{ 0 };
    std::atomic<int> waiting{ 0 };
    std::atomic<int> round{ 0 };
    std::vector<std::vector<Event>> events(n);
    std::vector<std::thread> threads;
    for (int id = 0; id < n; ++id) {
        threads.emplace_back([&, id] {
            Own own;
            unsigned state = seed * 2654435761u + static_cast<unsigned>(id) * 40503u + 12345u;
            auto next = [&] { return (state = state * 1664525u + 1013904223u) >> 8; };
            unsigned lcg = state | 1;
            for (int r = 0; r < rounds; ++r) {
                int kind = kinds[next() % kinds.size()];
                size_t t = next() % s.texts.size();
                if (r % 2 == 0) {      // everyone the same, in every other round
                    unsigned common = (seed + 7919u * static_cast<unsigned>(r)) * 2654435761u >> 8;
                    kind = kinds[common % kinds.size()];
                    t = (common / 64) % s.texts.size();
                }
                if (waiting.fetch_add(1) + 1 == n * (r + 1)) round.store(r + 1);
                while (round.load() < r + 1) ::sched_yield();
                tl_rate = rate;
                tl_state = lcg | 1;
                auto b = ticket.fetch_add(1, std::memory_order_relaxed);
                auto o = perform(kind, t, s, own);
                auto e = ticket.fetch_add(1, std::memory_order_relaxed);
                lcg = tl_state;
                tl_state = 0;
                events[id].push_back({ b, e, id, kind, t, std::move(o) });
            }
        });
    }
    for (auto& t : threads) t.join();
    // what each of them gives alone
    if (cold) {
        for (const auto& t : s.texts) {
            s.parsed.push_back(std::make_shared<parser::ParseResult>(parser::parse_string(t, "f")));
            s.analysed.push_back(std::make_shared<analyzer::AnalysisResult>(default_analyzer("3.0").analyze_string(t, "f")));
        }
        s.prototype = std::make_unique<analyzer::Analyzer>(custom());
    }
    Own own;
    std::vector<std::vector<std::string>> alone(N_KINDS, std::vector<std::string>(s.texts.size()));
    std::string bad;
    std::vector<std::pair<unsigned long, int>> order;
    std::vector<const Event*> all;
    for (const auto& v : events) {
        for (const auto& e : v) {
            auto& a = alone[e.kind][e.text];
            if (a.empty()) a = perform(e.kind, e.text, s, own);
            if (a != e.outcome && bad.empty()) bad = std::string(KINDS[e.kind]) + " of text " + num(static_cast<long long>(e.text)) + " gave\n" + e.outcome + "\nand alone\n" + a;
            order.emplace_back(e.begin, e.thread);
            order.emplace_back(e.end, e.thread);
            all.push_back(&e);
        }
    }
    std::sort(order.begin(), order.end());
    std::string interleaving;
    for (auto& o : order) interleaving += static_cast<char>('0' + o.second);
    long long overlapping = 0;
    for (size_t i = 0; i < all.size(); ++i)
        for (size_t j = i + 1; j < all.size(); ++j)
            if (all[i]->thread != all[j]->thread && all[i]->begin < all[j]->end && all[j]->begin < all[i]->end) ++overlapping;
    for (const auto& f : s.files) ::unlink(f.c_str());
    out = { bad, interleaving, num(overlapping), num(static_cast<long long>(yields.exchange(0))), num(static_cast<long long>(all.size())) };
    std::string digest;
    for (int k = 0; k < N_KINDS; ++k)
        for (size_t t = 0; t < s.texts.size(); ++t)
            if (k != 10 && !alone[k][t].empty()) out.push_back(num(k) + " " + num(static_cast<long long>(t)) + " " + num(static_cast<long long>(std::hash<std::string>{}(alone[k][t]) >> 1)));
}
}  // namespace

void vfio::handle(const Fields& in, Fields& out) { go(in, out); }

int main(int argc, char** argv) { return vfio::run(argc, argv); }
