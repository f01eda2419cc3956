// Stand-in for emscripten's bind.h: records what a binding exports, so that it can be called by its exported name.
#pragma once
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace emscripten {
using Call = std::function<std::string(const std::vector<std::string>&)>;
inline std::map<std::string, Call>& exported() {
    static std::map<std::string, Call> m;
    return m;
}
template <class C>
struct class_ {
    std::string name;
    explicit class_(const char* n)
    : name(n) {}
    template <class... A>
    const class_& constructor() const { return *this; }
    template <class F>
    const class_& function(const char* fn, F f) const {
        add(fn, f);
        return *this;
    }
    template <class R, class... A>
    void add(const char* fn, R (C::*f)(A...)) const { put(fn, f, std::index_sequence_for<A...>{}); }
    template <class R, class... A>
    void add(const char* fn, R (C::*f)(A...) const) const { put(fn, f, std::index_sequence_for<A...>{}); }
    template <class F, std::size_t... I>
    void put(const char* fn, F f, std::index_sequence<I...>) const {
        exported()[name + "." + fn] = [f](const std::vector<std::string>& args) {
            if (args.size() != sizeof...(I)) throw std::invalid_argument("wrong number of arguments");
            C obj;
            return std::string{ (obj.*f)(args[I]...) };
        };
    }
};
}  // namespace emscripten

#define EMSCRIPTEN_BINDINGS(Name)                       \
    static void vf_bind_##Name();                       \
    [[maybe_unused]] static const bool vf_bound_##Name = (vf_bind_##Name(), true); \
    static void vf_bind_##Name()
