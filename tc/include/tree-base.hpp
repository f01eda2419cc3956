// Stand-in for tree-gen's support header of the same name (tree-gen is not available offline).
// It provides the edge classes (Maybe, One, Any, Many, OptLink, Link), the node base class, well-formedness checking
// and CBOR (de)serialisation, with the interface libqasm uses.
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include "tree-annotatable.hpp"
#include "tree-cbor.hpp"

namespace tree {

namespace vf {
class Sink;
}

using signed_size_t = std::make_signed_t<std::size_t>;

namespace base {

class NotWellFormed : public std::runtime_error {
public:
    explicit NotWellFormed(const std::string& msg)
    : std::runtime_error("tree is not well-formed: " + msg) {}
};

/** Maps each reachable node to a sequence number. */
class PointerMap {
    std::unordered_map<const void*, std::size_t> map_;
    bool enable_exceptions_;

public:
    explicit PointerMap(bool enable_exceptions = true)
    : enable_exceptions_(enable_exceptions) {}
    std::size_t add_ref(const void* p, const char* name) {
        auto it = map_.find(p);
        if (it != map_.end()) {
            if (enable_exceptions_) {
                throw NotWellFormed(std::string("duplicate node of type ") + name + " found in tree");
            }
            return it->second;
        }
        auto seq = map_.size();
        map_.emplace(p, seq);
        return seq;
    }
    std::size_t get_ref(const void* p) const {
        auto it = map_.find(p);
        if (it == map_.end()) {
            throw NotWellFormed("link to a node that is not reachable from the root");
        }
        return it->second;
    }
    bool has(const void* p) const { return map_.count(p) != 0; }
    std::size_t size() const { return map_.size(); }
};

/** Restores links after deserialisation. */
struct IdentifierMap {
    std::map<std::size_t, std::shared_ptr<void>> nodes;
    std::vector<std::pair<std::function<void(const std::shared_ptr<void>&)>, std::size_t>> links;
    void restore_links() const {
        for (const auto& l : links) {
            auto it = nodes.find(l.second);
            if (it == nodes.end()) {
                throw std::runtime_error("link to unknown node in serialised tree");
            }
            l.first(it->second);
        }
    }
};

class Completable {
public:
    virtual ~Completable() = default;
    virtual void find_reachable(PointerMap&) const {}
    virtual void check_complete(const PointerMap&) const {}
    void check_well_formed() const {
        PointerMap map{};
        find_reachable(map);
        check_complete(map);
    }
    bool is_well_formed() const {
        try {
            check_well_formed();
        } catch (const NotWellFormed&) {
            return false;
        }
        return true;
    }
    bool is_complete() const { return is_well_formed(); }
};

class Base : public annotatable::Annotatable, public Completable {
public:
    virtual const char* vf_type_name() const { return "?"; }
    virtual void vf_fields(vf::Sink&) const {}
};

namespace detail {
template <class D, class S>
std::shared_ptr<D> edge_cast(const std::shared_ptr<S>& p) {
    if constexpr (std::is_convertible_v<S*, D*>) {
        return p;
    } else {
        return std::static_pointer_cast<D>(p);
    }
}
}  // namespace detail

/** Edge to zero or one node. */
template <class T>
class Maybe {
protected:
    std::shared_ptr<T> val;
    template <class S>
    friend class Maybe;

public:
    using element_type = T;

    Maybe() = default;
    Maybe(std::nullptr_t) {}
    template <class S, class = decltype(static_cast<T*>(static_cast<S*>(nullptr)))>
    Maybe(const std::shared_ptr<S>& p)
    : val(detail::edge_cast<T>(p)) {}
    explicit Maybe(const T& ob)
    : val(std::make_shared<T>(ob)) {}
    Maybe(const Maybe&) = default;
    Maybe(Maybe&&) noexcept = default;
    template <class S, class = std::enable_if_t<!std::is_same_v<S, T>, decltype(static_cast<T*>(static_cast<S*>(nullptr)))>>
    Maybe(const Maybe<S>& o)
    : val(detail::edge_cast<T>(o.val)) {}
    Maybe& operator=(const Maybe&) = default;
    Maybe& operator=(Maybe&&) noexcept = default;
    template <class S, class = decltype(static_cast<T*>(static_cast<S*>(nullptr)))>
    Maybe& operator=(const std::shared_ptr<S>& p) {
        val = detail::edge_cast<T>(p);
        return *this;
    }
    template <class S, class = std::enable_if_t<!std::is_same_v<S, T>, decltype(static_cast<T*>(static_cast<S*>(nullptr)))>>
    Maybe& operator=(const Maybe<S>& o) {
        val = detail::edge_cast<T>(o.val);
        return *this;
    }

    template <class S>
    void set(const Maybe<S>& o) {
        val = detail::edge_cast<T>(o.get_ptr());
    }
    template <class S>
    void set(const std::shared_ptr<S>& p) {
        val = detail::edge_cast<T>(p);
    }
    void set(const T& ob) { val = std::make_shared<T>(ob); }
    void set(T&& ob) { val = std::make_shared<T>(std::move(ob)); }
    template <class S = T, class... Args>
    void emplace(Args&&... args) {
        val = std::make_shared<S>(std::forward<Args>(args)...);
    }
    bool links_to(const T& target) const { return val.get() == &target; }
    void reset() { val.reset(); }
    bool empty() const { return !val; }
    bool has_value() const { return static_cast<bool>(val); }
    explicit operator bool() const { return static_cast<bool>(val); }
    T& operator*() const { return *val; }
    T* operator->() const { return val.get(); }
    T& deref() const {
        if (!val) {
            throw std::out_of_range("dereferencing empty Maybe object");
        }
        return *val;
    }
    T& value() const { return deref(); }
    const std::shared_ptr<T>& get_ptr() const { return val; }
    T* get() const { return val.get(); }
    template <class S>
    S* as() const {
        return dynamic_cast<S*>(val.get());
    }

    Maybe<T> copy() const {
        return val ? Maybe<T>(std::static_pointer_cast<T>(val->copy().get_ptr())) : Maybe<T>();
    }
    Maybe<T> clone() const {
        return val ? Maybe<T>(std::static_pointer_cast<T>(val->clone().get_ptr())) : Maybe<T>();
    }
    bool equals(const Maybe<T>& rhs) const {
        if (!val || !rhs.val) {
            return !val && !rhs.val;
        }
        return val == rhs.val || *val == *rhs.val;
    }
    bool operator==(const Maybe<T>& rhs) const { return equals(rhs); }
    bool operator!=(const Maybe<T>& rhs) const { return !equals(rhs); }

    void find_reachable(PointerMap& map) const {
        if (val) {
            map.add_ref(static_cast<const void*>(static_cast<const Base*>(val.get())), typeid(*val).name());
            val->find_reachable(map);
        }
    }
    void check_complete(const PointerMap& map) const {
        if (val) {
            val->check_complete(map);
        }
    }
    void check_well_formed() const {
        PointerMap map{};
        find_reachable(map);
        check_complete(map);
    }
    bool is_well_formed() const {
        try {
            check_well_formed();
        } catch (const NotWellFormed&) {
            return false;
        }
        return true;
    }
    bool is_complete() const { return is_well_formed(); }
};

/** Edge to exactly one node (may be empty while under construction). */
template <class T>
class One : public Maybe<T> {
public:
    One() = default;
    template <class S, class = decltype(static_cast<T*>(static_cast<S*>(nullptr)))>
    One(const std::shared_ptr<S>& p)
    : Maybe<T>(p) {}
    explicit One(const T& ob)
    : Maybe<T>(ob) {}
    One(const One&) = default;
    One(One&&) noexcept = default;
    template <class S, class = decltype(static_cast<T*>(static_cast<S*>(nullptr)))>
    One(const Maybe<S>& o)
    : Maybe<T>(o) {}
    One& operator=(const One&) = default;
    One& operator=(One&&) noexcept = default;
    template <class S, class = decltype(static_cast<T*>(static_cast<S*>(nullptr)))>
    One& operator=(const std::shared_ptr<S>& p) {
        Maybe<T>::operator=(p);
        return *this;
    }
    template <class S, class = decltype(static_cast<T*>(static_cast<S*>(nullptr)))>
    One& operator=(const Maybe<S>& o) {
        this->val = detail::edge_cast<T>(o.get_ptr());
        return *this;
    }
    One<T> copy() const { return One<T>(Maybe<T>::copy()); }
    One<T> clone() const { return One<T>(Maybe<T>::clone()); }

    void find_reachable(PointerMap& map) const { Maybe<T>::find_reachable(map); }
    void check_complete(const PointerMap& map) const {
        if (!this->val) {
            throw NotWellFormed(std::string("'One' edge of type ") + typeid(T).name() + " is empty");
        }
        Maybe<T>::check_complete(map);
    }
    void check_well_formed() const {
        PointerMap map{};
        find_reachable(map);
        check_complete(map);
    }
    bool is_well_formed() const {
        try {
            check_well_formed();
        } catch (const NotWellFormed&) {
            return false;
        }
        return true;
    }
    bool is_complete() const { return is_well_formed(); }
};

template <class T, typename... Args>
One<T> make(Args&&... args) {
    return One<T>(std::make_shared<T>(std::forward<Args>(args)...));
}

/** Edge to zero or more nodes. */
template <class T>
class Any {
protected:
    std::vector<One<T>> vec;
    template <class S>
    friend class Any;

public:
    using value_type = One<T>;
    using iterator = typename std::vector<One<T>>::iterator;
    using const_iterator = typename std::vector<One<T>>::const_iterator;
    using reference = One<T>&;
    using const_reference = const One<T>&;
    using size_type = std::size_t;

    Any() = default;
    Any(const Any&) = default;
    Any(Any&&) noexcept = default;
    Any& operator=(const Any&) = default;
    Any& operator=(Any&&) noexcept = default;
    Any(std::initializer_list<One<T>> l)
    : vec(l) {}
    template <class S, class = std::enable_if_t<!std::is_same_v<S, T>, decltype(static_cast<T*>(static_cast<S*>(nullptr)))>>
    Any(const Any<S>& o)
    : vec(o.vec.begin(), o.vec.end()) {}
    explicit Any(std::vector<One<T>> v)
    : vec(std::move(v)) {}

    template <class S>
    Any& add(const Maybe<S>& ob, signed_size_t pos = -1) {
        if (ob.empty()) {
            throw std::runtime_error("cannot add empty node to Any edge");
        }
        insert_at(One<T>(ob), pos);
        return *this;
    }
    template <class S>
    Any& add(const std::shared_ptr<S>& ob, signed_size_t pos = -1) {
        insert_at(One<T>(ob), pos);
        return *this;
    }
    template <class S = T, class... Args>
    Any& emplace(Args&&... args) {
        vec.emplace_back(std::make_shared<S>(std::forward<Args>(args)...));
        return *this;
    }
    void push_back(const One<T>& ob) { vec.push_back(ob); }
    template <class... Args>
    One<T>& emplace_back(Args&&... args) {
        return vec.emplace_back(std::forward<Args>(args)...);
    }
    template <class S>
    Any& extend(const Any<S>& o) {
        vec.insert(vec.end(), o.vec.begin(), o.vec.end());
        return *this;
    }
    void remove(signed_size_t pos = -1) {
        auto n = static_cast<signed_size_t>(vec.size());
        if (n == 0) {
            return;
        }
        auto p = pos < 0 || pos >= n ? n - 1 : pos;
        vec.erase(vec.begin() + p);
    }
    void reset() { vec.clear(); }
    void clear() { vec.clear(); }
    void reserve(std::size_t n) { vec.reserve(n); }
    bool empty() const { return vec.empty(); }
    std::size_t size() const { return vec.size(); }
    One<T>& at(std::size_t i) { return vec.at(i); }
    const One<T>& at(std::size_t i) const { return vec.at(i); }
    One<T>& operator[](std::size_t i) { return vec.at(i); }
    const One<T>& operator[](std::size_t i) const { return vec.at(i); }
    One<T>& front() { return vec.at(0); }
    const One<T>& front() const { return vec.at(0); }
    One<T>& back() { return vec.at(vec.size() - 1); }
    const One<T>& back() const { return vec.at(vec.size() - 1); }
    iterator begin() { return vec.begin(); }
    iterator end() { return vec.end(); }
    const_iterator begin() const { return vec.begin(); }
    const_iterator end() const { return vec.end(); }
    const_iterator cbegin() const { return vec.cbegin(); }
    const_iterator cend() const { return vec.cend(); }
    auto rbegin() { return vec.rbegin(); }
    auto rend() { return vec.rend(); }
    auto rbegin() const { return vec.rbegin(); }
    auto rend() const { return vec.rend(); }
    std::vector<One<T>>& get_vec() { return vec; }
    const std::vector<One<T>>& get_vec() const { return vec; }

    Any<T> copy() const {
        Any<T> ret;
        for (const auto& v : vec) {
            ret.vec.push_back(v.copy());
        }
        return ret;
    }
    Any<T> clone() const {
        Any<T> ret;
        for (const auto& v : vec) {
            ret.vec.push_back(v.clone());
        }
        return ret;
    }
    bool equals(const Any<T>& rhs) const {
        if (vec.size() != rhs.vec.size()) {
            return false;
        }
        for (std::size_t i = 0; i < vec.size(); i++) {
            if (!vec[i].equals(rhs.vec[i])) {
                return false;
            }
        }
        return true;
    }
    bool operator==(const Any<T>& rhs) const { return equals(rhs); }
    bool operator!=(const Any<T>& rhs) const { return !equals(rhs); }

    void find_reachable(PointerMap& map) const {
        for (const auto& v : vec) {
            v.find_reachable(map);
        }
    }
    void check_complete(const PointerMap& map) const {
        for (const auto& v : vec) {
            v.check_complete(map);
        }
    }
    void check_well_formed() const {
        PointerMap map{};
        find_reachable(map);
        check_complete(map);
    }
    bool is_well_formed() const {
        try {
            check_well_formed();
        } catch (const NotWellFormed&) {
            return false;
        }
        return true;
    }
    bool is_complete() const { return is_well_formed(); }

private:
    void insert_at(One<T> ob, signed_size_t pos) {
        auto n = static_cast<signed_size_t>(vec.size());
        if (pos < 0 || pos >= n) {
            vec.push_back(std::move(ob));
        } else {
            vec.insert(vec.begin() + pos, std::move(ob));
        }
    }
};

/** Edge to one or more nodes. */
template <class T>
class Many : public Any<T> {
public:
    using Any<T>::Any;
    Many() = default;
    Many(const Any<T>& o)
    : Any<T>(o) {}
    Many<T> copy() const { return Many<T>(Any<T>::copy()); }
    Many<T> clone() const { return Many<T>(Any<T>::clone()); }
    void check_complete(const PointerMap& map) const {
        if (this->empty()) {
            throw NotWellFormed(std::string("'Many' edge of type ") + typeid(T).name() + " is empty");
        }
        Any<T>::check_complete(map);
    }
    void check_well_formed() const {
        PointerMap map{};
        this->find_reachable(map);
        check_complete(map);
    }
    bool is_well_formed() const {
        try {
            check_well_formed();
        } catch (const NotWellFormed&) {
            return false;
        }
        return true;
    }
    bool is_complete() const { return is_well_formed(); }
};

/** Non-owning edge to zero or one node elsewhere in the tree. */
template <class T>
class OptLink {
protected:
    std::weak_ptr<T> val;
    template <class S>
    friend class OptLink;

public:
    OptLink() = default;
    OptLink(const OptLink&) = default;
    OptLink(OptLink&&) noexcept = default;
    OptLink& operator=(const OptLink&) = default;
    OptLink& operator=(OptLink&&) noexcept = default;
    template <class S, class = decltype(static_cast<T*>(static_cast<S*>(nullptr)))>
    OptLink(const Maybe<S>& o)
    : val(detail::edge_cast<T>(o.get_ptr())) {}
    template <class S, class = decltype(static_cast<T*>(static_cast<S*>(nullptr)))>
    OptLink(const std::shared_ptr<S>& o)
    : val(detail::edge_cast<T>(o)) {}
    template <class S>
    void set(const Maybe<S>& o) {
        val = detail::edge_cast<T>(o.get_ptr());
    }
    void set_raw(const std::shared_ptr<void>& p) { val = std::static_pointer_cast<T>(p); }
    void reset() { val.reset(); }
    bool empty() const { return val.expired(); }
    explicit operator bool() const { return !empty(); }
    T& operator*() const { return *val.lock(); }
    T* operator->() const { return val.lock().get(); }
    T& deref() const {
        if (empty()) {
            throw std::out_of_range("dereferencing empty or expired OptLink");
        }
        return *val.lock();
    }
    std::shared_ptr<T> get_ptr() const { return val.lock(); }
    template <class S>
    S* as() const {
        return dynamic_cast<S*>(val.lock().get());
    }
    bool links_to(const T& target) const { return val.lock().get() == &target; }
    bool equals(const OptLink& rhs) const { return val.lock() == rhs.val.lock(); }
    bool operator==(const OptLink& rhs) const { return equals(rhs); }
    bool operator!=(const OptLink& rhs) const { return !equals(rhs); }
    void find_reachable(PointerMap&) const {}
    void check_complete(const PointerMap& map) const {
        if (auto p = val.lock()) {
            map.get_ref(static_cast<const void*>(static_cast<const Base*>(p.get())));
        }
    }
};

/** Non-owning edge to exactly one node elsewhere in the tree. */
template <class T>
class Link : public OptLink<T> {
public:
    using OptLink<T>::OptLink;
    Link() = default;
    void check_complete(const PointerMap& map) const {
        if (this->empty()) {
            throw NotWellFormed(std::string("'Link' edge of type ") + typeid(T).name() + " is empty");
        }
        OptLink<T>::check_complete(map);
    }
};

//------------------------------------------------------------------------------------------------------------------
// Serialisation. Every owned node becomes {"@T": edge kind, "@i": sequence number, "@t": node type, field: {...}...}
//------------------------------------------------------------------------------------------------------------------

template <class T>
void ser_node(const std::shared_ptr<T>& p, cbor::MapWriter& map, const PointerMap& ids) {
    if (!p) {
        map.append_null("@t");
        return;
    }
    map.append_int("@i",
        static_cast<std::int64_t>(ids.get_ref(static_cast<const void*>(static_cast<const Base*>(p.get())))));
    p->serialize(map, ids);
}
template <class T>
void ser_edge(const Maybe<T>& e, cbor::MapWriter& map, const PointerMap& ids, const char* kind = "?") {
    map.append_string("@T", kind);
    ser_node(e.get_ptr(), map, ids);
}
template <class T>
void ser_edge(const One<T>& e, cbor::MapWriter& map, const PointerMap& ids) {
    map.append_string("@T", "1");
    ser_node(e.get_ptr(), map, ids);
}
template <class T>
void ser_edge(const Any<T>& e, cbor::MapWriter& map, const PointerMap& ids, const char* kind = "*") {
    map.append_string("@T", kind);
    auto aw = map.append_array("@d");
    for (const auto& v : e) {
        auto m = aw.append_map();
        ser_edge(v, m, ids);
        m.close();
    }
    aw.close();
}
template <class T>
void ser_edge(const Many<T>& e, cbor::MapWriter& map, const PointerMap& ids) {
    ser_edge(static_cast<const Any<T>&>(e), map, ids, "+");
}
template <class T>
void ser_edge(const OptLink<T>& e, cbor::MapWriter& map, const PointerMap& ids, const char* kind = "@") {
    map.append_string("@T", kind);
    auto p = e.get_ptr();
    if (!p) {
        map.append_null("@l");
    } else {
        map.append_int("@l",
            static_cast<std::int64_t>(ids.get_ref(static_cast<const void*>(static_cast<const Base*>(p.get())))));
    }
}
template <class T>
void ser_edge(const Link<T>& e, cbor::MapWriter& map, const PointerMap& ids) {
    ser_edge(static_cast<const OptLink<T>&>(e), map, ids, "$");
}

inline void expect_kind(const cbor::MapReader& map, const char* kind) {
    if (map.at("@T").as_string() != kind) {
        throw std::runtime_error("unexpected edge type during deserialisation");
    }
}
template <class T>
std::shared_ptr<T> deser_node(const cbor::MapReader& map, IdentifierMap& ids) {
    if (map.at("@t").is_null()) {
        return {};
    }
    auto node = T::deserialize(map, ids);
    auto ret = std::dynamic_pointer_cast<T>(node);
    if (!ret) {
        throw std::runtime_error("unexpected node type during deserialisation");
    }
    ids.nodes[static_cast<std::size_t>(map.at("@i").as_int())] = std::static_pointer_cast<void>(ret);
    return ret;
}
template <class T>
void deser_edge(Maybe<T>& e, const cbor::MapReader& map, IdentifierMap& ids) {
    expect_kind(map, "?");
    e = deser_node<T>(map, ids);
}
template <class T>
void deser_edge(One<T>& e, const cbor::MapReader& map, IdentifierMap& ids) {
    expect_kind(map, "1");
    e = deser_node<T>(map, ids);
}
template <class T>
void deser_edge(Any<T>& e, const cbor::MapReader& map, IdentifierMap& ids, const char* kind = "*") {
    expect_kind(map, kind);
    for (const auto& x : map.at("@d").as_array()) {
        One<T> v;
        deser_edge(v, x.as_map(), ids);
        e.add(v);
    }
}
template <class T>
void deser_edge(Many<T>& e, const cbor::MapReader& map, IdentifierMap& ids) {
    deser_edge(static_cast<Any<T>&>(e), map, ids, "+");
}
template <class T>
void deser_edge(OptLink<T>& e, const cbor::MapReader& map, IdentifierMap& ids, const char* kind = "@") {
    expect_kind(map, kind);
    if (!map.at("@l").is_null()) {
        ids.links.emplace_back([&e](const std::shared_ptr<void>& p) { e.set_raw(p); },
            static_cast<std::size_t>(map.at("@l").as_int()));
    }
}
template <class T>
void deser_edge(Link<T>& e, const cbor::MapReader& map, IdentifierMap& ids) {
    deser_edge(static_cast<OptLink<T>&>(e), map, ids, "$");
}

template <class T>
void serialize(const Maybe<T>& tree, std::ostream& os) {
    PointerMap ids{};
    tree.find_reachable(ids);
    cbor::Writer writer{ os };
    auto map = writer.start();
    ser_edge(static_cast<const Maybe<T>&>(tree), map, ids);
    map.close();
}
template <class T>
std::string serialize(const Maybe<T>& tree) {
    std::ostringstream os;
    serialize(tree, os);
    return os.str();
}
template <class T>
Maybe<T> deserialize(const std::string& data) {
    auto reader = cbor::Reader::parse(data);
    IdentifierMap ids;
    Maybe<T> ret;
    deser_edge(ret, reader.as_map(), ids);
    ids.restore_links();
    return ret;
}
template <class T>
Maybe<T> deserialize(std::istream& is) {
    std::ostringstream os;
    os << is.rdbuf();
    return deserialize<T>(os.str());
}

}  // namespace base
}  // namespace tree
