// Stand-in for tree-gen's support header of the same name (tree-gen is not available offline).
#pragma once

#include <functional>
#include <map>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <typeindex>
#include <typeinfo>
#include <utility>

namespace tree::annotatable {

class Annotatable {
    struct Holder {
        virtual ~Holder() = default;
        virtual std::shared_ptr<Holder> dup() const = 0;
    };
    template <class T>
    struct HolderT : Holder {
        T value;
        explicit HolderT(const T& v)
        : value(v) {}
        std::shared_ptr<Holder> dup() const override { return std::make_shared<HolderT<T>>(value); }
    };
    std::map<std::type_index, std::shared_ptr<Holder>> annotations_;

public:
    Annotatable() = default;
    Annotatable(const Annotatable& o) { copy_annotations(o); }
    Annotatable(Annotatable&&) noexcept = default;
    Annotatable& operator=(const Annotatable& o) {
        if (this != &o) {
            annotations_.clear();
            copy_annotations(o);
        }
        return *this;
    }
    Annotatable& operator=(Annotatable&&) noexcept = default;
    virtual ~Annotatable() = default;

    template <class T>
    void set_annotation(const T& value) {
        annotations_[std::type_index(typeid(T))] = std::make_shared<HolderT<T>>(value);
    }
    template <class T>
    bool has_annotation() const {
        return annotations_.find(std::type_index(typeid(T))) != annotations_.end();
    }
    template <class T>
    T* get_annotation_ptr() const {
        auto it = annotations_.find(std::type_index(typeid(T)));
        return it == annotations_.end() ? nullptr : &static_cast<HolderT<T>*>(it->second.get())->value;
    }
    template <class T>
    T& get_annotation() const {
        auto p = get_annotation_ptr<T>();
        if (!p) {
            throw std::runtime_error("object does not have an annotation of this type");
        }
        return *p;
    }
    template <class T>
    void erase_annotation() {
        annotations_.erase(std::type_index(typeid(T)));
    }
    template <class T>
    void copy_annotation(const Annotatable& src) {
        if (auto p = src.get_annotation_ptr<T>()) {
            T copy = *p;
            set_annotation<T>(copy);
        } else {
            erase_annotation<T>();
        }
    }
    void copy_annotations(const Annotatable& src) {
        for (const auto& kv : src.annotations_) {
            annotations_[kv.first] = kv.second->dup();
        }
    }
};

}  // namespace tree::annotatable
