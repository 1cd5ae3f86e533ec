// Stand-in for tree-gen's support library (not available offline): only the interface libqasm uses.
#pragma once
#include <cstddef>
#include <memory>
#include <stdexcept>
#include <string>

namespace tree {
typedef ptrdiff_t signed_size_t;
}

namespace tree::annotatable {

template <class T>
struct TagOf {
    static inline char tag = 0;
};

class Annotatable {
    struct Slot {
        const void* tag;
        std::shared_ptr<void> obj;
        std::shared_ptr<Slot> next;
    };
    std::shared_ptr<Slot> slots;  // persistent list: copies share the annotation objects, like tree-gen

public:
    Annotatable() = default;
    Annotatable(const Annotatable&) = default;
    Annotatable& operator=(const Annotatable&) = default;
    Annotatable(Annotatable&&) = default;
    Annotatable& operator=(Annotatable&&) = default;
    virtual ~Annotatable() = default;

    template <class T>
    void erase_annotation() {
        std::shared_ptr<Slot> r;
        for (auto s = slots; s; s = s->next)
            if (s->tag != &TagOf<T>::tag)
                r = std::make_shared<Slot>(Slot{ s->tag, s->obj, r });
        slots = r;
    }
    template <class T>
    void set_annotation(const T& ob) {
        erase_annotation<T>();
        slots = std::make_shared<Slot>(Slot{ &TagOf<T>::tag, std::make_shared<T>(ob), slots });
    }
    template <class T>
    T* get_annotation_ptr() {
        for (Slot* s = slots.get(); s; s = s->next.get())
            if (s->tag == &TagOf<T>::tag)
                return static_cast<T*>(s->obj.get());
        return nullptr;
    }
    template <class T>
    const T* get_annotation_ptr() const {
        return const_cast<Annotatable*>(this)->get_annotation_ptr<T>();
    }
    template <class T>
    bool has_annotation() const {
        return get_annotation_ptr<T>() != nullptr;
    }
    template <class T>
    T& get_annotation() {
        if (auto p = get_annotation_ptr<T>())
            return *p;
        throw std::runtime_error("object does not have an annotation of this type");
    }
    template <class T>
    const T& get_annotation() const {
        return const_cast<Annotatable*>(this)->get_annotation<T>();
    }
    template <class T>
    void copy_annotation(const Annotatable& src) {
        if (auto p = src.get_annotation_ptr<T>())
            set_annotation<T>(*p);
        else
            erase_annotation<T>();
    }
};

}  // namespace tree::annotatable
