// Stand-in for tree-gen's support library (not available offline): only the interface libqasm uses.
#pragma once
#include <cassert>
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include "tree-annotatable.hpp"
#include "tree-cbor.hpp"

namespace tree::base {

class NotWellFormed : public std::runtime_error {
public:
    explicit NotWellFormed(const std::string& msg)
    : std::runtime_error("not well-formed: " + msg) {}
};
class OutOfRange : public std::out_of_range {
public:
    explicit OutOfRange(const std::string& msg)
    : std::out_of_range("out of range: " + msg) {}
};

class PointerMap {
    std::vector<const void*> v;

public:
    bool has(const void* p) const {
        for (auto q : v)
            if (q == p)
                return true;
        return false;
    }
    void add(const void* p) {
        if (has(p))
            throw NotWellFormed("duplicate node found in tree");
        v.push_back(p);
    }
};

class Completable {
public:
    virtual ~Completable() = default;
    virtual void find_reachable(PointerMap&) const {}
    virtual void check_complete(const PointerMap&) const {}
    void check_well_formed() const {
        PointerMap m;
        find_reachable(m);
        check_complete(m);
    }
    bool is_well_formed() const {
        try {
            check_well_formed();
            return true;
        } catch (const NotWellFormed&) {
            return false;
        }
    }
    bool is_complete() const { return is_well_formed(); }
};

class Base : public annotatable::Annotatable, public Completable {};

template <class T>
class One;

template <class T>
class Maybe : public Completable {
protected:
    std::shared_ptr<T> val;

public:
    Maybe() = default;
    template <class S>
    Maybe(const std::shared_ptr<S>& v) noexcept
    : val(std::static_pointer_cast<T>(v)) {}
    template <class S>
    Maybe(const Maybe<S>& v) noexcept
    : val(std::static_pointer_cast<T>(v.get_ptr())) {}
    Maybe(const Maybe& o) noexcept
    : Completable(o), val(o.val) {}
    Maybe(Maybe&& o) noexcept
    : val(std::move(o.val)) {}
    Maybe& operator=(const Maybe& o) {
        val = o.val;
        return *this;
    }
    Maybe& operator=(Maybe&& o) noexcept {
        val = std::move(o.val);
        return *this;
    }
    template <class S>
    Maybe& operator=(const std::shared_ptr<S>& v) {
        val = std::static_pointer_cast<T>(v);
        return *this;
    }
    template <class S>
    Maybe& operator=(const Maybe<S>& v) {
        val = std::static_pointer_cast<T>(v.get_ptr());
        return *this;
    }
    template <class S>
    void set(const std::shared_ptr<S>& v) {
        val = std::static_pointer_cast<T>(v);
    }
    template <class S>
    void set(const Maybe<S>& v) {
        val = std::static_pointer_cast<T>(v.get_ptr());
    }
    template <class S = T, class... A>
    Maybe& emplace(A... a) {
        val = std::static_pointer_cast<T>(std::make_shared<S>(a...));
        return *this;
    }
    void reset() { val.reset(); }
    bool empty() const { return !val; }
    T& deref() const {
        if (!val)
            throw OutOfRange("dereferencing empty Maybe/One object");
        return *val;
    }
    T& operator*() const { return deref(); }
    T* operator->() const { return &deref(); }
    const std::shared_ptr<T>& get_ptr() const { return val; }
    template <class S>
    std::shared_ptr<S> as() const {
        return std::dynamic_pointer_cast<S>(val);
    }
    bool equals(const Maybe& o) const {
        if (!val || !o.val)
            return !val && !o.val;
        return val == o.val || val->equals(*o.val);
    }
    bool operator==(const Maybe& o) const {
        if (!val || !o.val)
            return !val && !o.val;
        return val == o.val || *val == *o.val;
    }
    bool operator!=(const Maybe& o) const { return !(*this == o); }
    One<T> copy() const;
    One<T> clone() const;
    void find_reachable(PointerMap& m) const override {
        if (val) {
            m.add(val.get());
            val->find_reachable(m);
        }
    }
    void check_complete(const PointerMap& m) const override {
        if (val)
            val->check_complete(m);
    }
};

template <class T>
class One : public Maybe<T> {
public:
    One() = default;
    template <class S>
    One(const std::shared_ptr<S>& v) noexcept
    : Maybe<T>(v) {}
    template <class S>
    One(const Maybe<S>& v) noexcept
    : Maybe<T>(v) {}
    One(const One& o) noexcept
    : Maybe<T>(static_cast<const Maybe<T>&>(o)) {}
    One(One&& o) noexcept
    : Maybe<T>(std::move(static_cast<Maybe<T>&>(o))) {}
    One& operator=(const One& o) {
        this->val = o.val;
        return *this;
    }
    One& operator=(One&& o) noexcept {
        this->val = std::move(o.val);
        return *this;
    }
    template <class S>
    One& operator=(const std::shared_ptr<S>& v) {
        this->val = std::static_pointer_cast<T>(v);
        return *this;
    }
    template <class S>
    One& operator=(const Maybe<S>& v) {
        this->val = std::static_pointer_cast<T>(v.get_ptr());
        return *this;
    }
    void check_complete(const PointerMap& m) const override {
        if (!this->val)
            throw NotWellFormed("'One' edge is empty");
        this->val->check_complete(m);
    }
};

template <class T>
One<T> Maybe<T>::copy() const {
    return val ? One<T>(val->copy()) : One<T>();
}
template <class T>
One<T> Maybe<T>::clone() const {
    return val ? One<T>(val->clone()) : One<T>();
}

template <class T, class... A>
One<T> make(A... a) {
    return One<T>(std::make_shared<T>(a...));
}

template <class T>
class Any : public Completable {
protected:
    std::vector<One<T>> vec;

public:
    using iterator = typename std::vector<One<T>>::iterator;
    using const_iterator = typename std::vector<One<T>>::const_iterator;
    Any() = default;
    Any(const std::initializer_list<One<T>>& l)
    : vec(l) {}
    Any(const Any&) = default;
    Any(Any&&) noexcept = default;
    Any& operator=(const Any&) = default;
    Any& operator=(Any&&) noexcept = default;

    template <class S>
    Any& add(const std::shared_ptr<S>& ob, signed_size_t pos = -1) {
        return add(One<S>(ob), pos);
    }
    template <class S>
    Any& add(const Maybe<S>& ob, signed_size_t pos = -1) {
        if (ob.empty())
            return *this;
        if (pos < 0 || static_cast<std::size_t>(pos) >= vec.size())
            vec.emplace_back(ob.get_ptr());
        else
            vec.insert(vec.begin() + pos, One<T>(ob.get_ptr()));
        return *this;
    }
    template <class S = T, class... A>
    Any& emplace(A... a) {
        vec.emplace_back(std::make_shared<S>(a...));
        return *this;
    }
    template <class S>
    Any& extend(const Any<S>& o) {
        for (auto& e : o)
            vec.emplace_back(e.get_ptr());
        return *this;
    }
    void remove(signed_size_t pos = -1) {
        if (vec.empty())
            return;
        if (pos < 0 || static_cast<std::size_t>(pos) >= vec.size())
            vec.pop_back();
        else
            vec.erase(vec.begin() + pos);
    }
    void reset() { vec.clear(); }
    bool empty() const { return vec.empty(); }
    std::size_t size() const { return vec.size(); }
    std::vector<One<T>>& get_vec() { return vec; }
    const std::vector<One<T>>& get_vec() const { return vec; }
    One<T>& at(std::size_t i) { return vec.at(i); }
    const One<T>& at(std::size_t i) const { return vec.at(i); }
    One<T>& operator[](std::size_t i) { return vec[i]; }
    const One<T>& operator[](std::size_t i) const { return vec[i]; }
    One<T>& front() { return vec.front(); }
    const One<T>& front() const { return vec.front(); }
    One<T>& back() { return vec.back(); }
    const One<T>& back() const { return vec.back(); }
    iterator begin() { return vec.begin(); }
    const_iterator begin() const { return vec.begin(); }
    iterator end() { return vec.end(); }
    const_iterator end() const { return vec.end(); }
    bool equals(const Any& o) const {
        if (size() != o.size())
            return false;
        for (std::size_t i = 0; i < size(); i++)
            if (!vec[i].equals(o.vec[i]))
                return false;
        return true;
    }
    bool operator==(const Any& o) const {
        if (size() != o.size())
            return false;
        for (std::size_t i = 0; i < size(); i++)
            if (!(vec[i] == o.vec[i]))
                return false;
        return true;
    }
    Any copy() const {
        Any r;
        for (auto& e : vec)
            r.add(e.copy());
        return r;
    }
    Any clone() const {
        Any r;
        for (auto& e : vec)
            r.add(e.clone());
        return r;
    }
    void find_reachable(PointerMap& m) const override {
        for (auto& e : vec)
            e.find_reachable(m);
    }
    void check_complete(const PointerMap& m) const override {
        for (auto& e : vec)
            e.check_complete(m);
    }
};

template <class T>
class Many : public Any<T> {
public:
    Many() = default;
    Many(const std::initializer_list<One<T>>& l)
    : Any<T>(l) {}
    Many(const Any<T>& o)
    : Any<T>(o) {}
    Many(const Many&) = default;
    Many(Many&&) noexcept = default;
    Many& operator=(const Many&) = default;
    Many& operator=(Many&&) noexcept = default;
    Many copy() const { return Many(Any<T>::copy()); }
    Many clone() const { return Many(Any<T>::clone()); }
    void check_complete(const PointerMap& m) const override {
        if (this->vec.empty())
            throw NotWellFormed("'Many' edge is empty");
        Any<T>::check_complete(m);
    }
};

template <class T>
class OptLink : public Completable {
protected:
    std::weak_ptr<T> val;

public:
    OptLink() = default;
    template <class S>
    OptLink(const Maybe<S>& v)
    : val(std::static_pointer_cast<T>(v.get_ptr())) {}
    OptLink(const std::shared_ptr<T>& v)
    : val(v) {}
    OptLink(const OptLink&) = default;
    OptLink& operator=(const OptLink&) = default;
    template <class S>
    OptLink& operator=(const Maybe<S>& v) {
        val = std::static_pointer_cast<T>(v.get_ptr());
        return *this;
    }
    template <class S>
    void set(const Maybe<S>& v) {
        val = std::static_pointer_cast<T>(v.get_ptr());
    }
    void reset() { val.reset(); }
    bool empty() const { return val.expired(); }
    std::shared_ptr<T> get_ptr() const { return val.lock(); }
    T& deref() const {
        auto p = val.lock();
        if (!p)
            throw OutOfRange("dereferencing empty or expired (Opt)Link object");
        return *p;
    }
    T& operator*() const { return deref(); }
    T* operator->() const { return &deref(); }
    template <class S>
    std::shared_ptr<S> as() const {
        return std::dynamic_pointer_cast<S>(val.lock());
    }
    bool links_to(const Maybe<T>& n) const { return val.lock() == n.get_ptr(); }
    bool equals(const OptLink& o) const { return val.lock() == o.val.lock(); }
    bool operator==(const OptLink& o) const { return val.lock() == o.val.lock(); }
    void check_complete(const PointerMap& m) const override {
        if (auto p = val.lock(); p && !m.has(p.get()))
            throw NotWellFormed("(Opt)Link to node not found in tree");
    }
};

template <class T>
class Link : public OptLink<T> {
public:
    Link() = default;
    template <class S>
    Link(const Maybe<S>& v)
    : OptLink<T>(v) {}
    Link(const std::shared_ptr<T>& v)
    : OptLink<T>(v) {}
    Link(const Link&) = default;
    Link& operator=(const Link&) = default;
    template <class S>
    Link& operator=(const Maybe<S>& v) {
        this->val = std::static_pointer_cast<T>(v.get_ptr());
        return *this;
    }
    void check_complete(const PointerMap& m) const override {
        if (this->val.expired())
            throw NotWellFormed("Link is empty or expired");
        OptLink<T>::check_complete(m);
    }
};

template <class T>
std::string serialize(const Maybe<T>& tree) {
    std::string s;
    s.push_back(cbor::T_MAP);
    cbor::MapWriter w(&s);
    if (!tree.empty())
        tree->serialize(w);
    w.close();
    return s;
}

template <class T>
One<T> deserialize(const std::string& data) {
    cbor::MapReader r = cbor::Reader(data).as_map();
    if (!r.count("@t"))
        return One<T>();
    return One<T>(T::deserialize(r));
}

}  // namespace tree::base
