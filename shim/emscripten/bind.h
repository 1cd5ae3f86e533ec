// Stand-in for Emscripten's binding declarations: checks that they name existing members.
#pragma once
namespace emscripten {
template <class T> struct class_ {
    explicit class_(const char*) {}
    class_& constructor() { return *this; }
    template <class R, class... A> class_& function(const char*, R (T::*)(A...)) { return *this; }
    template <class R, class... A> class_& function(const char*, R (T::*)(A...) const) { return *this; }
};
}
#define EMSCRIPTEN_BINDINGS(name) [[maybe_unused]] static void name##_bindings()
