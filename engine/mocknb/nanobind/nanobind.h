// Minimal stand-in for nanobind used only to lower the glue code to LLVM IR
// (and to a plain shared object for counterexample replay) without CPython.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" void vnb_def(const char *name, void *fn);
namespace nanobind {
struct module_ {
    template <class F, class... X>
    module_ &def(const char *name, F *f, X...) {
        vnb_def(name, (void *)f);
        return *this;
    }
    template <class T>
    void attr(T) {}
};
struct arg { arg(const char *) {} };
inline arg operator""_a(const char *s, size_t) { return arg(s); }
}  // namespace nanobind
#define NB_MODULE(name, var)                                  \
    static void vnb_body_##name(nanobind::module_ &var);      \
    extern "C" void vnb_init_##name() {                       \
        nanobind::module_ m_;                                 \
        vnb_body_##name(m_);                                  \
    }                                                         \
    static void vnb_body_##name(nanobind::module_ &var)
