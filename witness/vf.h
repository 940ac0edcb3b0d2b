// Client-side vocabulary of the abstract interpreter. None of these functions has a body: the witness is never
// executed, it is only compiled to LLVM IR and interpreted abstractly.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int vf_nondet_int();
unsigned vf_nondet_uint();
long vf_nondet_long();
unsigned long vf_nondet_size();
unsigned char vf_nondet_u8();
char vf_nondet_char();
unsigned short vf_nondet_u16();
bool vf_nondet_bool();
double vf_nondet_double();
float vf_nondet_float();
bool vf_loop();                        // true/false arbitrarily; marks a most-general-client loop
int vf_choose(int n);                  // arbitrary in [0,n)
void vf_assume(bool);                  // restrict to states satisfying the condition
void vf_check(bool, const char* id);   // proof obligation
void vf_unreachable(const char* id);   // obligation: no state arrives here
void vf_reach(const char* id);         // note that the point is reachable (vacuity guard)
void vf_op(const char* label);         // label for traces
void vf_term(unsigned long v);          // relate loop variables to this value
void vf_key(int id, unsigned long v);  // partition loop states by this value
void vf_option(const char* name, int v);
void vf_leak_check();
char* vf_unknown_bytes(unsigned long n); // buffer of n unknown bytes
bool vf_alive(const void*);
bool vf_in_bounds(const void*, unsigned long);
void vf_trace_state();
}
int vf_errno_storage;

// Debug builds (VF_ASSERTIONS): only what is legal is done, and no assertion of the library may fail.
#ifdef VF_ASSERTIONS
#    include "spine/core/exception.hpp"
#    include <memory>
#    include <new>
inline void vf_legal(bool condition) { vf_assume(condition); }
namespace {
struct VfAssertions : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception& e) override {
        vf_check(dynamic_cast<const spn::assertion_exception*>(&e) == nullptr, "no assertion fails on legal use");
    }
    static void* operator new(size_t) {
        static char room[64];
        return room;
    }
    static void operator delete(void*) {}
};
struct VfInstall {
    VfInstall() { spn::core::set_machine_exception_handler(std::make_unique<VfAssertions>()); }
} vf_install;
} // namespace
#else
inline void vf_legal(bool) {}
#endif
