// Vocabulary of the analysis drivers. None of these functions has a body: the
// abstract interpreter gives them their meaning (engine/vp/models.py).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int vp_int(const char*);
int vp_nat(const char*);
unsigned vp_u32(const char*);
std::size_t vp_size(const char*);
double vp_real(const char*);
unsigned char vp_u8(const char*);
bool vp_bool(const char*);
void* vp_ptr(const char*);
void* vp_nodeptr(const char*);
void vp_assume(bool);
void vp_assert(bool, const char*);
void vp_reach(const char*);     // coverage: the analysis must get here (else: no answer)
void vp_must(const char*);      // obligation: some abstract path gets here (else: violation)
void vp_stop();
void vp_fail(const char*);
void vp_opaque(const char*);   // qualified function name: its calls only change *this, arbitrarily
void vp_replace(const char*, const char*);  // calls of the qualified name go to the extern "C" driver function
void vp_merge(const char*);    // join the paths through calls of the qualified name
void vp_note(const char*, ...);
void vp_havoc(void*, std::size_t);
void vp_bounds(int);
void vp_uninit(int);
bool vp_assigned(const void*, std::size_t);
void vp_unroll(int, int);
void vp_print(const char*, ...);
int vp_live_heap();
}
#define VP_DRIVER extern "C" void
