#include "vref.hpp"
extern "C" {
void* ref_new(uint32_t seed) { return new vref::Rng(seed); }
void* ref_clone(void* p) { return new vref::Rng(*(vref::Rng*)p); }
void ref_free(void* p) { delete (vref::Rng*)p; }
void ref_seed(void* p, uint32_t s) { ((vref::Rng*)p)->seed(s); }
uint32_t ref_u32(void* p) { return ((vref::Rng*)p)->u32(); }
void ref_norm(void* p, double* out, long n) { for (long i = 0; i < n; i++) out[i] = ((vref::Rng*)p)->norm(); }
uint64_t ref_fp(void* p) { return ((vref::Rng*)p)->fingerprint(); }
uint64_t ref_drawn(void* p) { return ((vref::Rng*)p)->drawn; }
}
