#ifndef VERIF_TRNG_NORMAL
#define VERIF_TRNG_NORMAL
#include "engine.hpp"
namespace trng {
template <class F = double> class normal_dist {
    F mu_, sigma_;
  public:
    normal_dist(F mu, F sigma) : mu_(mu), sigma_(sigma) {}
    template <class R> F operator()(R &r) { return mu_ + sigma_ * inv_normal(to_u01(r)); }
    void reset() {}
};
}
#endif
