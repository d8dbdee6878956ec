#ifndef VERIF_TRNG_LOGNORMAL
#define VERIF_TRNG_LOGNORMAL
#include "engine.hpp"
namespace trng {
template <class F = double> class lognormal_dist {
    F mu_, sigma_;
  public:
    lognormal_dist(F mu, F sigma) : mu_(mu), sigma_(sigma) {}
    template <class R> F operator()(R &r) { return std::exp(mu_ + sigma_ * inv_normal(to_u01(r))); }
    void reset() {}
};
}
#endif
