#ifndef VERIF_TRNG_U01
#define VERIF_TRNG_U01
#include "engine.hpp"
namespace trng {
template <class F = double> class uniform01_dist {
  public:
    template <class R> F operator()(R &r) { return to_u01(r); }
    void reset() {}
};
}
#endif
