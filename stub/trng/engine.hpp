// Stand-in for the TRNG library (not installed here).  It keeps the part of TRNG's contract
// that SimToolbox relies on:
//   - an engine is a deterministic sequence fixed by its seed;
//   - split(n, i) leaves the engine on the i-th of n leapfrog sub-sequences
//     (elements i, i+n, i+2n, ... of the sequence it was on).
// The engine is counter based, so that element k of the sequence of a seed is a pure
// function raw(seed, k): a driver can recover the stream position behind a drawn number.
#ifndef VERIF_TRNG_ENGINE_HPP_
#define VERIF_TRNG_ENGINE_HPP_
#include <cmath>
#include <cstdint>
#include <limits>
#include <stdexcept>
#include <vector>
namespace trng {
class verif_engine {
  public:
    typedef uint64_t result_type;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return (uint64_t(1) << 53) - 1; }
    verif_engine() = default;
    explicit verif_engine(unsigned long s) : seed_(s) {}
    void seed() { seed_ = 0; pos_ = 0; stride_ = 1; }
    void seed(unsigned long s) { seed_ = s; pos_ = 0; stride_ = 1; }
    void split(unsigned int n, unsigned int i) {
        if (n < 1 || i >= n)
            throw std::invalid_argument("trng::split invalid argument");
        pos_ += stride_ * i;
        stride_ *= n;
    }
    void jump(unsigned long long s) { pos_ += stride_ * s; }
    void discard(unsigned long long s) { pos_ += stride_ * s; }
    static uint64_t mix(uint64_t z) {
        z += 0x9E3779B97F4A7C15ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    static uint64_t raw(uint64_t seed, uint64_t pos) { return mix(mix(seed * 2 + 1) ^ mix(pos + 0x1234567)) >> 11; }
    result_type operator()() {
        const result_type r = raw(seed_, pos_);
        if (log())
            log()->push_back({seed_, pos_, r});
        pos_ += stride_;
        return r;
    }
    uint64_t position() const { return pos_; }
    struct drawn { uint64_t seed, pos, value; };
    static std::vector<drawn> *&log() { // where the calling thread's draws are noted, if anywhere
        static thread_local std::vector<drawn> *l = nullptr;
        return l;
    }
    bool operator==(const verif_engine &o) const { return seed_ == o.seed_ && pos_ == o.pos_ && stride_ == o.stride_; }

  private:
    uint64_t seed_ = 0, pos_ = 0, stride_ = 1;
};
template <class R>
inline double to_u01(R &r) { // [0,1)
    return double(r()) / double(uint64_t(1) << 53);
}
inline double inv_normal(double p) {
    // Acklam's rational approximation, refined by one Halley step
    static const double a[] = {-3.969683028665376e+01, 2.209460984245205e+02, -2.759285104469687e+02,
                               1.383577518672690e+02,  -3.066479806614716e+01, 2.506628277459239e+00};
    static const double b[] = {-5.447609879822406e+01, 1.615858368580409e+02, -1.556989798598866e+02,
                               6.680131188771972e+01, -1.328068155288572e+01};
    static const double c[] = {-7.784894002430293e-03, -3.223964580411365e-01, -2.400758277161838e+00,
                               -2.549732539343734e+00, 4.374664141464968e+00, 2.938163982698783e+00};
    static const double d[] = {7.784695709041462e-03, 3.224671290700398e-01, 2.445134137142996e+00,
                               3.754408661907416e+00};
    if (p <= 0)
        p = 5.6e-17;
    double x;
    if (p < 0.02425) {
        double q = std::sqrt(-2 * std::log(p));
        x = (((((c[0] * q + c[1]) * q + c[2]) * q + c[3]) * q + c[4]) * q + c[5]) /
            ((((d[0] * q + d[1]) * q + d[2]) * q + d[3]) * q + 1);
    } else if (p <= 1 - 0.02425) {
        double q = p - 0.5, r = q * q;
        x = (((((a[0] * r + a[1]) * r + a[2]) * r + a[3]) * r + a[4]) * r + a[5]) * q /
            (((((b[0] * r + b[1]) * r + b[2]) * r + b[3]) * r + b[4]) * r + 1);
    } else {
        double q = std::sqrt(-2 * std::log(1 - p));
        x = -(((((c[0] * q + c[1]) * q + c[2]) * q + c[3]) * q + c[4]) * q + c[5]) /
            ((((d[0] * q + d[1]) * q + d[2]) * q + d[3]) * q + 1);
    }
    return x;
}
} // namespace trng
#endif
