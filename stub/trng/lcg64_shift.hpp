#ifndef VERIF_TRNG_LCG
#define VERIF_TRNG_LCG
#include "engine.hpp"
namespace trng { class lcg64_shift : public verif_engine { public: using verif_engine::verif_engine; }; }
#endif
