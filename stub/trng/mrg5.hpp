#ifndef VERIF_TRNG_MRG5
#define VERIF_TRNG_MRG5
#include "engine.hpp"
namespace trng { class mrg5 : public verif_engine { public: using verif_engine::verif_engine; }; }
#endif
