// Random number pools on cases read from a script.
//   open FILE | close
//   pool P SEED THREADS           a pool of this seed with this many threads per rank
//   logn P MU SIGMA               setLogNormalParameters
//   seq P R n (thread kind)*      rank R draws one after the other, naming the thread (kind u|n|l)
//   par P n k*                    on every rank, each thread t draws k[t mod n] numbers concurrently, not naming itself
//   go P                          the draws since the last go, of all ranks
//   drop P
#include "Util/TRngPool.hpp"
#include "emit.hpp"
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
struct Pool { std::unique_ptr<TRngPool> p; int threads; };
static std::map<int, Pool> pools;
static std::string pending;
static std::string one(int t, char kind, double v, const std::vector<trng::verif_engine::drawn> &d) {
    std::string pos = "[", u = "\"nan\"", z = u;
    long seed = -1;
    for (auto &x : d) {
        pos += (pos.size() > 1 ? "," : "") + std::to_string(x.pos);
        seed = (long)x.seed;
        double w = double(x.value) / double(uint64_t(1) << 53);
        u = emit::num(w); z = emit::num(trng::inv_normal(w));
    }
    return "{\"t\":" + std::to_string(t) + ",\"k\":\"" + kind + "\",\"v\":" + emit::num(v) + ",\"pos\":" + pos + "],\"seed\":" + std::to_string(seed) + ",\"u\":" + u + ",\"z\":" + z + "}";
}
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    const int me = emit::rank();
    omp_set_dynamic(0);
    std::ifstream in(argv[1]);
    std::string l;
    while (std::getline(in, l)) {
        std::stringstream s(l);
        std::string c;
        int P;
        s >> c;
        if (c == "open") { std::string f; s >> f; emit::open(f.c_str()); continue; }
        if (c == "close") { emit::close(); continue; }
        s >> P;
        if (c == "pool") {
            int seed, th; s >> seed >> th;
            omp_set_num_threads(th);
            pools[P].threads = th;
            pools[P].p.reset(new TRngPool(seed));
            emit::line("{\"op\":\"pool\",\"p\":" + std::to_string(P) + ",\"seed\":" + std::to_string(seed) + ",\"threads\":" + std::to_string(th) + ",\"ranks\":" + std::to_string(emit::size()) + "}");
        } else if (c == "logn") {
            double mu, si; s >> mu >> si;
            pools[P].p->setLogNormalParameters(mu, si);
            emit::line("{\"op\":\"logn\",\"p\":" + std::to_string(P) + ",\"mu\":" + emit::num(mu) + ",\"sigma\":" + emit::num(si) + "}");
        } else if (c == "seq") {
            int r, n; s >> r >> n;
            for (int i = 0; i < n; i++) {
                int t; char k; s >> t >> k;
                if (r != me) continue;
                std::vector<trng::verif_engine::drawn> d;
                trng::verif_engine::log() = &d;
                auto &p = *pools[P].p;
                double v = k == 'u' ? p.getU01(t) : k == 'n' ? p.getN01(t) : p.getLN(t);
                trng::verif_engine::log() = nullptr;
                pending += (pending.empty() ? "" : ",") + one(t, k, v, d);
            }
        } else if (c == "par") {
            int n; s >> n;
            std::vector<int> k(n);
            for (int &x : k) s >> x;
            const int th = pools[P].threads;
            std::vector<std::string> out(th);
#pragma omp parallel num_threads(th)
            {
                const int t = omp_get_thread_num();
                auto &p = *pools[P].p;
                for (int i = 0; i < k[t % n]; i++) {
                    const char kind = "unl"[(i + t) % 3];
                    std::vector<trng::verif_engine::drawn> d;
                    trng::verif_engine::log() = &d;
                    double v = kind == 'u' ? p.getU01() : kind == 'n' ? p.getN01() : p.getLN();
                    trng::verif_engine::log() = nullptr;
                    out[t] += (out[t].empty() ? "" : ",") + one(t, kind, v, d);
                }
            }
            for (auto &o : out) if (!o.empty()) pending += (pending.empty() ? "" : ",") + o;
        } else if (c == "go") {
            std::string a = emit::gather("[" + pending + "]");
            emit::line("{\"op\":\"draw\",\"p\":" + std::to_string(P) + ",\"by\":" + a + "}");
            pending.clear();
        } else if (c == "drop") {
            pools.erase(P);
            emit::line("{\"op\":\"drop\",\"p\":" + std::to_string(P) + "}");
        }
    }
    MPI_Finalize();
    return 0;
}
