// Mixed-pair interaction on cases read from a script.
//   open FILE | close
//   box BC lo(3) hi(3)             BC: three characters 0/1, periodic in x, y, z; starts a new interaction object
//   trg R n (gid r x y z)*         replaces the targets of rank R (src likewise)
//   move SEED                      every target and source moves by a pseudo-random step of its id
//   part                           decompose the domain (from all particles) and exchange both sets
//   swap                           rotate the local order of targets and sources
//   again                          compute once more without updating
//   go                             updateSystem, updateTree, computeForce
#include "MPI/MixPairInteraction.hpp"
#include "emit.hpp"
#include <algorithm>
#include <fstream>
#include <memory>
#include <sstream>
template <int K> struct Pt {
    int gid;
    double RSearch;
    double pos[3];
    double getRSearch() const { return RSearch; }
    const PS::F64vec3 getPos() const { return PS::F64vec3(pos[0], pos[1], pos[2]); }
    void setPos(const PS::F64vec3 &p) { pos[0] = p.x; pos[1] = p.y; pos[2] = p.z; }
    void copyFromFP(const Pt &o) { *this = o; }
};
using Trg = Pt<0>;
using Src = Pt<1>;
constexpr int CAP = 160;
struct Visited {
    int n = 0, tid = -1;
    int sid[CAP];
    double x[CAP][3], tp[3];
    void clear() { n = 0; tid = -1; }
};
struct Visit {
    void operator()(const MixEPI<Trg> *const t, const PS::S32 nt, const MixEPJ<Src> *const s, const PS::S32 ns, Visited *const f) {
        for (int i = 0; i < nt; i++) {
            if (!t[i].trgFlag) continue;
            auto &v = f[i];
            const auto p = t[i].getPos();
            v.tid = t[i].epTrg.gid;
            for (int k = 0; k < 3; k++) v.tp[k] = p[k];
            for (int j = 0; j < ns; j++) {
                if (!s[j].srcFlag) continue;
                const auto q = s[j].getPos();
                const double r2 = p.getDistanceSQ(q), m = std::max(t[i].getRSearch(), s[j].getRSearch());
                if (r2 < m * m) {
                    if (v.n < CAP) { v.sid[v.n] = s[j].epSrc.gid; for (int k = 0; k < 3; k++) v.x[v.n][k] = q[k]; }
                    v.n++;
                }
            }
        }
    }
};
template <class S> std::string list(const S &s) {
    std::string o = "[";
    for (int i = 0; i < s.getNumberOfParticleLocal(); i++)
        o += std::string(i ? "," : "") + "{\"id\":" + std::to_string(s[i].gid) + ",\"r\":" + emit::num(s[i].RSearch) + ",\"p\":" + emit::nums(s[i].pos, 3) + "}";
    return o + "]";
}
template <class S> void fill(S &s, std::istream &in, int me) {
    int r, n; in >> r >> n;
    if (r != me) return;
    s.setNumberOfParticleLocal(n);
    for (int i = 0; i < n; i++) in >> s[i].gid >> s[i].RSearch >> s[i].pos[0] >> s[i].pos[1] >> s[i].pos[2];
}
template <class S> void move(S &s, unsigned seed, double d) {
    for (int i = 0; i < s.getNumberOfParticleLocal(); i++)
        for (int k = 0; k < 3; k++) {
            unsigned h = (s[i].gid * 3 + k + 1) * 2654435761u ^ (seed * 40503u); h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
            s[i].pos[k] += d * (h / 4294967296.0 - 0.5);
        }
}
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    const int me = emit::rank();
    std::ifstream in(argv[1]);
    std::string l;
    {
        PS::Initialize(argc, argv);
        using Mix = MixPairInteraction<Trg, Src, Trg, Src, Visited>;
        std::unique_ptr<PS::ParticleSystem<Trg>> T;
        std::unique_ptr<PS::ParticleSystem<Src>> S;
        std::unique_ptr<PS::DomainInfo> D;
        std::unique_ptr<Mix> M;
        std::string head;
        double span = 1, box[6];
        while (std::getline(in, l)) {
            std::stringstream s(l);
            std::string c;
            s >> c;
            if (c == "open") { std::string f; s >> f; emit::open(f.c_str()); }
            else if (c == "close") emit::close();
            else if (c == "box") {
                std::string bc; double *b = box; s >> bc; for (int k = 0; k < 6; k++) s >> b[k];
                T.reset(new PS::ParticleSystem<Trg>); S.reset(new PS::ParticleSystem<Src>); D.reset(new PS::DomainInfo); M.reset(new Mix);
                T->initialize(); S->initialize(); D->initialize(); M->initialize();
                T->setNumberOfParticleLocal(0); S->setNumberOfParticleLocal(0);
                const int k = (bc[0] == '1') + 2 * (bc[1] == '1') + 4 * (bc[2] == '1');
                const PS::BOUNDARY_CONDITION t[8] = {PS::BOUNDARY_CONDITION_OPEN, PS::BOUNDARY_CONDITION_PERIODIC_X, PS::BOUNDARY_CONDITION_PERIODIC_Y, PS::BOUNDARY_CONDITION_PERIODIC_XY,
                    PS::BOUNDARY_CONDITION_PERIODIC_Z, PS::BOUNDARY_CONDITION_PERIODIC_XZ, PS::BOUNDARY_CONDITION_PERIODIC_YZ, PS::BOUNDARY_CONDITION_PERIODIC_XYZ};
                D->setBoundaryCondition(t[k]);
                D->setPosRootDomain(PS::F64vec3(b[0], b[1], b[2]), PS::F64vec3(b[3], b[4], b[5]));
                span = std::min({b[3] - b[0], b[4] - b[1], b[5] - b[2]});
                head = "\"per\":[" + std::to_string(k & 1) + "," + std::to_string(k >> 1 & 1) + "," + std::to_string(k >> 2) + "],\"lo\":" + emit::nums(b, 3) + ",\"hi\":" + emit::nums(b + 3, 3);
            }
            else if (c == "trg") fill(*T, s, me);
            else if (c == "src") fill(*S, s, me);
            else if (c == "move") { unsigned d; s >> d; move(*T, d, 0.4 * span); move(*S, d + 77, 0.4 * span); }
            else if (c == "part") {
                T->adjustPositionIntoRootDomain(*D); S->adjustPositionIntoRootDomain(*D);
                PS::ParticleSystem<Src> H; // all particles, and one per rank more
                H.initialize();
                const int a = T->getNumberOfParticleLocal(), b = S->getNumberOfParticleLocal();
                H.setNumberOfParticleLocal(a + b + 1);
                for (int i = 0; i < a; i++) for (int k = 0; k < 3; k++) H[i].pos[k] = (*T)[i].pos[k];
                for (int i = 0; i < b; i++) for (int k = 0; k < 3; k++) H[a + i].pos[k] = (*S)[i].pos[k];
                for (int k = 0; k < 3; k++) H[a + b].pos[k] = box[k] + (box[3 + k] - box[k]) * (me + 0.5) / emit::size();
                D->decomposeDomainAll(H);
                T->exchangeParticle(*D); S->exchangeParticle(*D);
            }
            else if (c == "swap") {
                const int a = T->getNumberOfParticleLocal(), b = S->getNumberOfParticleLocal();
                if (a) std::rotate(&(*T)[0], &(*T)[0] + a / 2, &(*T)[0] + a);
                if (b) std::rotate(&(*S)[0], &(*S)[0] + b / 3, &(*S)[0] + b);
            }
            else if (c == "go" || c == "again") {
                if (c == "go") {
                    const std::string t = emit::gather(list(*T)), u = emit::gather(list(*S));
                    M->updateSystem(*T, *S, *D); M->updateTree();
                    emit::line("{\"op\":\"update\"," + head + ",\"trg\":" + t + ",\"src\":" + u + "}");
                }
                Visit f;
                M->computeForce(f, *D);
                const auto &res = M->getForceResult();
                std::string o = "[";
                for (size_t i = 0; i < res.size(); i++) {
                    o += std::string(i ? "," : "") + "{\"n\":" + std::to_string(res[i].n) + ",\"t\":" + std::to_string(res[i].tid) + ",\"v\":[";
                    for (int j = 0; j < std::min(res[i].n, CAP); j++) o += std::string(j ? "," : "") + "{\"s\":" + std::to_string(res[i].sid[j]) + ",\"d\":[" +
                        emit::num(res[i].x[j][0] - res[i].tp[0]) + "," + emit::num(res[i].x[j][1] - res[i].tp[1]) + "," + emit::num(res[i].x[j][2] - res[i].tp[2]) + "]}";
                    o += "]}";
                }
                const std::string r = emit::gather(o + "]");
                emit::line("{\"op\":\"force\",\"res\":" + r + "}");
            }
        }
        M.reset(); D.reset(); S.reset(); T.reset();
        PS::Finalize();
    }
    MPI_Finalize();
}
