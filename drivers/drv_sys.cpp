// Drives SylinderSystem through its public interface as a script says, and records what it did.
// usage: mpirun -n N drv_sys SCRIPT     (see lib/scen.py for the script commands)
#include "Sylinder/SylinderSystem.hpp"
#include "Util/Logger.hpp"
#include "spdlog/sinks/ostream_sink.h"
#include "emit.hpp"
#include <fstream>
#include <map>
#include <sstream>
#include <unistd.h>
using namespace emit;

static std::string v3(const double *v) { return nums(v, 3); }

static std::string particles(SylinderSystem &s, bool dyn) {
    auto &c = s.getContainerNonConst();
    std::string o = "[";
    const int n = c.getNumberOfParticleLocal();
    for (int i = 0; i < n; i++) {
        auto &y = c[i];
        if (i) o += ",";
        o += "{\"id\":" + std::to_string(y.gid) + ",\"gi\":" + std::to_string(y.globalIndex) +
             ",\"rk\":" + std::to_string(y.rank) + ",\"grp\":" + std::to_string(y.group) +
             ",\"imm\":" + std::to_string(y.isImmovable ? 1 : 0) + ",\"r\":" + num(y.radius) + ",\"l\":" + num(y.length) +
             ",\"rc\":" + num(y.radiusCollision) + ",\"lc\":" + num(y.lengthCollision) + ",\"p\":" + v3(y.pos) +
             ",\"q\":" + nums(y.orientation, 4);
        if (dyn)
            o += ",\"v\":" + v3(y.vel) + ",\"w\":" + v3(y.omega) + ",\"vC\":" + v3(y.velCol) + ",\"wC\":" +
                 v3(y.omegaCol) + ",\"vB\":" + v3(y.velBi) + ",\"wB\":" + v3(y.omegaBi) + ",\"vN\":" + v3(y.velNonB) +
                 ",\"wN\":" + v3(y.omegaNonB) + ",\"vR\":" + v3(y.velBrown) + ",\"wR\":" + v3(y.omegaBrown) +
                 ",\"f\":" + v3(y.force) + ",\"t\":" + v3(y.torque) + ",\"fC\":" + v3(y.forceCol) + ",\"tC\":" +
                 v3(y.torqueCol) + ",\"fB\":" + v3(y.forceBi) + ",\"tB\":" + v3(y.torqueBi) + ",\"fN\":" +
                 v3(y.forceNonB) + ",\"tN\":" + v3(y.torqueNonB);
        o += "}";
    }
    return o + "]";
}
static std::string blocks(SylinderSystem &s) {
    std::string o = "[";
    bool first = true;
    for (auto &q : s.getConstraintPoolNonConst())
        for (auto &b : q) {
            if (!first) o += ",";
            first = false;
            o += "{\"d\":" + num(b.delta0) + ",\"g\":" + num(b.gamma) + ",\"lb\":" + num(b.gammaLB) + ",\"i\":" +
                 std::to_string(b.gidI) + ",\"j\":" + std::to_string(b.gidJ) + ",\"gi\":" + std::to_string(b.globalIndexI) +
                 ",\"gj\":" + std::to_string(b.globalIndexJ) + ",\"one\":" + std::to_string(b.oneSide ? 1 : 0) +
                 ",\"bi\":" + std::to_string(b.bilateral ? 1 : 0) + ",\"k\":" + num(b.kappa) + ",\"nI\":" + v3(b.normI) +
                 ",\"nJ\":" + v3(b.normJ) + ",\"pI\":" + v3(b.posI) + ",\"pJ\":" + v3(b.posJ) + ",\"lI\":" + v3(b.labI) +
                 ",\"lJ\":" + v3(b.labJ) + ",\"st\":" + nums(b.stress, 9) + "}";
        }
    return o + "]";
}
static std::string links(SylinderSystem &s) {
    std::string o = "{\"fw\":[";
    bool first = true;
    for (auto &kv : s.getLinkMap()) {
        o += std::string(first ? "" : ",") + "[" + std::to_string(kv.first) + "," + std::to_string(kv.second) + "]";
        first = false;
    }
    o += "],\"rv\":[";
    first = true;
    for (auto &kv : s.getLinkReverseMap()) {
        o += std::string(first ? "" : ",") + "[" + std::to_string(kv.first) + "," + std::to_string(kv.second) + "]";
        first = false;
    }
    return o + "]}";
}
static std::string counters(SylinderSystem &s) {
    return "\"step\":" + std::to_string(s.getStepCount()) + ",\"snap\":" + std::to_string(s.getSnapID());
}
// first few draws of this rank's random streams (peeked by restart checks only)
static std::string maps(SylinderSystem &s) {
    auto m = s.getMobMatrix()->getRowMap();
    return "{\"lo\":" + std::to_string(m->getNodeNumElements() ? m->getMinGlobalIndex() : -1) +
           ",\"n\":" + std::to_string((int)m->getNodeNumElements()) +
           ",\"tot\":" + std::to_string((int)m->getGlobalNumElements()) + "}";
}
static std::map<int, std::vector<double>> table(const std::string &f) {
    std::map<int, std::vector<double>> t;
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l)) {
        std::istringstream ss(l);
        int g;
        if (!(ss >> g)) continue;
        std::vector<double> v(6);
        for (auto &x : v) ss >> x;
        t[g] = v;
    }
    return t;
}
static std::vector<double> pick(SylinderSystem &s, const std::map<int, std::vector<double>> &t) {
    auto &c = s.getContainerNonConst();
    const int n = c.getNumberOfParticleLocal();
    std::vector<double> v(6 * n, 0);
    for (int i = 0; i < n; i++) {
        auto it = t.find(c[i].gid);
        if (it != t.end()) std::copy(it->second.begin(), it->second.end(), v.begin() + 6 * i);
    }
    return v;
}
static void emitTable(const char *op, const std::map<int, std::vector<double>> &t) {
    std::string o = std::string("{\"op\":\"") + op + "\",\"tab\":[";
    bool first = true;
    for (auto &kv : t) {
        o += std::string(first ? "" : ",") + "{\"id\":" + std::to_string(kv.first) + ",\"x\":" + nums(kv.second, 6) + "}";
        first = false;
    }
    line(o + "]}");
}

// what the program logs while f runs (rank 0), as JSON string content
template <class F> static std::string logged(F f) {
    std::ostringstream os;
    auto sink = std::make_shared<spdlog::sinks::ostream_sink_mt>(os);
    sink->set_pattern("%v");
    auto lg = spdlog::default_logger();
    auto lv = lg->level();
    if (rank() == 0) { lg->sinks().push_back(sink); lg->set_level(spdlog::level::info); }
    f();
    if (rank() == 0) { lg->sinks().pop_back(); lg->set_level(lv); }
    std::string o;
    for (char c : os.str()) o += c == '\n' ? std::string("\\n") : c == '"' || c == '\\' ? std::string(" ") : std::string(1, c);
    return o;
}

// the residual the constraint solver reports at its end
static std::string residual(const std::string &text) {
    const std::string key = "BCQP residue ";
    auto at = text.rfind(key);
    if (at == std::string::npos) return "nan";
    std::istringstream ss(text.substr(at + key.size()));
    std::string w;
    for (int i = 0; i < 5; i++) ss >> w;
    if (!w.empty() && w.back() == ',') w.pop_back();
    return w;
}

int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    Logger::setup_mpi_spdlog();
    {
        std::unique_ptr<SylinderSystem> sys;
        std::ifstream in(argv[1]);
        std::string l;
        while (std::getline(in, l)) {
            std::istringstream ss(l);
            std::string op, a, b, d;
            ss >> op;
            if (op.empty() || op[0] == '#') continue;
            if (op == "scn") {
                ss >> a;
                sys.reset();
                emit::close();
                MPI_Barrier(MPI_COMM_WORLD);
                if (chdir(a.c_str())) { perror(a.c_str()); MPI_Abort(MPI_COMM_WORLD, 3); }
                emit::open("trace.ndjson");
            } else if (op == "init" || op == "restart") {
                ss >> a >> b;
                sys.reset();
                if (op == "init") {
                    SylinderConfig cfg(a);
                    sys = std::make_unique<SylinderSystem>(cfg, b, argc, argv);
                } else {
                    int e = 1;
                    ss >> e;
                    SylinderConfig cfg(a);
                    sys = std::make_unique<SylinderSystem>();
                    sys->reinitialize(cfg, b, argc, argv, e != 0);
                }
                auto st = gather(particles(*sys, false));
                auto lk = gather(links(*sys));
                line("{\"op\":\"" + op + "\"," + counters(*sys) + ",\"st\":" + st + ",\"lk\":" + lk + "}");
            } else if (op == "prepare") {
                sys->prepareStep();
                auto st = gather(particles(*sys, false));
                auto mp = gather(maps(*sys));
                line("{\"op\":\"prepare\"," + counters(*sys) + ",\"st\":" + st + ",\"mp\":" + mp + "}");
            } else if (op == "setF") {
                ss >> a;
                auto t = table(a);
                sys->setForceNonBrown(pick(*sys, t));
                emitTable("setF", t);
            } else if (op == "setV") {
                ss >> a;
                auto t = table(a);
                sys->setVelocityNonBrown(pick(*sys, t));
                emitTable("setV", t);
            } else if (op == "run") {
                auto said = logged([&]() { sys->runStep(); });
                auto st = gather(particles(*sys, true));
                auto bl = gather(blocks(*sys));
                line("{\"op\":\"run\"," + counters(*sys) + ",\"res\":\"" + residual(said) + "\",\"st\":" + st + ",\"bl\":" + bl + "}");
            } else if (op == "noise") { // n steps; of each, what thermal motion every particle was given
                int n;
                ss >> n;
                for (; n > 0; n--) {
                    sys->prepareStep();
                    auto &c = sys->getContainerNonConst();
                    std::vector<std::string> head;
                    for (int i = 0; i < c.getNumberOfParticleLocal(); i++)
                        head.push_back("{\"id\":" + std::to_string(c[i].gid) + ",\"q\":" + nums(c[i].orientation, 4));
                    sys->runStep();
                    std::string o = "[";
                    for (int i = 0; i < c.getNumberOfParticleLocal(); i++)
                        o += (i ? "," : "") + head[i] + ",\"v\":" + v3(c[i].velBrown) + ",\"w\":" + v3(c[i].omegaBrown) + "}";
                    auto g = gather(o + "]");
                    line("{\"op\":\"noise\",\"st\":" + g + "}");
                }
            } else if (op == "add") {
                ss >> a;
                std::ifstream f(a);
                std::string q;
                std::vector<Sylinder> mine;
                std::string req = "[";
                while (std::getline(f, q)) {
                    std::istringstream qs(q);
                    int r, grp, imm; double rad, len, p[3], o[4];
                    if (!(qs >> r >> rad >> len >> p[0] >> p[1] >> p[2] >> o[0] >> o[1] >> o[2] >> o[3] >> grp >> imm)) continue;
                    if (r % size() != rank()) continue;
                    Sylinder y(-7, rad, rad, len, len, p, o);
                    y.clear();
                    y.group = grp; y.isImmovable = imm != 0;
                    mine.push_back(y);
                    req += std::string(mine.size() > 1 ? "," : "") + "{\"r\":" + num(rad) + ",\"l\":" + num(len) + ",\"p\":" +
                           nums(p, 3) + ",\"q\":" + nums(o, 4) + ",\"grp\":" + std::to_string(grp) + ",\"imm\":" +
                           std::to_string(imm) + "}";
                }
                auto ids = sys->addNewSylinder(mine);
                auto rq = gather(req + "]"), gi = gather(intv(ids)), st = gather(particles(*sys, false));
                line("{\"op\":\"add\"," + counters(*sys) + ",\"req\":" + rq + ",\"ids\":" + gi + ",\"st\":" + st + "}");
            } else if (op == "link") {
                ss >> a;
                std::ifstream f(a);
                std::vector<Link> mine;
                int r, p, n;
                std::string req = "[";
                while (f >> r >> p >> n)
                    if (r % size() == rank()) {
                        Link k; k.prev = p; k.next = n;
                        req += std::string(mine.size() ? "," : "") + "[" + std::to_string(p) + "," + std::to_string(n) + "]";
                        mine.push_back(k);
                    }
                sys->addNewLink(mine);
                auto rq = gather(req + "]"), lk = gather(links(*sys));
                line("{\"op\":\"link\",\"req\":" + rq + ",\"lk\":" + lk + "}");
            } else if (op == "links") {
                auto lk = gather(links(*sys));
                line("{\"op\":\"links\",\"lk\":" + lk + "}");
            } else if (op == "bbox") {
                double b4[4][3];
                sys->calcBoundingBox(b4[0], b4[1], b4[2], b4[3]);
                auto x = gather("{\"ll\":" + v3(b4[0]) + ",\"lh\":" + v3(b4[1]) + ",\"gl\":" + v3(b4[2]) + ",\"gh\":" + v3(b4[3]) + "}");
                line("{\"op\":\"bbox\",\"bb\":" + x + "}");
            } else if (op == "write") {
                sys->writeResult();
                line("{\"op\":\"write\"," + counters(*sys) + "}");
            } else if (op == "order" || op == "volume" || op == "stress") {
                auto was = sys->runConfig.logLevel;
                sys->runConfig.logLevel = spdlog::level::info;
                auto t = logged([&]() { op == "order" ? sys->calcOrderParameter() : op == "volume" ? sys->calcVolFrac() : sys->calcConStress(); });
                sys->runConfig.logLevel = was;
                auto bl = op == "stress" ? gather(blocks(*sys)) : std::string("[]");
                line("{\"op\":\"" + op + "\",\"text\":\"" + t + "\",\"bl\":" + bl + "}");
            } else if (op == "draw") { // a few random numbers of every stream
                std::string x = "[";
                for (int t = 0; t < omp_get_max_threads(); t++)
                    for (int k = 0; k < 2; k++) x += std::string(t + k ? "," : "") + num(sys->getRngPoolPtr()->getU01(t));
                auto g = gather(x + "]");
                line("{\"op\":\"draw\",\"u\":" + g + "}");
            } else if (op == "end") {
                line("{\"op\":\"end\"}");
                MPI_Barrier(MPI_COMM_WORLD);
            } else if (op == "die") { // the run stops here without any clean-up
                emit::close();
                MPI_Barrier(MPI_COMM_WORLD);
                sys.release();
                MPI_Finalize();
                _exit(0);
            } else {
                fprintf(stderr, "unknown command %s\n", op.c_str());
                MPI_Abort(MPI_COMM_WORLD, 3);
            }
        }
        emit::close();
    }
    MPI_Barrier(MPI_COMM_WORLD);
    MPI_Finalize();
    return 0;
}
