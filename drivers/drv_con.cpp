// Constraint assembly, operator, forces, stress, solution and output, and bounded quadratic problems, from a script.
//   open FILE | close
//   con R n_1..n_R q_1..q_R nb (block)*    particles and queues of each rank, then the blocks in the order they are collected:
//        rank queue I J oneSide bilateral kappa delta0 gamma nI(3) nJ(3) pI(3) pJ(3) stress(9) labI(3) labJ(3)
//   build                                  buildConstraintMatrixVector
//   trans v(6N) | force x(nb, in row order) | oper alpha beta mob(6N) x(nb) y(nb)
//   stress side | back x(nb) | write DIR prefix postfix
//   solve method tol maxIte dt mob(6N) v(6N)
//   qp method tol maxIte R n_1..n_R A(N*N) b(N) lb(N) ub(N) x0(N)     bounds inf/-inf: not set
#include "Constraint/ConstraintSolver.hpp"
#include "emit.hpp"
#include "Util/Logger.hpp"
#include "spdlog/sinks/ostream_sink.h"
#include <cstring>
#include <fstream>
#include <iostream>
#include <functional>
#include <set>
#include <sstream>
static double rd(std::istream &s) { std::string w; s >> w; return strtod(w.c_str(), nullptr); }
static std::vector<double> rds(std::istream &s, int n) { std::vector<double> v(n); for (auto &x : v) x = rd(s); return v; }
static std::string q(const std::string &s) { return "\"" + s + "\""; }
static int R, me;
static std::vector<int> part, ques, pbase; // particles and queues per rank, first particle of each rank
static std::vector<ConstraintBlock> blocks;
static std::vector<std::pair<int, int>> where; // rank, queue of each block
static std::vector<int> rowbase, rowcnt;
static std::unique_ptr<ConstraintCollector> col;
static Teuchos::RCP<const TCOMM> comm;
static Teuchos::RCP<const TMAP> mobMap;
static Teuchos::RCP<TCMAT> DT;
static Teuchos::RCP<TV> delta0, invKappa, biFlag, guess;
static Teuchos::RCP<TV> vec(const Teuchos::RCP<const TMAP> &m, const double *v) {
    Teuchos::RCP<TV> x = Teuchos::rcp(new TV(m, true));
    auto p = x->getLocalView<Kokkos::HostSpace>();
    x->modify<Kokkos::HostSpace>();
    for (int i = 0; i < (int)m->getNodeNumElements(); i++) p(i, 0) = v[i];
    return x;
}
template <class RV> std::string all(const RV &x) { // [rank][value]
    auto p = x->template getLocalView<Kokkos::HostSpace>();
    std::vector<double> v;
    for (int i = 0; i < (int)x->getMap()->getNodeNumElements(); i++) v.push_back(p(i, 0));
    return emit::gather(emit::numv(v));
}
// a sparse operator with the rows [first, first+n) of a dense matrix
static Teuchos::RCP<TCMAT> matrix(const Teuchos::RCP<const TMAP> &m, int N, int first, const std::function<double(int, int)> &A) {
    const int n = m->getNodeNumElements();
    Kokkos::View<size_t *> rp("rp", n + 1);
    std::vector<int> ci; std::vector<double> va;
    std::set<int> used;
    rp[0] = 0;
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < N; j++) { double a = A(first + i, j); if (a != 0) { ci.push_back(j); va.push_back(a); used.insert(j); } }
        rp[i + 1] = ci.size();
    }
    std::vector<int> cols(used.begin(), used.end());
    Teuchos::RCP<TMAP> cm = Teuchos::rcp(new TMAP(Teuchos::OrdinalTraits<int>::invalid(), cols.data(), cols.size(), 0, comm));
    Kokkos::View<int *> c("c", ci.size()); Kokkos::View<double *> v("v", va.size());
    for (size_t k = 0; k < ci.size(); k++) { c[k] = cm->getLocalElement(ci[k]); v[k] = va[k]; }
    Teuchos::RCP<TCMAT> M = Teuchos::rcp(new TCMAT(m, cm, rp, c, v));
    M->fillComplete(m, m);
    return M;
}
static std::string blockText(const ConstraintBlock &b) {
    return "{\"I\":" + std::to_string(b.globalIndexI) + ",\"J\":" + std::to_string(b.globalIndexJ) + ",\"one\":" + std::to_string((int)b.oneSide) + ",\"bi\":" +
           std::to_string((int)b.bilateral) + ",\"k\":" + emit::num(b.kappa) + ",\"d\":" + emit::num(b.delta0) + ",\"g\":" + emit::num(b.gamma) + ",\"nI\":" +
           emit::nums(b.normI, 3) + ",\"nJ\":" + emit::nums(b.normJ, 3) + ",\"pI\":" + emit::nums(b.posI, 3) + ",\"pJ\":" + emit::nums(b.posJ, 3) + ",\"s\":" + emit::nums(b.stress, 9) + "}";
}
static std::string poolText() { // [rank][queue][block]
    std::string s = "[";
    const auto &P = *col->constraintPoolPtr;
    for (size_t i = 0; i < P.size(); i++) {
        s += i ? ",[" : "[";
        for (size_t j = 0; j < P[i].size(); j++) s += (j ? "," : "") + blockText(P[i][j]);
        s += "]";
    }
    return emit::gather(s + "]");
}
static std::string back(ConstraintCollector &c) { // solved magnitude and stress of each block
    std::string s = "[";
    const auto &P = *c.constraintPoolPtr;
    for (size_t i = 0; i < P.size(); i++) {
        s += i ? ",[" : "[";
        for (size_t j = 0; j < P[i].size(); j++) s += std::string(j ? "," : "") + "{\"g\":" + emit::num(P[i][j].gamma) + ",\"s\":" + emit::nums(P[i][j].stress, 9) + "}";
        s += "]";
    }
    return emit::gather(s + "]");
}
static int total() { int n = 0; for (int x : part) n += x; return n; }
static std::string bytes(const void *p, size_t n) {
    std::string s = "[";
    for (size_t i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(((const unsigned char *)p)[i]);
    return s + "]";
}
static std::string want;
template <class T> void need(const char *sec, const char *name, const char *type, int comp, const std::vector<T> &v) {
    want += std::string(want.empty() ? "" : ",") + "{\"sec\":" + q(sec) + ",\"name\":" + q(name) + ",\"type\":" + q(type) + ",\"comp\":" +
            std::to_string(comp) + ",\"bytes\":" + bytes(v.data(), v.size() * sizeof(T)) + "}";
}
static std::string history(const IteHistory &h) {
    std::string s = "[";
    size_t k = 0;
    for (auto &p : h) { // all of a short history, the ends of a long one
        if (k < 20 || k + 20 >= h.size()) s += std::string(s.size() > 1 ? "," : "") + "{\"at\":" + std::to_string(k) + ",\"ite\":" + emit::num(p[0]) + ",\"res\":" + emit::num(p[4]) + "}";
        k++;
    }
    return s + "]";
}
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    Logger::setup_mpi_spdlog();
    spdlog::set_level(spdlog::level::off);
    {
    comm = getMPIWORLDTCOMM();
    me = emit::rank();
    std::ifstream in(argv[1]);
    std::string l;
    while (std::getline(in, l)) {
        std::stringstream s(l);
        std::string c;
        s >> c;
        if (c == "open") { std::string f; s >> f; emit::open(f.c_str()); }
        else if (c == "close") emit::close();
        else if (c == "con") {
            int nb;
            s >> R;
            part.assign(R, 0); ques.assign(R, 0);
            for (int &x : part) s >> x;
            for (int &x : ques) s >> x;
            s >> nb;
            blocks.clear(); where.clear();
            col.reset(new ConstraintCollector());
            col->constraintPoolPtr->clear();
            col->constraintPoolPtr->resize(ques[me]);
            rowcnt.assign(R, 0);
            for (int k = 0; k < nb; k++) {
                int r, qu, I, J, one, bi;
                s >> r >> qu >> I >> J >> one >> bi;
                double kap = rd(s), d = rd(s), g = rd(s);
                auto nI = rds(s, 3), nJ = rds(s, 3), pI = rds(s, 3), pJ = rds(s, 3), st = rds(s, 9), lI = rds(s, 3), lJ = rds(s, 3);
                ConstraintBlock b(d, g, 100 + I, 100 + J, I, J, nI.data(), nJ.data(), pI.data(), pJ.data(), lI.data(), lJ.data(), one, bi, kap, 0);
                b.setStress(st.data());
                rowcnt[r]++;
                if (r == me) (*col->constraintPoolPtr)[qu].push_back(b);
            }
            rowbase.assign(R + 1, 0);
            for (int r = 0; r < R; r++) rowbase[r + 1] = rowbase[r] + rowcnt[r];
            pbase.assign(R + 1, 0);
            for (int r = 0; r < R; r++) pbase[r + 1] = pbase[r] + part[r];
            mobMap = getTMAPFromLocalSize(6 * part[me], comm);
            std::string n = std::to_string(col->getLocalNumberOfConstraints());
            std::string num = emit::gather(n), pool = poolText();
            emit::line("{\"op\":\"con\",\"n\":" + emit::intv(part) + ",\"pool\":" + pool + ",\"num\":" + num + "}");
        } else if (c == "build") {
            col->buildConstraintMatrixVector(mobMap, DT, delta0, invKappa, biFlag, guess);
            std::string rows = "[";
            const auto rm = DT->getRowMap();
            for (int i = 0; i < (int)rm->getNodeNumElements(); i++) {
                const int g = rm->getGlobalElement(i);
                size_t len = DT->getNumEntriesInGlobalRow(g), got = 0;
                Teuchos::Array<int> ci(len); Teuchos::Array<double> va(len);
                DT->getGlobalRowCopy(g, ci(), va(), got);
                rows += std::string(i ? "," : "") + "{\"row\":" + std::to_string(g) + ",\"c\":" + emit::intv(ci) + ",\"v\":" + emit::numv(va) + "}";
            }
            rows = emit::gather(rows + "]");
            std::string a = all(delta0), b = all(invKappa), f = all(biFlag), g = all(guess);
            emit::line("{\"op\":\"build\",\"rows\":" + rows + ",\"d\":" + a + ",\"ik\":" + b + ",\"bi\":" + f + ",\"g\":" + g + "}");
        } else if (c == "trans") {
            auto v = rds(s, 6 * total());
            auto V = vec(mobMap, v.data() + 6 * pbase[me]);
            Teuchos::RCP<TV> out = Teuchos::rcp(new TV(delta0->getMap(), true));
            DT->apply(*V, *out);
            std::string i = all(V), o = all(out);
            emit::line("{\"op\":\"trans\",\"v\":" + i + ",\"out\":" + o + "}");
        } else if (c == "force" || c == "oper") {
            double al = 1, be = 0;
            std::vector<double> mob(6 * total(), 1.0);
            if (c == "oper") { al = rd(s); be = rd(s); mob = rds(s, 6 * total()); }
            auto x = rds(s, rowbase[R]);
            auto X = vec(delta0->getMap(), x.data() + rowbase[me]);
            Teuchos::RCP<TOP> M = matrix(mobMap, 6 * total(), 6 * pbase[me], [&](int i, int j) { return i == j ? mob[i] : 0.0; });
            ConstraintOperator op(M, DT, invKappa);
            if (c == "force") {
                Teuchos::RCP<TV> F = Teuchos::rcp(new TV(mobMap, true));
                op.getDMat()->apply(*X, *F);
                std::string i = all(X), o = all(F);
                emit::line("{\"op\":\"force\",\"x\":" + i + ",\"out\":" + o + "}");
            } else {
                auto y = rds(s, rowbase[R]);
                auto Y = vec(delta0->getMap(), y.data() + rowbase[me]);
                std::string i = all(X), y0 = all(Y), m = all(vec(mobMap, mob.data() + 6 * pbase[me]));
                if (al == 1 && be == 0) op.apply(*X, *Y); else op.apply(*X, *Y, Teuchos::NO_TRANS, al, be);
                std::string o = all(Y), F = all(op.getForce()), V = all(op.getVel());
                emit::line("{\"op\":\"oper\",\"a\":" + emit::num(al) + ",\"b\":" + emit::num(be) + ",\"mob\":" + m + ",\"x\":" + i + ",\"y\":" + y0 + ",\"out\":" + o + ",\"f\":" + F + ",\"v\":" + V + "}");
            }
        } else if (c == "stress") {
            int side; s >> side;
            Emat3 u, b;
            u.setConstant(7e7); b.setConstant(7e7);
            col->sumLocalConstraintStress(u, b, side);
            double U[9], B[9];
            for (int i = 0; i < 9; i++) { U[i] = u(i / 3, i % 3); B[i] = b(i / 3, i % 3); }
            std::string x = emit::gather(emit::nums(U, 9)), y = emit::gather(emit::nums(B, 9));
            emit::line("{\"op\":\"stress\",\"side\":" + std::to_string(side) + ",\"uni\":" + x + ",\"bi\":" + y + "}");
        } else if (c == "back") {
            auto x = rds(s, rowbase[R]);
            auto X = vec(delta0->getMap(), x.data() + rowbase[me]);
            std::string i = all(X);
            col->writeBackGamma(X.getConst());
            std::string b = back(*col);
            emit::line("{\"op\":\"back\",\"x\":" + i + ",\"res\":" + b + "}");
        } else if (c == "solve") {
            int method, maxi; s >> method; double tol = rd(s); s >> maxi; double dt = rd(s);
            auto mob = rds(s, 6 * total()), v = rds(s, 6 * total());
            Teuchos::RCP<TOP> M = matrix(mobMap, 6 * total(), 6 * pbase[me], [&](int i, int j) { return i == j ? mob[i] : 0.0; });
            auto V = vec(mobMap, v.data() + 6 * pbase[me]);
            ConstraintSolver solver;
            solver.setup(*col, M, V, dt);
            solver.setControlParams(tol, maxi, method);
            std::ostringstream log; // the residual the program reports (rank 0)
            auto old = spdlog::default_logger();
            auto lg = std::make_shared<spdlog::logger>("x", std::make_shared<spdlog::sinks::ostream_sink_st>(log));
            lg->set_pattern("%v"); lg->set_level(spdlog::level::info);
            spdlog::set_default_logger(lg);
            solver.solveConstraints();
            spdlog::set_default_logger(old);
            double rep[6] = {0, 0, 0, 0, 7e77, 0};
            const std::string txt = log.str();
            size_t at = txt.rfind("BCQP residue ");
            if (at != std::string::npos) sscanf(txt.c_str() + at, "BCQP residue %lf, %lf, %lf, %lf, %lf, %lf", rep, rep + 1, rep + 2, rep + 3, rep + 4, rep + 5);
            solver.writebackGamma();
            std::string m = all(vec(mobMap, mob.data() + 6 * pbase[me])), nc = all(V), fu = all(solver.getForceUni()), fb = all(solver.getForceBi()),
                        vu = all(solver.getVelocityUni()), vb = all(solver.getVelocityBi()), b = back(*col);
            emit::line("{\"op\":\"solve\",\"method\":" + std::to_string(method) + ",\"tol\":" + emit::num(tol) + ",\"max\":" + std::to_string(maxi) + ",\"dt\":" + emit::num(dt) + ",\"log\":" + emit::num(rep[4]) +
                       ",\"mob\":" + m + ",\"v\":" + nc + ",\"fu\":" + fu + ",\"fb\":" + fb + ",\"vu\":" + vu + ",\"vb\":" + vb + ",\"res\":" + b + "}");
        } else if (c == "write") {
            std::string d, pre, post; s >> d >> pre >> post;
            if (pre == "-") pre = "";
            col->writeVTP(d + "/", pre, post, me);
            if (me == 0) col->writePVTP(d + "/", pre, post, R);
            for (int r = 0; r < R; r++) {
                std::vector<int> gid, gi, one, bi; std::vector<float> pij, nij, de, ga, ka, st; std::vector<double> pos;
                std::vector<int> con, off;
                if (r == me) {
                    for (auto &Q : *col->constraintPoolPtr) for (auto &b : Q) {
                        for (int x : {b.gidI, b.gidJ}) gid.push_back(x);
                        for (int x : {b.globalIndexI, b.globalIndexJ}) gi.push_back(x);
                        for (int k = 0; k < 3; k++) { pos.push_back(b.labI[k]); pij.push_back(b.posI[k]); nij.push_back(b.normI[k]); }
                        for (int k = 0; k < 3; k++) { pos.push_back(b.labJ[k]); pij.push_back(b.posJ[k]); nij.push_back(b.normJ[k]); }
                        for (int k = 0; k < 9; k++) st.push_back(b.stress[k]);
                        one.push_back(b.oneSide); bi.push_back(b.bilateral);
                        de.push_back(b.delta0); ga.push_back(b.gamma); ka.push_back(b.kappa);
                        con.push_back(con.size()); con.push_back(con.size()); off.push_back(con.size());
                    }
                }
                want.clear();
                need("Points", "position", "Float64", 3, pos);
                need("Lines", "connectivity", "Int32", 1, con); need("Lines", "offsets", "Int32", 1, off);
                need("PointData", "gid", "Int32", 1, gid); need("PointData", "globalIndex", "Int32", 1, gi);
                need("PointData", "posIJ", "Float32", 3, pij); need("PointData", "normIJ", "Float32", 3, nij);
                need("CellData", "oneSide", "Int32", 1, one); need("CellData", "bilateral", "Int32", 1, bi);
                need("CellData", "delta0", "Float32", 1, de); need("CellData", "gamma", "Float32", 1, ga); need("CellData", "kappa", "Float32", 1, ka);
                need("CellData", "Stress", "Float32", 9, st);
                std::string mine = "{\"op\":\"piece\",\"ranks\":" + std::to_string(R) + ",\"lines\":" + std::to_string(off.size()) + ",\"stem\":" + q(pre + "ConBlock_") + ",\"post\":" + q(post) + ",\"vtp\":" + q(d + "/" + pre + "ConBlock_r" + std::to_string(r) + "_" + post + ".vtp") +
                                   ",\"pvtp\":" + q(d + "/" + pre + "ConBlock_" + post + ".pvtp") + ",\"want\":[" + want + "]}";
                std::string g = emit::gather(r == me ? mine : ""); // only one is not empty
                if (me == 0) {
                    size_t a = g.find('{'), z = g.rfind('}');
                    emit::line(g.substr(a, z - a + 1));
                }
            }
        } else if (c == "qp") {
            int method, maxi; s >> method; double tol = rd(s); s >> maxi >> R;
            std::vector<int> n(R), base(R + 1, 0);
            for (int &x : n) s >> x;
            for (int r = 0; r < R; r++) base[r + 1] = base[r] + n[r];
            const int N = base[R];
            auto A = rds(s, N * N), b = rds(s, N), lb = rds(s, N), ub = rds(s, N), x0 = rds(s, N);
            auto map = getTMAPFromLocalSize(n[me], comm);
            Teuchos::RCP<TOP> M = matrix(map, N, base[me], [&](int i, int j) { return A[i * N + j]; });
            auto B = vec(map, b.data() + base[me]), X = vec(map, x0.data() + base[me]);
            BCQPSolver solver(M, B);
            auto set = [&](Teuchos::RCP<TV> v, const std::vector<double> &w) {
                auto p = v->getLocalView<Kokkos::HostSpace>();
                v->modify<Kokkos::HostSpace>();
                for (int i = 0; i < n[me]; i++) if (std::isfinite(w[base[me] + i])) p(i, 0) = w[base[me] + i];
            };
            set(solver.getLowerBound(), lb); set(solver.getUpperBound(), ub);
            IteHistory h;
            int ret = method == 1 ? solver.solveAPGD(X, tol, maxi, h) : solver.solveBBPGD(X, tol, maxi, h);
            std::string x = all(X), rets = emit::gather(std::to_string(ret)), hs = emit::gather(history(h)), len = emit::gather(std::to_string(h.size()));
            if (me == 0) {
                std::string rows = "[";
                for (int i = 0; i < N; i++) rows += (i ? "," : "") + emit::numv(std::vector<double>(A.begin() + i * N, A.begin() + (i + 1) * N));
                emit::line("{\"op\":\"qp\",\"method\":" + std::to_string(method) + ",\"tol\":" + emit::num(tol) + ",\"max\":" + std::to_string(maxi) + ",\"A\":" + rows + "],\"b\":" + emit::numv(b) +
                           ",\"lb\":" + emit::numv(lb) + ",\"ub\":" + emit::numv(ub) + ",\"x0\":" + emit::numv(x0) + ",\"n\":" + emit::intv(n) + ",\"x\":" + x + ",\"ret\":" + rets + ",\"hist\":" + hs + ",\"len\":" + len + "}");
            }
        }
    }
    mobMap.reset(); DT.reset(); delta0.reset(); invKappa.reset(); biFlag.reset(); guess.reset(); col.reset(); comm.reset();
    }
    MPI_Finalize();
    return 0;
}
