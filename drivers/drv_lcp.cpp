// Linear complementarity problems: every solver on problems read from a script.
//   open FILE | close
//   lcp tol maxIte R n_1..n_R A(N*N) b(N) x0(N)
//   con tol maxIte R n_1..n_R p_1..p_R G(N x P) mob(P) b(N) x0(N)      A = G diag(mob) G^T, through CPMatOp; P = sum p
#include "Collision/CPSolver.hpp"
#include "emit.hpp"
#include "Util/Logger.hpp"
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
static double rd(std::istream &s) { std::string w; s >> w; return strtod(w.c_str(), nullptr); }
static std::vector<double> rds(std::istream &s, int n) { std::vector<double> v(n); for (auto &x : v) x = rd(s); return v; }
static Teuchos::RCP<const TCOMM> comm;
static Teuchos::RCP<TV> vec(const Teuchos::RCP<const TMAP> &m, const double *v) {
    Teuchos::RCP<TV> x = Teuchos::rcp(new TV(m, true));
    auto p = x->getLocalView<Kokkos::HostSpace>();
    x->modify<Kokkos::HostSpace>();
    for (int i = 0; i < (int)m->getNodeNumElements(); i++) p(i, 0) = v[i];
    return x;
}
static std::string all(const Teuchos::RCP<TV> &x) {
    auto p = x->getLocalView<Kokkos::HostSpace>();
    std::vector<double> v;
    for (int i = 0; i < (int)x->getMap()->getNodeNumElements(); i++) v.push_back(p(i, 0));
    return emit::gather(emit::numv(v));
}
static Teuchos::RCP<TCMAT> matrix(const Teuchos::RCP<const TMAP> &row, const Teuchos::RCP<const TMAP> &dom, int first, int N, const std::function<double(int, int)> &A) {
    const int n = row->getNodeNumElements();
    Kokkos::View<size_t *> rp("rp", n + 1);
    std::vector<int> ci; std::vector<double> va;
    std::set<int> used;
    rp[0] = 0;
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < N; j++) { double a = A(first + i, j); if (a != 0) { ci.push_back(j); va.push_back(a); used.insert(j); } }
        rp[i + 1] = ci.size();
    }
    std::vector<int> cols(used.begin(), used.end());
    Teuchos::RCP<TMAP> cm = Teuchos::rcp(new TMAP(Teuchos::OrdinalTraits<int>::invalid(), cols.data(), cols.size(), 0, comm));
    Kokkos::View<int *> c("c", ci.size()); Kokkos::View<double *> v("v", va.size());
    for (size_t k = 0; k < ci.size(); k++) { c[k] = cm->getLocalElement(ci[k]); v[k] = va[k]; }
    Teuchos::RCP<TCMAT> M = Teuchos::rcp(new TCMAT(row, cm, rp, c, v));
    M->fillComplete(dom, row);
    return M;
}
static std::string rows(const std::vector<double> &A, int n, int m) {
    std::string s = "[";
    for (int i = 0; i < n; i++) s += (i ? "," : "") + emit::numv(std::vector<double>(A.begin() + i * m, A.begin() + (i + 1) * m));
    return s + "]";
}
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    Logger::setup_mpi_spdlog();
    spdlog::set_level(spdlog::level::off);
    {
    comm = getMPIWORLDTCOMM();
    const int me = emit::rank();
    std::ifstream in(argv[1]);
    std::string l;
    while (std::getline(in, l)) {
        std::stringstream s(l);
        std::string c;
        s >> c;
        if (c == "open") { std::string f; s >> f; emit::open(f.c_str()); continue; }
        if (c == "close") { emit::close(); continue; }
        double tol = rd(s); int maxi, R; s >> maxi >> R;
        std::vector<int> n(R), base(R + 1, 0), p(R, 0), pb(R + 1, 0);
        for (int &x : n) s >> x;
        if (c == "con") for (int &x : p) s >> x;
        for (int r = 0; r < R; r++) { base[r + 1] = base[r] + n[r]; pb[r + 1] = pb[r] + p[r]; }
        const int N = base[R], P = pb[R];
        auto map = getTMAPFromLocalSize(n[me], comm);
        Teuchos::RCP<TOP> M;
        std::string what;
        if (c == "lcp") {
            auto A = rds(s, N * N);
            M = matrix(map, map, base[me], N, [&](int i, int j) { return A[i * N + j]; });
            what = "\"A\":" + rows(A, N, N);
        } else {
            auto G = rds(s, N * P), mob = rds(s, P);
            auto pm = getTMAPFromLocalSize(p[me], comm);
            Teuchos::RCP<TOP> mo = matrix(pm, pm, pb[me], P, [&](int i, int j) { return i == j ? mob[i] : 0.0; });
            auto F = matrix(map, pm, base[me], P, [&](int i, int j) { return G[i * P + j]; });
            M = Teuchos::rcp(new CPMatOp(mo, F));
            what = "\"G\":" + rows(G, N, P) + ",\"mob\":" + emit::numv(mob);
        }
        auto b = rds(s, N), x0 = rds(s, N);
        std::string sols;
        for (int m = 0; m < 3; m++) {
            auto B = vec(map, b.data() + base[me]), X = vec(map, x0.data() + base[me]);
            CPSolver solver(M, B);
            IteHistory h;
            int ret = m == 0 ? solver.LCP_APGD(X, tol, maxi, h) : m == 1 ? solver.LCP_BBPGD(X, tol, maxi, h) : solver.LCP_mmNewton(X, tol, maxi, h);
            std::string x = all(X), rets = emit::gather(std::to_string(ret)), len = emit::gather(std::to_string(h.size())),
                        last = emit::gather(h.empty() ? "[\"0\",\"0\"]" : "[" + emit::num(h.back()[0]) + "," + emit::num(h.back()[4]) + "]");
            sols += std::string(m ? "," : "") + "{\"m\":" + std::to_string(m) + ",\"ret\":" + rets + ",\"x\":" + x + ",\"len\":" + len + ",\"last\":" + last + "}";
        }
        emit::line("{\"op\":\"" + c + "\",\"tol\":" + emit::num(tol) + ",\"max\":" + std::to_string(maxi) + "," + what + ",\"b\":" + emit::numv(b) + ",\"x0\":" + emit::numv(x0) +
                   ",\"n\":" + emit::intv(n) + ",\"sols\":[" + sols + "]}");
    }
    comm.reset();
    }
    MPI_Finalize();
    return 0;
}
