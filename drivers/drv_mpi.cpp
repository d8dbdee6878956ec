// Runs the message-passing helpers on cases read from a script and records what each rank got.
//   open FILE | close
//   dnew N                        a new directory with size estimate N
//   dpub R n (id stamp)*          what rank R publishes       dbuild: every rank builds
//   dask R n id*                  what rank R asks            dfind: every rank finds
//   xmsg R n (dest value)*        what rank R submits         xgo K: exchange with item type K
//   sort K n (tag value)*         sort with tag/item type K (every rank on its own; rank 0 recorded)
//   pdist DIM n value*            distribute from rank 0      pall / pone: gather
//   pset R n value*               points of rank R
#include "MPI/CommMPI.hpp"
#include "Trilinos/ZDD.hpp"
#include "Util/Logger.hpp"
#include "Util/PointDistribution.hpp"
#include "Util/SortUtil.hpp"
#include "emit.hpp"
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
using emit::gather;
struct Entry { // what the directory carries for an id
    int gid = -7;
    int stamp = -7;
    double pos[3] = {0, 0, 0};
};
struct Small { char c[3]; };
struct Big { double x[17]; int v; };
template <class T> struct Item;
template <> struct Item<int> { static int make(int v) { return v; } static int get(int x) { return x; } };
template <> struct Item<double> { static double make(int v) { return v; } static int get(double x) { return (int)x; } };
template <> struct Item<Small> {
    static Small make(int v) { return Small{{(char)(v % 100), (char)(v / 100 % 100), (char)(v / 10000)}}; }
    static int get(const Small &x) { return x.c[0] + 100 * x.c[1] + 10000 * x.c[2]; }
};
template <> struct Item<Big> {
    static Big make(int v) { Big b; for (int i = 0; i < 17; i++) b.x[i] = v + i; b.v = v; return b; }
    static int get(const Big &b) { for (int i = 0; i < 17; i++) if (b.x[i] != b.v + i) return -999; return b.v; }
};
static std::string pairs(const std::vector<int> &a, const std::vector<int> &b) {
    std::string s = "[";
    for (size_t i = 0; i < a.size(); i++)
        s += (i ? ",[" : "[") + std::to_string(a[i]) + "," + std::to_string(i < b.size() ? b[i] : -999) + "]";
    return s + "]";
}
static std::vector<int> mdest, mval;
template <class T> void exchange() {
    static CommMPI comm;
    static std::vector<int> src(3, -5); // left over from earlier exchanges
    static std::vector<T> got(5, Item<T>::make(-7));
    std::vector<int> dest = mdest;
    std::vector<T> data;
    for (int v : mval) data.push_back(Item<T>::make(v));
    comm.exchangeAllToAllV(dest, data, src, got);
    std::vector<int> g;
    for (auto &x : got) g.push_back(Item<T>::get(x));
    std::string a = gather(pairs(mdest, mval)), b = gather(pairs(src, g)), c = gather(std::to_string(g.size()));
    emit::line("{\"op\":\"exchange\",\"send\":" + a + ",\"recv\":" + b + ",\"n\":" + c + "}");
    mdest.clear(); mval.clear();
}
template <class Tag, class T> void sorting(const std::vector<int> &t, const std::vector<int> &v) {
    std::vector<Tag> tag(t.begin(), t.end());
    std::vector<T> data;
    for (int x : v) data.push_back(Item<T>::make(x));
    sortDataWithTag(tag, data);
    std::vector<int> t2, v2;
    for (auto &x : tag) t2.push_back((int)x);
    for (auto &x : data) v2.push_back(Item<T>::get(x));
    std::string o = "{\"op\":\"sort\",\"in\":" + pairs(t, v) + ",\"out\":" + pairs(t2, v2) + ",\"n\":" + std::to_string(v2.size()) + "}";
    emit::line(o);
}
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    Logger::setup_mpi_spdlog();
    spdlog::set_level(spdlog::level::critical);
    const int me = emit::rank();
    {
        std::unique_ptr<ZDD<Entry>> dir;
        std::vector<double> pts;
        std::ifstream in(argv[1]);
        std::string l;
        while (std::getline(in, l)) {
            std::stringstream s(l);
            std::string c;
            s >> c;
            if (c == "open") { std::string f; s >> f; emit::open(f.c_str()); }
            else if (c == "close") emit::close();
            else if (c == "dnew") {
                int n; s >> n;
                dir.reset();
                dir = std::unique_ptr<ZDD<Entry>>(new ZDD<Entry>(n));
                emit::line("{\"op\":\"new\"}");
            } else if (c == "dpub") {
                int r, n; s >> r >> n;
                if (r == me) {
                    dir->gidOnLocal.clear(); dir->dataOnLocal.clear();
                    for (int i = 0; i < n; i++) {
                        int g, t; s >> g >> t;
                        Entry e; e.gid = g; e.stamp = t; e.pos[0] = g; e.pos[1] = t; e.pos[2] = g + 0.5 * t;
                        dir->gidOnLocal.push_back(g); dir->dataOnLocal.push_back(e);
                    }
                }
            } else if (c == "dbuild") {
                std::vector<int> g, t;
                for (auto &e : dir->dataOnLocal) { g.push_back(e.gid); t.push_back(e.stamp); }
                std::string a = gather(pairs(g, t));
                dir->buildIndex();
                emit::line("{\"op\":\"publish\",\"pub\":" + a + "}");
            } else if (c == "dask") {
                int r, n; s >> r >> n;
                if (r == me) {
                    dir->gidToFind.clear();
                    for (int i = 0; i < n; i++) { int g; s >> g; dir->gidToFind.push_back(g); }
                }
            } else if (c == "dfind") {
                dir->find();
                std::vector<int> q(dir->gidToFind.begin(), dir->gidToFind.end());
                std::string o = "[";
                for (size_t i = 0; i < dir->dataToFind.size() && i < q.size(); i++) {
                    auto &e = dir->dataToFind[i];
                    bool whole = e.pos[0] == e.gid && e.pos[1] == e.stamp && e.pos[2] == e.gid + 0.5 * e.stamp;
                    o += (i ? ",[" : "[") + std::to_string(e.gid) + "," + std::to_string(e.stamp) + "," + (whole ? "1" : "0") + "]";
                }
                o += "]";
                std::string a = gather(emit::intv(q)), b = gather(o);
                emit::line("{\"op\":\"find\",\"ask\":" + a + ",\"got\":" + b + "}");
            } else if (c == "xmsg") {
                int r, n; s >> r >> n;
                if (r == me) for (int i = 0; i < n; i++) { int d, v; s >> d >> v; mdest.push_back(d); mval.push_back(v); }
            } else if (c == "xgo") {
                int k; s >> k;
                if (k == 0) exchange<int>(); else if (k == 1) exchange<double>(); else if (k == 2) exchange<Small>(); else exchange<Big>();
            } else if (c == "sort") {
                int k, n; s >> k >> n;
                std::vector<int> t(n), v(n);
                for (int i = 0; i < n; i++) s >> t[i] >> v[i];
                if (k == 0) sorting<int, int>(t, v); else if (k == 1) sorting<double, Small>(t, v); else if (k == 2) sorting<long, Big>(t, v); else sorting<signed char, double>(t, v);
            } else if (c == "pset") {
                int r, n; s >> r >> n;
                if (r == me) { pts.clear(); for (int i = 0; i < n; i++) { double x; s >> x; pts.push_back(x); } }
            } else if (c == "pdist" || c == "pone" || c == "pall") {
                int dim; s >> dim;
                std::string a = gather(emit::numv(pts));
                if (c == "pdist") distributePts(pts, dim); else if (c == "pone") collectPts(pts); else collectPtsAll(pts);
                std::string b = gather(emit::numv(pts));
                emit::line("{\"op\":\"" + c + "\",\"dim\":" + std::to_string(dim) + ",\"in\":" + a + ",\"out\":" + b + "}");
            }
        }
    }
    MPI_Finalize();
    return 0;
}
