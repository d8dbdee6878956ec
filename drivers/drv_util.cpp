// Boundaries, periodic images, random points, base64 and VTK output on cases read from a script.
//   open FILE | close
//   bnd KIND VIA inside r cx cy cz nx ny nz n (x y z)*   KIND wall|tube|sphere, VIA yaml|direct
//   wrap T lo hi n x*          findPBCImage(lo, hi, x) in type T (double|float)
//   near lo hi n (x trg)*      findPBCImage(lo, hi, x, trg)
//   circle r N | sphere r N    N*N random points with U01 values on a lattice
//   enc mark prior n byte*     B64Converter::kwsysBase64_Encode after the text prior ("-": none)
//   vec T n value*             getBase64FromVector
//   file PATH T name comp n value*   writeDataArrayBase64
//   index PATH KIND np (comp type name)* nc (comp type name)* n piece*   KIND vtu1|vtu2|vtp1|vtp2
//   syl DIR n seed ranks       Sylinder::writeVTP and writePVTP of n bodies with random contents
#include "Boundary/Boundary.hpp"
#include "Sylinder/Sylinder.hpp"
#include "Util/Base64.hpp"
#include "Util/GeoUtil.hpp"
#include "Util/IOHelper.hpp"
#include "emit.hpp"
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <random>
#include <sstream>
static double rd(std::istream &s) { std::string w; s >> w; return strtod(w.c_str(), nullptr); }
static std::string bytes(const void *p, size_t n) {
    std::string s = "[";
    for (size_t i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(((const unsigned char *)p)[i]);
    return s + "]";
}
template <class T> std::string bytes(const std::vector<T> &v) { return bytes(v.data(), v.size() * sizeof(T)); }
static std::string q(const std::string &s) { return "\"" + s + "\""; }
static std::string text(const std::string &s) { return bytes(s.data(), s.size()); }
template <class T> std::vector<T> values(std::istream &s, int n) {
    std::vector<T> v;
    for (int i = 0; i < n; i++) v.push_back((T)rd(s));
    return v;
}
template <class T> void vec(std::istream &s, int n) {
    auto v = values<T>(s, n);
    std::string out;
    B64Converter::getBase64FromVector(v, out);
    emit::line("{\"op\":\"vec\",\"bytes\":" + bytes(v) + ",\"code\":" + text(out) + "}");
}
template <class T> void dataArray(std::istream &s, const std::string &path, const std::string &t, const std::string &name, int comp, int n) {
    auto v = values<T>(s, n);
    std::ofstream f(path);
    f << "<Piece>\n";
    IOHelper::writeDataArrayBase64(v, name, comp, f);
    f << "</Piece>\n";
    f.close();
    emit::line("{\"op\":\"file\",\"path\":" + q(path) + ",\"want\":{\"name\":" + q(name) + ",\"type\":" + q(t) + ",\"comp\":" +
               std::to_string(comp) + ",\"bytes\":" + bytes(v) + "}}");
}
static IOHelper::IOTYPE ioType(const std::string &t) {
    return t == "UInt8" ? IOHelper::IOTYPE::UInt8 : t == "Int32" ? IOHelper::IOTYPE::Int32 : t == "Float32" ? IOHelper::IOTYPE::Float32 : IOHelper::IOTYPE::Float64;
}
static std::string want; // arrays a piece has to hold
template <class T> void need(const char *sec, const char *name, const char *type, int comp, const std::vector<T> &v) {
    want += std::string(want.empty() ? "" : ",") + "{\"sec\":" + q(sec) + ",\"name\":" + q(name) + ",\"type\":" + q(type) + ",\"comp\":" +
            std::to_string(comp) + ",\"bytes\":" + bytes(v) + "}";
}
static void sylinders(const std::string &dir, int n, int seed, int ranks) {
    std::mt19937 g(seed);
    auto u = [&]() {
        double m = (double)g() / 4294967296.0 * 2 - 1;
        switch (g() % 6) {
        case 0: return 0.0;
        case 1: return m * 1e-7;
        case 2: return m * 1e7;
        default: return m;
        }
    };
    std::vector<Sylinder> S(n);
    typedef double Sylinder::*Num;
    typedef double (Sylinder::*Vec)[3];
    struct { const char *name; Num p; } nums[] = {{"radius", &Sylinder::radius}, {"radiusCollision", &Sylinder::radiusCollision}, {"length", &Sylinder::length}, {"lengthCollision", &Sylinder::lengthCollision}};
    struct { const char *name; Vec p; } vecs[] = {
        {"vel", &Sylinder::vel}, {"omega", &Sylinder::omega}, {"velCollision", &Sylinder::velCol}, {"omegaCollision", &Sylinder::omegaCol},
        {"velBilateral", &Sylinder::velBi}, {"omegaBilateral", &Sylinder::omegaBi}, {"velNonBrown", &Sylinder::velNonB}, {"omegaNonBrown", &Sylinder::omegaNonB},
        {"force", &Sylinder::force}, {"torque", &Sylinder::torque}, {"forceCollision", &Sylinder::forceCol}, {"torqueCollision", &Sylinder::torqueCol},
        {"forceBilateral", &Sylinder::forceBi}, {"torqueBilateral", &Sylinder::torqueBi}, {"forceNonBrown", &Sylinder::forceNonB}, {"torqueNonBrown", &Sylinder::torqueNonB},
        {"velBrown", &Sylinder::velBrown}, {"omegaBrown", &Sylinder::omegaBrown}};
    for (auto &s : S) {
        s.gid = g() % 1000000; s.group = (int)(g() % 11) - 5; s.isImmovable = g() % 2;
        for (auto &f : nums) s.*f.p = fabs(u());
        for (auto &f : vecs) for (int k = 0; k < 3; k++) (s.*f.p)[k] = u();
        for (int k = 0; k < 3; k++) s.pos[k] = u();
        s.orientation[0] = s.orientation[1] = s.orientation[2] = 0; s.orientation[3] = 1; // axis (0,0,1)
        if (g() % 2) { s.orientation[0] = 1; s.orientation[3] = 0; }                       // axis (0,0,-1)
    }
    want.clear();
    std::vector<int> gid, grp;
    std::vector<uint8_t> imm, lab;
    std::vector<double> pos;
    std::vector<float> x, z;
    for (auto &s : S) {
        gid.push_back(s.gid); grp.push_back(s.group); imm.push_back(s.isImmovable);
        const bool up = s.orientation[3] == 1;
        for (int e = -1; e < 2; e += 2) {
            pos.push_back(s.pos[0]); pos.push_back(s.pos[1]); pos.push_back(s.pos[2] + (up ? e : -e) * (s.length * 0.5));
            lab.push_back(e > 0);
        }
    }
    need("Points", "position", "Float64", 3, pos);
    need("PointData", "endLabel", "UInt8", 1, lab);
    need("CellData", "gid", "Int32", 1, gid); need("CellData", "group", "Int32", 1, grp); need("CellData", "isImmovable", "UInt8", 1, imm);
    for (auto &f : nums) { std::vector<float> v; for (auto &s : S) v.push_back((float)(s.*f.p)); need("CellData", f.name, "Float32", 1, v); }
    for (auto &f : vecs) { std::vector<float> v; for (auto &s : S) for (int k = 0; k < 3; k++) v.push_back((float)(s.*f.p)[k]); need("CellData", f.name, "Float32", 3, v); }
    Sylinder::writeVTP(S, n, dir + "/", "7", ranks - 1);
    Sylinder::writePVTP(dir + "/", "7", ranks);
    emit::line("{\"op\":\"piece\",\"ranks\":" + std::to_string(ranks) + ",\"stem\":\"Sylinder_\",\"vtp\":" + q(dir + "/Sylinder_r" + std::to_string(ranks - 1) + "_7.vtp") +
               ",\"pvtp\":" + q(dir + "/Sylinder_7.pvtp") + ",\"want\":[" + want + "]}");
}
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    Logger::setup_mpi_spdlog();
    spdlog::set_level(spdlog::level::critical);
    std::ifstream in(argv[1]);
    std::string l;
    while (std::getline(in, l)) {
        std::stringstream s(l);
        std::string c;
        s >> c;
        if (c == "open") { std::string f; s >> f; emit::open(f.c_str()); }
        else if (c == "close") emit::close();
        else if (c == "bnd") {
            std::string kind, via, ins;
            int inside, n;
            s >> kind >> via >> inside;
            double r = rd(s), ce[3], no[3];
            for (double &x : ce) x = rd(s);
            for (double &x : no) x = rd(s);
            s >> n;
            std::string b = "{\"kind\":" + q(kind) + ",\"in\":" + std::to_string(inside) + ",\"r\":" + emit::num(r) + ",\"c\":" + emit::nums(ce, 3) + ",\"n\":" + emit::nums(no, 3) + "}";
            std::unique_ptr<Boundary> B;
            if (via == "yaml") {
                auto list = [](const double *v) { char t[120]; snprintf(t, sizeof t, "[%.17g, %.17g, %.17g]", v[0], v[1], v[2]); return std::string(t); };
                char rt[40]; snprintf(rt, sizeof rt, "%.17g", r);
                std::string y = "center: " + list(ce) + "\n";
                if (kind != "wall") y += "radius: " + std::string(rt) + "\ninside: " + (inside ? "true" : "false") + "\n";
                if (kind == "wall") y += "norm: " + list(no) + "\n";
                if (kind == "tube") y += "axis: " + list(no) + "\n";
                YAML::Node node = YAML::Load(y);
                if (kind == "wall") B.reset(new Wall(node)); else if (kind == "tube") B.reset(new Tube(node)); else B.reset(new SphereShell(node));
            } else {
                if (kind == "wall") B.reset(new Wall(ce, no)); else if (kind == "tube") B.reset(new Tube(ce, no, r, inside)); else B.reset(new SphereShell(ce, r, inside));
            }
            for (int i = 0; i < n; i++) {
                double x[3], p[3] = {7e77, 7e77, 7e77}, d[3] = {7e77, 7e77, 7e77};
                for (double &y : x) y = rd(s);
                B->project(x, p, d);
                emit::line("{\"op\":\"project\",\"b\":" + b + ",\"x\":" + emit::nums(x, 3) + ",\"p\":" + emit::nums(p, 3) + ",\"d\":" + emit::nums(d, 3) + "}");
            }
        } else if (c == "wrap") {
            std::string t; s >> t;
            double lo = rd(s), hi = rd(s); int n; s >> n;
            for (int i = 0; i < n; i++) {
                double x = rd(s);
                if (t == "float") {
                    float a = lo, b = hi, y = x; x = y;
                    findPBCImage(a, b, y);
                    emit::line("{\"op\":\"wrap\",\"t\":\"float\",\"lo\":" + emit::num(a) + ",\"hi\":" + emit::num(b) + ",\"x\":" + emit::num(x) + ",\"y\":" + emit::num(y) + "}");
                } else {
                    double y = x;
                    findPBCImage(lo, hi, y);
                    emit::line("{\"op\":\"wrap\",\"t\":\"double\",\"lo\":" + emit::num(lo) + ",\"hi\":" + emit::num(hi) + ",\"x\":" + emit::num(x) + ",\"y\":" + emit::num(y) + "}");
                }
            }
        } else if (c == "near") {
            double lo = rd(s), hi = rd(s); int n; s >> n;
            for (int i = 0; i < n; i++) {
                double x = rd(s), t = rd(s), y = x, u = t;
                findPBCImage(lo, hi, y, u);
                emit::line("{\"op\":\"near\",\"lo\":" + emit::num(lo) + ",\"hi\":" + emit::num(hi) + ",\"x\":" + emit::num(x) + ",\"t\":" + emit::num(t) + ",\"y\":" + emit::num(y) + ",\"u\":" + emit::num(u) + "}");
            }
        } else if (c == "circle" || c == "sphere") {
            double r = rd(s); int n; s >> n;
            std::string o;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
                double a = (i + 0.5) / n, b = (j + 0.5) / n, p[3] = {0, 0, 0};
                if (i == 0 && j == 0) a = b = 0;
                if (i == n - 1 && j == n - 1) a = b = 1 - 1.1e-16;
                if (c == "circle") getRandPointInCircle(r, a, b, p[0], p[1]); else getRandPointOnSphere(r, a, b, p);
                o += (o.empty() ? "" : ",") + emit::nums(p, 3);
            }
            emit::line("{\"op\":" + q(c) + ",\"r\":" + emit::num(r) + ",\"n\":" + std::to_string(n) + ",\"pts\":[" + o + "]}");
        } else if (c == "enc") {
            int mark, n; std::string prior; s >> mark >> prior >> n;
            if (prior == "-") prior = "";
            auto v = values<unsigned char>(s, n);
            std::string out = prior;
            size_t ret = B64Converter::kwsysBase64_Encode(v.data(), v.size(), out, mark);
            std::string code = out.substr(std::min(prior.size(), out.size()));
            std::vector<unsigned char> back(n + 8, 111), all(code.size() + 8, 111);
            size_t nb = B64Converter::kwsysBase64_Decode((const unsigned char *)code.data(), n, back.data(), 0);
            size_t na = mark || n == 0 ? n : B64Converter::kwsysBase64_Decode((const unsigned char *)code.data(), 0, all.data(), code.size());
            if (mark || n == 0) all = v;
            back.resize(std::min<size_t>(nb, back.size())); all.resize(std::min<size_t>(na, all.size()));
            emit::line("{\"op\":\"enc\",\"mark\":" + std::to_string(mark) + ",\"prior\":" + text(prior) + ",\"bytes\":" + bytes(v) + ",\"out\":" + text(out) + ",\"ret\":" + std::to_string(ret) +
                       ",\"back\":" + bytes(back) + ",\"all\":" + bytes(all) + "}");
        } else if (c == "vec") {
            std::string t; int n; s >> t >> n;
            if (t == "Int32") vec<int>(s, n); else if (t == "Float32") vec<float>(s, n); else if (t == "Float64") vec<double>(s, n); else vec<uint8_t>(s, n);
        } else if (c == "file") {
            std::string p, t, name; int comp, n; s >> p >> t >> name >> comp >> n;
            if (t == "Int32") dataArray<int>(s, p, t, name, comp, n); else if (t == "Float32") dataArray<float>(s, p, t, name, comp, n);
            else if (t == "Float64") dataArray<double>(s, p, t, name, comp, n); else dataArray<uint8_t>(s, p, t, name, comp, n);
        } else if (c == "index") {
            std::string p, kind; s >> p >> kind;
            std::vector<IOHelper::FieldVTU> f[2];
            std::string w;
            for (int k = 0; k < 2; k++) {
                int n; s >> n;
                for (int i = 0; i < n; i++) {
                    int comp; std::string t, name; s >> comp >> t >> name;
                    f[k].emplace_back(comp, ioType(t), name);
                    w += std::string(w.empty() ? "" : ",") + "{\"sec\":" + q(k ? "CellData" : "PointData") + ",\"name\":" + q(name) + ",\"type\":" + q(t) + ",\"comp\":" + std::to_string(comp) + "}";
                }
            }
            int n; s >> n;
            std::vector<std::string> pc;
            for (int i = 0; i < n; i++) { std::string x; s >> x; pc.push_back(x); }
            if (kind == "vtu1") IOHelper::writePVTUFile(p, f[0], pc); else if (kind == "vtu2") IOHelper::writePVTUFile(p, f[0], f[1], pc);
            else if (kind == "vtp1") IOHelper::writePVTPFile(p, f[0], pc); else IOHelper::writePVTPFile(p, f[0], f[1], pc);
            std::string names;
            for (auto &x : pc) names += (names.empty() ? "" : ",") + q(x);
            emit::line("{\"op\":\"index\",\"path\":" + q(p) + ",\"kind\":" + q(kind) + ",\"want\":[" + w + "],\"pieces\":[" + names + "]}");
        } else if (c == "syl") {
            std::string d; int n, seed, ranks; s >> d >> n >> seed >> ranks;
            sylinders(d, n, seed, ranks);
        }
    }
    MPI_Finalize();
    return 0;
}
