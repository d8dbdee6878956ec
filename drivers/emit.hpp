// Trace output shared by the drivers: JSON text, gathered over ranks, written by rank 0.
// Reals are written as strings with 17 digits (exact), integers as numbers.
#pragma once
#include <mpi.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
namespace emit {
inline std::string num(double x) { // exact text of a real
    char b[40];
    if (x != x) return "\"nan\"";
    if (x > 1.7e308) return "\"inf\"";
    if (x < -1.7e308) return "\"-inf\"";
    snprintf(b, sizeof b, "\"%.17g\"", x);
    return b;
}
template <class V> std::string nums(const V &v, int n) {
    std::string s = "[";
    for (int i = 0; i < n; i++) s += (i ? "," : "") + num(v[i]);
    return s + "]";
}
template <class V> std::string ints(const V &v, int n) {
    std::string s = "[";
    for (int i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
template <class C> std::string intv(const C &c) {
    std::string s = "[";
    bool first = true;
    for (auto x : c) { s += (first ? "" : ",") + std::to_string(x); first = false; }
    return s + "]";
}
template <class C> std::string numv(const C &c) {
    std::string s = "[";
    bool first = true;
    for (auto x : c) { s += (first ? "" : ",") + num(x); first = false; }
    return s + "]";
}
inline int rank() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
inline int size() { int r; MPI_Comm_size(MPI_COMM_WORLD, &r); return r; }
// collective: JSON array of the ranks' texts (valid on rank 0)
inline std::string gather(const std::string &mine) {
    int n = mine.size(), np = size();
    std::vector<int> cnt(np), dsp(np + 1, 0);
    MPI_Gather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
    for (int i = 0; i < np; i++) dsp[i + 1] = dsp[i] + cnt[i];
    std::vector<char> all(rank() == 0 ? dsp[np] + 1 : 1);
    MPI_Gatherv((void *)mine.data(), n, MPI_CHAR, all.data(), cnt.data(), dsp.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
    std::string s = "[";
    if (rank() == 0)
        for (int i = 0; i < np; i++) s += (i ? "," : "") + std::string(all.data() + dsp[i], cnt[i]);
    return s + "]";
}
inline FILE *&file() { static FILE *f = nullptr; return f; }
inline void open(const char *path) {
    if (rank() == 0) { file() = fopen(path, "a"); if (!file()) { perror(path); MPI_Abort(MPI_COMM_WORLD, 3); } }
}
inline void line(const std::string &s) {
    if (rank() == 0) { fputs(s.c_str(), file()); fputc('\n', file()); fflush(file()); }
}
inline void close() { if (rank() == 0 && file()) { fclose(file()); file() = nullptr; } }
} // namespace emit
