// Drives the ordering and selection utilities of common::.
#include "harness.hpp"
using namespace vh;
using namespace openml;
template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> using Vec = Eigen::Matrix<T, Eigen::Dynamic, 1>;
using Idx = Vec<Eigen::Index>; using IdxM = Mat<Eigen::Index>;
const double QS = 4;
template <class T> T number(Rng& r, long span) { return std::is_integral<T>::value ? (T)r.range(-span, span) : (T)(r.range(-4 * span, 4 * span) / 4.0); }
template <class T> Mat<T> table(Rng& r, long n, long d, long span) { Mat<T> X(n, d); for (long i = 0; i < n * d; i++) X(i) = number<T>(r, span); return X; }
template <class T> std::vector<T> list(Rng& r, long n, long span) { std::vector<T> v; for (long i = 0; i < n; i++) v.push_back(number<T>(r, span)); return v; }
template <class T> std::vector<std::vector<T>> rows(Rng& r, long n, long d, long span) { std::vector<std::vector<T>> v; for (long i = 0; i < n; i++) v.push_back(list<T>(r, d, span)); return v; }
static long side(Rng& r) { return r.coin(1, 4) ? 1 : r.coin(1, 10) ? r.range(9, 24) : r.range(1, 8); }
static Ev call(const char* f, bool same) { Ev e("Call"); e.b("ok", true).str("f", f).b("same", same); return e; }
template <class F> void refuse(const char* f, F body) { bool ok = true; try { body(); } catch (const std::exception&) { ok = false; } Ev("Refuse").str("f", f).b("ok", ok).end(); }
template <class T> void matrices(Rng& r) {
    for (int k = r.range(4, 10); k > 0; k--) {
        long n = side(r), d = side(r), span = r.pick(std::vector<long>{1, 2, 40}); bool rev = r.coin();
        Mat<T> X = table<T>(r, n, d, span), A = X;
        switch (r.range(0, 12)) {
        case 0: guarded("Call", [&] { int axis = r.range(0, 1); bool df = !rev && r.coin(); if (df) axis = 0; Mat<T> R = df ? common::sort<Mat<T>>(A) : common::sort<Mat<T>>(A, axis, rev); call("sort", A == X).i("axis", axis).b("rev", rev).mat("X", X, QS).mat("R", R, QS).end(); }); break;
        case 1: case 2: guarded("Call", [&] { int axis = r.range(0, 1); bool df = !rev && r.coin(); if (df) axis = 0; IdxM R = df ? common::argsort<Mat<T>, IdxM, Idx>(A) : common::argsort<Mat<T>, IdxM, Idx>(A, axis, rev); call("argsort", A == X).i("axis", axis).b("rev", rev).mat("X", X, QS).mat("R", R).end(); }); break;
        case 3: case 4: guarded("Call", [&] { int axis = r.range(-1, 1); bool df = axis == 0 && r.coin(); Idx v = rev ? (df ? common::argmax<Mat<T>, Vec<T>, Idx>(A) : common::argmax<Mat<T>, Vec<T>, Idx>(A, axis)) : df ? common::argmin<Mat<T>, Vec<T>, Idx>(A) : common::argmin<Mat<T>, Vec<T>, Idx>(A, axis); call(rev ? "argmax" : "argmin", A == X).i("axis", axis).mat("X", X, QS).vec("v", v).end(); }); break;
        case 5: guarded("Call", [&] { Vec<T> u = table<T>(r, n, 1, span), u0 = u, v, p; std::tie(v, p) = common::unique<Vec<T>>(u); call("unique", u == u0).vec("u", u0, QS).vec("v", v, QS).vec("p", p).end(); }); break;
        case 6: guarded("Call", [&] { Vec<T> u = table<T>(r, n, 1, 1), u0 = u; if (r.coin()) u = u0 = u.cwiseAbs().eval(); Idx v = common::where<Vec<T>, Idx>(u); call("where", u == u0).vec("u", u0, QS).vec("v", v).end(); }); break;
        case 7: guarded("Call", [&] { T lo = number<T>(r, span), hi = lo + std::abs(number<T>(r, span)); if (rev) { Mat<T> R = common::clip<Mat<T>>(A, hi, lo); call("clip", A == X).x("hi", hi, QS).x("lo", lo, QS).mat("X", X, QS).mat("R", R, QS).end(); }
            else { Mat<T> R = common::fmin<Mat<T>>(A, hi); call("fmin", A == X).x("hi", hi, QS).mat("X", X, QS).mat("R", R, QS).end(); } }); break;
        case 8: guarded("Call", [&] { Mat<T> Y = rev ? table<T>(r, n, side(r), span) : table<T>(r, side(r), d, span); Mat<T> R = rev ? common::hstack<Mat<T>>(A, Y) : common::vstack<Mat<T>>(A, Y); call(rev ? "hstack" : "vstack", A == X).mat("X", X, QS).mat("Y", Y, QS).mat("R", R, QS).end(); }); break;
        case 9: guarded("Call", [&] { Vec<T> v = common::flatten<Mat<T>, Vec<T>>(A); call("flatten", A == X).mat("X", X, QS).vec("v", v, QS).end(); }); break;
        case 10: guarded("Call", [&] { int axis = r.range(0, 1), k = r.range(1, 4); Mat<T> R = common::repeat<Mat<T>>(A, k, axis); call("repeat", A == X).i("axis", axis).i("k", k).mat("X", X, QS).mat("R", R, QS).end(); }); break;
        case 11: guarded("Call", [&] { auto L = rows<T>(r, n, d, span); if (rev) { Mat<T> R = common::vec2mat<Mat<T>>(L); call("vec2mat", true).sv2("X", L, QS).mat("R", R, QS).end(); } else { Vec<T> v = common::vec2mat<Vec<T>>(L[0]); call("vec2vec", true).sv("u", L[0], QS).vec("v", v, QS).end(); } }); break;
        default: { int bad = r.pick(std::vector<int>{2, 3, -2}); switch (r.range(0, 6)) {
            case 0: refuse("axis", [&] { common::sort<Mat<T>>(A, bad); }); break;
            case 1: refuse("axis", [&] { common::argsort<Mat<T>, IdxM, Idx>(A, bad); }); break;
            case 2: refuse("axis", [&] { common::argmax<Mat<T>, Vec<T>, Idx>(A, bad); }); break;
            case 3: refuse("axis", [&] { common::argmin<Mat<T>, Vec<T>, Idx>(A, bad); }); break;
            case 4: refuse("shape", [&] { common::hstack<Mat<T>>(A, table<T>(r, n + 1, d, 1)); }); break;
            case 5: refuse("shape", [&] { common::vstack<Mat<T>>(A, table<T>(r, n, d + 1, 1)); }); break;
            default: refuse("ragged", [&] { auto L = rows<T>(r, n + 1, d, span); L[n].push_back(0); if (r.coin() && d > 1) L[n].resize(d - 1); common::vec2mat<Mat<T>>(L); }); } }
        }
    }
}
template <class T> void vectors(Rng& r) {
    for (int k = r.range(4, 10); k > 0; k--) {
        long n = side(r), d = r.range(1, 4), span = r.pick(std::vector<long>{1, 2, 40}); bool rev = r.coin();
        auto u = list<T>(r, r.coin(1, 10) ? 0 : n, span), v = list<T>(r, r.coin(1, 10) ? 0 : side(r), span); auto X = rows<T>(r, n, d, r.pick(std::vector<long>{1, 1, 3})); auto u0 = u; auto X0 = X;
        switch (r.range(0, 13)) {
        case 0: guarded("Call", [&] { std::vector<std::size_t> p = r.coin() && !rev ? common::argsort<T>(u) : common::argsort<T>(u, rev); call("vargsort", u == u0).b("rev", rev).sv("u", u0, QS).sv("v", p).end(); }); break;
        case 1: guarded("Call", [&] { int axis = r.range(0, 1); bool df = axis == 0 && !rev && r.coin(); auto R = df ? common::sort<T>(X) : common::sort<T>(X, axis, rev); call("sort", X == X0).i("axis", axis).b("rev", rev).sv2("X", X0, QS).sv2("R", R, QS).end(); }); break;
        case 2: guarded("Call", [&] { bool df = !rev && r.coin(); auto R = df ? common::sortrows<T>(X) : common::sortrows<T>(X, rev); call("sortrows", X == X0).b("rev", rev).sv2("X", X0, QS).sv2("R", R, QS).end(); }); break;
        case 3: guarded("Call", [&] { auto R = common::remove_duplicate_rows<T>(X); call("dedup", X == X0).sv2("X", X0, QS).sv2("R", R, QS).end(); }); break;
        case 4: guarded("Call", [&] { if (r.coin()) { v = u; if (!v.empty() && r.coin()) { if (r.coin()) v.pop_back(); else v[r.range(0, v.size() - 1)] += 1; } } bool a = common::is_equal<T>(u, v); call("equal", u == u0).sv("u", u0, QS).sv("v", v, QS).b("a", a).end(); }); break;
        case 5: guarded("Call", [&] { if (r.coin()) { u.clear(); for (auto& x : v) if (r.coin()) u.push_back(x); u0 = u; } bool a = common::contains<T>(u, v); call("contains", u == u0).sv("u", u0, QS).sv("v", v, QS).b("a", a).end(); }); break;
        case 6: guarded("Call", [&] { auto m = common::merge<T>(u, v); call("merge", u == u0).sv("u", u0, QS).sv("v", v, QS).sv("r", m, QS).end(); }); break;
        case 7: guarded("Call", [&] { bool sorting = r.coin(); if (!sorting) { std::sort(u.begin(), u.end()); std::sort(v.begin(), v.end()); u0 = u; } bool df = r.coin(); auto m = df && !sorting ? common::difference<T>(u, v) : common::difference<T>(u, v, sorting); call("difference", u == u0).sv("u", u0, QS).sv("v", v, QS).sv("r", m, QS).end(); }); break;
        case 8: guarded("Call", [&] { if (u.size() > 7) { u.resize(7); u0 = u; } long c = r.range(0, (long)u.size() + (r.coin(1, 4) ? 1 : 0)); auto R = common::combinations<T>(u, c); call("combinations", u == u0).i("k", c).sv("u", u0, QS).sv2("R", R, QS).end(); }); break;
        case 9: if (u.empty()) u = u0 = list<T>(r, n, span);
            guarded("Call", [&] { long b = r.range(0, u.size() - 1), a = r.range(0, b); auto m = common::slice<T>(u, a, b); call("slice", u == u0).i("from", a).i("to", b).sv("u", u0, QS).sv("r", m, QS).end(); }); break;
        case 10: guarded("Call", [&] { long b = r.range(0, n - 1), a = r.range(0, b), y = r.range(0, d - 1), x = r.range(0, y); auto m = common::slice<T>(X, a, b, x, y); call("slice2", X == X0).i("from", a).i("to", b).i("cfrom", x).i("cto", y).sv2("X", X0, QS).sv2("R", m, QS).end(); }); break;
        case 11: guarded("Call", [&] { if (r.coin()) { X = X0 = rows<T>(r, n, d, span); for (auto& row : X) if (r.coin(1, 4)) row.resize(r.range(0, d)); X0 = X; auto f = common::flatten(X); call("flatten", X == X0).sv2("X", X0, QS).sv("v", f, QS).end(); }
            else { std::map<T, T> m; for (long i = 0; i < n; i++) m[number<T>(r, span)] = number<T>(r, 3); auto p = common::max_element(m); std::vector<T> ks, vs; for (auto& e : m) { ks.push_back(e.first); vs.push_back(e.second); } call("maxelement", true).sv("u", ks, QS).sv("v", vs, QS).x("key", p.first, QS).x("val", p.second, QS).end(); } }); break;
        case 12: guarded("Call", [&] { long x = r.range(-50000, 50000); std::string s = (r.coin(1, 4) ? " " : "") + std::string(x >= 0 && r.coin(1, 4) ? "+" : "") + std::to_string(x); call("number", true).i("u", x).i("v", common::string_to_integer<int>(s)).end(); }); break;
        default: std::vector<std::vector<T>> none, hollow(1); long s = u.size(); switch (r.range(0, 7)) {
            case 0: refuse("empty", [&] { common::sort<T>(r.coin() ? none : hollow, 0); }); break;
            case 1: refuse("empty", [&] { common::sortrows<T>(r.coin() ? none : hollow); }); break;
            case 2: refuse("empty", [&] { common::remove_duplicate_rows<T>(r.coin() ? none : hollow); }); break;
            case 3: refuse("axis", [&] { common::sort<T>(X, r.pick(std::vector<int>{2, -1, 3})); }); break;
            case 4: refuse("range", [&] { common::slice<T>(u, r.range(0, s), s + r.range(0, 2)); }); break;
            case 5: if (s > 1) refuse("range", [&] { long a = r.range(1, s - 1); common::slice<T>(u, a, r.range(0, a - 1)); }); break;
            case 6: refuse("range", [&] { common::slice<T>(X, r.range(0, n), n + r.range(0, 2), 0, 0); }); break;
            default: refuse("range", [&] { common::slice<T>(X, 0, 0, r.range(0, d), d + r.range(0, 2)); }); }
        }
    }
}
int main(int argc, char** argv) { Opt o = parse(argc, argv); return run(o, [](Rng& r, long, const Opt&) {
    switch (r.range(0, 5)) { case 0: matrices<float>(r); break; case 1: matrices<int>(r); break; case 2: matrices<double>(r); break; case 3: vectors<int>(r); break; case 4: vectors<double>(r); break; default: vectors<float>(r); } }, o.cases); }
