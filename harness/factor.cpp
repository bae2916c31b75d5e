// Drives the matrix factorisations of math::.
#include "harness.hpp"
using namespace vh;
using namespace openml;
template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> using Vec = Eigen::Matrix<T, Eigen::Dynamic, 1>;
using Idx = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, 1>;
const double QS = 4, DS = 100000;
template <class T> Mat<T> table(Rng& r, long n, long d, long span, long unit = 1) {
    Mat<T> X(n, d); for (long j = 0; j < d; j++) for (long i = 0; i < n; i++) X(i, j) = (T)(unit * r.range(-span * (4 / unit), span * (4 / unit)) / 4.0);
    return X;
}
template <class T> Mat<T> lowrank(Rng& r, long n, long d, long k) { return table<T>(r, n, k, 1, 2) * table<T>(r, k, d, 1, 2); }
// any shape of matrix: dense, sparse, low rank, with repeated or zero lines, zero, identity, permuted diagonal
template <class T> Mat<T> any(Rng& r, long n, long d, long span) {
    Mat<T> X = table<T>(r, n, d, span);
    switch (r.range(0, 9)) {
    case 0: for (long i = 0; i < X.size(); i++) if (r.coin(2, 3)) X(i) = 0; break;
    case 1: X = lowrank<T>(r, n, d, r.range(1, 2)); break;
    case 2: X.row(r.range(0, n - 1)).setZero(); X.col(r.range(0, d - 1)).setZero(); break;
    case 3: X.row(n - 1) = X.row(0); X.col(d - 1) = X.col(0); break;
    case 4: X.setZero(); { auto p = perm(r, std::max(n, d)); for (long i = 0; i < n; i++) if (p[i] < d) X(i, p[i]) = (T)(r.range(-4 * span, 4 * span) / 4.0); } break;
    case 5: if (r.coin(1, 3)) X.setZero(); else if (r.coin()) X.setIdentity(); else X.setConstant((T)span); break;
    case 6: for (long j = 0; j < d; j++) for (long i = 0; i < n; i++) if (i > j) X(i, j) = 0; if (r.coin()) X = X.rowwise().reverse().eval(); break;
    default: break;
    }
    return X;
}
template <class T> void factor(Rng& r, bool big) {
    const int c = sizeof(T) == 4 ? 60 : 1;
    auto call = [&](const char* f) { Ev e("Call"); e.b("ok", true).str("f", f).i("q", (long)QS).i("c", c); return e; };
    auto side = [&] { return r.coin(1, 5) ? 1 : r.coin(1, big ? 4 : 25) ? r.range(8, 20) : r.range(1, 6); };
    for (int k = r.range(3, 8); k > 0; k--) {
        long n = side(), d = side(), span = r.pick(std::vector<long>{1, 2, c > 1 ? 2 : 10});
        Mat<T> X = any<T>(r, n, d, span), A = X;
        switch (r.range(0, 12)) {
        case 0: case 1: guarded("Call", [&] { bool p = r.coin(); Mat<T> P, L, U; std::tie(P, L, U) = p || r.coin() ? math::lu<Mat<T>>(A, p) : math::lu<Mat<T>>(A);
            call("lu").b("permute", p).b("same", A == X).mat("A", X, QS).mat("P", P, DS).mat("L", L, DS).mat("U", U, DS).end(); }); break;
        case 2: guarded("Call", [&] { bool f = r.coin(); Mat<T> Q, R; std::tie(Q, R) = f || r.coin() ? math::qr<Mat<T>>(A, f) : math::qr<Mat<T>>(A);
            call("qr").b("full", f).b("same", A == X).mat("A", X, QS).mat("Q", Q, DS).mat("R", R, DS).end(); }); break;
        case 3: case 4: guarded("Call", [&] { bool f = r.coin(); Mat<T> U, V; Vec<T> s; std::tie(U, s, V) = f || r.coin() ? math::exact_svd<Mat<T>, Vec<T>>(A, f) : math::exact_svd<Mat<T>, Vec<T>>(A);
            call("svd").b("full", f).b("same", A == X).mat("A", X, QS).mat("U", U, DS).vec("s", s, DS).mat("V", V, DS).end(); }); break;
        case 5: {
            // a sketch that captures the whole matrix: as wide as the matrix, or wider than its rank
            long m, p; n = r.range(1, 9); d = r.range(1, 9); m = std::min(n, d);
            if (c > 1) break;
            std::string norm = r.pick(std::vector<std::string>{"LU", "QR", "None"}); long it = norm == "None" ? r.range(0, 1) : r.range(0, 5), rank = r.range(1, m);
            X = r.coin() ? lowrank<T>(r, n, d, rank) : Mat<T>(table<T>(r, n, d, 2)); long q = r.range(std::min(m, (long)Eigen::FullPivLU<Mat<T>>(X).rank()), m); if (q < 1) q = 1;
            long kk = r.range(1, q); p = q - kk; A = X; bool flip = r.coin(2, 3);
            // or a narrower sketch, brought to the leading directions by many power iterations
            if (norm != "None" && r.coin(1, 3)) {
                n = r.range(5, 9); d = r.range(5, 9); m = std::min(n, d); kk = r.range(1, m - 4); p = r.range(2, m - kk - 1); it = r.range(14, 18);
                X = table<T>(r, n, kk, 2) * table<T>(r, kk, d, 2) * r.range(4, 6) + Mat<T>(table<T>(r, n, d, 1)); X = ((X * QS).array().round() / QS).matrix().eval(); A = X; q = m;
                Vec<T> sv = Eigen::JacobiSVD<Mat<T>>(X).singularValues(); if (sv(kk + p) * 3 > sv(kk - 1) || sv(kk - 1) * 20 < sv(0)) break;
            }
            // stay away from directions the power iterations lose to rounding
            Vec<T> ss = Eigen::JacobiSVD<Mat<T>>(X).singularValues(); bool fine = true; for (long i = 0; i < ss.size(); i++) if (ss(i) > 1e-9 && ss(i) < ss(0) / (it == 0 || norm != "None" ? 1000 : 20)) fine = false;
            if (!fine || ss(0) == 0) break;
            guarded("Call", [&] { Mat<T> U, Vt, FU, FV; Vec<T> s, fs; std::tie(FU, fs, FV) = math::exact_svd<Mat<T>, Vec<T>>(X, false);
                bool df = flip && r.coin();
                std::tie(U, s, Vt) = df && norm == "LU" ? (it == 4 ? math::randomized_svd<Mat<T>, Vec<T>, Idx>(A, kk, p) : math::randomized_svd<Mat<T>, Vec<T>, Idx>(A, kk, p, it)) : df ? math::randomized_svd<Mat<T>, Vec<T>, Idx>(A, kk, p, it, norm) : math::randomized_svd<Mat<T>, Vec<T>, Idx>(A, kk, p, it, norm, flip); Mat<T> V = Vt.transpose();
                call("randomized").i("k", kk).b("flipped", flip).b("same", A == X).mat("A", X, QS).mat("U", U, DS).vec("s", s, DS).mat("V", V, DS).mat("FU", FU, DS).vec("fs", fs, DS).mat("FV", FV, DS).end(); });
            break; }
        case 6: guarded("Call", [&] { long m = r.range(1, 5); bool byU = r.coin(); Mat<T> U = table<T>(r, n, m, r.coin() ? 1 : 5), Vt = table<T>(r, m, d, r.coin() ? 1 : 5);
            // the sign of a zero column is not defined
            for (long j = 0; j < m; j++) { if (U.col(j).isZero(0)) U(r.range(0, n - 1), j) = -1; if (Vt.row(j).isZero(0)) Vt(j, r.range(0, d - 1)) = -1; }
            Mat<T> RU, RV; std::tie(RU, RV) = byU && r.coin() ? math::svd_flip<Mat<T>, Vec<T>, Idx>(U, Vt) : math::svd_flip<Mat<T>, Vec<T>, Idx>(U, Vt, byU);
            Mat<T> V = Vt.transpose(), RVt = RV.transpose();
            call("flip").b("byU", byU).b("same", true).mat("U", U, QS).mat("V", V, QS).mat("RU", RU, QS).mat("RV", RVt, QS).end(); }); break;
        case 7: case 8: {
            long cut = 0;
            if (r.coin(1, 3)) {   // a scaled permutation: entries of very different sizes
                long span4 = r.pick(c > 1 ? std::vector<long>{8, 100} : std::vector<long>{8, 200, 20000, 200000}); X.setZero(); auto p = perm(r, std::max(n, d));
                for (long i = 0; i < n; i++) if (p[i] < d) X(i, p[i]) = (T)(r.coin() ? r.range(-span4, span4) / 4.0 : r.range(-8, 8) / 4.0);
                if (r.coin()) cut = r.coin() ? r.range(1, 12) : r.range(1, span4);
                A = X;
                guarded("Call", [&] { Mat<T> P = cut ? math::pinv<Mat<T>, Vec<T>>(A, (cut + 0.5) / 4) : math::pinv<Mat<T>, Vec<T>>(A); call("pinvdiag").i("cut", cut).b("same", A == X).mat("A", X, QS).mat("P", P, DS).end(); });
                break;
            }
            if (r.coin(1, 4)) { X.setZero(); auto p = perm(r, std::max(n, d)); for (long i = 0; i < n; i++) if (p[i] < d) X(i, p[i]) = (T)(r.range(-12, 12) / 4.0); cut = r.range(1, 12); }
            else { if (c > 1) break; if (n > 6 || d > 6) break; Vec<T> s = Eigen::JacobiSVD<Mat<T>>(X).singularValues(); bool fine = true; for (long i = 0; i < s.size(); i++) if (s(i) > 1e-9 && s(i) < 0.02) fine = false; if (!fine) break; }
            A = X;
            guarded("Call", [&] { Mat<T> P = cut ? math::pinv<Mat<T>, Vec<T>>(A, (cut + 0.5) / 4) : math::pinv<Mat<T>, Vec<T>>(A); call("pinv").i("cut", cut).b("same", A == X).mat("A", X, QS).mat("P", P, DS).end(); });
            break; }
        case 9: guarded("Call", [&] { n = r.range(1, 6); X = any<T>(r, n, n, n <= 4 && c == 1 ? 5 : 2); if (r.coin(1, 3)) X = (X + Mat<T>(X.transpose())).eval() / 2; for (long i = 0; i < X.size(); i++) X(i) = (T)(std::round(4 * (double)X(i)) / 4); if (r.coin(1, 3)) X.diagonal().array() += (T)2; A = X;
            double v = math::logdet<Mat<T>>(A); call("logdet").b("same", A == X).mat("A", X, QS).x("v", v, DS).end(); }); break;
        case 10: { n = r.range(1, 5); X = table<T>(r, n, n, n <= 4 ? 5 : 2); X = (X * X.transpose()).eval();
            if (r.coin()) X = table<T>(r, n, n, 2);
            for (long i = 0; i < n; i++) for (long j = 0; j <= i; j++) { double v = std::max(-10.0, std::min(10.0, std::round(4 * (double)X(i, j)) / 4)); X(i, j) = X(j, i) = (T)v; }
            if (r.coin()) X.diagonal().array() += (T)r.range(1, 3); if (r.coin(1, 8)) X = -X; if (n > 1 && r.coin(1, 8)) X(n - 1, n - 1) = -1; A = X; bool low = r.coin();
            Mat<T> R; bool ok = true; try { R = low && r.coin() ? math::cholesky<Mat<T>>(A) : math::cholesky<Mat<T>>(A, low); } catch (const std::runtime_error&) { ok = false; }
            if (ok) call("cholesky").b("lower", low).b("same", A == X).mat("A", X, QS).mat("R", R, DS).end();
            else Ev("Refuse").str("f", "cholesky").b("ok", false).mat("A", X, QS).end();
            break; }
        case 11: {
            if (c > 1) break;
            int kind = r.range(0, 4); n = r.range(1, 4); bool ok = true; Mat<T> v, V;
            if (kind == 0) { n = 2; X = table<T>(r, 2, 2, 3); X(1, 1) = X(0, 0) + (T)r.range(-1, 1) / 4; X(0, 1) = (T)r.range(1, 8) / 4; X(1, 0) = -(T)r.range(1, 8) / 4; if (std::pow(X(0, 0) - X(1, 1), 2) + 4 * X(0, 1) * X(1, 0) >= 0) break; }
            else if (kind == 1) { X = table<T>(r, n, n, 4); for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) X(i, j) = X(j, i); if (r.coin(1, 4)) X = X.diagonal().asDiagonal(); }
            else if (kind == 4) { // symmetric with an eigenvalue as often as it can be
                n = r.range(1, 6); if (r.coin()) n = r.range(4, 6); Vec<T> w(n); for (long i = 0; i < n; i++) w(i) = r.range(-3, 3); X = (T)r.range(-1, 1) / 4 * (w * w.transpose()); X.diagonal().array() += (T)r.range(-4, 4) / 4; }
            else { // T D T^-1 with T a product of a unit lower and a unit upper matrix
                Mat<T> L = Mat<T>::Identity(n, n), U = L, Li, Ui; for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) { L(i, j) = r.range(-1, 1); U(j, i) = r.range(-1, 1); }
                Li = L.inverse(); Ui = U.inverse(); for (long i = 0; i < n * n; i++) { Li(i) = std::round(Li(i)); Ui(i) = std::round(Ui(i)); }
                Mat<T> D = Mat<T>::Zero(n, n); auto p = perm(r, 9); for (long i = 0; i < n; i++) D(i, i) = p[i] - 4; X = L * U * D * Ui * Li; if (X.cwiseAbs().maxCoeff() > 200) break; }
            A = X;
            if (kind == 0) { try { math::eig<Mat<T>>(A); } catch (const std::runtime_error&) { ok = false; } Ev("Refuse").str("f", "eig").b("ok", ok).mat("A", X, QS).end(); }
            else guarded("Call", [&] { std::tie(v, V) = math::eig<Mat<T>>(A); call("eig").b("same", A == X && v.cols() == 1).mat("A", X, QS).vec("v", v, DS).mat("V", V, DS).end(); });
            break; }
        default: {
            int w = r.range(0, 2); bool ok = true;
            if (w == 0) { n = r.range(1, 6); d = r.range(1, 6); long kk = r.range(1, 6), p = r.range(0, 5); X = table<T>(r, n, d, 2); try { math::randomized_svd<Mat<T>, Vec<T>, Idx>(X, kk, p, 1); } catch (const std::invalid_argument&) { ok = false; }
                Ev("Refuse").str("f", "sketch").b("ok", ok).i("k", kk).i("p", p).i("n", n).i("d", d).end(); }
            else if (w == 1) { X = table<T>(r, 4, 4, 2); try { math::randomized_svd<Mat<T>, Vec<T>, Idx>(X, 2, 1, 1, r.pick(std::vector<std::string>{"lu", "auto", ""})); } catch (const std::invalid_argument&) { ok = false; } Ev("Refuse").str("f", "normalizer").b("ok", ok).end(); }
            else { try { math::eig<Mat<T>>(Mat<T>(0, 0)); } catch (const std::invalid_argument&) { ok = false; } Ev("Refuse").str("f", "empty").b("ok", ok).end(); }
        }
        }
    }
}
int main(int argc, char** argv) { Opt o = parse(argc, argv); return run(o, [](Rng& r, long, const Opt& o) { if (r.coin(1, 5)) factor<float>(r, o.thorough); else factor<double>(r, o.thorough); }, o.cases); }
