// Drives the statistical functions of math:: and metric::.
#include "harness.hpp"
using namespace vh;
using namespace openml;
template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> using Vec = Eigen::Matrix<T, Eigen::Dynamic, 1>;
const double QS = 4, DS = 100000;
template <class T> Mat<T> table(Rng& r, long n, long d, long span, long offset = 0) {
    Mat<T> X(n, d); for (long j = 0; j < d; j++) { long o = offset ? offset + r.range(-span, span) : 0; for (long i = 0; i < n; i++) X(i, j) = (T)((o * 4 + r.range(-4 * span, 4 * span)) / 4.0); }
    if (r.coin(1, 6) && n > 1) X.row(n - 1) = X.row(0);
    if (r.coin(1, 6) && d > 1) X.col(d - 1) = X.col(0);
    if (r.coin(1, 10)) X.setConstant(X(0, 0));
    return X;
}
template <class T> long side(Rng& r) { return r.coin(1, 4) ? 1 : r.coin(1, 8) ? r.range(9, 20) : r.range(1, 8); }
template <class T> void stats(Rng& r) {
    const int c = sizeof(T) == 4 ? 20 : 1;
    auto call = [&](const char* f) { Ev e("Call"); e.b("ok", true).str("f", f).i("q", (long)QS).x("s", DS, 1).i("c", c); return e; };
    for (int k = r.range(4, 10); k > 0; k--) {
        long n = side<T>(r), d = side<T>(r), axis = r.range(-1, 1), span = r.pick(std::vector<long>{1, 5, 40});
        Mat<T> X = table<T>(r, n, d, span), A = X; int what = r.range(0, 24);
        switch (what) {
        case 0: guarded("Call", [&] { bool df = axis == -1 && r.coin(); Mat<T> R = df ? math::sum<Mat<T>>(A) : math::sum<Mat<T>>(A, axis); call("sum").i("axis", axis).b("same", A == X).mat("X", X, QS).mat("R", R, DS).end(); }); break;
        case 1: guarded("Call", [&] { bool df = axis == -1 && r.coin(); Mat<T> R = df ? math::mean<Mat<T>>(A) : math::mean<Mat<T>>(A, axis); call("mean").i("axis", axis).b("same", A == X).mat("X", X, QS).mat("R", R, DS).end(); }); break;
        case 2: case 3: guarded("Call", [&] { if (r.coin()) { X = A = table<T>(r, n, d, std::min(span, 5L), c > 1 ? 300 : r.coin() ? 1000 : 8388608); if (axis == -1 && X.cols() > 1) axis = 0; }
            bool df = axis == -1 && r.coin(); Mat<T> R = df ? math::var<Mat<T>>(A) : math::var<Mat<T>>(A, axis); call("var").i("axis", axis).b("same", A == X).mat("X", X, QS).mat("R", R, DS).end(); }); break;
        case 4: guarded("Call", [&] { bool df = axis == 0 && r.coin(); Vec<T> v = df ? math::median<Mat<T>, Vec<T>>(A) : math::median<Mat<T>, Vec<T>>(A, axis); call("median").i("axis", axis).b("same", A == X).mat("X", X, QS).vec("v", v, DS).end(); }); break;
        case 5: guarded("Call", [&] { axis = r.range(0, 1); X = A = table<T>(r, n, d, 1); if (r.coin(1, 4)) X = A = table<T>(r, n, d, 40); Mat<T> R, N; std::tie(R, N) = axis == 0 && r.coin() ? math::mode<Mat<T>>(A) : math::mode<Mat<T>>(A, axis); call("mode").i("axis", axis).b("same", A == X).mat("X", X, QS).mat("R", R, QS).mat("N", N).end(); }); break;
        case 6: guarded("Call", [&] { bool df = axis == 0 && r.coin(); Mat<T> R = df ? math::cumsum<Mat<T>, Vec<T>>(A) : math::cumsum<Mat<T>, Vec<T>>(A, axis); call("cumsum").i("axis", axis).b("same", A == X).mat("X", X, QS).mat("R", R, DS).end(); }); break;
        case 7: guarded("Call", [&] { n = std::max(2L, n); X = A = table<T>(r, n, d, span, r.coin() ? 0 : c > 1 ? 100 : 8388608); Mat<T> R = math::cov<Mat<T>>(A); call("cov").b("same", A == X).mat("X", X, QS).mat("R", R, DS).end(); }); break;
        case 8: guarded("Call", [&] { if (r.coin()) X = A = table<T>(r, n, d, span, c > 1 ? 100 : 8388608); Mat<T> R = math::center<Mat<T>>(A); call("center").b("same", A == X).mat("X", X, QS).mat("R", R, DS).end(); }); break;
        case 9: guarded("Call", [&] { bool sq = r.coin(); if (d > 4) X = A = table<T>(r, n, d, std::min(span, 5L)); bool df = !sq && r.coin(); Mat<T> R = df ? math::row_norms<Mat<T>, Vec<T>>(A) : math::row_norms<Mat<T>, Vec<T>>(A, sq); call("norm").i("axis", 1).str("p", sq ? "sq" : "2").b("vector", false).b("same", A == X).mat("X", X, QS).mat("R", R, DS).end(); }); break;
        case 10: guarded("Call", [&] { axis = r.range(0, 1); bool df = axis == 0 && r.coin(); Vec<T> v = df ? math::norm2<Mat<T>, Vec<T>>(A) : math::norm2<Mat<T>, Vec<T>>(A, axis); call("norm").i("axis", axis).str("p", "2").b("vector", true).b("same", A == X).mat("X", X, QS).vec("v", v, DS).end(); }); break;
        case 11: guarded("Call", [&] { axis = r.range(0, 1); int p = r.range(0, 2); Mat<T> R = common::norm<Mat<T>>(A, axis, p == 0 ? 1 : p == 1 ? 2 : Eigen::Infinity); call("norm").i("axis", axis).str("p", p == 0 ? "1" : p == 1 ? "2" : "inf").b("vector", false).b("same", A == X).mat("X", X, QS).mat("R", R, DS).end(); }); break;
        case 12: guarded("Call", [&] { Mat<T> R = math::abs<Mat<T>>(A); call("abs").b("same", A == X).mat("X", X, QS).mat("R", R, DS).end(); }); break;
        case 13: guarded("Call", [&] { if (r.coin()) X = A = table<T>(r, n, d, 1); Mat<T> R = math::sign<Mat<T>>(A); call("sign").b("same", A == X).mat("X", X, QS).mat("R", R, DS).end(); }); break;
        case 14: guarded("Call", [&] { int p = r.range(-2, 3); X = A = table<T>(r, n, d, p == 3 ? 5 : span);
            if (p < 0) for (long i = 0; i < X.size(); i++) { X(i) = std::abs(X(i)); if (p == -1) { X(i) = X(i) + (T)0.25; if (r.coin()) X(i) = -X(i); } } A = X;
            Mat<T> R = math::power<Mat<T>>(A, p == -2 ? 0.5 : (double)p); call("power").i("k", p).b("same", A == X).mat("X", X, QS).mat("R", R, DS).end(); }); break;
        case 15: guarded("Call", [&] { X = A = table<T>(r, n, d, r.coin(1, 3) ? 2000 : span); Mat<T> R = math::sigmoid<Mat<T>>(A); call("sigmoid").b("same", A == X).mat("X", X, QS).mat("R", R, DS).end(); }); break;
        case 16: case 17: guarded("Call", [&] { if (r.coin(1, 3)) X = A = table<T>(r, n, d, r.coin() ? 2000 : 5, r.coin() ? 0 : 1000); bool df = axis == 0 && r.coin(); Mat<T> R = df ? math::softmax<Mat<T>>(A) : math::softmax<Mat<T>>(A, axis); call("softmax").i("axis", axis).b("same", A == X).mat("X", X, QS).mat("R", R, DS).end(); }); break;
        case 18: guarded("Call", [&] { if (r.coin(1, 3)) X = A = table<T>(r, n, d, r.coin() ? 2000 : 5, r.coin() ? 0 : r.coin() ? 1000 : -1000); Vec<T> v = math::logsumexp<Mat<T>, Vec<T>>(A, axis); call("logsumexp").i("axis", axis).b("same", A == X).mat("X", X, QS).vec("v", v, DS).end(); }); break;
        case 19: case 20: {
            Vec<T> u(n), w(n); long cl = r.range(1, 4); for (long i = 0; i < n; i++) { u(i) = (T)(r.range(0, cl - 1) - 1) / 2; w(i) = 1; }
            bool wt = r.coin(); if (wt) for (int t = 0; t < 2 * n; t++) { long i = r.range(0, n - 1), j = r.range(0, n - 1); if (w(i) > 0.25) { w(i) -= (T)0.25; w(j) += (T)0.25; } }
            guarded("Call", [&] { double a = what == 19 ? (wt ? math::entropy<Vec<T>>(u, w) : math::entropy<Vec<T>>(u)) : (wt ? math::gini<Vec<T>>(u, w) : math::gini<Vec<T>>(u));
                call(what == 19 ? "entropy" : "gini").b("same", true).vec("u", u, QS).vec("w", w, QS).x("a", a, DS).end(); });
            if (r.coin(1, 8)) { Vec<T> bad = Vec<T>::Ones(n + r.range(1, 2)); bool ok = true; try { if (what == 19) math::entropy<Vec<T>>(u, bad); else math::gini<Vec<T>>(u, bad); } catch (const std::invalid_argument&) { ok = false; } Ev("Refuse").str("f", "weights").b("ok", ok).end(); }
            break; }
        case 21: guarded("Call", [&] { T x = r.range(-80, 80) / 4.0, m = r.range(-80, 80) / 4.0, v = r.range(1, 60) / 4.0; double a = math::gaussian_fn<T>(x, m, v); call("gauss").b("same", true).x("x", x, QS).x("m", m, QS).x("v", v, QS).x("a", a, DS).end(); }); break;
        case 22: guarded("Call", [&] { Vec<T> u = table<T>(r, n, 1, span), w = table<T>(r, n, 1, span); if (r.coin()) { double a = metric::mean_absolute_error<Vec<T>>(u, w); call("mse").b("same", true).vec("u", u, QS).vec("w", w, QS).x("a", a, DS).end(); }
            else { n = std::max(n, 2L); u = table<T>(r, n, 1, span, r.coin() ? 0 : c > 1 ? 20 : 8388608); u(0) = u(1) + 5; w = u; for (long i = 0; i < n; i++) w(i) += (T)(r.range(-8, 8) / 4.0); double a = metric::explained_variance_score<Vec<T>>(u, w); call("explained").b("same", true).vec("u", u, QS).vec("w", w, QS).x("a", a, DS).end(); } }); break;
        case 23: guarded("Call", [&] { Mat<T> B = table<T>(r, n, 1, span); A = table<T>(r, n, 1, span); std::vector<T> u(A.data(), A.data() + n), w(B.data(), B.data() + n); int p = r.range(0, 4); double a;
            if (p == 0) a = metric::euclidean_distance<T>(u, w); else if (p == 1) a = metric::manhattan_distance<T>(u, w);
            else if (r.coin() && n % 2 == 0) { Mat<T> A2 = Eigen::Map<Mat<T>>(A.data(), n / 2, 2), B2 = Eigen::Map<Mat<T>>(B.data(), n / 2, 2); a = metric::minkowski_distance<Mat<T>>(A2, B2, p == 2 ? 1 : p == 3 ? 2 : Eigen::Infinity); }
            else a = metric::minkowski_distance<Mat<T>>(A, B, p == 2 ? 1 : p == 3 ? 2 : Eigen::Infinity);
            call("distance").b("same", true).str("p", p == 0 || p == 3 ? "2" : p == 4 ? "inf" : "1").sv("u", u, QS).sv("w", w, QS).x("a", a, DS).end(); }); break;
        default: if (r.coin()) guarded("Call", [&] { Vec<T> u = table<T>(r, n, 1, span); Mat<T> R = math::diagmat<Mat<T>, Vec<T>>(u); call("diagmat").b("same", true).vec("u", u, QS).mat("R", R, QS).end(); });
            else { int w = r.range(0, 5), bad = r.pick(std::vector<int>{2, 3, -2}); bool ok = true; const char* f = w <= 2 ? "axis" : w == 3 ? "order" : "shape";
                try { if (w == 0) math::sum<Mat<T>>(A, bad); else if (w == 1) math::mean<Mat<T>>(A, bad); else if (w == 2) math::var<Mat<T>>(A, bad);
                      else if (w == 3) metric::minkowski_distance<Mat<T>>(A, A, r.pick(std::vector<int>{0, 3, -2}));
                      else if (w == 4) metric::minkowski_distance<Mat<T>>(A, Mat<T>::Zero(n + 1, d), 2);
                      else metric::minkowski_distance<Mat<T>>(Mat<T>::Zero(2, 3), Mat<T>::Zero(3, 2), 2); }
                catch (const std::invalid_argument&) { ok = false; }
                Ev("Refuse").str("f", f).b("ok", ok).end(); }
        }
    }
}
int main(int argc, char** argv) { Opt o = parse(argc, argv); return run(o, [](Rng& r, long, const Opt&) { if (r.coin(1, 4)) stats<float>(r); else stats<double>(r); }, o.cases); }
