// Drives the linear models: histories of fit / coefficient / predict / probability calls.
#include "harness.hpp"
#ifdef REGRESSORS
#include "/repo/src/methods/linear_model/linear_regression.hpp"
#include "/repo/src/methods/linear_model/ridge_regression.hpp"
#include "/repo/src/methods/linear_model/lasso_regression.hpp"
#else
#include "/repo/src/methods/linear_model/logistic_regression.hpp"
#include "/repo/src/methods/linear_model/softmax_regression.hpp"
#include "/repo/src/methods/linear_model/perceptron.hpp"
#endif
using namespace vh;
using namespace openml;
template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> using Col = Eigen::Matrix<T, Eigen::Dynamic, 1>;
using MatD = Eigen::MatrixXd;

// coefficients, one row per class (a single row for one-column weights)
template <class T, class M> Mat<T> coef(const M& m) { Mat<T> w = m.get_coef(); Mat<T> t = w.transpose(); return t; }

#ifdef REGRESSORS
// ---------------------------------------------------------------- regressors
template <class T, class M> void regress(Rng& r, M& model, const std::string& kind, double lam, bool ic, double beta) {
    const double s = 100000;
    Ev("Make").str("kind", kind).i("s", (long)s).x("lam", lam, s).b("ic", ic).b("flt", sizeof(T) == 4).end();
    int fits = r.range(1, 2);
    for (int f = 0; f < fits; f++) {
        Mat<T> X; Col<T> y; MatD A; bool found = false, large = kind != "lasso" && r.coin(1, 25); long n = 0, d = 0;
        for (int t = 0; t < 200 && !found; t++) {
            d = r.range(1, 4); long p = d + (ic ? 1 : 0);
            n = kind == "linear" ? r.range(p, 9) : r.range(1, 9);
            if (large) { d = r.range(1, 7); p = d + (ic ? 1 : 0); n = r.range(20, 40); }
            X = Mat<T>(n, d); y = Col<T>(n);
            for (long i = 0; i < n; i++) { for (long j = 0; j < d; j++) X(i, j) = (T)(r.range(-8, 8) / 4.0); y(i) = (T)(r.range(-20, 20) / 4.0); }
            A = MatD::Ones(n, p); A.leftCols(d) = X.template cast<double>();
            MatD G = A.transpose() * A + (kind == "ridge" ? lam : 0) * MatD::Identity(p, p);
            Eigen::SelfAdjointEigenSolver<MatD> es(G);
            double lo = es.eigenvalues()(0), hi = es.eigenvalues()(p - 1);
            found = kind == "lasso" ? (n >= p && lo / n > 0.05 && hi / n < 8) : (lo > 0.05 && hi / lo < (sizeof(T) == 4 ? 100 : 2000));
            if (kind == "lasso") found = found && G.diagonal().maxCoeff() / n < beta;
        }
        if (!found) return;
        Mat<T> X0 = X; Col<T> y0 = y;
        bool ok = guarded("Fit", [&] { model.fit(X, y); Mat<T> w = coef<T>(model);
            Ev("Fit").b("ok", true).mat("X", X0, s).vec("y", y0, s).mat("w", w, s).b("same", X == X0 && y == y0).end(); });
        if (!ok) return;
        int qs = r.range(1, 3);
        for (int q = 0; q < qs; q++) {
            if (r.coin(1, 4)) { guarded("Coef", [&] { Ev("Coef").b("ok", true).mat("w", coef<T>(model), s).end(); }); continue; }
            long nq = r.range(1, 4); Mat<T> Q(nq, d); for (long i = 0; i < nq; i++) for (long j = 0; j < d; j++) Q(i, j) = (T)(r.range(-12, 12) / 4.0);
            if (r.coin(1, 4)) Q = X;
            Mat<T> Q0 = Q;
            guarded("Predict", [&] { Col<T> p = model.predict(Q); Ev("Predict").b("ok", true).mat("X", Q0, s).vec("p", p, s).b("same", Q == Q0).end(); });
        }
    }
}
// the ridge path: one data set, growing penalties (least squares is penalty 0)
template <class T> void path(Rng& r) {
    const double s = 100000; bool ic = r.coin(); double lam = r.coin() ? 0 : 0.25;
    long d = r.range(1, 3), n = d + 1 + r.range(0, 4); Mat<T> X(n, d); Col<T> y(n);
    for (int t = 0; t < 200; t++) {
        for (long i = 0; i < n; i++) { for (long j = 0; j < d; j++) X(i, j) = (T)(r.range(-8, 8) / 4.0); y(i) = (T)(r.range(-20, 20) / 4.0); }
        MatD A = MatD::Ones(n, d + (ic ? 1 : 0)); A.leftCols(d) = X.template cast<double>(); MatD G = A.transpose() * A;
        Eigen::SelfAdjointEigenSolver<MatD> es(G); if (es.eigenvalues()(0) > 0.2) break;
        if (t == 199) return;
    }
    int steps = r.range(2, 4);
    for (int k = 0; k < steps; k++) {
        Ev("Make").str("kind", lam == 0 ? "linear" : "ridge").i("s", (long)s).x("lam", lam, s).b("ic", ic).b("flt", sizeof(T) == 4).end();
        auto rec = [&](auto& m) { guarded("Fit", [&] { m.fit(X, y); Ev("Fit").b("ok", true).mat("X", X, s).vec("y", y, s).mat("w", coef<T>(m), s).b("same", true).end(); }); };
        if (lam == 0) { linear_model::LinearRegression<T> m(ic); rec(m); } else { linear_model::RidgeRegression<T> m(lam, ic); rec(m); }
        lam += r.pick(std::vector<double>{0.25, 1, 4});
    }
}
template <class T> void regressors(Rng& r) {
    int k = r.range(0, 6); bool ic = r.coin();
    if (k <= 1) { if (ic && r.coin()) { linear_model::LinearRegression<T> m; regress<T>(r, m, "linear", 0, ic, 0); } else { linear_model::LinearRegression<T> m(ic); regress<T>(r, m, "linear", 0, ic, 0); } }
    else if (k <= 3) {
        if (r.coin(1, 5)) { linear_model::RidgeRegression<T> m; regress<T>(r, m, "ridge", 0.5, true, 0); }
        else { double lam = r.pick(std::vector<double>{0.25, 0.5, 1, 2, 5}); linear_model::RidgeRegression<T> m(lam, ic); regress<T>(r, m, "ridge", lam, ic, 0); }
    }
    else if (k == 4) path<T>(r);
    else { double lam = r.pick(std::vector<double>{0, 0.125, 0.5, 1, 2}), beta = r.pick(std::vector<double>{4, 8});
        linear_model::LassoRegression<T> m(5000, lam, beta, r.coin(1, 8), false, ic); regress<T>(r, m, "lasso", lam, ic, beta); }
}
template <class T> void body(Rng& r) { regressors<T>(r); }
#else

// ---------------------------------------------------------------- classifiers
struct Data { MatD X; Eigen::VectorXd y; MatD C; std::vector<double> labels; bool sep; };
static Data cls_data(Rng& r, bool soft) {
    Data D; D.sep = r.coin(2, 3);
    long K = soft ? r.range(2, 4) : 2, d = K > 2 ? r.range(2, 3) : r.range(1, 3);
    static const double base[4][2] = {{4, 4}, {-4, -4}, {-4, 4}, {4, -4}};
    long rot = r.range(0, 3);
    D.C = MatD::Zero(K, d);
    if (K == 2) { double sg = r.coin() ? 1 : -1; for (long j = 0; j < d; j++) { double t = r.coin() ? 4 : -4; D.C(0, j) = sg * t; D.C(1, j) = -sg * t; } }
    else for (long k = 0; k < K; k++) for (long j = 0; j < 2; j++) D.C(k, j) = base[(k + rot) % 4][j];
    if (soft) { double off = r.pick(std::vector<double>{0, 0, 1}), st = r.pick(std::vector<double>{1, 1, 2}); for (long k = 0; k < K; k++) D.labels.push_back(off + st * k); }
    else D.labels = {0, 1};
    long n = K * r.range(2, 5);
    D.X = MatD(n, d); D.y = Eigen::VectorXd(n);
    std::vector<long> p = perm(r, n);
    for (long i = 0; i < n; i++) {
        long k = D.sep ? p[i] % K : (i < K ? p[i] % K : r.range(0, K - 1)); if (!D.sep && i < K) k = i;
        D.y(i) = D.labels[k];
        for (long j = 0; j < d; j++) D.X(i, j) = D.sep ? D.C(k, j) + r.range(-4, 4) / 4.0 : r.range(-12, 12) / 4.0;
    }
    return D;
}
template <class T, class M> void classify(Rng& r, M& model, const std::string& kind, bool ic, bool hasprob, Data first) {
    const double s = 100000;
    bool soft = kind == "softmax";
    Ev("Make").str("kind", kind).i("s", (long)s).i("lam", 0).b("ic", ic).b("flt", sizeof(T) == 4).end();
    int fits = r.range(1, 2);
    for (int f = 0; f < fits; f++) {
        Data D = f == 0 ? first : cls_data(r, soft);
        if (f > 0 && D.X.rows() < first.X.rows()) break;        // the batch size was chosen for the first
        if (f > 0 && D.X.rows() % first.labels.size() != 0) break;
        Mat<T> X = D.X.template cast<T>(); Col<T> y = D.y.template cast<T>();
        Mat<T> X0 = X; Col<T> y0 = y;
        bool ok = guarded("Fit", [&] { model.fit(X, y); Mat<T> w = coef<T>(model);
            Ev("Train").b("ok", true).mat("X", X0, s).vec("y", y0, 1).sv("labels", D.labels).mat("C", D.C, s).b("sep", D.sep).mat("w", w, s).b("same", X == X0 && y == y0).end(); });
        if (!ok) return;
        int qs = r.range(1, 4);
        for (int q = 0; q < qs; q++) {
            if (r.coin(1, 6)) { guarded("Coef", [&] { Ev("Coef").b("ok", true).mat("w", coef<T>(model), s).end(); }); continue; }
            long nq = r.range(1, 4), d = X.cols(); Mat<T> Q(nq, d); for (long i = 0; i < nq; i++) for (long j = 0; j < d; j++) Q(i, j) = (T)(r.range(-20, 20) / 4.0);
            if (r.coin(1, 3)) Q = X;
            if (r.coin(1, 4)) for (long i = 0; i < Q.rows(); i++) if (r.coin()) Q.row(i) *= (T)r.pick(std::vector<double>{16, 64, 128});      // scores far apart within a batch
            Mat<T> Q0 = Q;
            bool both = r.coin();
            if (both || r.coin()) guarded("Labels", [&] { Col<T> p = model.predict(Q); Ev("Labels").b("ok", true).mat("X", Q0, s).vec("p", p, 1).b("same", Q == Q0).end(); });
            if constexpr (!std::is_same<M, linear_model::Perceptron<T>>::value)
                if (hasprob && (both || r.coin())) guarded("Proba", [&] { Mat<T> p = model.predict_prob(Q); Ev("Proba").b("ok", true).mat("X", Q0, s).mat("P", p, s).b("same", Q == Q0).end(); });
        }
    }
}
template <class T> void classifiers(Rng& r) {
    int k = r.range(0, 6); srand(r.range(1, 1 << 30));
    bool shuffle = r.coin();
    Data D = cls_data(r, k >= 5);
    long n = D.X.rows(), K = D.labels.size(); long batch = r.coin() ? n : K;
    if (k == 0) { linear_model::Perceptron<T> m(r.pick(std::vector<double>{4, 8}), 0.0, 1e-4, batch, 2000, 30, "l2", true, shuffle, false);
        classify<T>(r, m, "perceptron", true, false, D); }
    else if (k == 1) { bool ic = false; linear_model::Perceptron<T> m(4, 0.0, 1e-4, batch, 2000, 30, "l2", ic, shuffle, false); classify<T>(r, m, "perceptron", ic, false, D); }
    else if (k <= 4) {
        int v = r.range(0, 4); double lam = r.pick(std::vector<double>{0, 0, 0.01});
        if (v == 0 || v == 1) { linear_model::LogisticRegression<T> m(0.5, lam, 1e-3, batch, 2000, 5, v ? "sag" : "sgd", lam > 0 ? "l2" : "None", shuffle, false); classify<T>(r, m, "logistic", true, true, D); }
        if (v == 2) { linear_model::LogisticRegression<T> m(0.01, 20.0, 2000, std::string("scd"), std::string("l1"), false, false); classify<T>(r, m, "logistic", true, true, D); }
        if (v == 3) { bool bt = r.coin(); linear_model::LogisticRegression<T> m(1e-4, 1e-4, 1e-5, 0.9, 200, 6, r.range(1, 3), 40, "lbfgs", "None", bt ? "backtracking" : "bracketing", "wolfe", false, false); classify<T>(r, m, "logistic", true, true, D); }
        if (v == 4) { linear_model::LogisticRegression<T> m; if (n < 16) { linear_model::LogisticRegression<T> m2(0.1, 0.0, 1e-4, n, 2000, 5, "sag", "None", shuffle, true); classify<T>(r, m2, "logistic", true, true, D); } else classify<T>(r, m, "logistic", true, true, D); }
    }
    else { linear_model::SoftmaxRegression<T> m(r.pick(std::vector<double>{0.1, 0.3}), 0.0, 1e-3, batch, 2000, 5, "sgd", "None", shuffle, false); classify<T>(r, m, "softmax", true, true, D); }
}
template <class T> void body(Rng& r) { classifiers<T>(r); }
#endif
int main(int argc, char** argv) {
    Opt o = parse(argc, argv);
    return run(o, [](Rng& r, long, const Opt&) { if (r.coin(1, 3)) body<float>(r); else body<double>(r); }, o.cases);
}
