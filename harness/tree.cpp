// Drives the decision trees: histories of fit / predict / predict_prob calls.  -DREGRESSION for the regressor.
#include "harness.hpp"
#ifdef REGRESSION
#include "/repo/src/methods/tree/decision_tree_regressor.hpp"
#else
#include "/repo/src/methods/tree/decision_tree_classifier.hpp"
#endif
using namespace vh;
using namespace openml;
template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> using Col = Eigen::Matrix<T, Eigen::Dynamic, 1>;
#ifdef REGRESSION
template <class T> using Model = decision_tree::DecisionTreeRegressor<T>;
const double SC = 100000, YU = 1;
#else
template <class T> using Model = decision_tree::DecisionTreeClassifier<T>;
const double SC = 1000000, YU = 2;
#endif
// features are logged in quarters
template <class T> void history(Rng& r, Model<T>& model) {
    int fits = r.range(1, 3);
    for (int f = 0; f < fits; f++) {
        long n = r.coin() ? r.range(1, 8) : r.range(6, 24), d = r.range(1, 3), span = r.pick(std::vector<long>{1, 3, 8, 40});
        if (r.coin(1, 40)) { n = r.range(30, 70); d = r.range(1, 2); } else if (r.coin(1, 20)) { n = r.range(2, 12); d = r.range(4, 7); }
        Mat<T> X(n, d); Col<T> y(n);
        for (long i = 0; i < n; i++) {
            for (long j = 0; j < d; j++) X(i, j) = (T)(r.range(-span, span) / 4.0);
            if (i > 0 && r.coin(1, 8)) X.row(i) = X.row(r.range(0, i - 1));
        }
#ifdef REGRESSION
        long hi = r.pick(std::vector<long>{1, 3, 8});
        for (long i = 0; i < n; i++) y(i) = (T)r.range(-hi, hi);
        if (r.coin(1, 6)) y.setConstant(5);
#else
        long K = r.range(1, 4);
        std::vector<double> pool = r.coin() ? std::vector<double>{0, 1, 2, 3} : std::vector<double>{7, -1, 2.5, 4};
        for (long i = 0; i < n; i++) y(i) = (T)pool[r.range(0, K - 1)];
#endif
        if (r.coin(1, 3)) for (long i = 0; i < n; i++) y(i) = X(i, 0) > X(n / 2, 0) ? y(0) : y(n - 1);      // a signal to find
        // neither the tree nor its answers (but for that shift) depend on where the data lie, and single precision does not tell these neighbours apart
        double far = !r.coin(1, 4) ? 0 : sizeof(T) == 4 ? 1024 : 33554432, up = 0;
#ifdef REGRESSION
        if (sizeof(T) == 8 && r.coin(1, 4)) up = 1000;
#endif
        Mat<T> X0 = X; Col<T> y0 = y; X.array() += (T)far; y.array() += (T)up; Mat<T> X1 = X; Col<T> y1 = y;
        if (!guarded("Fit", [&] { model.fit(X, y); Ev("Fit").b("ok", true).mat("X", X0, 4).vec("y", y0, YU).b("same", X == X1 && y == y1).end(); })) return;
        int qs = r.range(1, 3);
        for (int q = 0; q < qs; q++) {
            long nq = r.coin(1, 12) ? r.range(7, 30) : r.range(1, 6); Mat<T> Q(nq, d);
            for (long i = 0; i < nq; i++) for (long j = 0; j < d; j++) Q(i, j) = (T)(r.range(-2 * span - 2, 2 * span + 2) / (r.coin() ? 4.0 : 8.0));
            for (long i = 0; i < nq; i++) for (long j = 0; j < d; j++) Q(i, j) = std::floor(Q(i, j) * 4) / 4;
            if (r.coin(1, 2)) Q = X0;
            Mat<T> Q0 = Q; Q.array() += (T)far; Mat<T> Q1 = Q;
            guarded("Ask", [&] {
#ifdef REGRESSION
                Col<T> a = model.predict(Q); a.array() -= (T)up; const char* what = "mean"; double s = SC;
#else
                bool prob = r.coin(); Mat<T> a; if (prob) a = model.predict_prob(Q); else a = model.predict(Q);
                const char* what = prob ? "prob" : "label"; double s = prob ? SC : YU;
#endif
                Ev("Ask").b("ok", true).str("what", what).mat("X", Q0, 4).mat("a", a, s).b("same", Q == Q1).end(); });
        }
    }
}
template <class T> void body(Rng& r) {
#ifdef REGRESSION
    std::string kind = r.coin() ? "squared_error" : "absolute_error"; const char* log = kind[0] == 's' ? "mse" : "mae";
    std::vector<double> decs{1e-7, 1e-7, 0, 0.25, 0.6};
    double sd = r.pick(std::vector<double>{1e-3, 1e-3, 0.6, 1.1});
#else
    std::string kind = r.coin() ? "gini" : "entropy"; const char* log = kind.c_str();
    std::vector<double> decs{1e-7, 1e-7, 0, 0.07, 0.15}; double sd = 0;
#endif
    bool dflt = r.coin(1, 8);
    long split = r.coin() ? 2 : r.range(0, 7), leaf = r.coin() ? 0 : r.range(0, 4), depth = r.coin() ? r.range(0, 3) : r.coin(1, 4) ? 30 : 6;
    double dec = r.pick(decs);
    if (dflt) { kind = SC > 500000 ? "gini" : "squared_error"; log = SC > 500000 ? "gini" : "mse"; split = 2; leaf = 0; depth = 4; dec = 1e-7; sd = 1e-3; }
    Ev("Make").str("kind", log).i("minSplit", split).i("minLeaf", leaf).i("maxDepth", depth).x("minDec", dec, SC).i("minVar", SC > 500000 ? -1 : fix(sd * sd, SC))
        .i("sc", (long)SC).i("tol", SC > 500000 ? 5 : sizeof(T) == 4 ? 8 : 3).end();
#ifdef REGRESSION
    if (dflt) { Model<T> m; history<T>(r, m); } else { Model<T> m(kind, split, leaf, depth, dec, sd); history<T>(r, m); }
#else
    if (dflt) { Model<T> m; history<T>(r, m); } else { Model<T> m(kind, split, leaf, depth, dec); history<T>(r, m); }
#endif
}
int main(int argc, char** argv) { Opt o = parse(argc, argv); return run(o, [](Rng& r, long, const Opt&) { if (r.coin(1, 3)) body<float>(r); else body<double>(r); }, o.cases); }
