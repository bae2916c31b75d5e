// Drives naive Bayes: histories of fit / accessor / predict / probability calls.
#include "harness.hpp"
#include "/repo/src/methods/naive_bayes/gaussian_naive_bayes.hpp"
#include "/repo/src/methods/naive_bayes/multinomial_naive_bayes.hpp"
using namespace vh;
using namespace openml;
template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> using Col = Eigen::Matrix<T, Eigen::Dynamic, 1>;

// features are logged in quarters (Gaussian) or units (multinomial)
template <class T, class M> void history(Rng& r, M& model, bool gauss, double par) {
    const double s = 1000000, u = gauss ? 4 : 1;
    Ev("Make").b("gauss", gauss).x("par", par, s).b("flt", sizeof(T) == 4).end();
    int fits = r.range(1, 3);
    for (int f = 0; f < fits; f++) {
        long K = r.range(1, 4), n = K + r.range(0, 8), d = r.range(1, 4);
        if (r.coin(1, 30)) { n = r.range(20, 70); d = r.range(1, 10); }
        if (gauss && n < K + 1) n = K + 1;
        std::vector<double> pool = r.coin() ? std::vector<double>{0, 1, 2, 3} : std::vector<double>{7, -1, 2.5, 40};
        Mat<T> X(n, d); Col<T> y(n);
        for (int t = 0; t < 50; t++) {
            long lim = gauss ? r.pick(std::vector<long>{4, 16, 32}) : r.pick(std::vector<long>{1, 5, 12});
            std::vector<long> p = perm(r, n);
            for (long i = 0; i < n; i++) {
                y(i) = (T)pool[p[i] < K ? p[i] : r.range(0, K - 1)];
                for (long j = 0; j < d; j++) X(i, j) = (T)(r.range(gauss ? -lim : 0, lim) / u);
                if (r.coin(1, 8) && i > 0) { X.row(i) = X.row(i - 1); y(i) = y(i); }
            }
            if (!gauss) break;
            bool some = false;      // some class has some variance
            for (long i = 0; i < n; i++) for (long k = 0; k < i; k++) if (y(i) == y(k) && X.row(i) != X.row(k)) some = true;
            if (some) break;
            if (t == 49) return;
        }
        // only the means depend on where the data lie
        T far = gauss && sizeof(T) == 8 && r.coin(1, 3) ? (T)1000 : (T)0;
        Mat<T> X0 = X; Col<T> y0 = y; X.array() += far; Mat<T> X1 = X;
        if (!guarded("Fit", [&] { model.fit(X, y); Ev("Fit").b("ok", true).mat("X", X0, u).vec("y", y0, 2).b("same", X == X1 && y == y0).end(); })) return;
        int qs = r.range(2, 6);
        for (int q = 0; q < qs; q++) {
            int k = r.range(0, 8);
            if (k == 0) guarded("Classes", [&] { Col<T> v = model.get_classes(); Ev("Classes").b("ok", true).vec("v", v, 2).end(); });
            else if (k == 1) guarded("Prior", [&] { Col<T> v = model.get_prior_prob(); Ev("Prior").b("ok", true).vec("v", v, s).end(); });
            else if (k == 2) { if constexpr (std::is_same<M, naive_bayes::GaussianNB<T>>::value) guarded("Mean", [&] { Mat<T> v = model.get_mean(); v.array() -= far; Ev("Mean").b("ok", true).mat("v", v, s).end(); });
                               else guarded("Count", [&] { Mat<T> v = model.get_features_count(); Ev("Count").b("ok", true).mat("v", v, 1).end(); }); }
            else if (k == 3) { if constexpr (std::is_same<M, naive_bayes::GaussianNB<T>>::value) guarded("Var", [&] { Mat<T> v = model.get_var(); Ev("Var").b("ok", true).mat("v", v, s).end(); }); }
            else {
                long nq = r.range(1, 4); Mat<T> Q(nq, d); for (long i = 0; i < nq; i++) for (long j = 0; j < d; j++) Q(i, j) = (T)(r.range(gauss ? -24 : 0, gauss ? 24 : 6) / u);
                if (r.coin(1, 3)) Q = X0;
                Mat<T> Q0 = Q; Q.array() += far; Mat<T> Q1 = Q;
                // how labels were answered for this very batch belongs to the same event: the largest posterior wins
                if (k <= 5) guarded("Labels", [&] { Col<T> p = model.predict(Q); Mat<T> P = model.predict_log_prob(Q); Ev("Labels").b("ok", true).mat("X", Q0, u).vec("p", p, 2).mat("P", P, s).b("same", Q == Q1).end(); });
                else if (k == 6) guarded("LogProba", [&] { Mat<T> p = model.predict_log_prob(Q); Ev("LogProba").b("ok", true).mat("X", Q0, u).mat("P", p, s).b("same", Q == Q1).end(); });
                else guarded("Proba", [&] { Mat<T> p = model.predict_prob(Q); Ev("Proba").b("ok", true).mat("X", Q0, u).mat("P", p, s).b("same", Q == Q1).end(); });
            }
        }
    }
}
template <class T> void body(Rng& r) {
    int k = r.range(0, 5);
    if (k == 0 && sizeof(T) == 8) { naive_bayes::GaussianNB<T> m; history<T>(r, m, true, 1e-9); }
    else if (k <= 3) { double v = r.pick(std::vector<double>{0.01, 0.05, 0.25, sizeof(T) == 8 ? 1e-9 : 0.01}); naive_bayes::GaussianNB<T> m(v); history<T>(r, m, true, v); }
    else if (r.coin(1, 5)) { naive_bayes::MultinomialNB<T> m; history<T>(r, m, false, 10); }
    else { double a = r.pick(std::vector<double>{0.5, 1, 2, 10}); naive_bayes::MultinomialNB<T> m(a); history<T>(r, m, false, a); }
}
int main(int argc, char** argv) { Opt o = parse(argc, argv); return run(o, [](Rng& r, long, const Opt&) { if (r.coin(1, 3)) body<float>(r); else body<double>(r); }, o.cases); }
