// Drives k-means: histories of fit / predict calls.
#include "harness.hpp"
#include "/repo/src/methods/cluster/kmeans.hpp"
using namespace vh;
using namespace openml;
template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> using Col = Eigen::Matrix<T, Eigen::Dynamic, 1>;
static Rng* chance;
unsigned int std::random_device::_M_getval() { return (unsigned)chance->next(); }
// coordinates are logged in quarters
template <class T> void history(Rng& r, cluster::KMeans<T>& model, long k, bool big) {
    int fits = r.range(1, 3);
    for (int f = 0; f < fits; f++) {
        long n = r.range(std::max(k, r.coin() ? 4L : 1L), big ? 8 : 5);
        if (k == 2 && r.coin(1, 20)) n = r.range(9, 16); else if (k == 1 && r.coin(1, 4)) n = r.range(9, 40);
        long d = r.range(1, 3), span = n > 8 || r.coin(3, 4) ? 40 : r.range(1, 6);       // few ties when there are many rows
        Mat<T> X(n, d);
        for (long i = 0; i < n; i++) {
            for (long j = 0; j < d; j++) X(i, j) = (T)(r.range(-span, span) / 4.0);
            if (i > 0 && r.coin(1, 8)) X.row(i) = X.row(r.range(0, i - 1));
        }
        if (r.coin(1, 3)) for (long i = 0; i < n; i++) X(i, 0) += (i % 2) ? 12 : -12;        // clusters to find
        // the clustering does not depend on where the data lie; there single precision does not tell neighbours apart
        T far = sizeof(T) == 8 && r.coin(1, 4) ? (T)16777216 : (T)0;
        Mat<T> X0 = X; X.array() += far; Mat<T> X1 = X;
        if (!guarded("Fit", [&] { model.fit(X); Ev("Fit").b("ok", true).mat("X", X0, 4).b("same", X == X1).end(); })) return;
        int qs = r.range(1, 3);
        for (int q = 0; q < qs; q++) {
            long nq = r.range(1, 30); Mat<T> Q(nq, d);
            for (long i = 0; i < nq; i++) for (long j = 0; j < d; j++) Q(i, j) = (T)(r.range(-span - 48, span + 48) / 4.0);
            for (long i = 0; i < nq; i++) if (r.coin()) { Q.row(i) = X0.row(r.range(0, n - 1)); for (long j = 0; j < d; j++) Q(i, j) += (T)(r.range(-3, 3) / 4.0); }
            if (r.coin(1, 3)) Q = X0;
            Mat<T> Q0 = Q; Q.array() += far; Mat<T> Q1 = Q;
            guarded("Ask", [&] { Col<T> a = model.predict(Q); Ev("Ask").b("ok", true).mat("X", Q0, 4).vec("a", a).b("same", Q == Q1).end(); });
        }
    }
}
template <class T> void body(Rng& r) {
    chance = &r;
    bool dflt = r.coin(1, 8), big = r.coin(2, 3);
    std::string init = r.coin() ? "random" : "kmeans++";
    long k = r.pick(std::vector<long>{1, 2, 2, 3, 3, 3}), it = r.coin() ? 50 : r.range(0, 3), runs = r.range(1, 3); double tol = r.pick(std::vector<double>{1e-4, 1e-4, 0, 0.5, 2, 6, 40});
    if (dflt) { init = "kmeans++"; k = 3; it = 300; tol = 1e-4; }
    if (!big) k = std::min(k, 3L);
    Ev("Make").str("init", init).i("k", k).i("maxIter", it).x("stop", tol * 4, 100000).i("mtol", sizeof(T) == 4 ? 200 : 8).i("tol", sizeof(T) == 4 ? 60 : 2).end();
    if (dflt) { cluster::KMeans<T> m; history<T>(r, m, k, big); } else { cluster::KMeans<T> m(init, runs, k, it, tol); history<T>(r, m, k, big); }
}
// fits allowed to run until nothing moves: the labels of the data describe the clustering completely
template <class T> void settle(Rng& r) {
    chance = &r;
    int fits = r.range(4, 16); long tolUnits = sizeof(T) == 4 ? 60 : 2;
    long k = r.range(1, 5);
    cluster::KMeans<T> model(r.coin(3, 4) ? "random" : "kmeans++", r.range(1, 3), k, r.range(200, 400), 1e-9);
    for (int f = 0; f < fits; f++) {
        long n = r.range(k, r.coin(1, 20) ? 40 : 14), d = r.coin(2, 3) ? 1 : r.range(1, 3), span = r.pick(std::vector<long>{4, 10, 10, 40, 40});
        Mat<T> X(n, d);
        for (long i = 0; i < n; i++) {
            for (long j = 0; j < d; j++) X(i, j) = (T)(r.range(-span, span) / 4.0);
            if (i > 0 && r.coin(1, 3)) X.row(i) = X.row(r.range(0, i - 1));
        }
        T far = sizeof(T) == 8 && r.coin(1, 4) ? (T)16777216 : (T)0;
        Mat<T> X0 = X; X.array() += far; Mat<T> X1 = X; long nq = r.range(1, 8); Mat<T> Q(nq, d);
        for (long i = 0; i < nq; i++) for (long j = 0; j < d; j++) Q(i, j) = (T)(r.range(-span - 8, span + 8) / 4.0);
        guarded("Settle", [&] { model.fit(X); Col<T> a = model.predict(X), b = model.predict((Q.array() + far).matrix()); Ev("Settle").b("ok", true).i("k", k).i("tol", tolUnits).mat("X", X0, 4).vec("a", a).mat("Q", Q, 4).vec("b", b).b("same", X == X1).end(); });
    }
}
int main(int argc, char** argv) { Opt o = parse(argc, argv); return run(o, [](Rng& r, long c, const Opt&) { if (c % 4 == 3) { if (r.coin(1, 3)) settle<float>(r); else settle<double>(r); } else if (r.coin(1, 3)) body<float>(r); else body<double>(r); }, o.cases); }
