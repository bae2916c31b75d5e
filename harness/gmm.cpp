// Drives Gaussian mixtures: histories of fit / predict / predict_prob calls, and chains of fits that repeat one random
// initialisation with smaller and smaller tolerances.
#include "harness.hpp"
#include "/repo/src/methods/mixture/gaussian_mixture.hpp"
using namespace vh;
using namespace openml;
template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> using Col = Eigen::Matrix<T, Eigen::Dynamic, 1>;
template <class T> using Model = mixture_model::GaussianMixture<T>;
static Rng chance;
unsigned int std::random_device::_M_getval() { return (unsigned)chance.next(); }
const double GS = 1000000;
template <class M> std::string list(const M& ms) { std::string r = "["; for (size_t i = 0; i < ms.size(); i++) { if (i) r += ","; r += Ev::jmat(ms[i], GS); } return r + "]"; }
template <class T> Mat<T> rows(Rng& r, long n, long d) {
    Mat<T> X(n, d); long span = r.pick(std::vector<long>{8, 16, 20}), apart = r.coin() ? 0 : r.range(4, 12);
    for (long i = 0; i < n; i++) { for (long j = 0; j < d; j++) X(i, j) = (T)(r.range(-span, span) / 8.0 + (r.coin(1, 6) ? 0.5 : 0)); X(i, 0) += (T)((i % 2) ? apart / 4.0 : -apart / 4.0); }
    return X;
}
template <class T> bool fit(Model<T>& model, const Mat<T>& X) {
    Mat<T> A = X; bool ok = true; std::string what;
    try { model.fit(A); } catch (const std::exception& ex) { ok = false; what = ex.what(); }
    Ev e("Fit"); e.b("ok", ok).mat("X", X, GS).b("same", A == X);
    if (!ok) { e.str("what", what.substr(0, 60)).end(); return false; }
    e.vec("w", model.get_weights(), GS).mat("mu", model.get_means(), GS).raw("cov", list(model.get_covariance()))
        .raw("prec", list(model.get_precisions())).raw("chol", list(model.get_precisions_cholesky())).x("lb", model.get_lower_bound(), GS).end();
    return true;
}
template <class T> void ask(Rng& r, Model<T>& model, const Mat<T>& X) {
    for (int q = r.range(1, 3); q > 0; q--) {
        Mat<T> Q = r.coin() ? X : rows<T>(r, r.range(1, 6), X.cols()), Q0 = Q; bool prob = r.coin();
        guarded("Ask", [&] { Mat<T> a; if (prob) a = model.predict_prob(Q); else a = model.predict(Q);
            Ev e("Ask"); e.b("ok", true).str("what", prob ? "prob" : "label").mat("X", Q0, GS).b("same", Q == Q0);
            if (prob) e.mat("a", a, GS); else { Col<T> c = a.col(0); e.vec("a", c); } e.end(); });
    }
}
struct Conf { long it, inits, k; std::string type; double tol, reg; };
template <class T> void make(const Conf& c, bool chain) {
    Ev("Make").i("K", c.k).str("type", c.type).x("reg", c.reg, GS).i("tol", c.tol > 1e8 ? BIG : fix(c.tol, GS)).i("maxIter", c.it).i("inits", c.inits).b("chain", chain).i("eps", sizeof(T) == 4 ? 100 : 3).end();
}
template <class T> void body(Rng& r) {
    long n = r.range(6, 12), d = r.range(1, 3);
    Conf c{r.pick(std::vector<long>{300, 300, 300, 5, 2, 1}), r.coin(1, 4) ? r.range(2, 4) : 1, r.pick(std::vector<long>{1, 2, 2, 3}), r.coin() ? "full" : "tied",
           r.pick(std::vector<double>{1e9, 1e-3, 1e-2, 1e-5, 0.1}), r.pick(std::vector<double>{1e-6, 1e-6, 0.05, 0.25, 1})};
    if (r.coin(1, 3)) {         // a chain
        c.it = 2000; c.inits = 1;
        Mat<T> X = rows<T>(r, n, d); uint64_t seed = r.next(); double last = -1e300; int fits = 0;
        for (double tol = 1e9; tol > 1e-6 && fits < 8; tol = tol > 1 ? 1 : tol * 0.8) {
            c.tol = tol; Model<T> m(c.it, 1, c.k, "random", c.type, tol, c.reg);
            chance = Rng(seed); Mat<T> A = X; bool news = true;
            try { m.fit(A); news = m.get_lower_bound() != last; last = m.get_lower_bound(); } catch (const std::exception&) { continue; }
            if (!news) continue;                     // the same number of iterations: fit again only when there is something to see
            fits++; make<T>(c, true); chance = Rng(seed); Model<T> m2(c.it, 1, c.k, "random", c.type, tol, c.reg);
            if (fit<T>(m2, X)) ask<T>(r, m2, X); else return;
        }
        // more initialisations never give less than the first of them
        c.tol = 1e9; c.it = 50; make<T>(c, false); { Model<T> m(c.it, 1, c.k, "random", c.type, c.tol, c.reg); chance = Rng(seed); if (!fit<T>(m, X)) return; }
        c.inits = 4; make<T>(c, true); Model<T> m(c.it, 4, c.k, "random", c.type, c.tol, c.reg); chance = Rng(seed); if (fit<T>(m, X)) ask<T>(r, m, X);
        return;
    }
    chance = Rng(r.next());
    bool dflt = r.coin(1, 8);
    if (dflt) c = Conf{100, 1, 3, "full", 1e-3, 1e-6};
    make<T>(c, false);
    auto history = [&](Model<T>& m) {
        for (int f = r.range(1, 3); f > 0; f--) { long nn = r.coin(1, 12) ? r.range(1, 3) : r.range(6, 12); Mat<T> X = rows<T>(r, nn, r.coin() ? d : r.range(1, 3)); if (fit<T>(m, X)) ask<T>(r, m, X); }
    };
    if (dflt) { Model<T> m; history(m); } else { Model<T> m(c.it, c.inits, c.k, "random", c.type, c.tol, c.reg); history(m); }
}
int main(int argc, char** argv) { Opt o = parse(argc, argv); return run(o, [](Rng& r, long, const Opt&) { if (r.coin(1, 4)) body<float>(r); else body<double>(r); }, o.cases); }
