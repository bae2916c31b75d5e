// Drives PCA and truncated SVD: histories of fit / transform / accessor calls.
#include "harness.hpp"
#include "/repo/src/methods/decomposition/pca.hpp"
#include "/repo/src/methods/decomposition/truncated_svd.hpp"
using namespace vh;
using namespace openml;
template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
static Rng chance;
unsigned int std::random_device::_M_getval() { return (unsigned)chance.next(); }
const double DS = 100000;
// rows in quarters
template <class T> Mat<T> quarters(Rng& r, long n, long d, long span, long off) {
    Mat<T> X(n, d); for (long j = 0; j < d; j++) { long o = r.range(-off, off); for (long i = 0; i < n; i++) X(i, j) = (T)((r.range(-span, span) + o) / 4.0); } return X;
}
template <class T> Mat<T> table(Rng& r, long n, long d) {
    if (d > 8) return quarters<T>(r, n, d, 14, 4);
    Mat<T> X = quarters<T>(r, n, d, r.pick(std::vector<long>{4, 16, 24}), r.coin() ? 0 : 12);
    if (r.coin(1, 4)) for (long i = 1; i < n; i++) if (r.coin()) X.row(i) = X.row(0);
    if (d > 1 && r.coin(1, 5)) X.col(d - 1) = X.col(0);                           // rank deficient
    if (r.coin(1, 8)) X.col(0).setConstant(3);
    if (r.coin(1, 4)) for (long i = 0; i < n; i++) X(i, d - 1) *= 2;
    X(0, 0) += 2;
    return X;
}
template <class T, class Md> void fitted(Md& m, const Mat<T>& X, Mat<T>& A, bool exact) {
    Ev("Fit").b("ok", true).mat("X", X, 4).b("exact", exact).b("same", A == X).mat("V", m.get_components(), DS).vec("s", m.get_singular_values(), DS)
        .vec("var", m.get_explained_var(), DS).vec("ratio", m.get_explained_var_ratio(), DS).end();
}
template <class T, class Md> void transform(Rng& r, Md& m, const Mat<T>& X) {
    Mat<T> Q = r.coin() ? X : quarters<T>(r, r.range(1, 5), X.cols(), 24, 0), Q0 = Q;
    guarded("Transform", [&] { Mat<T> a = m.transform(Q); Ev("Transform").b("ok", true).mat("Q", Q0, 4).mat("a", a, DS).b("same", Q == Q0).end(); });
}
template <class T> void pca(Rng& r) {
    long wide = r.coin(1, 25), d = wide ? r.range(16, 18) : r.range(1, 5), k = r.range(1, std::min(d, 3L)); bool dflt = d >= 2 && r.coin(1, 6); if (dflt) k = 2; else if (r.coin(1, 3)) k = std::min(d, 6L);
    Ev("Make").str("kind", "pca").i("k", k).i("c", sizeof(T) == 4 ? 20 : 1).end();
    auto history = [&](decomposition::PCA<T>& m) {
        for (int f = r.range(1, 3); f > 0; f--) {
            long dd = wide ? d : r.coin(2, 3) ? d : r.range(k, 5), n = r.range(std::max(2L, k), std::max(10L, k + 4)); Mat<T> X = table<T>(r, n, dd), A = X;
            if (!guarded("Fit", [&] { m.fit(A); fitted<T>(m, X, A, true); })) return;
            for (int q = r.range(1, 4); q > 0; q--) {
                int what = r.range(0, 4);
                if (what <= 1) transform<T>(r, m, X);
                else if (what == 2) guarded("Cov", [&] { Mat<T> a = m.get_covariance(); Ev("Cov").b("ok", true).mat("a", a, DS).end(); });
                else if (what == 3) guarded("Prec", [&] { Mat<T> a = m.get_precision(); Ev("Prec").b("ok", true).mat("a", a, DS).end(); });
                else { Mat<T> Q = r.coin() ? X : quarters<T>(r, r.range(1, 5), dd, 24, 0), Q0 = Q; guarded("Score", [&] { double a = m.score(Q); Ev("Score").b("ok", true).mat("Q", Q0, 4).b("same", Q == Q0).x("a", a, DS).end(); }); }
            }
        }
    };
    if (dflt) { decomposition::PCA<T> m; history(m); } else { decomposition::PCA<T> m("svd", k); history(m); }
}
template <class T> void svd(Rng& r) {
    chance = Rng(r.next());
    long k = r.range(1, 3), over = r.range(0, 3), it = r.range(0, 6); std::string norm = r.pick(std::vector<std::string>{"LU", "QR", "None"});
    bool dflt = r.coin(1, 6); if (dflt) { k = 2; over = 2; it = 4; norm = "LU"; }
    if (norm == "None") it = std::min(it, 2L);
    Ev("Make").str("kind", "svd").i("k", k).i("c", sizeof(T) == 4 ? 20 : 1).end();
    auto history = [&](decomposition::TruncatedSVD<T>& m) {
        for (int f = r.range(1, 3); f > 0; f--) {
            bool tight = r.coin(1, 3);
            long lo = k + over, d = tight ? lo : r.range(lo, lo + 2), n = r.range(std::max(3L, lo), std::max(9L, lo)); Mat<T> X = table<T>(r, n, d), A;
            if (r.coin(1, 3)) { for (long j = k; j < d; j++) for (long i = 0; i < n; i++) X(i, j) = (T)(r.range(-1, 1) / 4.0); if (r.coin(1, 3)) X.col(0).swap(X.col(d - 1)); }   // fast decay
            if (r.coin(1, 10)) { Mat<T> B = quarters<T>(r, n, lo - 1 > 0 ? lo - 1 : 1, 9, 0); if (r.coin()) B = X.topRows(std::max(1L, std::min(n, lo - 1))); if (std::min(B.rows(), B.cols()) < lo) { A = B; try { m.fit(A); Ev("Refused").b("ok", true).end(); } catch (const std::invalid_argument&) { Ev("Refused").b("ok", false).end(); } continue; } }
            A = X;
            // the sketch is all of the matrix, or what it leaves out is out of reach after the power iterations
            Eigen::JacobiSVD<Eigen::MatrixXd> ref(X.template cast<double>()); auto sv = ref.singularValues();
            bool all = lo >= std::min(n, d), exact = all || (over >= 1 && it >= 3 && sv(lo) < 0.25 * sv(k - 1));
            if (norm == "None" && it > 0 && sv(k - 1) < 0.02 * sv(0)) exact = false;                 // lost in rounding without normalisation
            if (sizeof(T) == 4 && sv(std::min(lo, (long)sv.size()) - 1) < 1e-3 * sv(0) && it > 0) exact = false;
            if (!guarded("Fit", [&] { m.fit(A); fitted<T>(m, X, A, exact); })) return;
            for (int q = r.range(1, 3); q > 0; q--) transform<T>(r, m, X);
        }
    };
    if (dflt) { decomposition::TruncatedSVD<T> m; history(m); } else { decomposition::TruncatedSVD<T> m(k, over, it, "randomized", norm); history(m); }
}
int main(int argc, char** argv) { Opt o = parse(argc, argv); return run(o, [](Rng& r, long, const Opt&) { bool f = r.coin(1, 4); if (r.coin()) { if (f) pca<float>(r); else pca<double>(r); } else { if (f) svd<float>(r); else svd<double>(r); } }, o.cases); }
