// Replays histories of fits, queries, copies and replacements of two objects of one estimator (written by LifecycleGen) into
// every estimator.  The sources of randomness are wound back before every fit, so that equal fits draw equal numbers.
#include "harness.hpp"
#ifndef GROUP
#define GROUP 0
#endif
#if GROUP == 0
#include "/repo/src/methods/linear_model/linear_regression.hpp"
#include "/repo/src/methods/linear_model/ridge_regression.hpp"
#include "/repo/src/methods/linear_model/lasso_regression.hpp"
#include "/repo/src/methods/linear_model/softmax_regression.hpp"
#include "/repo/src/methods/linear_model/perceptron.hpp"
#elif GROUP == 1
#include "/repo/src/methods/linear_model/logistic_regression.hpp"
#elif GROUP == 2
#include "/repo/src/methods/naive_bayes/gaussian_naive_bayes.hpp"
#include "/repo/src/methods/naive_bayes/multinomial_naive_bayes.hpp"
#include "/repo/src/methods/tree/decision_tree_classifier.hpp"
#include "/repo/src/methods/tree/decision_tree_regressor.hpp"
#include "/repo/src/methods/neighbors/k_nearest_neighbors.hpp"
#else
#include "/repo/src/methods/cluster/kmeans.hpp"
#include "/repo/src/methods/mixture/gaussian_mixture.hpp"
#include "/repo/src/methods/decomposition/pca.hpp"
#include "/repo/src/methods/decomposition/truncated_svd.hpp"
#endif
using namespace vh;
using namespace openml;
template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> using Vec = Eigen::Matrix<T, Eigen::Dynamic, 1>;
using MatD = Eigen::MatrixXd;
using std::chrono::_V2::system_clock;
static Rng chance; static uint64_t chance_seed = 1;
unsigned int std::random_device::_M_getval() { return (unsigned)chance.next(); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((long)(chance.next() >> 2))); }
static void rewind_chance() { chance = Rng(chance_seed); srand((unsigned)chance_seed); }
const double LS = 10000;

// one object: how to fit it to (X, y) and how to answer question q about rows
struct Obj { std::function<void(MatD&, Eigen::VectorXd&)> fit; std::vector<std::function<MatD(MatD&)>> rows; std::vector<std::function<MatD()>> whole;
             std::shared_ptr<void> self; bool copies = true; std::function<Obj()> clone; std::function<void(const Obj&)> assign; };
// the object m with its calls, and how to copy it or to assign another one of its type to it (an object that cannot be copied is moved)
template <class M, class B> Obj wrap(std::shared_ptr<M> m, B calls) {
    Obj o; calls(o, m); o.self = m;
    o.copies = std::is_copy_constructible<M>::value;
    o.clone = [m, calls] { if constexpr (std::is_copy_constructible<M>::value) return wrap(std::make_shared<M>(*m), calls); else return wrap(std::make_shared<M>(std::move(*m)), calls); };
    o.assign = [m](const Obj& from) { M& f = *static_cast<M*>(from.self.get()); if constexpr (std::is_copy_assignable<M>::value) *m = f; else *m = std::move(f); };
    return o;
}
enum Kind { LINEAR, RIDGE, LASSO, LOG_LBFGS, LOG_SGD, LOG_SAG, LOG_SCD, SOFTMAX, PERCEPTRON, GNB, MNB, TREE_C, TREE_R, KMEANS, GMM, PCA_, TSVD, KNN };
#if GROUP == 0
static const std::vector<int> kinds = {LINEAR, RIDGE, LASSO, SOFTMAX, PERCEPTRON};
#elif GROUP == 1
static const std::vector<int> kinds = {LOG_LBFGS, LOG_SGD, LOG_SAG, LOG_SCD};
#elif GROUP == 2
static const std::vector<int> kinds = {GNB, MNB, TREE_C, TREE_R, KNN};
#else
static const std::vector<int> kinds = {KMEANS, GMM, PCA_, TSVD};
#endif
struct Conf { int kind; int v; long n; bool ic; };

template <class T, class M> void base(Obj& o, std::shared_ptr<M> m) {
    o.fit = [m](MatD& X, Eigen::VectorXd& y) { Mat<T> A = X.template cast<T>(); Vec<T> b = y.template cast<T>(); m->fit(A, b); X = A.template cast<double>(); y = b.template cast<double>(); };
}
template <class T, class M> void base1(Obj& o, std::shared_ptr<M> m) {
    o.fit = [m](MatD& X, Eigen::VectorXd&) { Mat<T> A = X.template cast<T>(); m->fit(A); X = A.template cast<double>(); };
}
#define ROWS(call) o.rows.push_back([m](MatD& Q) { Mat<T> A = Q.cast<T>(); Mat<T> R = m->call(A); Q = A.template cast<double>(); return MatD(R.template cast<double>()); })
#define WHOLE(call) o.whole.push_back([m]() { Mat<T> R = m->call; return MatD(R.template cast<double>()); })
template <class T> MatD flat(const std::vector<Mat<T>>& v) { std::vector<double> f; for (auto& x : v) for (long i = 0; i < x.rows(); i++) for (long j = 0; j < x.cols(); j++) f.push_back(x(i, j)); MatD R(1, f.size()); for (size_t i = 0; i < f.size(); i++) R(0, i) = f[i]; return R; }
#define LISTED(call) o.whole.push_back([m]() { return flat<T>(m->call); })

template <class T> Obj make(const Conf& c) {
    switch (c.kind) {
#if GROUP == 0
    case LINEAR: return wrap(std::make_shared<linear_model::LinearRegression<T>>(c.ic), [](Obj& o, auto m) { base<T>(o, m); ROWS(predict); WHOLE(get_coef()); });
    case RIDGE: return wrap(std::make_shared<linear_model::RidgeRegression<T>>(0.5, c.ic), [](Obj& o, auto m) { base<T>(o, m); ROWS(predict); WHOLE(get_coef()); });
    case LASSO: return wrap(std::make_shared<linear_model::LassoRegression<T>>(40, 0.125, 8.0, c.v % 2, false, c.ic), [](Obj& o, auto m) { base<T>(o, m); ROWS(predict); WHOLE(get_coef()); });
    case SOFTMAX: return wrap(std::make_shared<linear_model::SoftmaxRegression<T>>(0.1, 0.0, 1e-3, c.v % 2 ? c.n : 3, 20, 5, "sgd", "None", c.v % 3 > 0, false), [](Obj& o, auto m) { base<T>(o, m); ROWS(predict); ROWS(predict_prob); WHOLE(get_coef()); });
    case PERCEPTRON: return wrap(std::make_shared<linear_model::Perceptron<T>>(4, 0.0, 1e-4, c.v % 2 ? c.n : 2, 20, 5, "l2", c.ic, c.v % 3 > 0, false), [](Obj& o, auto m) { base<T>(o, m); ROWS(predict); WHOLE(get_coef()); });
#elif GROUP == 1
    case LOG_LBFGS: return wrap(std::make_shared<linear_model::LogisticRegression<T>>(1e-4, 1e-4, 1e-5, 0.9, 30, 6, 1 + c.v % 2, 40, "lbfgs", "None", c.v % 2 ? "backtracking" : "bracketing", "wolfe", false, false), [](Obj& o, auto m) { base<T>(o, m); ROWS(predict); ROWS(predict_prob); WHOLE(get_coef()); });
    case LOG_SGD: case LOG_SAG: return wrap(std::make_shared<linear_model::LogisticRegression<T>>(0.5, 0.01, 1e-3, c.v % 2 ? c.n : 2, 20, 5, c.kind == LOG_SGD ? "sgd" : "sag", "l2", c.v % 3 > 0, false), [](Obj& o, auto m) { base<T>(o, m); ROWS(predict); ROWS(predict_prob); WHOLE(get_coef()); });
    case LOG_SCD: return wrap(std::make_shared<linear_model::LogisticRegression<T>>(0.01, 20.0, 30, std::string("scd"), std::string("l1"), c.v % 2, false), [](Obj& o, auto m) { base<T>(o, m); ROWS(predict); ROWS(predict_prob); WHOLE(get_coef()); });
#elif GROUP == 2
    case GNB: return wrap(std::make_shared<naive_bayes::GaussianNB<T>>(0.05), [](Obj& o, auto m) { base<T>(o, m); ROWS(predict); ROWS(predict_prob); ROWS(predict_log_prob); WHOLE(get_mean()); WHOLE(get_var()); WHOLE(get_prior_prob()); WHOLE(get_classes()); });
    case MNB: return wrap(std::make_shared<naive_bayes::MultinomialNB<T>>(1.0), [](Obj& o, auto m) { base<T>(o, m); ROWS(predict); ROWS(predict_prob); ROWS(predict_log_prob); WHOLE(get_features_count()); WHOLE(get_prior_prob()); WHOLE(get_classes()); });
    case TREE_C: return wrap(std::make_shared<decision_tree::DecisionTreeClassifier<T>>(c.v % 2 ? "gini" : "entropy", 2, 1 + c.v % 2, c.ic ? 3 : 20, 0.0), [](Obj& o, auto m) { base<T>(o, m); ROWS(predict); ROWS(predict_prob); });
    case TREE_R: return wrap(std::make_shared<decision_tree::DecisionTreeRegressor<T>>(c.v % 3 ? "squared_error" : "absolute_error", 2, 1 + c.v % 2, c.ic ? 3 : 20, 0.0, 1e-4), [](Obj& o, auto m) { base<T>(o, m); ROWS(predict); });
    case KNN: return wrap(std::make_shared<neighbors::KNearestNeighbors<T>>(1 + c.v, c.v % 2 ? 1 : 3, "kdtree", c.ic ? "euclidean" : "manhattan"), [](Obj& o, auto m) { base<T>(o, m); ROWS(predict); });
#elif GROUP == 3
    case KMEANS: return wrap(std::make_shared<cluster::KMeans<T>>(c.ic ? "kmeans++" : "random", 1, 1 + c.v % 3, 20, 1e-4), [](Obj& o, auto m) { base1<T>(o, m); ROWS(predict); });
    case GMM: return wrap(std::make_shared<mixture_model::GaussianMixture<T>>(20, 1 + c.v % 2, 1 + c.v % 3, "random", c.ic ? "full" : "tied", 1e-3, 0.05), [](Obj& o, auto m) { base1<T>(o, m); ROWS(predict); ROWS(predict_prob); WHOLE(get_means()); WHOLE(get_weights()); LISTED(get_covariance()); LISTED(get_precisions()); LISTED(get_precisions_cholesky()); o.whole.push_back([m]() { return MatD(MatD::Constant(1, 1, m->get_lower_bound())); }); });
    case PCA_: return wrap(std::make_shared<decomposition::PCA<T>>("svd", 1 + c.v % 2), [](Obj& o, auto m) { base1<T>(o, m); ROWS(transform); WHOLE(get_components()); WHOLE(get_explained_var()); WHOLE(get_explained_var_ratio()); WHOLE(get_singular_values()); WHOLE(get_covariance()); WHOLE(get_precision()); });
    case TSVD: return wrap(std::make_shared<decomposition::TruncatedSVD<T>>(1 + c.v % 2, 0, 2 + c.v % 3, "randomized", c.ic ? "QR" : "LU"), [](Obj& o, auto m) { base1<T>(o, m); ROWS(transform); WHOLE(get_components()); WHOLE(get_explained_var()); WHOLE(get_explained_var_ratio()); WHOLE(get_singular_values()); });
#endif
    }
    return Obj();
}
struct Set { MatD X; Eigen::VectorXd y; };
static double draw(Rng& r) { return std::round(r.gauss() * 2 * 4096) / 4096; }      // exactly a float
static Set gen_set(Rng& r, const Conf& c) {
    Set s; bool equal = c.kind >= LOG_SGD && c.kind <= PERCEPTRON; long n = equal ? c.n : r.range(5, 10), d = c.kind == PCA_ || c.kind == TSVD ? r.range(3, 4) : r.range(1, 4);
    if (c.kind == LASSO) d = r.range(1, 2);
    s.X = MatD(n, d); s.y = Eigen::VectorXd(n);
    bool binary = (c.kind >= LOG_LBFGS && c.kind <= LOG_SCD) || c.kind == PERCEPTRON, real = c.kind <= LASSO || c.kind == TREE_R;
    long K = binary ? 2 : r.range(2, 3), first = binary || r.coin() ? 0 : 1;
    for (long i = 0; i < n; i++) { for (long j = 0; j < d; j++) { double v = draw(r); s.X(i, j) = c.kind == MNB ? std::floor(std::abs(v)) : c.kind == LASSO ? v / 2 : v; } s.y(i) = real ? draw(r) : (double)(first + (i < K ? i : r.range(0, K - 1))); }
    // a margin keeps the logistic solution away from infinity out of reach of few iterations
    return s;
}
static void case_body(Rng& r, const std::vector<std::vector<long>>& ops, int kind) {
    Conf c{kind, (int)r.range(0, 5), r.range(6, 9), r.coin()}; bool flt = r.coin(1, 5) && kind != LOG_LBFGS && kind != GMM && kind != TSVD && kind != PCA_ && kind != LINEAR;
    chance_seed = r.next() >> 8;
    std::vector<Set> sets; for (int i = 0; i < 3; i++) sets.push_back(gen_set(r, c));
    if (r.coin(1, 3)) { sets[1] = sets[0]; sets[1].y = sets[1].y.reverse().eval(); if (kind == PERCEPTRON || kind == SOFTMAX) sets[1].X *= 2; }
    MatD pool(6, 4); for (long i = 0; i < 24; i++) { double v = draw(r); pool(i) = kind == MNB ? std::floor(std::abs(v)) : v; }
    for (int i = 0; i < 2; i++) { auto& X = sets[i].X; pool.row(i).head(X.cols()) = X.row(r.range(0, X.rows() - 1)); }
    // the same training rows are known to TLC by number only: equal data sets have different numbers, which only weakens the check
    std::vector<Obj> objs(2); std::vector<int> last(2, 0); std::vector<bool> live(2, false);
    auto fresh = [&](int k) { objs[k] = flt ? make<float>(c) : make<double>(c); live[k] = true; last[k] = 0; };
    for (auto& op : ops) {
        int k = op[1] - 1; if (!live[k]) fresh(k);
        if (op[0] == 0) { fresh(k); Ev("Make").i("o", op[1]).end(); }
        else if (op[0] == 3) {
            int p = op[2] - 1; if (!live[p] || p == k) continue;
            bool ok = guarded("Copy", [&] {
                if (r.coin()) objs[k] = objs[p].clone(); else objs[k].assign(objs[p]);
                last[k] = last[p]; bool gone = !objs[p].copies;
                if (gone) fresh(p);
                Ev("Copy").b("ok", true).i("kind", kind).i("o", op[1]).i("p", op[2]).b("gone", gone).end(); });
            if (!ok) return;
        }
        else if (op[0] == 1) {
            Set s = sets[op[2] - 1]; rewind_chance();
            bool iterates = (kind >= LOG_SGD && kind <= PERCEPTRON) || kind == GMM, refused = false;
            bool ok = guarded("Fit", [&] {
                try { objs[k].fit(s.X, s.y); }
                catch (const std::runtime_error&) { if (!iterates) throw; refused = true; }      // no convergence: a refusal, which has to depend on the data alone too
                if (refused) Ev("Refused").i("o", op[1]).i("d", op[2]).end();
                else Ev("Fit").b("ok", true).i("kind", kind).i("o", op[1]).i("d", op[2]).b("same", s.X == sets[op[2] - 1].X && s.y == sets[op[2] - 1].y).end(); });
            if (refused) { last[k] = 0; continue; }
            if (!ok) return; last[k] = op[2];
        } else {
            if (!last[k]) continue;
            long q = op[2], nr = objs[k].rows.size(), nw = objs[k].whole.size(); MatD R;
            if (q == 3 && nw) {     // something about the model as a whole: one more accessor each time it is asked
                long w = (op[3] + 6 * (op.size() - 4)) % nw;
                guarded("Ask", [&] { R = objs[k].whole[w](); MatD F = Eigen::Map<MatD>(R.data(), 1, R.size()); Ev("Ask").b("ok", true).i("kind", kind).i("o", op[1]).i("q", 100 + w).b("same", true).raw("rows", "[0]").mat("out", F, LS).end(); });
            } else {
                long w = q % nr, n = op.size() - 3, d = sets[last[k] - 1].X.cols(); MatD Q(n, d); for (long i = 0; i < n; i++) Q.row(i) = pool.row(op[3 + i] - 1).head(d);
                MatD Q0 = Q; std::vector<long> rows(op.begin() + 3, op.end());
                guarded("Ask", [&] { R = objs[k].rows[w](Q); Ev("Ask").b("ok", true).i("kind", kind).i("o", op[1]).i("q", w).b("same", Q == Q0).sv("rows", rows).mat("out", R, LS).end(); });
            }
        }
    }
}
static std::vector<std::vector<std::vector<long>>> read_scripts(const std::string& f) {
    std::vector<std::vector<std::vector<long>>> all; std::ifstream in(f); std::string line;
    while (std::getline(in, line)) {
        std::vector<std::vector<long>> ops; long depth = 0, v = 0; bool num = false;
        for (char ch : line) {
            if (ch == '[') { depth++; if (depth == 2) ops.emplace_back(); }
            else if (isdigit((unsigned char)ch)) { v = v * 10 + (ch - '0'); num = true; }
            else { if (num) { ops.back().push_back(v); v = 0; num = false; } if (ch == ']') depth--; }
        }
        all.push_back(ops);
    }
    return all;
}
int main(int argc, char** argv) {
    Opt o = parse(argc, argv); auto scripts = read_scripts(o.script); if (scripts.empty()) return 2;
    return run(o, [&](Rng& r, long c, const Opt&) { case_body(r, scripts[(c / kinds.size()) % scripts.size()], kinds[c % kinds.size()]); }, o.cases);
}
