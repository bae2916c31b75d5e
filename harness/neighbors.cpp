// Drives KDTree (modes knn, radius) and KNearestNeighbors (mode clf).
#include "harness.hpp"
#ifdef WITH_KNN
#include "/repo/src/methods/neighbors/k_nearest_neighbors.hpp"
#endif
using namespace vh;

template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
using Grid = Eigen::Matrix<long, Eigen::Dynamic, Eigen::Dynamic>;

// data sets on an integer grid; the real coordinates are grid / unit
static Grid make_data(Rng& r, long n, long d, long range) {
    Grid g(n, d);
    int style = r.range(0, 6);
    for (long i = 0; i < n; i++) for (long j = 0; j < d; j++) {
        long v = r.range(-range, range);
        if (style == 1) v = r.range(0, 2);                                  // many ties
        if (style == 2) v = (j == (n % d)) ? r.range(-range, range) : 3;      // one axis varies
        if (style == 3) v = (i % 3 - 1) * (range / 2) + r.range(-2, 2);      // clusters
        if (style == 4) v = (j == 0) ? i - n / 2 : r.range(-3, 3);           // elongated
        if (style == 5 && i > 0 && r.coin(1, 3)) v = g(r.range(0, i - 1), j); // repeated coordinates
        g(i, j) = v;
    }
    if (style == 6) { for (long i = 1; i < n; i++) if (r.coin()) g.row(i) = g.row(r.range(0, i - 1)); } // repeated rows
    return g;
}
static Grid make_queries(Rng& r, const Grid& g, long nq, long range) {
    Grid q(nq, g.cols());
    for (long i = 0; i < nq; i++) {
        int s = r.range(0, 4);
        long b = r.range(0, g.rows() - 1);
        for (long j = 0; j < g.cols(); j++) {
            if (s == 0) q(i, j) = g(b, j);
            else if (s == 1) q(i, j) = g(b, j) + r.range(-2, 2);
            else if (s == 2) q(i, j) = r.range(-range, range);
            else if (s == 3) q(i, j) = g(r.range(0, g.rows() - 1), j);
            else q(i, j) = r.range(-range - range / 4 - 2, range + range / 4 + 2);
        }
    }
    return q;
}
// distances do not depend on where the points lie: the real coordinates may be far from zero, where single precision merges neighbouring points
static long remote = 0;
struct Shape { long n, d, range, leaf; double unit; std::string metric; };
static Shape make_shape(Rng& r, const Opt& o, bool flt) {
    Shape s;
    int size = r.range(0, 9);
    s.n = size < 4 ? r.range(1, 9) : size < 8 ? r.range(8, 40) : r.range(40, o.thorough ? 160 : 90);
    if (r.coin(1, 60)) s.n = r.range(120, o.thorough ? 500 : 260);
    s.d = r.coin(1, 8) ? r.range(5, r.coin(1, 4) ? 20 : 8) : r.range(1, 4);
    s.range = r.pick(std::vector<long>{1, 3, 10, flt ? 60 : 300});
    s.leaf = r.coin(1, 4) ? r.range(std::max(1L, s.n - 2), s.n + 2) : r.range(1, 12);
    // coordinates of ordinary, tiny and huge size (powers of two, so that nothing is rounded)
    remote = r.coin(1, 4) ? (flt ? 2048 : 1L << 25) : 0;
    s.unit = r.pick(std::vector<double>{1, 1, 4, 1 << 20, 1.0 / 4096});
    s.metric = r.pick(std::vector<std::string>{"euclidean", "euclidean", "manhattan", "chebyshev"});
    return s;
}
template <class T> Mat<T> real(const Grid& g, double unit) { return (g.array() + remote).matrix().template cast<T>() / (T)unit; }

template <class T> void emit_knn(const openml::tree::KDTree<T>& tree, const Grid& q, double unit, long k) {
    guarded("Knn", [&] {
        auto r = tree.query(real<T>(q, unit), (std::size_t)k);
        Mat<double> dist = r.first.template cast<double>() * (double)unit;
        Ev("Knn").b("ok", true).i("k", k).mat("q", q).mat("ix", r.second).mat("ds", dist, 1000).end();
    });
}
template <class T> void emit_radius(const openml::tree::KDTree<T>& tree, const Grid& q, double unit, long half, bool euclid) {
    guarded("Radius", [&] {
        double radius = (double)half / 2.0 / (double)unit;
        auto r = tree.query_radius(real<T>(q, unit), radius);
        std::vector<std::vector<long>> ix; std::vector<std::vector<double>> ds;
        for (auto& l : r) { ix.emplace_back(); ds.emplace_back(); for (auto& p : l) { ix.back().push_back((long)p.second); ds.back().push_back((double)p.first * unit); } }
        // radius measure: D <= rn / rd in the metric's own integer measure
        Ev("Radius").b("ok", true).i("rn", euclid ? half * half : half).i("rd", euclid ? 4 : 2)
            .mat("q", q).sv2("ix", ix).sv2("ds", ds, 1000).end();
    });
}

// there are not as many neighbours as asked for
template <class F> void too_many(long k, F f) {
    bool refused = false; try { f(); } catch (const std::exception&) { refused = true; }
    Ev("TooMany").b("refused", refused).i("k", k).end();
}

template <class T> void tree_case(Rng& r, const Opt& o) {
    Shape s = make_shape(r, o, sizeof(T) == 4);
    Grid g = make_data(r, s.n, s.d, s.range);
    std::unique_ptr<openml::tree::KDTree<T>> tree;
    bool dflt = r.coin(1, 12);
    if (dflt) s.metric = "euclidean";
    guarded("Build", [&] {
        if (dflt) tree.reset(new openml::tree::KDTree<T>(real<T>(g, s.unit)));
        else tree.reset(new openml::tree::KDTree<T>(real<T>(g, s.unit), s.leaf, s.metric));
        Ev("Build").b("ok", true).str("metric", s.metric).i("leaf", s.leaf).mat("data", g).end();
    });
    if (!tree) return;
    bool euclid = s.metric == "euclidean";
    int calls = r.range(2, 5);
    for (int c = 0; c < calls; c++) {
        if (r.coin(1, 6)) {     // the original outlives its copy, or the copy its original, or the original is assigned to another tree
            int how = r.range(0, 2);
            bool ok = guarded("Copy", [&] {
                using Tree = openml::tree::KDTree<T>;
                if (how == 0) { Tree copy(*tree); }
                else if (how == 1) { std::unique_ptr<Tree> copy(new Tree(*tree)); tree = std::move(copy); }
                else { std::unique_ptr<Tree> other(new Tree(real<T>(make_data(r, r.range(1, 9), r.range(1, 3), 5), 1.0))); *other = *tree; tree = std::move(other); }
                Ev("Copy").b("ok", true).i("how", how).end();
            });
            if (!ok) return;
        }
        Grid q = make_queries(r, g, r.coin(1, 12) ? r.range(5, 25) : r.range(1, 4), s.range);
        bool knn = o.mode == "knn";
        if (knn) {
            long k = r.coin(1, 5) ? s.n : r.coin(1, 3) ? 1 : r.range(1, std::min(s.n, 12L));
            emit_knn<T>(*tree, q, s.unit, k);
            if (r.coin(1, 10)) { long more = s.n + r.range(1, 3); too_many(more, [&] { tree->query(real<T>(q, s.unit), (std::size_t)more); }); }
        } else {
            long half = r.range(0, 2 * s.range + 2);
            if (r.coin(1, 6)) half = 0;
            if (r.coin(1, 3)) {   // exactly the distance of an axis-parallel neighbour
                long i = r.range(0, s.n - 1), a = r.range(0, s.d - 1), off = r.range(0, s.range);
                q.row(0) = g.row(i); q(0, a) += r.coin() ? off : -off; half = 2 * off;
            }
            if (r.coin(1, 8)) half = 2 * (2 * s.range + 5) * s.d;
            emit_radius<T>(*tree, q, s.unit, half, euclid);
        }
    }
}

#ifdef WITH_KNN
template <class T> void clf_case(Rng& r, const Opt& o) {
    using Col = Eigen::Matrix<T, Eigen::Dynamic, 1>;
    Shape s = make_shape(r, o, sizeof(T) == 4);
    bool brute = r.coin();
    if (brute && s.metric == "chebyshev") s.metric = "manhattan";
    long k = r.coin(1, 6) ? s.n : r.range(1, std::min(s.n, 15L));
    bool dflt = r.coin(1, 12);
    if (dflt) { brute = false; s.metric = "euclidean"; k = 15; s.n = std::max(s.n, 15L + r.range(0, 10)); }
    std::unique_ptr<openml::neighbors::KNearestNeighbors<T>> knn(
        dflt ? new openml::neighbors::KNearestNeighbors<T>()
             : new openml::neighbors::KNearestNeighbors<T>(s.leaf, k, brute ? "brute" : "kdtree", s.metric));
    int fits = r.range(1, 3);
    for (int f = 0; f < fits; f++) {
        if (f && !dflt) { s.n = std::max(k, r.range(1, 30)); }
        if (r.coin(1, 8) && k > 1) s.n = r.range(1, k - 1); else if (s.n < k) s.n = k + r.range(0, 5);
        Grid g = make_data(r, s.n, s.d, s.range);
        std::vector<long> values = r.pick(std::vector<std::vector<long>>{{0, 1}, {-1, 1}, {0, 1, 2}, {3, 7, -2, 5}});
        Grid y(s.n, 1); for (long i = 0; i < s.n; i++) y(i, 0) = r.pick(values);
        bool ok = guarded("Fit", [&] {
            Col yy = y.template cast<T>();
            knn->fit(real<T>(g, s.unit), yy);
            Ev("Fit").b("ok", true).str("metric", s.metric).str("solver", brute ? "brute" : "kdtree").i("k", k)
                .mat("data", g).vec("labels", y.col(0)).end();
        });
        if (!ok) return;
        int calls = r.range(1, 3);
        for (int c = 0; c < calls; c++) {
            Grid q = make_queries(r, g, r.coin(1, 12) ? r.range(5, 25) : r.range(1, 4), s.range);
            if (k > s.n) { too_many(k, [&] { knn->predict(real<T>(q, s.unit)); }); continue; }
            guarded("Predict", [&] {
                auto p = knn->predict(real<T>(q, s.unit));
                Ev("Predict").b("ok", true).mat("q", q).vec("lab", p).end();
            });
        }
    }
}
#endif

int main(int argc, char** argv) {
    Opt o = parse(argc, argv);
    return run(o, [](Rng& r, long c, const Opt& o) {
#ifdef WITH_KNN
        if (o.mode == "clf") { if (r.coin(1, 3)) clf_case<float>(r, o); else clf_case<double>(r, o); return; }
#endif
        if (r.coin(1, 3)) tree_case<float>(r, o); else tree_case<double>(r, o);
    }, o.cases);
}
