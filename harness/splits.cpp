// Drives random::shuffle_data, data::train_test_split, data::divide_on_feature and the random draws.
#include "harness.hpp"
using namespace vh;
using namespace openml;
template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> using Vec = Eigen::Matrix<T, Eigen::Dynamic, 1>;
// both sources of seeds are under control; each call sees a new value
static Rng chance;
unsigned int std::random_device::_M_getval() { return (unsigned)chance.next(); }
std::chrono::_V2::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept { return time_point(duration((long)(chance.next() >> 2))); }
// one case keeps to quarters or to tenths (which binary fractions do not represent), possibly far from zero, where single precision no longer tells neighbours apart
static double QS = 4; static long base = 0;
template <class T> T value(Rng& r, long span) { return std::is_integral<T>::value ? (T)r.range(-span, span) : (T)(base + r.range((long)-QS * span, (long)QS * span) / QS); }
template <class T> Mat<T> table(Rng& r, long n, long d) {
    long span = r.pick(std::vector<long>{1, 3, 200}); Mat<T> X(n, d);
    for (long i = 0; i < n; i++) for (long j = 0; j < d; j++) X(i, j) = value<T>(r, span);
    return X;
}
template <class T, class L> void history(Rng& r) {
    chance = Rng(r.next()); QS = r.coin() ? 4 : 10; base = std::is_same<T, double>::value && r.coin(1, 4) ? 16777216 : 0;
    long n = r.coin(1, 60) ? r.range(60, 200) : r.coin(1, 12) ? r.range(13, 40) : r.range(1, 12), d = r.coin(1, 15) ? r.range(5, 12) : r.range(1, 4);
    Mat<T> X = table<T>(r, n, d); Vec<L> y(n); bool ids = r.coin(3, 4); for (long i = 0; i < n; i++) y(i) = (L)((sizeof(L) == 8 ? base : 0) + (ids ? i : r.range(0, 2)));
    Ev("Load").mat("X", X, QS).vec("y", y, QS).end();
    for (int s = r.range(2, 7); s > 0; s--) {
        int what = r.range(0, 5);
        if (what == 0) guarded("Shuffle", [&] {
            Mat<T> A = X, B; Vec<L> u = y, v; if (r.coin()) { B = Mat<T>::Zero(r.range(1, 5), r.range(1, 5)); v = Vec<L>::Zero(r.range(1, 5)); }
            random::shuffle_data<Mat<T>, Vec<L>>(A, u, B, v);
            Ev("Shuffle").b("ok", true).b("same", A == X && u == y).mat("X", B, QS).vec("y", v, QS).end(); X = B; y = v; });
        else if (what == 1) guarded("ShuffleMatrix", [&] {
            Mat<T> A = X, B; int axis = r.range(0, 1); bool dflt = r.coin(1, 4); if (dflt) axis = 1;
            if (dflt) random::shuffle_data<Mat<T>>(A, B); else random::shuffle_data<Mat<T>>(A, B, axis);
            Ev("ShuffleMatrix").b("ok", true).b("same", A == X).i("axis", axis).mat("X", B, QS).end(); });
        else if (what <= 3) {
            long den = r.pick(std::vector<long>{2, 4, 8, 10, 3, 5, 7}), num = r.range(0, den); bool sh = r.coin(), keep = r.coin(), dflt = r.coin(1, 5);
            if (dflt) { num = 3; den = 4; sh = true; }
            long m = X.rows(); if ((m * num) % den == 0 && (den & (den - 1)) && num && num != den) num = den;     // the product has to be exact, or not a whole number
            guarded("Split", [&] {
                Mat<T> A = X, Xa, Xb; Vec<L> u = y, ya, yb; double ratio = (double)num / (double)den;
                if (dflt) std::tie(Xa, Xb, ya, yb) = data::train_test_split<Mat<T>, Vec<L>>(A, u);
                else std::tie(Xa, Xb, ya, yb) = data::train_test_split<Mat<T>, Vec<L>>(A, u, ratio, sh);
                keep = keep && Xa.rows() > 0;
                Ev("Split").b("ok", true).b("same", A == X && u == y).i("num", num).i("den", den).b("shuffled", sh).b("keep", keep)
                    .mat("Xa", Xa, QS).vec("ya", ya, QS).mat("Xb", Xb, QS).vec("yb", yb, QS).end();
                if (keep) { X = Xa; y = ya; } });
        }
        else guarded("Divide", [&] {
            Mat<T> A = X; long f = r.range(0, d - 1); T t = r.coin() ? X(r.range(0, X.rows() - 1), f) : value<T>(r, r.coin() ? 3 : 200);
            std::vector<std::size_t> keep, drop; std::tie(keep, drop) = data::divide_on_feature<Mat<T>>(A, f, t);
            Ev("Divide").b("ok", true).b("same", A == X).i("f", f).x("t", (double)t, QS).sv("keep", keep).sv("drop", drop).end(); });
    }
}
std::string orders(const std::set<std::vector<long>>& s) { return Ev::jstd2(std::vector<std::vector<long>>(s.begin(), s.end())); }
void coverage(Rng& r) {
    chance = Rng(r.next()); Ev("Load").raw("X", "[]").raw("y", "[]").end();
    long n = r.range(1, 3); int what = r.range(0, 5);
    Mat<double> X(n, 1); Vec<double> y(n); for (long i = 0; i < n; i++) X(i, 0) = y(i) = i;
    std::set<std::vector<long>> seen; auto add = [&](const Mat<double>& m) { std::vector<long> v; for (long i = 0; i < m.size(); i++) v.push_back((long)m(i)); seen.insert(v); };
    if (what <= 3) guarded("AllOrders", [&] {
        for (int t = 0; t < 250; t++) {
            if (what == 0) { Mat<double> B; Vec<double> v; random::shuffle_data<Mat<double>, Vec<double>>(X, y, B, v); add(B); }
            else if (what == 1) { Mat<double> B; random::shuffle_data<Mat<double>>(X, B, 1); add(B); }
            else if (what == 2) { Mat<double> A = X.transpose(), B; random::shuffle_data<Mat<double>>(A, B, 0); add(B.transpose()); }
            else { Mat<double> a, b, ab(n, 1); Vec<double> u, v; std::tie(a, b, u, v) = data::train_test_split<Mat<double>, Vec<double>>(X, y, 0.5, true); ab << a, b; add(ab); }
        }
        Ev("AllOrders").b("ok", true).i("n", n).raw("orders", orders(seen)).end(); });
    else if (what == 4) {
        guarded("AllOrders", [&] { for (int t = 0; t < 250; t++) { Vec<Eigen::Index> p = random::permutation<Vec<Eigen::Index>>(n); std::vector<long> v(p.data(), p.data() + p.size()); seen.insert(v); }
            Ev("AllOrders").b("ok", true).i("n", n).raw("orders", orders(seen)).end(); });
        long m = r.coin(1, 4) ? r.range(20, 60) : r.range(1, 12);
        guarded("Permutation", [&] { Vec<Eigen::Index> p = random::permutation<Vec<Eigen::Index>>(m); Ev("Permutation").b("ok", true).i("n", m).vec("idx", p).end(); });
    }
    else {
        long rows = r.range(1, 5), cols = r.range(1, 5), low = r.range(-3, 2), high = low + r.range(0, 3);
        guarded("Draws", [&] { auto m = random::randint<int>(rows, cols, low, high); Ev("Draws").b("ok", true).i("rows", rows).i("cols", cols).i("low", low).i("high", high).mat("X", m).end(); });
        guarded("Draws", [&] { Mat<double> m = random::rand<Mat<double>>(rows, cols, (double)low, high + 0.5); Ev("Draws").b("ok", true).i("rows", rows).i("cols", cols).x("low", low, 10000).x("high", high + 0.5, 10000).mat("X", m, 10000).end(); });
        guarded("Draws", [&] { Mat<float> m = random::rand<Mat<float>>(rows, cols); Ev("Draws").b("ok", true).i("rows", rows).i("cols", cols).i("low", 0).i("high", 10000).mat("X", m, 10000).end(); });
        guarded("Draws", [&] { Mat<double> m = random::randn<Mat<double>>(rows, cols); Ev("Draws").b("ok", true).i("rows", rows).i("cols", cols).i("low", -120000).i("high", 120000).mat("X", m, 10000).end(); });
        guarded("AllDraws", [&] { std::set<long> s; for (int t = 0; t < 300; t++) { auto m = random::randint<int>(4, 4); for (long i = 0; i < m.size(); i++) s.insert(m(i)); }
            Ev("AllDraws").b("ok", true).i("low", 0).i("high", 100).sv("seen", std::vector<long>(s.begin(), s.end())).end(); });
        guarded("Normal", [&] { bool df = r.coin(1, 3); double mu = df ? 0 : low, sd = df ? 1 : r.range(1, 12) / 4.0; Mat<double> m = df ? random::randn<Mat<double>>(40, 25) : random::randn<Mat<double>>(40, 25, mu, sd);
            double a = m.mean(), v = (m.array() - a).square().mean(); Ev("Normal").b("ok", true).x("mu", mu, 1000).x("sd", sd, 1000).x("mean", a, 1000).x("dev", std::sqrt(v), 1000).end(); });
        guarded("AllDraws", [&] { std::set<long> s; for (int t = 0; t < 40; t++) { auto m = random::randint<long>(3, 3, low, high); for (long i = 0; i < m.size(); i++) s.insert(m(i)); }
            Ev("AllDraws").b("ok", true).i("low", low).i("high", high).sv("seen", std::vector<long>(s.begin(), s.end())).end(); });
    }
}
int main(int argc, char** argv) { Opt o = parse(argc, argv); return run(o, [](Rng& r, long, const Opt&) {
    switch (r.range(0, 9)) { case 0: case 1: coverage(r); break; case 2: case 3: history<float, float>(r); break; case 4: history<int, int>(r); break; case 5: history<double, int>(r); break; default: history<double, double>(r); } }, o.cases); }
