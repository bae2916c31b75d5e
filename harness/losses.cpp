// Drives the loss functions: histories of evaluate / gradient calls on one object.
#include "harness.hpp"
#include "/repo/src/core/loss/log_loss.hpp"
#include "/repo/src/core/loss/hinge_loss.hpp"
#include "/repo/src/core/loss/mean_squared_error.hpp"
#include "/repo/src/core/loss/softmax_loss.hpp"
#ifdef WITH_HUBER
#include "/repo/src/core/loss/huber_loss.hpp"
#endif
using namespace vh;
using namespace openml;
template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> using Col = Eigen::Matrix<T, Eigen::Dynamic, 1>;

template <class T, class L> void history(Rng& r, const L& loss, const std::string& kind, double lam, double par) {
    // an extreme case has scores of some hundreds: fewer counts per unit
    bool extreme = r.coin(1, 3) && kind != "mse" && kind != "huber";
    double s = extreme ? 10000 : 1000000;
    Ev("Make").str("kind", kind).i("s", (long)s).x("lam", lam, s).x("par", par, s).b("flt", sizeof(T) == 4).end();
    bool sm = kind == "softmax", cls = kind == "log" || kind == "hinge" || sm;
    int calls = r.range(1, 4);
    long n = r.range(1, 8), d = r.range(1, 4), K = sm ? r.range(2, 4) : 1;
    Mat<T> X; Col<T> y; Mat<T> W;
    for (int c = 0; c < calls; c++) {
        if (c == 0 || r.coin()) {
            n = r.range(1, 8); d = r.range(1, 4); if (!extreme && r.coin(1, 25)) { n = kind == "hinge" ? r.range(9, 11) : r.range(9, 40); d = r.range(1, 7); }   // (every choice at the kinks of a hinge loss is tried)
            if (sm) K = r.range(2, 4);
            long xr = extreme ? r.pick(std::vector<long>{12, 40, 80}) : 8;
            X = Mat<T>(n, d); for (long i = 0; i < n; i++) for (long j = 0; j < d; j++) X(i, j) = (T)(r.range(-xr, xr) / 4.0);
            y = Col<T>(n); for (long i = 0; i < n; i++) y(i) = kind == "hinge" ? (r.coin() ? 1 : -1) : cls ? (T)r.range(0, sm ? K - 1 : 1) : (T)(r.range(-24, 24) / 4.0);
        }
        if (c == 0 || W.rows() != d || W.cols() != K || r.coin()) {
            long wr = extreme ? r.pick(std::vector<long>{12, 40, 100}) : 8;
            W = Mat<T>(d, K); for (long i = 0; i < d; i++) for (long j = 0; j < K; j++) W(i, j) = (T)(r.range(-wr, wr) / 4.0);
            if (r.coin(1, 6)) W.setZero();
            if (sm && r.coin(1, 6)) W.col(1) = W.col(0);
        }
        // the largest term of any sum involved
        Mat<double> Z = X.template cast<double>() * W.template cast<double>();
        double xm = X.template cast<double>().cwiseAbs().maxCoeff(), zm = std::max(1.0, Z.cwiseAbs().maxCoeff());
        double ym = kind == "mse" || kind == "huber" ? y.template cast<double>().cwiseAbs().maxCoeff() : 1;
        double mag = (zm + ym) * std::max(1.0, xm) + W.template cast<double>().squaredNorm() * lam;
        if (kind == "mse") mag += (zm + ym) * (zm + ym);
        mag = std::max(mag, X.template cast<double>().cwiseAbs().maxCoeff() * W.template cast<double>().cwiseAbs().sum()) * n;
        Mat<T> X0 = X, W0 = W; Col<T> y0 = y;
        auto wt = [&](Ev& ev) { if (sm) { Mat<T> t = W0.transpose(); ev.mat("w", t, s); } else ev.vec("w", W0.col(0), s); };
        auto args = [&](Ev& ev) { ev.mat("X", X0, s); if (cls) ev.vec("y", y0, 1); else ev.vec("y", y0, s); wt(ev);
                                  ev.x("mag", mag, s).i("xm", (long)std::ceil(xm)).b("same", X == X0 && W == W0 && y == y0); };
        bool both = r.coin();
        if (both || r.coin()) guarded("Value", [&] {
            double f; if constexpr (std::is_same<L, loss::SoftmaxLoss<T>>::value) f = loss.evaluate(X, y, W); else f = loss.evaluate(X, y, W.col(0));
            Ev ev("Value"); ev.b("ok", true).x("f", f, s); args(ev); ev.end(); });
        if (both || r.coin()) guarded("Grad", [&] {
            Mat<T> g; if constexpr (std::is_same<L, loss::SoftmaxLoss<T>>::value) g = loss.gradient(X, y, W); else g = loss.gradient(X, y, W.col(0));
            Ev ev("Grad"); ev.b("ok", true); if (sm) { Mat<T> t = g.transpose(); ev.mat("g", t, s); } else ev.vec("g", g.col(0), s); args(ev); ev.end(); });
    }
}
template <class T> void body(Rng& r) {
    bool dflt = r.coin(1, 8);
    double lam = dflt ? 0 : r.pick(std::vector<double>{0, 0.25, 0.5, 1, 2, 4});
    int k = r.range(0, 4);
    if (k == 0) { if (dflt) history<T>(r, loss::LogLoss<T>(), "log", lam, 0); else history<T>(r, loss::LogLoss<T>(lam), "log", lam, 0); }
    if (k == 1) { double th = dflt ? 1 : r.pick(std::vector<double>{0, 0.5, 1, 2}); if (dflt) history<T>(r, loss::HingeLoss<T>(), "hinge", lam, th); else history<T>(r, loss::HingeLoss<T>(lam, th), "hinge", lam, th); }
    if (k == 2) { if (dflt) history<T>(r, loss::MSE<T>(), "mse", lam, 0); else history<T>(r, loss::MSE<T>(lam), "mse", lam, 0); }
    if (k == 3) { if (dflt) history<T>(r, loss::SoftmaxLoss<T>(), "softmax", lam, 0); else history<T>(r, loss::SoftmaxLoss<T>(lam), "softmax", lam, 0); }
#ifdef WITH_HUBER
    if (k == 4) { double de = dflt ? 1 : r.pick(std::vector<double>{0.25, 0.5, 1, 2}); if (dflt) history<T>(r, loss::HuberLoss<T>(), "huber", lam, de); else history<T>(r, loss::HuberLoss<T>(lam, de), "huber", lam, de); }
#endif
}
int main(int argc, char** argv) { Opt o = parse(argc, argv); return run(o, [](Rng& r, long, const Opt&) { if (r.coin(1, 3)) body<float>(r); else body<double>(r); }, o.cases); }
