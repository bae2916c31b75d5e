// Drives SGD, SAG, TruncatedGradient and SCD with scripted losses, and the decay and
// update policies directly.  Modes: batches stop sag tg scd policy policyrun
#include "harness.hpp"
#include "/repo/src/core/optimizer/sgd/sgd.hpp"
#include "/repo/src/core/optimizer/sgd/sag.hpp"
#include "/repo/src/core/optimizer/sgd/tg.hpp"
#include "/repo/src/core/optimizer/sgd/scd.hpp"
#ifdef WITH_NESTEROV
#include "/repo/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp"
#endif
using namespace vh;
using namespace openml;
template <class T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> using Col = Eigen::Matrix<T, Eigen::Dynamic, 1>;

// the system clock seeds every shuffle: make it part of the case
static Rng* g_clock = nullptr;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_clock ? (long)(g_clock->next() >> 2) : 1)); }
}}}

// one script per case; the losses and policies are copied into the optimizer, so they share it
struct Script { Rng* r; double scale; int gstyle; int lstyle; double level; long evals; int pstyle; std::string judge; bool quiet; double floor; long epoch = -1; };
static Script S;

template <class T> struct ScriptLoss {
    Mat<T> gradient(const Mat<T>& X, const Col<T>& y, const Mat<T>& W) const {
        Mat<T> g(W.rows(), W.cols());
        for (long i = 0; i < g.rows(); i++) for (long j = 0; j < g.cols(); j++) {
            double v = S.r->range(-16, 16) / 4.0;
            if (S.gstyle == 1 && S.r->coin(1, 3)) v = (S.r->coin() ? 1 : -1) * (S.r->coin() ? 1e11 : 4e9);
            if (S.gstyle == 2) v = (double)W(i, j) / 2 - 1;              // a quadratic bowl
            if (S.gstyle == 3) v = S.r->range(-4, 4);
            if (S.gstyle == 4 && S.r->coin()) v = 0;
            g(i, j) = (T)v;
        }
        if (S.judge != "stop" && S.judge != "policy") Ev("Grad").mat("rows", X.leftCols(1)).vec("y", y).mat("w", W, S.scale).mat("g", g, S.scale).end();
        return g;
    }
    double evaluate(const Mat<T>& X, const Col<T>& y, const Mat<T>& W) const {
        double v = 0;
        switch (S.lstyle) {
            case 0: v = S.r->range(0, 8); break;                      // jumps around
            case 1: S.level -= S.r->range(0, 3) / 4.0; v = S.level; break;   // improves by about the tolerance
            case 2: v = S.level + S.r->range(-1, 1) / 4.0; break;        // plateau
            case 3: S.level *= S.r->coin(3, 4) ? 0.5 : 2; v = S.level; break;
            case 4: v = -S.r->range(0, 3); break;
            default: S.level += S.r->range(-3, 1) / 8.0; v = S.level;
        }
        v = std::nearbyint(v * 64) / 64 + S.floor;
        S.evals++;
        if (S.judge != "policy") Ev("Eval").mat("rows", X.leftCols(1)).vec("y", y).mat("w", W, S.scale).x("loss", v, 64).end();
        return v;
    }
};
template <class T> struct LogPolicy {
    Mat<T> update(const Mat<T>& W, const Mat<T>& grad, const double lr) const {
        Mat<T> out = W - (T)lr * grad;
        if (S.pstyle == 1) for (long i = 0; i < out.rows(); i++) for (long j = 0; j < out.cols(); j++) out(i, j) = (T)(S.r->range(-64, 64) / 8.0);
        if (S.judge != "stop") Ev("Upd").mat("w", W, S.scale).mat("g", grad, S.scale).x("lr", lr, 1 << 20).mat("out", out, S.scale).end();
        return out;
    }
};
struct LogDecay {
    double base; int style;
    double compute(std::size_t epoch) {
        double lr = style == 0 ? base : style == 1 ? base / (double)(1 << std::min<std::size_t>(epoch, 8)) : base * (double)((epoch * 7 + 3) % 5 + 1) / 8;
        if ((long)epoch != S.epoch) Ev("Lr").i("epoch", (long)epoch).x("lr", lr, 1 << 20).end();       // asking again for the rate of the same epoch is no new epoch
        S.epoch = (long)epoch;
        return lr;
    }
};

template <class T> void opt_case(Rng& r, const Opt& o) {
    Rng clk(r.next()); g_clock = &clk;
    S = Script{}; S.r = &r; S.judge = o.mode; S.scale = 4096;
    if (o.mode == "tg") S.scale = 131072;
    std::string kind = o.mode == "sag" ? "sag" : o.mode == "tg" ? "tg" : r.pick(std::vector<std::string>{"sgd", "sgd", "sag", "tg"});
    long n = r.coin(1, 4) ? r.range(1, 4) : r.range(1, 24), d = r.range(1, 4), K = 1;
    long b = r.coin(1, 4) ? n : r.coin(1, 3) ? 1 : r.range(1, n);
    if (r.coin(1, 40)) { n = r.range(25, 90); b = r.range(1, n); }
    if (o.mode == "stop") { n = r.range(1, 5); b = r.range(1, n); }
    if (r.coin(1, 15)) b = n + r.range(1, 3);
    bool mc = kind == "sgd" && r.coin(1, 4);
    if (mc) K = r.range(2, 3);
    bool shuffle = r.coin();
    long maxit = r.range(1, 6), pat = r.range(1, 3); double tol = r.pick(std::vector<double>{0, 0.25, 0.125, 1, 0.0625});
    S.lstyle = r.range(0, 5); S.level = r.range(4, 32); S.gstyle = r.pick(std::vector<int>{0, 0, 0, 2, 3, 4}); S.pstyle = r.coin(1, 3);
    if (o.mode == "batches" && r.coin(1, 6)) { S.gstyle = 1; S.pstyle = 1; S.scale = 0.01; }
    if (o.mode == "stop") { maxit = r.coin(1, 12) ? 0 : r.range(1, 16); pat = r.coin(1, 10) ? 0 : r.range(1, 6); if (r.coin(1, 20)) { maxit = r.range(17, 60); pat = r.range(1, 12); } if (r.coin()) S.lstyle = r.pick(std::vector<int>{1, 2, 5}); }
    if (o.mode == "stop" && sizeof(T) == 8 && S.lstyle != 3 && r.coin(1, 3)) S.floor = 1 << 20;     // small changes of large losses
    if (o.mode == "sag" || o.mode == "tg") { maxit = r.range(2, 8); pat = r.range(2, 9); if (o.mode == "tg") { S.pstyle = 0; S.gstyle = r.pick(std::vector<int>{0, 2, 3, 4}); } }
    double alpha = 1, l1 = 0.5;
    if (kind == "tg") { alpha = r.pick(std::vector<double>{0, 0.125, 0.5, 1, 2}); l1 = r.pick(std::vector<double>{0, 0.25, 0.5, 1}); }
    Mat<T> X(n, d); Col<T> y(n);
    for (long i = 0; i < n; i++) { for (long j = 0; j < d; j++) X(i, j) = (T)(i + 1 + 100 * j); y(i) = mc ? (T)(i % K) : (T)(1000 + i); }
    Mat<T> x0(d, K); for (long i = 0; i < d; i++) for (long j = 0; j < K; j++) x0(i, j) = (T)(r.range(-32, 32) / 4.0);
    LogDecay dec{r.pick(std::vector<double>{1, 0.5, 0.25}), (int)r.range(0, 2)};
    using L = ScriptLoss<T>; using P = LogPolicy<T>;
    std::unique_ptr<optimizer::SGD<T, L, P, LogDecay>> sgd;
    std::unique_ptr<optimizer::SAG<T, L, P, LogDecay>> sag;
    std::unique_ptr<optimizer::TruncatedGradient<T, L, P, LogDecay>> tg;
    bool verbose = r.coin(1, 6);
    if (kind == "sgd") sgd.reset(new optimizer::SGD<T, L, P, LogDecay>(x0, L(), P(), dec, maxit, b, pat, tol, shuffle, verbose, mc));
    else if (kind == "sag") sag.reset(new optimizer::SAG<T, L, P, LogDecay>(x0.col(0), L(), P(), dec, maxit, b, pat, tol, shuffle, verbose));
    else tg.reset(new optimizer::TruncatedGradient<T, L, P, LogDecay>(x0.col(0), L(), P(), dec, maxit, b, pat, tol, alpha, l1, shuffle, verbose));
    int calls = r.coin(1, 5) ? r.range(2, 3) : 1;
    for (int c = 0; c < calls; c++) {
        if (c > 0 && r.coin()) {                                      // the next run may see other data
            n = r.range(1, 20); X.resize(n, d); y.resize(n);
            for (long i = 0; i < n; i++) { for (long j = 0; j < d; j++) X(i, j) = (T)(i + 1 + 100 * j); y(i) = mc ? (T)(i % K) : (T)(1000 + i); }
        }
        S.epoch = -1; Ev("Start").str("judge", o.mode).str("kind", kind).b("cont", c > 0).i("n", n).i("b", b).i("maxit", maxit).i("pat", pat).x("tolb", tol * b, 64).b("shuffle", shuffle)
            .vec("y", y).mat("x0", x0, S.scale).x("clip", 1e10, S.scale).x("pen", l1 * alpha, S.scale).end();
        std::string what; bool ok = true;
        try {
            if (sgd) sgd->optimize(X, y); else if (sag) sag->optimize(X, y); else tg->optimize(X, y);
        } catch (const std::exception& e) { ok = false; what = e.what(); }
        Ev ev("Done"); ev.b("ok", ok);
        if (ok) { if (sgd) ev.mat("coef", sgd->get_coef(), S.scale); else if (sag) ev.mat("coef", sag->get_coef(), S.scale); else ev.mat("coef", tg->get_coef(), S.scale); }
        ev.end();
    }
}

// ---------------------------------------------------------------- coordinate descent
struct ScdScript { Rng* r; int style; std::vector<double> target, curv; };
static ScdScript C;
template <class T> struct ScdLoss {
    Mat<T> gradient(const Mat<T>& X, const Col<T>& y, const Mat<T>& W) const {
        Mat<T> g(W.rows(), 1);
        for (long i = 0; i < g.rows(); i++) {
            double v = C.r->range(-64, 64) / 16.0;
            if (C.style == 1) v = C.curv[i] * ((double)W(i, 0) - C.target[i]);
            if (C.style == 2) v = C.r->range(-2, 2);
            if (C.style == 3 && C.r->coin()) v = 0;
            v = std::nearbyint(v * 16) / 16;
            g(i, 0) = (T)std::max(-16.0, std::min(16.0, v));
        }
        Ev("SGrad").mat("rows", X.leftCols(1)).vec("y", y).vec("w", W.col(0), 64).vec("g", g.col(0), 64).end();
        return g;
    }
    double evaluate(const Mat<T>&, const Col<T>&, const Mat<T>&) const { return 1; }
};
template <class T> void scd_case(Rng& r, const Opt& o) {
    Rng clk(r.next()); g_clock = &clk;
    C.r = &r; C.style = r.range(0, 3);
    long n = r.range(1, 12), d = r.range(1, 6), maxit = r.range(0, 10);
    long rd = r.pick(std::vector<long>{1, 1, 2}), rn = r.pick(std::vector<long>{1, 2, 4}); double rho = (double)rn / rd;
    double lam = r.pick(std::vector<double>{0, 0.0625, 0.25, 1, 2});
    C.target.clear(); C.curv.clear();
    for (long j = 0; j < d; j++) { C.target.push_back(r.range(-16, 16) / 4.0); C.curv.push_back(r.pick(std::vector<double>{0.5, 0.25, rho})); }
    Mat<T> X(n, d); Col<T> y(n); Col<T> x0(d);
    for (long i = 0; i < n; i++) { for (long j = 0; j < d; j++) X(i, j) = (T)(i + 1 + 100 * j); y(i) = (T)(1000 + i); }
    bool zero = r.coin();
    for (long j = 0; j < d; j++) x0(j) = zero ? 0 : (T)(r.range(-32, 32) / 16.0);
    bool shuffle = r.coin(), verbose = r.coin(1, 6);
    optimizer::SCD<T, ScdLoss<T>> scd(x0, ScdLoss<T>(), (std::size_t)maxit, rho, lam, shuffle, verbose);
    int calls = r.coin(1, 5) ? r.range(2, 3) : 1;
    for (int c = 0; c < calls; c++) {
        if (c > 0 && r.coin()) {
            n = r.range(1, 12); X.resize(n, d); y.resize(n);
            for (long i = 0; i < n; i++) { for (long j = 0; j < d; j++) X(i, j) = (T)(i + 1 + 100 * j); y(i) = (T)(1000 + i); }
        }
        Ev("SStart").b("cont", c > 0).i("n", n).i("maxit", maxit).i("rn", rn).i("rd", rd).x("lam", lam, 64).vec("x0", x0, 64).end();
        guarded("SDone", [&] { scd.optimize(X, y); Ev("SDone").b("ok", true).vec("coef", scd.get_coef().col(0), 64).end(); });
    }
}

// ---------------------------------------------------------------- policies
template <class T, class P> void updates(Rng& r, P& p) {
    long d = r.range(1, 3), K = r.range(1, 2), steps = r.range(1, 8);
    int hist = r.range(0, 2);
    Mat<T> W(d, K); for (long i = 0; i < d; i++) for (long j = 0; j < K; j++) W(i, j) = (T)(r.range(-32, 32) / 4.0);
    for (long s = 0; s < steps; s++) {
        Mat<T> g(d, K); for (long i = 0; i < d; i++) for (long j = 0; j < K; j++) g(i, j) = (T)(r.range(-16, 16) / 4.0);
        if (hist == 1 && s > 1) g.setZero();                       // the velocity alone must move the weights
        double lr = r.pick(std::vector<double>{1, 0.5, 0.25, 0});
        guarded("PUpd", [&] {
            Mat<T> out = p.update(W, g, lr);
            Ev("PUpd").b("ok", true).mat("w", W, 65536).mat("g", g, 65536).x("lr", lr, 65536).mat("out", out, 65536).end();
            W = out;
        });
        if (hist == 2) for (long i = 0; i < d; i++) W(i, 0) += (T)r.range(-1, 1);
    }
}
template <class T> void policy_case(Rng& r, const Opt& o) {
    int kind = r.range(0, 4);
    double mu = r.pick(std::vector<double>{0, 0.25, 0.5, 0.75, 1});
    if (kind == 0) { optimizer::VanillaUpdate<T> p; Ev("PStart").str("kind", "vanilla").x("mu", 0, 65536).end(); updates<T>(r, p); }
    else if (kind == 1) { optimizer::MomentumUpdate<T> p(mu); Ev("PStart").str("kind", "momentum").x("mu", mu, 65536).end(); updates<T>(r, p); }
    else if (kind == 2) {
#ifdef WITH_NESTEROV
        optimizer::NesterovMomentumUpdate<T> p((T)mu); Ev("PStart").str("kind", "nesterov").x("mu", mu, 65536).end(); updates<T>(r, p);
#endif
    } else {
        bool step = kind == 3, dflt = r.coin(1, 6), half = r.coin(1, 4);
        long bn = r.range(1, 32), gn = step ? r.range(0, 64) : r.range(0, 96), st = r.range(1, 12);  // base = bn/16, gamma = gn/64
        double base = bn / 16.0, gam = gn / 64.0;
        if (dflt) { base = 0.1; gam = 0.5; st = 10; gn = 32; } else if (half) { gam = 0.5; gn = 32; if (step) st = 10; }
        std::unique_ptr<optimizer::StepDecay<T>> sd; std::unique_ptr<optimizer::ExponentialDecay<T>> ed;
        if (step) { if (dflt) sd.reset(new optimizer::StepDecay<T>()); else if (half) sd.reset(new optimizer::StepDecay<T>(base)); else sd.reset(new optimizer::StepDecay<T>(base, gam, st)); }
        else { if (dflt) ed.reset(new optimizer::ExponentialDecay<T>()); else if (half) ed.reset(new optimizer::ExponentialDecay<T>(base)); else ed.reset(new optimizer::ExponentialDecay<T>(base, gam)); }
        Ev("DStart").str("kind", step ? "step" : "exp").x("base", base, 1000000).i("gn", gn).i("step", st).end();
        long q = r.range(3, 14), e = 0;
        for (long i = 0; i < q; i++) {
            guarded("Rate", [&] { double lr = step ? sd->compute(e) : ed->compute(e); Ev("Rate").b("ok", true).i("epoch", e).x("lr", lr, 1000000).end(); });
            e = r.coin(3, 4) ? e + 1 : r.range(0, 60);
        }
    }
}


// real policies inside real runs: the velocity and the rate must survive whatever the optimizer does with them
template <class T, class P> struct Logged {
    P p;
    Mat<T> update(const Mat<T>& W, const Mat<T>& g, const double lr) {
        Mat<T> out = p.update(W, g, lr);
        Ev("PUpd").b("ok", true).mat("w", W, 65536).mat("g", g, 65536).x("lr", lr, 65536).mat("out", out, 65536).end();
        return out;
    }
};
template <class D> struct LoggedRate {
    D d;
    double compute(std::size_t epoch) { double lr = d.compute(epoch); Ev("Rate").b("ok", true).i("epoch", (long)epoch).x("lr", lr, 1000000).end(); return lr; }
};
template <class T, class P, class D> void inside(Rng& r, Logged<T, P> p, LoggedRate<D> dec, std::function<void(bool)> start) {
    S = Script{}; S.r = &r; S.judge = "policy"; S.scale = 65536; S.lstyle = 0; S.level = 8; S.gstyle = r.pick(std::vector<int>{0, 2, 3, 4}); S.pstyle = 0;
    long n = r.range(1, 6), d = r.range(1, 3), b = r.range(1, n), maxit = r.range(1, 4), K = 1; bool mc = false;
    int kind = r.range(0, 2);
    if (kind == 0 && r.coin(1, 4)) { mc = true; K = r.range(1, 2); }
    if (n < K) n = K;
    Mat<T> X(n, d); Col<T> y(n), x0(d); Mat<T> x0m(d, K);
    for (long i = 0; i < n; i++) { for (long j = 0; j < d; j++) X(i, j) = (T)r.range(-3, 3); y(i) = (T)(mc ? i % K : i); }
    for (long j = 0; j < d; j++) { x0(j) = (T)(r.range(-8, 8) / 4.0); for (long k = 0; k < K; k++) x0m(j, k) = x0(j); }
    bool sh = r.coin(); double tol = 0.25; long pat = r.range(1, 5);
    using L = ScriptLoss<T>; using U = Logged<T, P>; using R = LoggedRate<D>;
    int runs = r.coin(1, 4) ? 2 : 1;
    auto go = [&](auto& opt, auto&& data) { for (int c = 0; c < runs; c++) { start(c > 0); try { data(opt); } catch (const std::exception&) {} } };
    if (kind == 0) { optimizer::SGD<T, L, U, R> o(x0m, L(), p, dec, maxit, b, pat, tol, sh, false, mc); go(o, [&](auto& o) { o.optimize(X, y); }); }
    else if (kind == 1) { optimizer::SAG<T, L, U, R> o(x0, L(), p, dec, maxit, b, pat, tol, sh, false); go(o, [&](auto& o) { o.optimize(X, y); }); }
    else { optimizer::TruncatedGradient<T, L, U, R> o(x0, L(), p, dec, maxit, b, pat, tol, 0.125, 0.5, sh, false); go(o, [&](auto& o) { o.optimize(X, y); }); }
}
template <class T, class P> void inside_any_rate(Rng& r, P p, const char* kind, double mu) {
    bool step = r.coin(); long bn = r.range(1, 16), gn = r.pick(std::vector<long>{16, 32, 48, 64, 63}), st = r.range(1, 3); double base = bn / 16.0;
    auto start = [&](bool again) { Ev("RStart").str("kind", kind).x("mu", mu, 65536).b("again", again).str("dk", step ? "step" : "exp").x("base", base, 1000000).i("gn", gn).i("step", st).end(); };
    Logged<T, P> lp{p};
    if (step) inside<T, P, optimizer::StepDecay<T>>(r, lp, {optimizer::StepDecay<T>(base, gn / 64.0, st)}, start);
    else inside<T, P, optimizer::ExponentialDecay<T>>(r, lp, {optimizer::ExponentialDecay<T>(base, gn / 64.0)}, start);
}
template <class T> void inside_case(Rng& r, const Opt&) {
    Rng clk(r.next()); g_clock = &clk;
    double mu = r.pick(std::vector<double>{0, 0.25, 0.5, 0.75, 1});
    int kind = r.range(0, 4);
    if (kind == 0) inside_any_rate<T>(r, optimizer::VanillaUpdate<T>(), "vanilla", 0);
    else if (kind < 3) inside_any_rate<T>(r, optimizer::MomentumUpdate<T>(mu), "momentum", mu);
#ifdef WITH_NESTEROV
    else inside_any_rate<T>(r, optimizer::NesterovMomentumUpdate<T>((T)mu), "nesterov", mu);
#endif
}

int main(int argc, char** argv) {
    Opt o = parse(argc, argv);
    return run(o, [](Rng& r, long c, const Opt& o) {
        bool f = r.coin(1, 3);
        if (o.mode == "scd") { if (f) scd_case<float>(r, o); else scd_case<double>(r, o); }
        else if (o.mode == "policyrun") { if (f) inside_case<float>(r, o); else inside_case<double>(r, o); }
        else if (o.mode == "policy") { if (f) policy_case<float>(r, o); else policy_case<double>(r, o); }
        else { if (f) opt_case<float>(r, o); else opt_case<double>(r, o); }
    }, o.cases);
}
