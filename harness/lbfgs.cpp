// Drives LBFGS on smooth objectives that log every evaluation.
#include "harness.hpp"
#include "/repo/src/core/optimizer/lbfgs/lbfgs.hpp"
using namespace vh;
using namespace openml;
using Mat = Eigen::MatrixXd; using Col = Eigen::VectorXd;
constexpr double SC = 1e6;

struct Obj { int kind; Mat A; Col c; double a; };
static Obj O;
static double value(const Col& x) {
    Col u = x - O.c; double s = 0;
    switch (O.kind) {
        case 0: return 0.5 * u.dot(O.A * u) + O.a;
        case 1: for (long i = 0; i < u.size(); i++) s += std::sqrt(1 + O.a * O.a * u(i) * u(i)); return s;
        case 2: for (long i = 0; i < u.size(); i++) s += 2 * (1 - std::cos(u(i))) + 0.05 * u(i) * u(i); return s;
        case 3: return (1 - x(0)) * (1 - x(0)) + 5 * std::pow(x(1) - x(0) * x(0), 2);
        case 4: for (long i = 0; i < u.size(); i++) s += std::pow(u(i), 4) / 8 + 0.1 * u(i) * u(i); return s;
        case 5: for (long i = 0; i < u.size(); i++) { double v = std::abs(u(i)); s += v <= 0.5 ? v * v : v - 0.25; } return O.a * s;
        default: for (long i = 0; i < u.size(); i++) s += O.a * x(i) - std::log(x(i)); return s;   // NaN outside the positive orthant
    }
}
static Col grad(const Col& x) {
    Col u = x - O.c, g(x.size());
    if (O.kind == 0) return O.A * u;
    for (long i = 0; i < u.size(); i++) switch (O.kind) {
        case 1: g(i) = O.a * O.a * u(i) / std::sqrt(1 + O.a * O.a * u(i) * u(i)); break;
        case 2: g(i) = 2 * std::sin(u(i)) + 0.1 * u(i); break;
        case 3: g(i) = i == 0 ? -2 * (1 - x(0)) - 20 * x(0) * (x(1) - x(0) * x(0)) : 10 * (x(1) - x(0) * x(0)); break;
        case 4: g(i) = std::pow(u(i), 3) / 2 + 0.2 * u(i); break;
        case 5: g(i) = O.a * (std::abs(u(i)) <= 0.5 ? 2 * u(i) : u(i) > 0 ? 1 : -1); break;
        default: g(i) = O.a - 1 / x(i);
    }
    return g;
}
// value and gradient of a trial point may be asked for in either order: they are logged in one
static struct { bool any = false, v = false, g = false; Col x, grad; double f = 0; } T;
static void settle() {
    if (T.v) Ev("Val").vec("x", T.x, SC).x("f", T.f, SC).end();
    if (T.g) Ev("Grad").vec("x", T.x, SC).vec("g", T.grad, SC).end();
    T.any = T.v = T.g = false;
}
static void at(const Col& x) { if (T.any && T.x != x) settle(); T.any = true; T.x = x; }
struct Loss {
    double evaluate(const Mat& X, const Col& y, const Col& W) const { at(W); T.v = true; T.f = value(W); double f = T.f; if (T.g) settle(); return f; }
    Col gradient(const Mat& X, const Col& y, const Col& W) const { at(W); T.g = true; Col g = T.grad = grad(W); if (T.v) settle(); return g; }
};

static void body(Rng& r, long, const Opt& o) {
    long d = r.coin(1, 20) ? r.range(5, 8) : r.range(1, 4);
    O.kind = r.range(0, 6);
    if (O.kind == 3) d = 2;
    O.a = r.pick(std::vector<double>{0.5, 1, 2, 3});
    O.c = Col(d); for (long i = 0; i < d; i++) O.c(i) = r.range(-12, 12) / 4.0;
    O.A = Mat::Zero(d, d); for (long i = 0; i < d; i++) O.A(i, i) = r.pick(std::vector<double>{0.25, 1, 2, 4, 8});
    if (r.coin()) { Col v(d); for (long i = 0; i < d; i++) v(i) = r.range(-2, 2); O.A += v * v.transpose(); }
    Col x0(d); for (long i = 0; i < d; i++) x0(i) = O.c(i) + r.range(-20, 20) / 4.0;
    if (O.kind == 3) for (long i = 0; i < d; i++) x0(i) = r.range(-8, 8) / 4.0;
    if (O.kind == 6) for (long i = 0; i < d; i++) x0(i) = r.range(1, 16) / 4.0;
    if (r.coin(1, 12) && O.kind < 3) x0 = O.c;                                    // already stationary
    std::string cond = r.pick(std::vector<std::string>{"ARMIJO", "WOLFE", "WOLFE", "STRONG_WOLFE"});
    std::string pol = r.coin() ? "backtracking" : "bracketing";
    double ftol = r.pick(std::vector<double>{1e-4, 0.01, 0.1, 0.3, 0.45}), wolfe = r.pick(std::vector<double>{0.9, 0.5, 0.7});
    if (wolfe <= ftol) wolfe = 0.9;
    double dec = r.pick(std::vector<double>{0.5, 0.5, 0.25, 0.8}), inc = r.pick(std::vector<double>{2.1, 2, 1.5});
    long maxls = r.coin(1, 3) ? r.range(1, 4) : r.range(5, 40);
    double mins = r.coin(1, 4) ? 0.03 : 1e-20, maxs = r.coin(1, 4) ? r.pick(std::vector<double>{3, 10}) : 1e20;
    int ctor = r.range(0, 3);
    if (ctor == 1) { dec = 0.5; inc = 2.1; mins = 1e-20; maxs = 1e20; }
    if (ctor == 2) { dec = 0.5; inc = 2.1; mins = 1e-20; maxs = 1e20; ftol = 1e-4; wolfe = 0.9; maxls = 40; cond = "WOLFE"; }
    using P = optimizer::LineSearchParams<double>;
    P par = ctor == 2 ? P() : ctor == 1 ? P(ftol, wolfe, maxls, cond) : P(dec, inc, ftol, wolfe, maxs, mins, maxls, cond);
    long maxit = r.coin(1, 3) ? r.range(1, 5) : r.range(6, 25), mem = r.range(1, 8), past = r.pick(std::vector<long>{0, 1, 1, 2, 3, 3, 5});
    double tol = r.pick(std::vector<double>{1e-2, 1e-3, 0.1}), delta = r.pick(std::vector<double>{0, 1e-3, 1e-2, 0.05});
    if (O.kind < 3 && past > 0 && delta > 0 && r.coin(1, 8)) maxit = 0;              // no limit: the decrease test ends the run
    optimizer::LBFGS<double, Loss, P> opt(x0, Loss(), par, maxit, mem, past, tol, delta, pol, false, false);
    int calls = r.coin(1, 6) ? 2 : 1;
    Mat X = Mat::Zero(2, d); Col y = Col::Zero(2);
    for (int c = 0; c < calls; c++) {
        Ev("Start").vec("x0", x0, SC).str("policy", pol).str("cond", cond).x("ftol", ftol, SC).x("wolfe", wolfe, SC).x("dec", dec, SC).x("inc", inc, SC)
            .x("mins", mins, SC).x("maxs", maxs, SC).i("maxls", maxls).i("maxit", maxit).i("mem", mem).i("past", past).x("tol", tol, SC).x("delta", delta, SC).end();
        guarded("Done", [&] { T.any = T.v = T.g = false; opt.optimize(X, y); settle(); Mat w = opt.get_coef(); Col z = w.size() ? Col(w.col(0)) : Col(0); Ev("Done").b("ok", true).vec("coef", z, SC).end(); });
    }
}
int main(int argc, char** argv) { Opt o = parse(argc, argv); return run(o, body, o.cases); }
