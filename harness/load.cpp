// Drives data::loadtxt: files are written, rewritten and removed in the scratch directory of the run, and
// loaded by every overload into outputs that keep what earlier loads left in them.
#include "harness.hpp"
using namespace vh;
using namespace openml;
template <class T, int O> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, O>;
template <class T> using Vec = Eigen::Matrix<T, Eigen::Dynamic, 1>;
static std::string digits(Rng& r, int lo, int hi) { std::string s; for (int n = r.range(lo, hi); n > 0; n--) s += (char)('0' + r.range(0, 9)); return s; }
// a number that is a whole multiple of 10^-places
static std::string number(Rng& r, int places, bool whole, bool wide) {
    std::string s = r.coin(1, 3) ? "-" : r.coin(1, 8) ? "+" : "";
    if (whole) return s + digits(r, 1, 5);
    if (r.coin(1, 3)) return s + digits(r, 1, 2);
    int dec = r.range(1, places), e = 0; bool ex = r.coin(1, 4);
    if (ex) { e = wide ? r.range(-2, 2) : r.range(-2, 0); dec = std::max(0, std::min(dec, places + std::min(e, 0))); }
    std::string w = digits(r, 0, 2), d = digits(r, dec, dec); if (w.empty() && d.empty()) w = "7";
    s += w; if (!d.empty() || r.coin(1, 4)) s += "." + d;
    if (ex) { s += r.coin() ? "e" : "E"; s += e < 0 ? "-" : r.coin() ? "+" : ""; s += std::to_string(std::abs(e)); }
    return s;
}
static std::string gap(Rng& r) { return r.coin(3, 4) ? " " : r.coin() ? "\t" : std::string(r.range(1, 4), ' ') + (r.coin() ? "\t " : ""); }
static std::string text(Rng& r, int places, bool whole, bool wide) {
    std::string s; if (r.coin(1, 14)) return r.coin() ? "" : r.coin() ? "\n" : " \n\n";
    long n = r.range(1, 7), d = r.range(1, 5);
    if (r.coin(1, 40)) { n = r.range(30, 150); d = r.range(1, 6); } else if (r.coin(1, 40)) d = r.range(20, 200);
    bool jagged = r.coin(1, 6);        // every line of a length of its own
    long ragged = r.coin(1, 6) ? r.range(0, n - 1) : -1, blanks = r.coin(1, 4); std::string nl = r.coin(1, 5) ? "\r\n" : "\n";
    for (long i = 0; i < n; i++) {
        if (blanks && r.coin(1, 3)) s += (r.coin() ? "" : gap(r)) + nl;
        if (r.coin(1, 6)) s += gap(r);
        long w = jagged ? r.range(0, 2 * d + 2) : i == ragged ? std::max(0L, d + r.pick(std::vector<long>{-1, 1})) : d;
        for (long j = 0; j < w; j++) { if (j) s += gap(r); s += number(r, places, whole, wide); }
        if (r.coin(1, 6)) s += gap(r);
        if (i + 1 < n || r.coin(2, 3)) s += nl;
    }
    if (blanks && r.coin(1, 3)) s += nl;
    return s;
}
static std::string codes(const std::string& s) { std::vector<int> v(s.begin(), s.end()); return Ev::jstd(v); }
template <class T, int O> void history(Rng& r, const Opt& o, int places, bool whole, bool wide) {
    double S = std::pow(10.0, places);
    auto path = [&](const std::string& n) { return o.dir + "/" + n + "-" + std::to_string((long)getpid()) + ".txt"; };
    Mat<T, O> X; Vec<T> y; std::vector<std::vector<T>> V, W; std::vector<T> w;
    for (int s = r.range(3, 9); s > 0; s--) {
        std::string n = r.coin(2, 3) ? "a" : "b"; int what = r.range(0, 7);
        if (what <= 2) { std::string t = text(r, places, whole, wide); { std::ofstream f(path(n), std::ios::binary); f << t; } Ev("Write").str("name", n).raw("text", codes(t)).end(); }
        if (what == 7 && r.coin(1, 4)) { ::unlink(path(n).c_str()); Ev("Remove").str("name", n).end(); }
        switch (r.range(0, 2)) {
        case 0: try { data::loadtxt<T>(path(n), V); Ev("Load").str("name", n).i("places", places).b("ok", true).sv2("X", V, S).end(); }
                catch (const std::exception&) { Ev("Load").str("name", n).i("places", places).b("ok", false).end(); } break;
        case 1: try { data::loadtxt<T>(path(n), W, w); Ev("LoadLabelled").str("name", n).i("places", places).b("ok", true).sv2("X", W, S).sv("y", w, S).end(); }
                catch (const std::exception&) { Ev("LoadLabelled").str("name", n).i("places", places).b("ok", false).end(); } break;
        default: try { data::loadtxt<Mat<T, O>, Vec<T>>(path(n), X, y); Ev("LoadLabelled").str("name", n).i("places", places).b("ok", true).mat("X", X, S).vec("y", y, S).end(); }
                catch (const std::exception&) { Ev("LoadLabelled").str("name", n).i("places", places).b("ok", false).end(); }
        }
    }
    ::unlink(path("a").c_str()); ::unlink(path("b").c_str());
}
int main(int argc, char** argv) { Opt o = parse(argc, argv); return run(o, [](Rng& r, long, const Opt& o) {
    switch (r.range(0, 6)) {
    case 0: history<int, Eigen::ColMajor>(r, o, 0, true, false); break;
    case 1: history<float, Eigen::ColMajor>(r, o, 3, false, false); break;
    case 2: history<double, Eigen::RowMajor>(r, o, 3, false, true); break;
    case 3: history<double, Eigen::ColMajor>(r, o, 6, false, false); break;
    case 4: history<long, Eigen::ColMajor>(r, o, 0, true, false); break;
    default: history<double, Eigen::ColMajor>(r, o, 3, false, true); } }, o.cases); }
