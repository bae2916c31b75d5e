// Drives HashTree (modes hash, hashscript), TransactionEncoder (mode encode) and Apriori (mode mine).
#include "harness.hpp"
#include "/repo/src/methods/rule_model/apriori.hpp"
using namespace vh;

template <class T> struct Node {
    bool is_leaf;
    std::map<std::vector<T>, std::size_t> bucket;
    std::map<std::size_t, std::shared_ptr<Node>> children;
    Node() : is_leaf(true) {}
    Node(bool l) : is_leaf(l) {}
};
template <class T> struct HashObj {
    openml::tree::HashTree<Node<T>, T> tree;
    std::vector<std::size_t> counts; std::vector<std::vector<T>> sets;   // reused between reports
    HashObj() {}
    HashObj(long leaf, long mod) : tree(leaf, mod) {}
    void insert(const std::vector<T>& s) { guarded("Insert", [&] { tree.build_tree(s); Ev("Insert").b("ok", true).sv("s", s).end(); }); }
    void add(const std::vector<T>& s) { guarded("Add", [&] { tree.add_support(s); Ev("Add").b("ok", true).sv("s", s).end(); }); }
    void report(long t) { guarded("Report", [&] {
        tree.compute_frequency_itemsets(t, counts, sets);
        Ev("Report").b("ok", true).i("t", t).sv2("sets", sets).sv("counts", counts).end(); }); }
};
template <class T> void hash_script(const std::vector<std::vector<long>>& ops) {
    HashObj<T> h(ops[0][0], ops[0][1]);
    for (size_t i = 1; i < ops.size(); i++) {
        std::vector<T> s(ops[i].begin() + 1, ops[i].end());
        if (ops[i][0] == 1) h.insert(s); else if (ops[i][0] == 2) h.add(s); else h.report(ops[i][1]);
    }
    h.report(0);
}
template <class T> void hash_case(Rng& r, const Opt& o) {
    long size = r.range(1, r.coin(1, 4) ? 7 : 4), items = r.range(size, r.coin(1, 4) ? 60 : 12), base = r.pick(std::vector<long>{0, 0, 1, 100, 1000000});
    std::unique_ptr<HashObj<T>> h;
    if (r.coin(1, 6)) h.reset(new HashObj<T>()); else h.reset(new HashObj<T>(r.range(1, r.coin(1, 6) ? 20 : 6), r.range(1, r.coin(1, 6) ? 40 : 7)));
    bool mixed = r.coin(1, 4); long longest = size;
    auto itemset = [&] { if (mixed) size = r.range(r.coin(1, 6) ? 0 : 1, longest); std::set<T> s; while ((long)s.size() < size) s.insert((T)(base + r.range(0, items - 1))); std::vector<T> v(s.begin(), s.end());
        if (size && r.coin(1, 6)) std::swap(v[r.range(0, size - 1)], v[r.range(0, size - 1)]); return v; };
    std::vector<std::vector<T>> stored;
    long ops = r.range(4, o.thorough ? 160 : 70);
    int phase = r.range(0, 2);    // 0: mixed, 1: insert first, 2: many repeats
    for (long i = 0; i < ops; i++) {
        int k = r.range(0, 9);
        bool ins = phase == 1 ? i < ops / 3 : k < 4;
        if (k == 9 && i > 2) h->report(r.range(0, 4));
        else if (ins || stored.empty()) { auto s = (stored.size() && r.coin(1, 6)) ? r.pick(stored) : itemset(); stored.push_back(s); h->insert(s); }
        else h->add(r.coin(1, 8) ? itemset() : r.pick(stored));
    }
    h->report(0); h->report(1); h->report(2); h->report(0);
}

using DB = std::vector<std::vector<std::size_t>>;
static DB make_db(Rng& r, const Opt& o) {
    long items = r.range(1, r.coin(1, 5) ? 9 : 6), n = r.range(1, r.coin(1, 4) ? 40 : 12);
    if (r.coin(1, 30)) { n = r.range(60, 260); items = std::min(items, 5L); }
    std::vector<std::size_t> id; for (long i = 0; i < items; i++) id.push_back(i);
    long off = r.pick(std::vector<long>{0, 1, 1, 50, 100000}); for (auto& v : id) v += off;
    if (off < 101 && r.coin(1, 3)) for (auto& v : id) v = v * 37 % 101;
    int dens = r.range(1, 3), style = r.range(0, 3);
    DB db;
    for (long i = 0; i < n; i++) {
        std::vector<std::size_t> t;
        for (long p : perm(r, items)) if (r.coin(dens, 4)) t.push_back(id[p]);
        if (style == 1) std::sort(t.begin(), t.end());
        if (style == 2 && t.size() && r.coin()) t.push_back(r.pick(t));
        if (style == 3 && i && r.coin()) t = db[r.range(0, i - 1)];
        db.push_back(t);
    }
    return db;
}
static void mine_case(Rng& r, const Opt& o) {
    long sup = r.pick(std::vector<long>{0, 4, 8, 13, 16, 24, 32, 48, 64}), conf = r.pick(std::vector<long>{0, 1, 8, 10, 11, 12, 14, 16});
    openml::rule_model::Apriori<std::size_t> a((double)sup / 64.0, (double)conf / 16.0);
    int fits = r.range(1, 3);
    for (int f = 0; f < fits; f++) {
        DB db = make_db(r, o);
        auto emit_rules = [&](const char* name) {
            std::vector<std::vector<long>> lhs, rhs; std::vector<double> c;
            auto rules = a.get_rules();
            for (auto& t : rules) { lhs.emplace_back(std::get<0>(t).begin(), std::get<0>(t).end()); rhs.emplace_back(std::get<1>(t).begin(), std::get<1>(t).end()); c.push_back(std::get<2>(t)); }
            Ev ev(name); ev.b("ok", true).sv2("lhs", lhs).sv2("rhs", rhs).sv("conf", c, 1000000);
            if (std::string(name) == "Mine") ev.sv2("db", db).i("sup", sup).i("con", conf);
            ev.end();
        };
        try { a.fit_transform(db); emit_rules("Mine"); if (r.coin(1, 3)) emit_rules("Rules"); }
        catch (const std::exception& ex) { Ev("Mine").b("ok", false).str("what", ex.what()).sv2("db", db).i("sup", sup).i("con", conf).end(); }
    }
}
template <class T> void encode_case(Rng& r, const Opt& o) {
    openml::preprocessing::TransactionEncoder<T> enc;
    int calls = r.range(1, 3);
    for (int c = 0; c < calls; c++) {
        DB d = make_db(r, o);
        if (r.coin(1, 4)) for (auto& t : d) if (r.coin(1, 3)) t.clear();
        std::vector<std::vector<T>> db; for (auto& t : d) db.emplace_back(t.begin(), t.end());
        if (std::is_signed<T>::value && r.coin(1, 3)) { long less = r.range(1, 60); for (auto& t : db) for (auto& v : t) v -= less; }
        guarded("Encode", [&] {
            auto m = enc.fit_transform(db);
            std::vector<long> ri, ci, vi;
            for (long i = 0; i < m.outerSize(); i++) for (typename Eigen::SparseMatrix<T, Eigen::RowMajor>::InnerIterator it(m, i); it; ++it) { ri.push_back(it.row()); ci.push_back(it.col()); vi.push_back((long)it.value()); }
            Ev("Encode").b("ok", true).sv2("db", db).i("rows", m.rows()).i("cols", m.cols()).sv("ri", ri).sv("ci", ci).sv("vi", vi).end();
        });
    }
}
// one script per line: [[leaf,mod],[op,...],...]
static std::vector<std::vector<std::vector<long>>> read_scripts(const std::string& path) {
    std::vector<std::vector<std::vector<long>>> out; std::ifstream f(path); std::string line;
    while (std::getline(f, line)) {
        std::vector<std::vector<long>> ops; std::vector<long> cur; int depth = 0; std::string num;
        auto flush = [&] { if (num.size()) { cur.push_back(atol(num.c_str())); num.clear(); } };
        for (char ch : line) {
            if (ch == '[') { if (++depth == 2) cur.clear(); }
            else if (ch == ']') { flush(); if (depth-- == 2) ops.push_back(cur); }
            else if (ch == ',') flush();
            else num += ch;
        }
        if (ops.size()) out.push_back(ops);
    }
    return out;
}
int main(int argc, char** argv) {
    Opt o = parse(argc, argv);
    if (o.mode.rfind("hashscript", 0) == 0) {
        auto s = read_scripts(o.script);
        return run(o, [&](Rng& r, long c, const Opt&) { if (c % 2) hash_script<int>(s[c]); else hash_script<std::size_t>(s[c]); }, s.size());
    }
    return run(o, [](Rng& r, long c, const Opt& o) {
        if (o.mode == "hash") { if (r.coin()) hash_case<std::size_t>(r, o); else hash_case<int>(r, o); }
        else if (o.mode == "mine") mine_case(r, o);
        else if (r.coin()) encode_case<std::size_t>(r, o); else encode_case<int>(r, o);
    }, o.cases);
}
