// Reference model of context-free grammars: EBNF description, desugaring, FIRST/FOLLOW, Earley recogniser with viable
// prefixes, and an LALR(1) construction. Written from the textbook definitions, sharing no code with the project.
#ifndef VERIF_CFG_REF_H
#define VERIF_CFG_REF_H
#include "common.h"
namespace vf {

struct gitem {
    enum kind { T, N, OPT, PLUS, STAR, ALT, GUARD } k;
    int id = 0;
    std::string name;                       // name attribute (not part of the identity)
    int attr = 0;                           // conflict attribute: 1 shift, 2 reduce, 3 weak reduce (not part of the identity)
    std::vector<std::vector<gitem>> r;      // rule(s) of an EBNF item
    gitem(kind kk = T, int i = 0) : k(kk), id(i) {}
};
typedef std::vector<gitem> grule;

struct egrammar {
    int nT = 0, nN = 0;
    std::vector<std::vector<grule>> rules;  // per nonterminal
    std::vector<int> starts;
};

inline std::string tname(int i) { return "t" + std::to_string(i); }
inline std::string nname(int i) { return std::string("N") + std::to_string(i); }
inline std::string canon(const gitem& i);
inline std::string canon(const grule& r) { std::string s; for (size_t k = 0; k < r.size(); ++k) { if (k) s += " "; s += canon(r[k]); } return s; }
inline std::string canon(const gitem& i) {
    switch (i.k) {
        case gitem::T: return tname(i.id);
        case gitem::N: return nname(i.id);
        case gitem::OPT: return "(" + canon(i.r[0]) + ")?";
        case gitem::PLUS: return "(" + canon(i.r[0]) + ")+";
        case gitem::STAR: return "(" + canon(i.r[0]) + ")*";
        case gitem::GUARD: return "[=> " + canon(i.r[0]) + "]";
        default: { std::string s = "("; for (size_t k = 0; k < i.r.size(); ++k) { if (k) s += " | "; s += canon(i.r[k]); } return s + ")"; }
    }
}
inline std::string show(const egrammar& g) {
    std::string s;
    for (int n = 0; n < g.nN; ++n) for (auto& r : g.rules[n]) s += nname(n) + " -> " + canon(r) + "\n";
    s += "start:"; for (int x : g.starts) s += " " + nname(x);
    return s;
}

// Plain BNF. Symbols: terminals 0..nT-1; END = nT; nonterminals NT0 + n
struct bnf {
    enum { NT0 = 1000 };
    int nT;
    std::vector<std::string> ntName;
    struct prod { int lhs; std::vector<int> rhs; std::vector<int> attr; };
    std::vector<prod> prods;                        // deduplicated
    std::vector<std::vector<int>> byLhs;
    std::map<std::string, int> ntFor;
    std::set<std::string> text;                     // "lhs -> rhs" in canonical form
    std::vector<int> starts;                        // nonterminal symbols
    std::vector<std::set<int>> first; std::vector<bool> nullable; std::vector<std::set<int>> follow;
    // Guards are symbols of their own: realT.. are guards, then the end of guard marker; guardStart[k] derives the content of guard k
    int realT = 0; std::vector<std::string> guardName; std::vector<int> guardStart; std::map<std::string, int> guardFor;
    int END() const { return nT; }
    int EOG() const { return nT - 1; }
    bool isGuard(int s) const { return s >= realT && s < realT + (int)guardName.size(); }
    int endOf(int start) const { for (int g : guardStart) if (g == start) return EOG(); return END(); }
    static bool isN(int s) { return s >= NT0; }
    std::string sym(int s) const { return isN(s) ? ntName[s - NT0] : s == nT ? "$" : isGuard(s) ? guardName[s - realT] : tname(s); }
    std::string ptext(const prod& p) const {
        std::string s = sym(p.lhs) + " ->";
        for (int x : p.rhs) s += " " + sym(x);
        return s;
    }
    int nt(const std::string& name) {
        auto f = ntFor.find(name);
        if (f != ntFor.end()) return f->second;
        int id = NT0 + (int)ntName.size();
        ntFor[name] = id; ntName.push_back(name); byLhs.push_back({});
        return id;
    }
    void add(int lhs, const std::vector<int>& rhs, const std::vector<int>& attr = std::vector<int>()) {
        prod p; p.lhs = lhs; p.rhs = rhs; p.attr = attr; p.attr.resize(rhs.size(), 0);
        if (!text.insert(ptext(p)).second) return;
        byLhs[lhs - NT0].push_back((int)prods.size());
        prods.push_back(p);
    }
    static std::vector<int> attrs(const grule& r) { std::vector<int> v; for (auto& i : r) v.push_back(i.attr); return v; }
    std::vector<int> seq(const grule& r) { std::vector<int> v; for (auto& i : r) v.push_back(symbol(i)); return v; }
    void flatten(int lhs, const gitem& alt, std::set<std::string>& done) {
        if (!done.insert(canon(alt)).second) return;
        for (auto& r : alt.r) {
            if (r.size() == 1 && r[0].k == gitem::ALT) flatten(lhs, r[0], done);      // alternatives of alternatives are one choice
            else add(lhs, seq(r), attrs(r));
        }
    }
    int symbol(const gitem& i) {
        if (i.k == gitem::T) return i.id;
        if (i.k == gitem::N) return nt(nname(i.id));
        std::string c = canon(i);
        if (i.k == gitem::GUARD) return guardFor.at(c);
        bool known = ntFor.count(c) != 0;
        int s = nt(c);
        if (known) return s;
        switch (i.k) {
            case gitem::OPT: { auto v = seq(i.r[0]); add(s, {}); add(s, v, attrs(i.r[0])); break; }
            case gitem::PLUS: { auto v = seq(i.r[0]), a = attrs(i.r[0]); add(s, v, a); v.insert(v.begin(), s); a.insert(a.begin(), 0); add(s, v, a); break; }
            case gitem::STAR: { auto v = seq(i.r[0]), a = attrs(i.r[0]); add(s, {}); v.insert(v.begin(), s); a.insert(a.begin(), 0); add(s, v, a); break; }
            default: { std::set<std::string> done; flatten(s, i, done); }
        }
        return s;
    }
    void collect(const grule& r, std::vector<const gitem*>& out) {
        for (auto& i : r) {
            if (i.k == gitem::GUARD && !guardFor.count(canon(i))) { guardFor[canon(i)] = realT + (int)out.size(); guardName.push_back(canon(i)); out.push_back(&i); }
            for (auto& x : i.r) collect(x, out);
        }
    }
    explicit bnf(const egrammar& g) : nT(g.nT), realT(g.nT) {
        std::vector<const gitem*> gs;
        for (auto& rs : g.rules) for (auto& r : rs) collect(r, gs);
        if (!gs.empty()) nT += (int)gs.size() + 1;
        for (int n = 0; n < g.nN; ++n) nt(nname(n));
        for (int n = 0; n < g.nN; ++n) for (auto& r : g.rules[n]) { auto v = seq(r); add(NT0 + n, v, attrs(r)); }
        for (int s : g.starts) starts.push_back(NT0 + s);
        for (auto q : gs) { int s = nt("@" + canon(*q)); add(s, seq(q->r[0]), attrs(q->r[0])); guardStart.push_back(s); }
        for (int s : guardStart) starts.push_back(s);
        sets();
    }
    void sets() {
        size_t n = ntName.size();
        nullable.assign(n, false); first.assign(n, {}); follow.assign(n, {});
        for (bool ch = true; ch;) {
            ch = false;
            for (auto& p : prods) {
                size_t l = p.lhs - NT0; bool allNull = true;
                for (int x : p.rhs) {
                    size_t before = first[l].size();
                    if (isN(x)) first[l].insert(first[x - NT0].begin(), first[x - NT0].end()); else first[l].insert(x);
                    if (first[l].size() != before) ch = true;
                    if (!isN(x) || !nullable[x - NT0]) { allNull = false; break; }
                }
                if (allNull && !nullable[l]) nullable[l] = true, ch = true;
            }
        }
        for (bool ch = true; ch;) {
            ch = false;
            for (auto& p : prods) for (size_t i = 0; i < p.rhs.size(); ++i) {
                if (!isN(p.rhs[i])) continue;
                auto& f = follow[p.rhs[i] - NT0]; size_t before = f.size(); bool all = true;
                for (size_t j = i + 1; j < p.rhs.size() && all; ++j) {
                    int x = p.rhs[j];
                    if (isN(x)) { f.insert(first[x - NT0].begin(), first[x - NT0].end()); all = nullable[x - NT0]; }
                    else f.insert(x), all = false;
                }
                if (all) f.insert(follow[p.lhs - NT0].begin(), follow[p.lhs - NT0].end());
                if (f.size() != before) ch = true;
            }
        }
    }
    std::vector<bool> productive() const {
        std::vector<bool> ok(ntName.size(), false);
        for (bool ch = true; ch;) {
            ch = false;
            for (auto& p : prods) {
                if (ok[p.lhs - NT0]) continue;
                bool all = true;
                for (int x : p.rhs) if (isN(x) && !ok[x - NT0]) all = false;
                if (all) ok[p.lhs - NT0] = true, ch = true;
            }
        }
        return ok;
    }
};

// Earley. accepts: the input is a sentence; viable: the longest prefix (in tokens) of the input that some sentence starts with.
// Requires every nonterminal to be productive (for `viable`).
struct earley_result { bool accepts; int viable; int shortest = -1; };       // shortest: the shortest prefix that is a sentence
inline earley_result earley(const bnf& g, int start, const std::vector<int>& in, bool prefix = false) {
    typedef std::tuple<int, int, int> it;      // production, dot, origin
    std::vector<std::vector<it>> sets(in.size() + 1);
    std::vector<std::set<it>> seen(in.size() + 1);
    auto add = [&](size_t k, it x) { if (seen[k].insert(x).second) sets[k].push_back(x); };
    for (int p : g.byLhs[start - bnf::NT0]) add(0, it(p, 0, 0));
    earley_result res; res.accepts = false; res.viable = 0;
    for (size_t k = 0; k <= in.size(); ++k) {
        if (sets[k].empty()) { return res; }
        res.viable = (int)k;
        for (size_t q = 0; q < sets[k].size(); ++q) {
            int p, d, o; std::tie(p, d, o) = sets[k][q];
            auto& pr = g.prods[p];
            if (d < (int)pr.rhs.size()) {
                int x = pr.rhs[d];
                if (bnf::isN(x)) {
                    for (int n : g.byLhs[x - bnf::NT0]) add(k, it(n, 0, (int)k));
                    if (g.nullable[x - bnf::NT0]) add(k, it(p, d + 1, o));
                } else if (k < in.size() && in[k] == x) add(k + 1, it(p, d + 1, o));
            } else {
                if (prefix && res.shortest < 0 && o == 0 && pr.lhs == start) { res.shortest = (int)k; return res; }
                for (size_t z = 0; z < sets[o].size(); ++z) {
                    int p2, d2, o2; std::tie(p2, d2, o2) = sets[o][z];
                    if (d2 < (int)g.prods[p2].rhs.size() && g.prods[p2].rhs[d2] == pr.lhs) add(k, it(p2, d2 + 1, o2));
                }
            }
        }
    }
    for (auto& x : sets[in.size()]) {
        int p, d, o; std::tie(p, d, o) = x;
        if (o == 0 && g.prods[p].lhs == start && d == (int)g.prods[p].rhs.size()) res.accepts = true;
    }
    return res;
}

// LALR(1): LR(0) states, lookaheads by iterating closures to a fixpoint
struct lalr_ref {
    typedef std::pair<int, int> item;               // production (negative: -1-i = start rule i), dot
    const bnf& g;
    std::vector<std::map<item, std::set<int>>> st;  // kernel items with lookaheads
    std::map<std::vector<item>, int> ids;
    std::vector<std::map<int, int>> go;
    std::vector<int> startState;
    std::vector<std::map<int, std::vector<int>>> act;   // state -> terminal -> actions: >=0 shift target; -1-p reduce p; ACC accept
    enum { ACC = 1000000 };
    int limit; bool tooBig = false;
    std::vector<int> rhs(const item& i) const { if (i.first < 0) return std::vector<int>(1, g.starts[-1 - i.first]); return g.prods[i.first].rhs; }
    std::map<item, std::set<int>> closure(const std::map<item, std::set<int>>& k) const {
        std::map<item, std::set<int>> c = k;
        std::vector<item> todo; for (auto& x : c) todo.push_back(x.first);
        while (!todo.empty()) {
            item i = todo.back(); todo.pop_back();
            std::vector<int> r = rhs(i);
            if (i.second >= (int)r.size() || !bnf::isN(r[i.second])) continue;
            std::set<int> la; bool all = true;
            for (size_t j = i.second + 1; j < r.size() && all; ++j) {
                if (bnf::isN(r[j])) { la.insert(g.first[r[j] - bnf::NT0].begin(), g.first[r[j] - bnf::NT0].end()); all = g.nullable[r[j] - bnf::NT0]; }
                else la.insert(r[j]), all = false;
            }
            if (all) la.insert(c[i].begin(), c[i].end());
            for (int p : g.byLhs[r[i.second] - bnf::NT0]) {
                item n(p, 0);
                bool fresh = !c.count(n);
                size_t before = c[n].size();
                c[n].insert(la.begin(), la.end());
                if (fresh || c[n].size() != before) todo.push_back(n);
            }
        }
        return c;
    }
    explicit lalr_ref(const bnf& gg, int lim = 400) : g(gg), limit(lim) {
        for (size_t s = 0; s < g.starts.size(); ++s) {
            std::map<item, std::set<int>> k; k[item(-1 - (int)s, 0)].insert(g.endOf(g.starts[s]));
            ids[keys(k)] = (int)st.size(); startState.push_back((int)st.size());
            st.push_back(k); go.push_back({});
        }
        std::vector<int> todo; for (size_t s = 0; s < st.size(); ++s) todo.push_back((int)s);
        for (size_t q = 0; q < todo.size(); ++q) {
            int s = todo[q];
            auto c = closure(st[s]);
            std::map<int, std::map<item, std::set<int>>> next;
            for (auto& x : c) { auto r = rhs(x.first); if (x.first.second < (int)r.size()) next[r[x.first.second]][item(x.first.first, x.first.second + 1)] = x.second; }
            for (auto& n : next) {
                auto key = keys(n.second);
                auto f = ids.find(key);
                int t;
                if (f == ids.end()) { t = (int)st.size(); ids[key] = t; st.push_back(n.second); go.push_back({}); todo.push_back(t); if ((int)st.size() > limit) { tooBig = true; return; } }
                else {
                    t = f->second; bool ch = false;
                    for (auto& x : n.second) { size_t b = st[t][x.first].size(); st[t][x.first].insert(x.second.begin(), x.second.end()); if (st[t][x.first].size() != b) ch = true; }
                    if (ch) todo.push_back(t);
                }
                go[s][n.first] = t;
            }
        }
        act.resize(st.size());
        for (size_t s = 0; s < st.size(); ++s) {
            for (auto& x : go[s]) if (!bnf::isN(x.first)) act[s][x.first].push_back(x.second);
            for (auto& x : closure(st[s])) {
                if (x.first.second < (int)rhs(x.first).size()) continue;
                for (int t : x.second) act[s][t].push_back(x.first.first < 0 ? (int)ACC : -1 - x.first.first);
            }
        }
    }
    static std::vector<item> keys(const std::map<item, std::set<int>>& m) { std::vector<item> v; for (auto& x : m) v.push_back(x.first); return v; }
    std::string itext(const item& i) const {
        std::string s = i.first < 0 ? std::string("*") : g.sym(g.prods[i.first].lhs);
        s += " ->"; auto r = rhs(i);
        for (size_t k = 0; k <= r.size(); ++k) { if ((int)k == i.second) s += " ^"; if (k < r.size()) s += " " + g.sym(r[k]); }
        return s;
    }
    std::string stext(int s) const { std::set<std::string> v; for (auto& x : st[s]) v.insert(itext(x.first)); std::string r; for (auto& x : v) r += x + "; "; return r; }
    bool conflict_free() const { for (auto& s : act) for (auto& a : s) if (a.second.size() > 1) return false; return true; }
    bool has_rr() const { for (auto& s : act) for (auto& a : s) { int r = 0; for (int x : a.second) if (x < 0 || x == ACC) ++r; if (r > 1) return true; } return false; }
    // runs the automaton preferring shifts; -1: step limit; 0: rejected (shifted = tokens consumed); 1: accepted
    int run(int start, const std::vector<int>& in, int& shifted, int maxSteps, std::vector<std::string>* trace = 0) const {
        std::vector<int> stack(1, startState[start]); size_t p = 0;
        for (int n = 0; n < maxSteps; ++n) {
            int t = p < in.size() ? in[p] : g.END();
            shifted = (int)p;
            auto& m = act[stack.back()];
            auto f = m.find(t);
            if (f == m.end()) return 0;
            int a = f->second[0];
            for (int x : f->second) if (x >= 0 && x != ACC) a = x;
            if (a == ACC) return 1;
            if (a >= 0) { stack.push_back(a); ++p; if (trace) trace->push_back("s" + std::to_string(t)); }
            else {
                auto& pr = g.prods[-1 - a];
                if (trace) trace->push_back(g.ptext(pr));
                stack.resize(stack.size() - pr.rhs.size());
                stack.push_back(go[stack.back()].at(pr.lhs));
            }
        }
        return -1;
    }
};

// ---- generation -----------------------------------------------------------------------------------------------
struct cfg_gen {
    rng& r; egrammar g; int ebnfPct; 
    explicit cfg_gen(rng& rr) : r(rr), ebnfPct(25) {}
    gitem item(int depth) {
        if (depth > 0 && r.below(100) < ebnfPct) {
            static const gitem::kind ks[] = { gitem::OPT, gitem::PLUS, gitem::STAR, gitem::ALT };
            gitem i(ks[r.below(4)]);
            int n = i.k == gitem::ALT ? r.range(2, 3) : 1;
            for (int k = 0; k < n; ++k) i.r.push_back(rule(r.range(r.chance(1, 12) ? 0 : 1, 2), depth - 1));
            return i;
        }
        if (r.chance(1, 2)) return gitem(gitem::N, r.below(g.nN));
        return gitem(gitem::T, r.below(g.nT));
    }
    grule rule(int len, int depth) { grule x; for (int k = 0; k < len; ++k) x.push_back(item(depth)); return x; }
    // random small grammar; leading: percentage of rules that start with a terminal (raises the share of LALR(1) grammars)
    egrammar make(int maxN, int maxT, int leading) {
        g = egrammar(); g.nN = r.range(1, maxN); g.nT = r.range(2, maxT); g.rules.resize(g.nN);
        for (int n = 0; n < g.nN; ++n) {
            int k = r.range(1, 3);
            for (int j = 0; j < k; ++j) {
                grule x = rule(r.chance(1, 6) ? 0 : r.range(1, 4), 2);
                if (r.below(100) < leading) x.insert(x.begin(), gitem(gitem::T, (n * 3 + j) % g.nT));
                g.rules[n].push_back(x);
            }
        }
        finish();
        return g;
    }
    void finish() {
        // every nonterminal must be productive
        for (;;) {
            bnf b(g); auto ok = b.productive(); bool all = true;
            for (size_t i = 0; i < ok.size(); ++i) if (!ok[i]) all = false;
            if (all) break;
            for (int n = 0; n < g.nN; ++n) if (!ok[n]) { g.rules[n].push_back(grule(1, gitem(gitem::T, r.below(g.nT)))); break; }
        }
        g.starts.clear(); g.starts.push_back(0);
        if (g.nN > 1 && r.chance(1, 4)) g.starts.push_back(r.range(1, g.nN - 1));
    }
    // classic shapes with random variation
    egrammar shaped() {
        g = egrammar(); auto T = [&](int i) { return gitem(gitem::T, i); }; auto N = [&](int i) { return gitem(gitem::N, i); };
        auto E = [&](gitem::kind k, std::vector<grule> rs) { gitem i(k); i.r = rs; return i; };
        int w = r.below(7);
        if (w == 0) {           // expressions: E -> E + M | M ; M -> M * P | P ; P -> ( E ) | id | id ( args? )
            g.nN = 3; g.nT = 6; g.rules.resize(3);
            g.rules[0] = { {N(0), T(0), N(1)}, {N(1)} };
            g.rules[1] = { {N(1), T(1), N(2)}, {N(2)} };
            g.rules[2] = { {T(2), N(0), T(3)}, {T(4)} };
            if (r.chance(1, 2)) g.rules[2].push_back({T(4), T(2), E(gitem::OPT, {{N(0), E(gitem::STAR, {{T(5), N(0)}})}}), T(3)});
            if (r.chance(1, 3)) g.rules[1].push_back({T(0), N(1)});
        } else if (w == 1) {    // nullable chains before a distinguishing terminal: S -> A B C d | ... ; A -> a? ...
            g.nN = 5; g.nT = 6; g.rules.resize(5);
            g.rules[0] = { {N(1), N(2), N(3), T(3)}, {T(4), N(2), N(1)} };
            for (int k = 1; k <= 3; ++k) { g.rules[k] = { {}, {T(k - 1)} }; if (r.chance(1, 3)) g.rules[k][1].push_back(N(4)); }
            g.rules[4] = { {T(5)}, {T(5), T(4)} };
            if (r.chance(1, 2)) g.rules[4].push_back({});
        } else if (w == 2) {    // mutual left recursion through nullable prefixes
            g.nN = 4; g.nT = 5; g.rules.resize(4);
            g.rules[0] = { {N(1), T(0)}, {T(1)} };
            g.rules[1] = { {N(2), T(2)}, {N(0), T(3)} };
            g.rules[2] = { {N(3), N(1), T(4)}, {T(2), T(2)} };
            g.rules[3] = { {T(0), T(0)} };
            if (r.chance(1, 2)) g.rules[3].push_back({T(4), N(2)});
            if (r.chance(1, 3)) g.rules[2][0] = {N(1), T(4)};
        } else if (w == 3) {    // statements
            g.nN = 4; g.nT = 7; g.rules.resize(4);
            g.rules[0] = { {E(gitem::STAR, {{N(1)}})} };
            g.rules[1] = { {T(0), T(1), T(2), N(1), T(3), N(1)}, {T(4), E(gitem::STAR, {{N(1)}}), T(5)}, {N(2), T(6)} };
            g.rules[2] = { {T(1)}, {T(1), T(0), N(3)} };
            g.rules[3] = { {E(gitem::ALT, {{T(1)}, {T(2), N(3), T(3)}})} };
        } else if (w == 4) {    // lists with separators, several list styles
            g.nN = 3; g.nT = 5; g.rules.resize(3);
            g.rules[0] = { {T(0), E(gitem::OPT, {{N(1)}}), T(1)} };
            g.rules[1] = { r.chance(1, 2) ? grule{N(2), E(gitem::STAR, {{T(2), N(2)}})} : grule{N(1), T(2), N(2)}, {N(2)} };
            if (g.rules[1][0].size() == 2) g.rules[1].pop_back();
            g.rules[2] = { {T(3)}, {E(gitem::PLUS, {{T(4)}}), T(3)}, {N(0)} };
        } else if (w == 5) {    // LALR(1) but not SLR(1): S -> L = R | R ; L -> * R | id ; R -> L
            g.nN = 3; g.nT = 3; g.rules.resize(3);
            g.rules[0] = { {N(1), T(0), N(2)}, {N(2)} };
            g.rules[1] = { {T(1), N(2)}, {T(2)} };
            g.rules[2] = { {N(1)} };
        } else {                // LR(1) but not LALR(1), possibly repaired: S -> a A d | b B d | a B e | b A e
            g.nN = 3; g.nT = 5; g.rules.resize(3);
            g.rules[0] = { {T(0), N(1), T(3)}, {T(1), N(2), T(3)}, {T(0), N(2), T(4)}, {T(1), N(1), T(4)} };
            g.rules[1] = { {T(2)} }; g.rules[2] = { {T(2)} };
            if (r.chance(1, 2)) g.rules[2] = { {T(2), T(2)} };
        }
        // a random edit now and then
        if (r.chance(2, 5)) {
            int n = r.below(g.nN);
            int k = r.below(3);
            if (k == 0) g.rules[n].push_back(rule(r.range(0, 3), 1));
            else { grule& x = g.rules[n][r.below((int)g.rules[n].size())]; if (k == 1) x.insert(x.begin() + r.below((int)x.size() + 1), item(1)); else if (!x.empty()) x[r.below((int)x.size())] = item(1); }
        }
        // rename terminals and reorder rules
        std::vector<int> perm; for (int i = 0; i < g.nT; ++i) perm.push_back(i);
        if (r.chance(1, 2)) for (int i = g.nT - 1; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]);
        std::function<void(gitem&)> ren = [&](gitem& i) { if (i.k == gitem::T) i.id = perm[i.id]; for (auto& x : i.r) for (auto& y : x) ren(y); };
        for (auto& rs : g.rules) for (auto& x : rs) for (auto& i : x) ren(i);
        for (auto& rs : g.rules) for (int i = (int)rs.size() - 1; i > 0; --i) if (r.chance(1, 2)) std::swap(rs[i], rs[r.below(i + 1)]);
        finish();
        return g;
    }
    // several grammars side by side, told apart by their first symbol
    egrammar joined() {
        egrammar all; all.nN = 1; all.rules.resize(1); int parts = r.range(2, 4);
        for (int k = 0; k < parts; ++k) {
            egrammar p = simple(); int off = all.nN;
            std::function<void(grule&)> move = [&](grule& x) { for (auto& i : x) { if (i.k == gitem::N) i.id += off; for (auto& y : i.r) move(y); } };
            for (auto& rs : p.rules) { for (auto& x : rs) move(x); all.rules.push_back(rs); }
            all.nN += p.nN; all.nT = std::max(all.nT, p.nT);
            grule head; if (r.chance(5, 6)) head.push_back(gitem(gitem::T, k)); head.push_back(gitem(gitem::N, off));
            all.rules[0].push_back(head);
        }
        all.nT = std::max(all.nT, parts);
        g = all; finish(); return g;
    }
    egrammar any() { return r.chance(1, 12) ? joined() : simple(); }
    egrammar simple() { ebnfPct = r.pick(std::vector<int>{0, 15, 30}); if (r.chance(2, 5)) return shaped(); return make(r.range(1, 5), 5, r.pick(std::vector<int>{0, 40, 80, 95})); }
};

// random sentence of a BNF nonterminal (bounded)
inline bool derive(const bnf& g, int s, rng& r, std::vector<int>& out, int depth, const std::vector<int>& height) {
    if (!bnf::isN(s)) { out.push_back(s); return out.size() < 40; }
    auto& ps = g.byLhs[s - bnf::NT0];
    int p;
    if (depth <= 0) { p = ps[0]; int best = 1 << 20; for (int q : ps) { int h = 0; for (int x : g.prods[q].rhs) if (bnf::isN(x)) h = std::max(h, height[x - bnf::NT0]); if (h < best) best = h, p = q; } }
    else p = ps[r.below((int)ps.size())];
    for (int x : g.prods[p].rhs) if (!derive(g, x, r, out, depth - 1, height)) return false;
    return true;
}
inline std::vector<int> heights(const bnf& g) {
    std::vector<int> h(g.ntName.size(), 1 << 19);
    for (bool ch = true; ch;) { ch = false; for (auto& p : g.prods) { int m = 0; for (int x : p.rhs) if (bnf::isN(x)) m = std::max(m, h[x - bnf::NT0]); if (m + 1 < h[p.lhs - bnf::NT0]) h[p.lhs - bnf::NT0] = m + 1, ch = true; } }
    return h;
}
inline std::vector<int> random_tokens(const bnf& g, int start, rng& r, const std::vector<int>& h) {
    std::vector<int> v;
    if (r.chance(4, 5)) derive(g, start, r, v, r.range(0, 8), h);
    else for (int k = r.range(0, 6); k > 0; --k) v.push_back(r.below(g.nT));
    int edits = r.chance(1, 2) ? 0 : r.range(1, 2);
    for (; edits > 0; --edits) {
        int k = r.below(3);
        if (k == 0) v.insert(v.begin() + r.below((int)v.size() + 1), r.below(g.nT));
        else if (!v.empty() && k == 1) v.erase(v.begin() + r.below((int)v.size()));
        else if (!v.empty()) v[r.below((int)v.size())] = r.below(g.nT);
    }
    if (v.size() > 40) v.resize(40);
    return v;
}
// a sentence of about n tokens (when the nonterminal can be made that long), by going around recursive rules
inline std::vector<int> long_sentence(const bnf& g, int start, rng& r, const std::vector<int>& h, size_t n) {
    size_t N = g.byLhs.size();
    std::vector<std::vector<char>> reach(N, std::vector<char>(N, 0));
    for (auto& p : g.prods) for (int x : p.rhs) if (bnf::isN(x)) reach[p.lhs - bnf::NT0][x - bnf::NT0] = 1;
    for (size_t k = 0; k < N; ++k) for (size_t i = 0; i < N; ++i) if (reach[i][k]) for (size_t j = 0; j < N; ++j) if (reach[k][j]) reach[i][j] = 1;
    std::vector<int> out, todo(1, start);
    int spin = 0;
    while (!todo.empty()) {
        int s = todo.back(); todo.pop_back();
        if (!bnf::isN(s)) { out.push_back(s); spin = 0; continue; }
        const auto& ps = g.byLhs[s - bnf::NT0];
        std::vector<int> rec, best; int low = 1 << 20;
        bool grow = out.size() + todo.size() < n && ++spin < 200;
        for (int q : ps) {
            int top = 0; bool loops = false;
            for (int x : g.prods[q].rhs) if (bnf::isN(x)) { top = std::max(top, h[x - bnf::NT0]); if (reach[x - bnf::NT0][x - bnf::NT0]) loops = true; }
            if (loops && top < 1 << 19) rec.push_back(q);
            if (top < low) { low = top; best.clear(); }
            if (top == low) best.push_back(q);
        }
        if (low >= 1 << 19) return std::vector<int>();
        int q = grow && !rec.empty() ? rec[r.below((int)rec.size())] : best[r.below((int)best.size())];
        for (size_t k = g.prods[q].rhs.size(); k-- > 0;) todo.push_back(g.prods[q].rhs[k]);
        if (out.size() > 4 * n + 100) return std::vector<int>();
    }
    if (r.chance(1, 3) && !out.empty()) out[r.below((int)out.size())] = r.below(g.nT);
    return out;
}
inline std::string show_tokens(const std::vector<int>& v) { std::string s; for (int x : v) s += tname(x) + " "; return s; }

}
#endif
