// Random definitions: tokens, expression grammars, guards, and texts that use them.
#ifndef VERIF_LANG_GEN_H
#define VERIF_LANG_GEN_H
#include "lang.h"
#include "lang_ref.h"
namespace vf {
using std::string; using std::wstring; using std::vector;

// ---- tokens that do not overlap each other ------------------------------------------------------------------------
inline vector<tokdef> make_tokens(rng& r, int n) {
    static const char* lits[] = { "'+'", "'-'", "'*'", "'%'", "'^'", "\"==\"", "\"<<\"", "\"&&\"", "';'", "','", "'('", "')'", "\"~>\"", "':'" };
    static const char* keys[] = { "if", "then", "else", "while", "do", "end", "let", "in", "k-1", "var_" };
    struct lx { const char* n; const char* d; const char* s[3]; };
    static const lx lex[] = { {"num", "/[0-9]+/", {"0", "42", "9000"}}, {"str", "/\"[^\"]*\"/", {"\"\"", "\"a b\"", "\"if\""}}, {"hash", "/#[a-z]+(\\.[0-9])?/", {"#a", "#zq", "#zq.7"}},
                              {"at", "\"@@\"", {"@@", "@@", "@@"}}, {"up", "/[A-Z]{unicode-letter}*/", {"Q", "Quux", "A\xc3\xa9"}}, {"dot", "'.'", {".", ".", "."}} };
    vector<int> a, b, c; for (int i = 0; i < 14; ++i) a.push_back(i); for (int i = 0; i < 10; ++i) b.push_back(i); for (int i = 0; i < 6; ++i) c.push_back(i);
    auto take = [&](vector<int>& v) { int k = r.below((int)v.size()), x = v[k]; v.erase(v.begin() + k); return x; };
    vector<tokdef> t;
    for (int i = 0; i < n; ++i) {
        tokdef d; int k = r.below(10);
        if (k < 5 && !a.empty()) { int x = take(a); d.kind = tokdef::LITERAL; d.name = lits[x]; string s = d.name.substr(1, d.name.size() - 2); d.samples.push_back(s); }
        else if (k < 8 && !b.empty()) { int x = take(b); d.kind = r.chance(1, 4) ? tokdef::IMPLICIT : r.chance(1, 3) ? tokdef::WEAKKEY : tokdef::KEYWORD; d.name = keys[x]; d.samples.push_back(keys[x]); }
        else if (!c.empty()) { int x = take(c); d.kind = tokdef::LEXER; d.name = lex[x].n; d.def = lex[x].d; for (auto s : lex[x].s) d.samples.push_back(s); }
        else { int x = take(a); d.kind = tokdef::LITERAL; d.name = lits[x]; d.samples.push_back(d.name.substr(1, d.name.size() - 2)); }
        t.push_back(d);
    }
    return t;
}
static const char* IGNORE = "ws = /[ \\t\\r\\n]+/\ncom = /\\/\\*[^*]*\\*\\//\n";
inline string sep(rng& r) { switch (r.below(8)) { case 0: return "\n"; case 1: return " /* x */ "; case 2: return "\t \r\n"; case 3: return "/**/"; default: return " "; } }
// text of a token sequence; fills in offset (in code points) and text
inline string spell(rng& r, vector<rtoken>& in, const vector<tokdef>& t) {
    string s; int off = 0;
    auto add = [&](const string& x) { s += x; off += (int)widen(x).size(); };
    if (r.chance(1, 3)) add(sep(r));
    for (size_t k = 0; k < in.size(); ++k) {
        if (k) add(sep(r));
        if (in[k].text.empty()) in[k].text = r.pick(t[in[k].t].samples);
        in[k].offset = off; add(in[k].text);
    }
    if (r.chance(1, 3)) add(sep(r));
    return s;
}
inline namer make_namer(run_t& run, const vector<tokdef>& t) {
    namer n; n.g = run.lang->grammar(); n.t = run.lang->terminals();
    for (size_t i = 0; i < t.size(); ++i) n.rename[t[i].name] = tname((int)i);
    return n;
}
inline string join(const vector<string>& v) { string s; for (auto& x : v) s += "  " + x + "\n"; return s; }

inline vector<rtoken> toks(const vector<int>& v) { vector<rtoken> r; for (int x : v) r.push_back(rtoken(x)); return r; }

// ---- expression grammars -------------------------------------------------------------------------------------------
struct expr_case { egrammar g; int atom; vector<int> bin, pre, post; int open = -1, close = -1; };
inline expr_case expr_grammar(rng& r) {
    expr_case e; int nb = r.range(1, 5), np = r.chance(1, 2) ? r.range(1, 2) : 0, nq = r.chance(1, 4) ? 1 : 0;
    int t = 0; e.atom = t++;
    for (int i = 0; i < nb; ++i) e.bin.push_back(t++);
    for (int i = 0; i < np; ++i) { if (r.chance(1, 3)) e.pre.push_back(e.bin[r.below(nb)]); else e.pre.push_back(t++); }
    for (int i = 0; i < nq; ++i) e.post.push_back(t++);
    if (r.chance(1, 2)) e.open = t++, e.close = t++;
    std::sort(e.pre.begin(), e.pre.end()); e.pre.erase(std::unique(e.pre.begin(), e.pre.end()), e.pre.end());
    egrammar& g = e.g; g.nT = t; g.nN = 1; g.rules.resize(1); g.starts = {0};
    auto T = [&](int i) { return gitem(gitem::T, i); }; gitem E(gitem::N, 0);
    vector<grule> rs;
    for (int b : e.bin) rs.push_back({E, T(b), E});
    for (int b : e.pre) rs.push_back({T(b), E});
    for (int b : e.post) rs.push_back({E, T(b)});
    if (e.open >= 0) rs.push_back({T(e.open), E, T(e.close)});
    rs.push_back({T(e.atom)});
    for (int i = (int)rs.size() - 1; i > 0; --i) std::swap(rs[i], rs[r.below(i + 1)]);
    g.rules[0] = rs;
    if (r.chance(1, 3)) {       // wrapped: a statement list around it
        g.nN = 2; g.rules.insert(g.rules.begin(), vector<grule>());
        for (auto& x : g.rules[1]) for (auto& i : x) if (i.k == gitem::N) i.id = 1;
        gitem S(gitem::STAR); int semi = g.nT++; S.r.push_back({gitem(gitem::N, 1), T(semi)});
        g.rules[0].push_back({S});
    }
    return e;
}
inline void random_expr(rng& r, const expr_case& e, int depth, vector<int>& v) {
    if (v.size() > 28) { v.push_back(e.atom); return; }
    int k = depth <= 0 ? 0 : r.below(8);
    if (k >= 3) { random_expr(r, e, depth - 1, v); v.push_back(r.pick(e.bin)); random_expr(r, e, depth - 1, v); }
    else if (k == 2 && !e.pre.empty()) { v.push_back(r.pick(e.pre)); random_expr(r, e, depth - 1, v); }
    else if (k == 1 && !e.post.empty()) { random_expr(r, e, depth - 1, v); v.push_back(r.pick(e.post)); }
    else if (k == 1 && e.open >= 0) { v.push_back(e.open); random_expr(r, e, depth - 1, v); v.push_back(e.close); }
    else v.push_back(e.atom);
}
inline prec_block random_prec(rng& r, const vector<int>& ops, bool all) {
    prec_block b; int levels = r.range(1, 4); vector<int> as;
    for (int i = 0; i < levels; ++i) as.push_back(r.chance(1, 10) ? 2 : r.below(2));
    for (int o : ops) if (all || r.chance(3, 4)) { int l = r.below(levels); b.of[o] = std::make_pair(l, as[l]); }
    // levels are renumbered by order of appearance in the text: keep the order only
    return b;
}
inline void put_attrs(rng& r, grule& rule, std::map<string, int>& known, int pct, const string& lhs) {
    string key = lhs + "->" + canon(rule);
    for (size_t i = 0; i < rule.size(); ++i) {
        gitem& it = rule[i];
        if (it.k == gitem::T) {
            string k = key + "#" + std::to_string(i);
            if (!known.count(k)) known[k] = r.below(100) < pct ? r.range(1, 3) : 0;
            it.attr = known[k];
        } else for (auto& x : it.r) put_attrs(r, x, known, pct, canon(it));
    }
}
inline bool all_in(const string& s, const char* set) { return !s.empty() && s.find_first_not_of(set) == string::npos; }
static const char *LOW = "abcdefghijklmnopqrstuvwxyz", *DIG = "0123456789", *ALNUM = "abcdefghijklmnopqrstuvwxyz0123456789";
inline bool nullable_seq(const egrammar& g, const grule& r) {
    egrammar h = g; h.rules.push_back(vector<grule>(1, r)); h.nN = g.nN + 1; bnf b(h);
    return b.nullable[g.nN];
}
inline egrammar guard_shape(rng& r) {
    egrammar g; auto T = [&](int i) { return gitem(gitem::T, i); }; auto N = [&](int i) { return gitem(gitem::N, i); };
    auto E = [&](gitem::kind k, vector<grule> rs) { gitem i(k); i.r = rs; return i; };
    auto G = [&](grule c, int clash) { gitem i(gitem::GUARD, clash); i.r.push_back(c); return i; };
    bool cl = r.chance(1, 2); int clash = cl || r.chance(1, 4);
    g.starts = {0};
    switch (r.below(8)) {
        case 0: {   // declaration or expression, decided by a bounded lookahead
            g.nN = 3; g.nT = 5; g.rules.resize(3);
            g.rules[0] = { {E(gitem::STAR, {{N(1), T(0)}})} };
            g.rules[1] = { {G({T(1), T(1)}, clash), T(1), T(1), E(gitem::OPT, {{T(2), N(2)}})}, {N(2)} };
            g.rules[2] = { {T(1)}, {N(2), T(3), T(1)}, {T(4), N(2)} };
            break;
        }
        case 1: {   // unbounded lookahead: a* b or a* c, decided at the front
            g.nN = 2; g.nT = 4; g.rules.resize(2); gitem::kind k = r.chance(1, 2) ? gitem::PLUS : gitem::STAR;
            g.rules[0] = { {E(gitem::PLUS, {{N(1)}})} };
            g.rules[1] = { {G({E(k, {{T(0)}}), T(1)}, clash), E(k, {{T(0)}}), T(1)} };
            if (cl) g.rules[1].push_back({G({E(k, {{T(0)}}), T(2)}, clash), E(k, {{T(0)}}), T(2)});
            else g.rules[1].push_back({T(0), E(gitem::STAR, {{T(0)}}), T(2)});
            if (r.chance(1, 2)) g.rules[1].push_back({T(3), N(1)});
            break;
        }
        case 2: {   // balanced content: the guard reads a nested structure
            g.nN = 3; g.nT = 5; g.rules.resize(3);
            g.rules[0] = { {G({N(1), T(2)}, clash), N(1), T(2), N(0)}, {N(2)} };
            g.rules[1] = { {T(0), E(gitem::STAR, {{N(1)}}), T(1)} };
            g.rules[2] = { {T(0), E(gitem::STAR, {{N(1)}}), T(1), T(3)}, {T(4)}, {} };
            break;
        }
        case 3: {   // dangling else by a guard
            g.nN = 2; g.nT = 4; g.rules.resize(2);
            g.rules[0] = { {T(0), N(0), E(gitem::OPT, {{G({T(1)}, clash), T(1), N(0)}})}, {T(2)} };
            g.rules[1] = { {T(3)} };
            if (r.chance(1, 2)) g.rules[0][0] = {T(0), N(0), E(gitem::ALT, {{G({T(1)}, clash), T(1), N(0)}, {}})};
            break;
        }
        case 4: {   // a guard after reductions, deciding which way to reduce
            g.nN = 3; g.nT = 5; g.rules.resize(3);
            g.rules[0] = { {N(1), G({T(1), T(2)}, clash), T(1), T(2)}, {N(2), T(1), T(3)} };
            g.rules[1] = { {T(0)} }; g.rules[2] = { {T(0)} };
            if (r.chance(1, 2)) g.rules[0][1] = {N(2), G({T(1), T(3)}, 1), T(1), T(3)}, g.rules[0][0][1].id = 1;
            if (r.chance(1, 3)) g.rules[1][0] = {T(0), T(4)}, g.rules[2][0] = {T(0), T(4)};
            break;
        }
        case 5: {   // nested guards: the content of one uses a nonterminal with another
            g.nN = 3; g.nT = 5; g.rules.resize(3);
            g.rules[0] = { {G({N(1), T(3)}, clash), N(1), T(3)}, {E(gitem::PLUS, {{r.chance(1, 2) ? T(0) : N(1)}}), T(4)} };
            g.rules[1] = { {G({T(0), T(1)}, clash), T(0), T(1), N(2)}, {T(0), T(2)} };
            g.rules[2] = { {T(1)}, {} };
            break;
        }
        case 6: {   // guard first in a list element, content longer than the element
            g.nN = 3; g.nT = 4; g.rules.resize(3);
            g.rules[0] = { {E(gitem::STAR, {{N(1)}}), T(3)} };
            g.rules[1] = { {G({T(0), E(gitem::ALT, {{T(1)}, {T(2), T(1)}})}, clash), T(0)}, {T(0), T(2), T(2)}, {T(1)}, {N(2)} };
            g.rules[2] = { {T(2), T(1), E(gitem::OPT, {{T(0), T(0)}})} };
            break;
        }
        default: {  // two guards on the same start, mutually exclusive by the end of what they read
            g.nN = 3; g.nT = 5; g.rules.resize(3);
            g.rules[0] = { {N(1)}, {N(0), T(4), N(1)} };
            g.rules[1] = { {G({N(2), T(1)}, 1), N(2), T(1)}, {G({N(2), T(2)}, 1), N(2), T(2), T(2)}, {T(3)} };
            g.rules[2] = { {T(0)}, {T(3), N(2), T(3)} };
            if (r.chance(1, 2)) g.rules[2].push_back({G({T(4), T(0)}, 0), T(4), T(0)});
            break;
        }
    }
    return g;
}
// guards whose meaning is defined: see DESIGN.md
inline bool guards_valid(ctx& c, const egrammar& g, const bnf& b) {
    for (bool p : b.productive()) if (!p) { c.count("unproductive"); return false; }
    for (size_t k = 0; k < b.guardStart.size(); ++k) if (b.nullable[b.guardStart[k] - bnf::NT0]) { c.count("nullable-guard"); return false; }
    // a guard that has to be decided, at the same position, before it can be decided is not a valid definition
    vector<bool> width0(b.ntName.size(), false);        // can be derived without a token (guards take none)
    for (bool ch = true; ch;) {
        ch = false;
        for (auto& p : b.prods) if (!width0[p.lhs - bnf::NT0]) {
            bool all = true; for (int x : p.rhs) if (bnf::isN(x) ? !width0[x - bnf::NT0] : !b.isGuard(x)) all = false;
            if (all) width0[p.lhs - bnf::NT0] = ch = true;
        }
    }
    for (size_t k = 0; k < b.guardStart.size(); ++k) {
        std::set<int> seen; vector<int> todo(1, b.guardStart[k]);
        while (!todo.empty()) {
            int q = todo.back(); todo.pop_back();
            for (int p : b.byLhs[q - bnf::NT0]) for (int x : b.prods[p].rhs) {
                if (b.isGuard(x)) {
                    if (x - b.realT == (int)k) { c.count("circular-guard"); return false; }
                    if (seen.insert(b.guardStart[x - b.realT]).second) todo.push_back(b.guardStart[x - b.realT]);
                } else if (bnf::isN(x)) { if (seen.insert(x).second) todo.push_back(x); if (!width0[x - bnf::NT0]) break; }
                else break;
            }
        }
        if (width0[b.guardStart[k] - bnf::NT0]) { c.count("nullable-guard"); return false; }
    }
    {       // a rule that begins with itself behind a guard asks for that guard for ever (like a derivation that reads nothing)
        int n = (int)b.ntName.size(); std::vector<std::set<int>> edge(n); std::set<std::pair<int, int>> guarded;
        for (auto& p : b.prods) {
            bool seen = false;
            for (int x : p.rhs) {
                if (b.isGuard(x)) { seen = true; continue; }
                if (!bnf::isN(x)) break;
                edge[p.lhs - bnf::NT0].insert(x - bnf::NT0); if (seen) guarded.insert({p.lhs - bnf::NT0, x - bnf::NT0});
                if (!width0[x - bnf::NT0]) break;
                if (!b.nullable[x - bnf::NT0]) seen = true;
                // a nullable one may still hold a guard in another alternative
                std::set<int> in; vector<int> todo(1, x);
                while (!todo.empty()) { int q = todo.back(); todo.pop_back(); if (!in.insert(q).second) continue; for (int pp : b.byLhs[q - bnf::NT0]) for (int y : b.prods[pp].rhs) { if (b.isGuard(y)) seen = true; else if (bnf::isN(y)) todo.push_back(y); } }
            }
        }
        for (auto& e : guarded) {
            std::set<int> in; vector<int> todo(1, e.second);
            while (!todo.empty()) { int q = todo.back(); todo.pop_back(); if (!in.insert(q).second) continue; for (int y : edge[q]) todo.push_back(y); }
            if (in.count(e.first)) { c.count("circular-guard"); return false; }
        }
    }
    {       // guards in rules that are never used are not part of the parser
        std::set<int> seen; vector<int> todo; for (int s : g.starts) todo.push_back(bnf::NT0 + s);
        size_t guards = 0;
        while (!todo.empty()) {
            int q = todo.back(); todo.pop_back();
            if (!seen.insert(q).second) continue;
            if (b.isGuard(q)) { ++guards; todo.push_back(b.guardStart[q - b.realT]); }
            else if (bnf::isN(q)) for (int p : b.byLhs[q - bnf::NT0]) for (int x : b.prods[p].rhs) todo.push_back(x);
        }
        if (guards != b.guardName.size()) { c.count("unused-guard"); return false; }
    }
    return true;
}
inline egrammar guard_grammar(rng& r) {
    egrammar g; bool shaped = r.chance(1, 2);
    if (shaped) g = guard_shape(r);
    if (!shaped || r.chance(1, 3)) {
        cfg_gen gen(r);
        if (!shaped) { gen.ebnfPct = 20; g = gen.make(r.range(1, 4), 5, r.pick(vector<int>{40, 80, 95})); }
        gen.g = g; gen.ebnfPct = 20;
        for (int k = r.range(1, 3); k > 0; --k) {
            auto& rs = g.rules[r.below(g.nN)];
            grule& x = rs[r.below((int)rs.size())];
            size_t at = r.chance(2, 3) ? 0 : r.below((int)x.size() + 1);
            gitem q(gitem::GUARD, r.chance(1, 2));
            grule content;
            if (r.chance(1, 2) && at < x.size()) { for (size_t i = at; i < x.size() && (i == at || r.chance(2, 3)); ++i) content.push_back(x[i]); if (r.chance(1, 3)) content.push_back(gen.item(1)); }
            else content = gen.rule(r.range(1, 3), 1);
            q.r.push_back(content);
            x.insert(x.begin() + at, q);
        }
        if (r.chance(1, 3)) {       // make two rules start alike, so that only a guard separates them
            auto& rs = g.rules[r.below(g.nN)];
            if (rs.size() >= 2 && !rs[0].empty()) { grule y; for (auto& i : rs[0]) if (i.k != gitem::GUARD && r.chance(3, 4)) y.push_back(i); y.push_back(gitem(gitem::T, r.below(g.nT))); rs[1] = y; }
        }
    }
    if (r.chance(1, 2)) {
        vector<int> perm; for (int i = 0; i < g.nT; ++i) perm.push_back(i);
        for (int i = g.nT - 1; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]);
        std::function<void(gitem&)> ren = [&](gitem& i) { if (i.k == gitem::T) i.id = perm[i.id]; for (auto& x : i.r) for (auto& y : x) ren(y); };
        for (auto& rs : g.rules) for (auto& x : rs) for (auto& i : x) ren(i);
    }
    return g;
}

}
#endif
