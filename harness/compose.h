// Definitions made of several languages that inherit from each other, in several files (and programs built from them).
#ifndef VERIF_COMPOSE_H
#define VERIF_COMPOSE_H
#include "lang.h"
#include "lang_ref.h"
#include "lang_gen.h"
namespace vf {
struct layered {
    rng& r; layout& l; const egrammar& g; vector<tokdef>& t;
    int K; vector<int> li, first; vector<vector<int>> at; vector<grule> decoy; vector<bool> hasDecoy;
    vector<int> use, def;                          // per token: first layer that uses it, layer that defines it
    struct stmt { string block, text; };           // one entry of a block of this kind
    vector<vector<stmt>> lex; vector<vector<string>> gram; vector<vector<string>> prec;
    int changes = 0;
    layered(rng& rr, layout& ll, const egrammar& gg, vector<tokdef>& tt) : r(rr), l(ll), g(gg), t(tt) {}
    static void symbols(const grule& x, std::set<int>& nts, std::set<int>& ts) {
        for (auto& i : x) { if (i.k == gitem::N) nts.insert(i.id); else if (i.k == gitem::T) ts.insert(i.id); for (auto& y : i.r) symbols(y, nts, ts); }
    }
    grule make_decoy(int layer) {
        grule x; int n = r.range(1, 3);
        for (int k = 0; k < n; ++k) {
            vector<int> c; for (int m = 0; m < g.nN; ++m) if (li[m] <= layer) c.push_back(m);
            if (k && !c.empty() && r.chance(1, 2)) x.push_back(gitem(gitem::N, r.pick(c))); else x.push_back(gitem(gitem::T, (int)t.size() - 1 - r.below(2)));
        }
        return x;
    }
    void plan() {
        K = r.range(2, 4);
        // two more tokens, that only rules without effect use
        for (const char* d : {"\"<>\"", "'$'"}) { tokdef x; x.kind = tokdef::LITERAL; x.name = d; t.push_back(x); }
        li.resize(g.nN); for (auto& x : li) x = r.chance(1, 2) ? 0 : r.below(K);
        first.assign(g.nN, K); at.resize(g.nN); decoy.resize(g.nN); hasDecoy.assign(g.nN, false);
        use.assign(t.size(), K); lex.resize(K); gram.resize(K); prec.resize(K);
        auto uses = [&](const grule& x, int layer) { std::set<int> a, b; symbols(x, a, b); for (int k : b) use[k] = std::min(use[k], layer); };
        for (int n = 0; n < g.nN; ++n) for (auto& x : g.rules[n]) {
            std::set<int> nts, ts; symbols(x, nts, ts); int need = li[n]; for (int m : nts) need = std::max(need, li[m]);
            int y = r.chance(1, 2) ? need : r.range(need, K - 1); at[n].push_back(y); first[n] = std::min(first[n], y);
            uses(x, y);
        }
        for (int n = 0; n < g.nN; ++n) if (first[n] > li[n] || r.chance(1, 6)) { hasDecoy[n] = true; decoy[n] = make_decoy(li[n]); uses(decoy[n], li[n]); }
        for (int y = 0; y < K; ++y) {
            vector<vector<string>> q;              // per nonterminal, in order
            for (int n = 0; n < g.nN; ++n) {
                vector<string> s; string nm = "<" + nname(n) + ">";
                if (hasDecoy[n] && li[n] == y) s.push_back(nm + l.sp() + "=" + l.sp() + seq_text(decoy[n], t, l));
                bool begun = first[n] < y; string cur;
                for (size_t k = 0; k < g.rules[n].size(); ++k) if (at[n][k] == y) {
                    string x = seq_text(g.rules[n][k], t, l);
                    if (cur.empty()) { cur = (begun ? nm + l.sp() + "|=" : hasDecoy[n] ? "replace" + l.sp() + nm + l.sp() + "=" : nm + l.sp() + "=") + l.sp() + x; if (begun || hasDecoy[n]) ++changes; begun = true; }
                    else if (r.chance(1, 2)) cur += l.sp() + "|" + l.sp() + x;
                    else { s.push_back(cur); cur = nm + l.sp() + "|=" + l.sp() + x; ++changes; }
                }
                if (!cur.empty()) s.push_back(cur);
                if (!s.empty()) q.push_back(s);
            }
            while (!q.empty()) { int k = r.below((int)q.size()); gram[y].push_back(q[k][0]); q[k].erase(q[k].begin()); if (q[k].empty()) q.erase(q.begin() + k); }
        }
    }
    void tokens(const string& ignoreBody) {
        struct part { const char *name, *a, *b; }; 
        static const part parts[] = { {"num", "/[0-9]/", "/[0-9][0-9]+/"}, {"str", "/\"\"/", "/\"[^\"]+\"/"}, {"hash", "/#[a-z]+/", "/#[a-z]+\\.[0-9]/"}, {"up", "/[A-Z]/", "/[A-Z]{unicode-letter}+/"}, {"id", "/[a-m]+|[n-z]+/", "/[a-z]+/"} };
        struct exprs { const char *name, *sym, *def, *a, *b, *wrong; };
        static const exprs es[] = { {"num", "digit", "/{digit}+/", "/[0-4]/", "/[5-9]/", "/[#$]/"}, {"hash", "hash-body", "/#{hash-body}/", "/[a-z]+/", "/[a-z]+\\.[0-9]/", "\"##\""}, {"up", "capital", "/{capital}{unicode-letter}*/", "/[A-M]/", "/[N-Z]/", "'`'"}, {"id", "low", "/{low}+/", "/[a-c]/", "/[d-z]/", "'`'"} };
        static const char* wrong[] = { "\"<>\"", "/`+/", "'`'", "\"$$$\"" };
        def.assign(t.size(), -1); std::set<int> done;
        auto put = [&](int y, const string& block, const string& text) { lex[y].push_back({block, text}); };
        // the last definition of the text "." and so on must be the original one: order by chance, but never before the first
        for (size_t i = 0; i + 2 < t.size(); ++i) {
            tokdef& d = t[i]; if (d.kind == tokdef::LITERAL || d.kind == tokdef::IMPLICIT) continue;
            if (d.name == "bang" || d.name == "tilde") continue;
            int y = r.range(0, std::min(use[i], K - 1)); def[i] = y;
            string block = d.kind == tokdef::KEYWORD ? "keywords" : d.kind == tokdef::WEAKKEY ? "weak keywords" : d.kind == tokdef::WEAKLEXER ? "weak lexer" : "lexer";
            string whole = d.def.empty() ? "\"" + d.name + "\"" : d.def; int how = r.below(6);
            int z = y < K - 1 ? r.range(y + 1, K - 1) : y;
            if (how == 0 && z > y) {     // something else at first, replaced by a language that inherits it
                static const char* kinds[] = { "keywords", "weak keywords", "lexer", "weak lexer", "ignore" };
                put(y, r.chance(1, 2) ? block : kinds[r.below(5)], d.name + l.sp() + "=" + l.sp() + wrong[r.below(4)]);
                put(z, block, "replace" + l.sp() + d.name + l.sp() + "=" + l.sp() + whole); ++changes; continue;
            }
            if (how == 1) {
                const part* p = 0; for (auto& x : parts) if (d.name == x.name) p = &x;
                if (p && d.kind == tokdef::LEXER) {
                    if (r.chance(1, 2)) put(y, block, d.name + l.sp() + "=" + l.sp() + p->a), put(z, block, d.name + l.sp() + "|=" + l.sp() + p->b);
                    else put(y, block, d.name + l.sp() + "=" + l.sp() + p->b), put(z, block, d.name + l.sp() + "|=" + l.sp() + p->a);
                    ++changes; continue;
                }
            }
            if (how == 2 || how == 3) {
                const exprs* p = 0; for (auto& x : es) if (d.name == x.name) p = &x;
                if (p && d.kind == tokdef::LEXER) {
                    put(y, block, d.name + l.sp() + "=" + l.sp() + p->def);
                    int w = r.range(0, z); string sy = p->sym;      // the symbols it uses can come later or earlier
                    if (r.chance(1, 2)) { put(w, "lexer-symbols", sy + l.sp() + "=" + l.sp() + p->wrong); put(r.range(w, K - 1), "lexer-symbols", "replace" + l.sp() + sy + l.sp() + "=" + l.sp() + p->a); }
                    else put(w, "lexer-symbols", sy + l.sp() + "=" + l.sp() + p->a);
                    put(K - 1, "lexer-symbols", sy + l.sp() + "|=" + l.sp() + p->b); ++changes; continue;
                }
            }
            string e = d.name; if (!d.def.empty() || r.chance(1, 3)) e += l.sp() + "=" + l.sp() + whole;
            put(y, block, e);
        }
        if (r.chance(1, 2)) lex[r.below(K)].push_back({"ignore", ignoreBody});
        else { put(r.below(K), "ignore", "com = /\\/\\*[^*]*\\*\\//"); int y = r.below(K); put(y, "ignore", "ws = /[ ]+/"); put(r.range(y, K - 1), "ignore", "ws |= /[\\t\\r\\n ]+/"); ++changes; }
    }
    void precedence(vector<prec_block>& blocks) {
        int at = 0;
        for (auto& b : blocks) {
            if (b.of.empty()) continue;
            for (auto& x : b.of) at = std::max(at, def[x.first] >= 0 ? def[x.first] : std::min(use[x.first], K - 1));
            at = r.range(at, K - 1); prec[at].push_back(prec_text(b, t, l, r));
        }
    }
    string body(int y) {
        // blocks: entries keep their order; neighbours of one kind share a block
        vector<string> lb; string open;
        vector<stmt> e = lex[y];
        // an order by chance that keeps entries for the same kind in order
        { vector<stmt> o; std::map<string, vector<stmt>> by; for (auto& s : e) by[s.block].push_back(s); while (!by.empty()) { auto i = by.begin(); std::advance(i, r.below((int)by.size())); int n = r.range(1, (int)i->second.size()); string s = i->first + l.sp() + "{\n"; for (int k = 0; k < n; ++k) s += i->second[k].text + "\n"; lb.push_back(s + "}\n"); i->second.erase(i->second.begin(), i->second.begin() + n); if (i->second.empty()) by.erase(i); } }
        vector<string> gb; for (size_t k = 0; k < gram[y].size();) { string s = "grammar" + l.sp() + "{\n"; int n = r.range(1, 4); for (; n > 0 && k < gram[y].size(); --n, ++k) s += gram[y][k] + "\n"; gb.push_back(s + "}\n"); }
        string s; size_t a = 0, b = 0, p = 0;
        while (a < lb.size() || b < gb.size() || p < prec[y].size()) { int k = r.below(3); if (k == 0 && a < lb.size()) s += lb[a++]; if (k == 1 && b < gb.size()) s += gb[b++]; if (k == 2 && p < prec[y].size()) s += prec[y][p++]; }
        return s;
    }
    // a language that changes what it inherits from layer y: nothing of it may be seen elsewhere
    string stray(int y) {
        string s = "grammar {\n"; vector<int> c; for (int n = 0; n < g.nN; ++n) if (li[n] <= y) c.push_back(n);
        for (int k = r.range(0, 3); k > 0 && !c.empty(); --k) { string nm = "<" + nname(r.pick(c)) + ">"; s += (r.chance(1, 2) ? "replace " + nm + " = '$'\n" : nm + " |= \"<>\" " + nm + " <Stray>\n"); }
        s += "<Stray> = \"<>\" | stray\n}\n";
        vector<int> d; for (size_t i = 0; i < t.size(); ++i) if (def[i] >= 0 && def[i] <= y) d.push_back((int)i);
        for (int k = r.range(0, 2); k > 0 && !d.empty(); --k) {
            int i = r.pick(d); string block = t[i].kind == tokdef::KEYWORD ? "keywords" : t[i].kind == tokdef::WEAKKEY ? "weak keywords" : "lexer";
            s += (r.chance(1, 3) ? string("weak lexer") : block) + " { replace " + t[i].name + " = /[a-z0-9#]+/ }\n";
        }
        if (r.chance(1, 3)) s += "weak keywords { k-stray = \"if\" s2 = '+' }\n";
        if (r.chance(1, 3)) s += "ignore { i-stray = /[a-z+]+/ }\n";
        return s;
    }
};
inline int weak_words(rng& r, int nT, vector<tokdef>& t) {      // words that are weak: each also reads as an identifier; returns the identifier
    static const char* ws[] = { "ab", "cd", "ef", "gh", "ij", "kl", "mn", "op" };
    for (int i = 0; i < nT && i < 8; ++i) if (r.chance(1, 2)) { t[i] = tokdef(); t[i].kind = r.chance(1, 2) ? tokdef::IMPLICIT : tokdef::WEAKKEY; t[i].name = ws[i]; t[i].samples.push_back(ws[i]); }
    int alt = r.below(nT); t[alt] = tokdef(); t[alt].kind = tokdef::LEXER; t[alt].name = "id"; t[alt].def = "/[a-z]+/"; t[alt].samples = {"zz", "ab", "cd", "ef", "gh"};
    for (int i = 0; i < nT; ++i) {
        if (t[i].kind == tokdef::KEYWORD) t[i].kind = tokdef::WEAKKEY;
        string n = t[i].name; if (n == "k-1" || n == "var_") { t[i] = tokdef(); t[i].kind = tokdef::LITERAL; t[i].name = n == "k-1" ? "\"??\"" : "\"$$\""; t[i].samples.push_back(n == "k-1" ? "??" : "$$"); }
    }
    return alt;
}

// a definition that says the same as g with these tokens and precedence blocks, spread over languages and files
struct program { std::vector<std::pair<string, string>> files; string target, all; int languages = 0, changes = 0, strays = 0; };
inline program compose(rng& r, layout& l, const egrammar& g, vector<tokdef>& t, vector<prec_block>& blocks) {
    program P; layered y(r, l, g, t); y.plan(); y.tokens(IGNORE); y.precedence(blocks);
    // names, files and imports
    vector<string> names, pool = { "A", "B-1", "C", "D", "E_", "F", "G", "H", "lang", "Z" };
    for (int k = 0; k < 9; ++k) { int j = r.below((int)pool.size()); names.push_back(pool[j]); pool.erase(pool.begin() + j); }
    struct lng { string name, base, body; }; vector<lng> ls;
    for (int k = 0; k < y.K; ++k) ls.push_back({names[k], k ? names[k - 1] : "", y.body(k)});
    for (int k = r.below(3); k > 0; --k) { int p = r.below(y.K); ls.push_back({names[ls.size()], names[p], y.stray(p)}); ++P.strays; }
    if (r.chance(1, 6)) { ls.push_back({names[ls.size()], names[y.K - 1], ""}); }
    string target = r.chance(1, 6) && ls.back().body.empty() ? ls.back().name : names[y.K - 1];
    int nf = r.range(1, 4); vector<vector<int>> in(nf); for (size_t k = 0; k < ls.size(); ++k) in[r.below(nf)].push_back((int)k);
    vector<string> fn = { "d.tp" }; for (int k = 1; k < nf; ++k) fn.push_back("f" + std::to_string(k) + ".tp");
    vector<std::set<int>> imp(nf); for (int k = 1; k < nf; ++k) imp[r.below(k)].insert(k);
    for (int k = r.below(4); k > 0; --k) imp[r.below(nf)].insert(r.below(nf));
    string all;
    for (int k = 0; k < nf; ++k) {
        string s; vector<string> parts; for (int j : imp[k]) parts.push_back("import \"" + fn[j] + "\"\n");
        for (int j : in[k]) parts.push_back("language" + l.sp() + ls[j].name + (ls[j].base.empty() ? "" : l.sp() + ":" + l.sp() + ls[j].base) + l.sp() + "{\n" + ls[j].body + "}\n");
        for (int i = (int)parts.size() - 1; i > 0; --i) std::swap(parts[i], parts[r.below(i + 1)]);
        for (auto& p : parts) s += p;
        P.files.push_back(std::make_pair(fn[k], s)); all += "--- " + fn[k] + "\n" + s;
    }
    all += "--- target " + target + "\n";
    P.all = all; P.target = target; P.languages = (int)ls.size(); P.changes = y.changes;
    return P;
}

}
#endif
