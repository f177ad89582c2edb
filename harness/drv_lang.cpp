// Monitors for what a definition file means: precedence, conflict attributes, guards, weak symbols, ignored symbols.
#include "lang.h"
#include "lang_ref.h"
#include "lang_gen.h"
#include "compose.h"
using namespace vf;
using std::string; using std::wstring; using std::vector;

// compare one run of the real parser with the reference
static void compare(ctx& c, run_t& run, const namer& nm, const ref_machine& ref, int start, vector<rtoken> in, const string& text, const char* what, bool loose = false) {
    auto e = ref.run(start, in);
    c.count("guards-tried", e.guardsTried); c.count("guards-matched", e.guardsMatched);
    if (e.verdict < 0) { c.count("undecided"); return; }       // a reduce/reduce choice, or reductions that never end
    parse_out o = run_parser(run, nm, widen(text), start);
    string head = "input (start " + std::to_string(start) + "): " + text + "\n";
    c.count("inputs");
    if (!o.problem.empty()) c.fail("malformed-reduction", head + o.problem);
    if (o.stuck) { c.fail("stuck", head + "the parser does not finish; expected " + (e.verdict ? "accept" : "reject")); return; }
    if (o.ok != (e.verdict == 1)) { c.fail(string(what) + ":verdict", head + "parser " + (o.ok ? "accepts" : "rejects at offset " + std::to_string(o.failOffset)) + ", the definition " + (e.verdict ? "accepts" : "rejects at token " + std::to_string(e.failToken)) + "\nparser:\n" + join(o.events) + "expected:\n" + join(e.events)); return; }
    if (!o.ok && loose) {       // how far it reduces before it gives up is not part of the meaning
        while (!o.events.empty() && o.events.back().compare(0, 2, "s:")) o.events.pop_back();
        while (!e.events.empty() && e.events.back().compare(0, 2, "s:")) e.events.pop_back();
    }
    if (o.events != e.events) { c.fail(string(what) + ":structure", head + "parser:\n" + join(o.events) + "expected:\n" + join(e.events)); return; }
    if (!o.ok) {
        int want = e.failToken < (int)in.size() ? in[e.failToken].offset : -1;
        if (o.failOffset != want) c.fail(string(what) + ":error-position", head + "rejected at offset " + std::to_string(o.failOffset) + " instead of " + std::to_string(want));
        c.count("rejected");
    } else c.count("accepted");
    c.count("events", (long)e.events.size());
    c.count("weak-reduce-tests", e.weakTried); c.count("strong-meaning-used", e.strongUsed); c.count("weak-meaning-used", e.weakKept); c.count("ignorable-skipped", e.ignored);
    if (e.events.size() >= 4) c.nontrivial = true;
}
static void check_conflict_reports(ctx& c, run_t& run, const ref_machine& ref) {
    int sr = 0, rr = 0;
    for (auto& d : run.st().diags) {
        if (d.id == "CONFLICT_SHIFT_REDUCE" && d.sev != compiler::error::sev_detail) ++sr;
        if (d.id == "CONFLICT_REDUCE_REDUCE" && d.sev != compiler::error::sev_detail) ++rr;
    }
    if (sr != ref.srConflicts || rr != ref.rrConflicts)
        c.fail("conflict-reports", "reported " + std::to_string(sr) + " shift/reduce and " + std::to_string(rr) + " reduce/reduce conflicts, there are " + std::to_string(ref.srConflicts) + " and " + std::to_string(ref.rrConflicts) + "\n" + show_diags(run.st().diags));
    c.count("conflicts-left", sr + rr);
}

// precedence climbing over a purely binary expression: the independent statement of what precedence means
static string climb(const vector<rtoken>& in, size_t& p, int min, const prec_block& b) {
    string l = "(N0 " + tname(in[p].t) + ":" + in[p].text + ")"; ++p;
    while (p < in.size()) {
        auto o = b.of.at(in[p].t);
        if (o.first < min) break;
        string op = tname(in[p].t) + ":" + in[p].text; ++p;
        string rhs = climb(in, p, o.second == 0 ? o.first + 1 : o.first, b);
        l = "(N0 " + l + " " + op + " " + rhs + ")";
    }
    return l;
}

static void c10(ctx& c) {
    rng& r = c.r; layout l(r);
    bool ex = r.chance(3, 4); egrammar g; expr_case e; vector<prec_block> blocks;
    if (ex) {
        e = expr_grammar(r); g = e.g;
        vector<int> ops = e.bin; ops.insert(ops.end(), e.pre.begin(), e.pre.end()); ops.insert(ops.end(), e.post.begin(), e.post.end());
        std::sort(ops.begin(), ops.end()); ops.erase(std::unique(ops.begin(), ops.end()), ops.end());
        blocks.push_back(random_prec(r, ops, r.chance(3, 4)));
        if (r.chance(1, 6)) blocks.push_back(random_prec(r, ops, false));
    } else {
        cfg_gen gen(r); g = nested(gen.any());
        std::set<int> used; for (auto& p : bnf(g).prods) for (int x : p.rhs) if (!bnf::isN(x)) used.insert(x);
        vector<int> ops(used.begin(), used.end());
        blocks.push_back(random_prec(r, ops, false));
    }
    vector<tokdef> t = make_tokens(r, g.nT);
    string def = "language L {\n" + lexer_text(t, l, r, IGNORE) + grammar_text(g, t, l);
    for (auto& b : blocks) if (!b.of.empty()) { string p = prec_text(b, t, l, r); def += p; }
    def += "}\n";
    c.note(def); if (getenv("VF_SHOW")) fputs(def.c_str(), stderr);
    bnf b(g); lalr_ref m(b); if (m.tooBig) { c.count("too-big"); return; }
    ref_machine ref(m);
    // a block whose levels are all empty is not printed; empty blocks have no effect
    for (auto& x : blocks) ref.apply(x);
    if (!ref.apply_attributes()) return;
    ref.finish();
    run_t run; run.file("d.tp", def);
    run.st().options[L"allow-reduce-conflicts"] = L"1";
    vector<string> starts; for (int s : g.starts) starts.push_back("<" + nname(s) + ">");
    if (!run.compile("d.tp", "L", starts)) { c.fail("not-compiled", "stage " + run.stage + "\n" + show_diags(run.st().diags)); return; }
    c.count("conflicts-resolved", ref.resolved);
    check_conflict_reports(c, run, ref);
    namer nm = make_namer(run, t);
    auto h = heights(b);
    bool pure = ex && e.pre.empty() && e.post.empty() && g.nN == 1 && blocks.size() == 1;
    if (pure) for (int o : e.bin) if (!blocks[0].of.count(o) || blocks[0].of[o].second == 2) pure = false;
    for (int k = 0; k < 6; ++k) {
        int start = r.below((int)g.starts.size());
        vector<int> v;
        if (ex && g.nN == 1 && r.chance(3, 4)) random_expr(r, e, r.range(1, 6), v);
        else v = random_tokens(b, b.starts[start], r, h);
        vector<rtoken> in = toks(v); string text = spell(r, in, t);
        compare(c, run, nm, ref, start, in, text, "precedence");
        if (pure && !in.empty()) {
            bool flat = in.size() % 2 == 1;
            for (size_t i = 0; i < in.size(); ++i) if ((i % 2 == 0) != (in[i].t == e.atom) || (i % 2 == 1 && !blocks[0].of.count(in[i].t))) flat = false;
            if (flat) {
                size_t p = 0; string want = climb(in, p, -1, blocks[0]);
                parse_out o = run_parser(run, nm, widen(text), start);
                c.count("precedence-trees");
                if (o.tree != want) c.fail("precedence-tree", "input " + text + "\nparser   " + o.tree + "\nexpected " + want);
            }
        }
    }
}

// ---- C12: conflict attributes ---------------------------------------------------------------------------------------
static void c12(ctx& c) {
    rng& r = c.r; layout l(r);
    egrammar g; expr_case e; bool ex = r.chance(1, 4);
    if (ex) { e = expr_grammar(r); g = e.g; }
    else if (r.chance(1, 4)) {      // dangling else and friends
        auto T = [&](int i) { return gitem(gitem::T, i); }; auto N = [&](int i) { return gitem(gitem::N, i); };
        gitem els(gitem::OPT); els.r.push_back({T(1), N(0)});
        g.nN = 1; g.nT = 4; g.starts = {0};
        if (r.chance(1, 2)) g.rules = { { {T(0), N(0), els}, {T(2)} } };
        else g.rules = { { {T(0), N(0), T(1), N(0)}, {T(0), N(0)}, {T(2)} } };
        if (r.chance(1, 2)) { gitem st(r.chance(1, 2) ? gitem::STAR : gitem::PLUS); st.r.push_back({T(3)}); g.rules[0].push_back({T(2), st}); g.rules[0].push_back({T(2), T(3), T(1)}); }
    }
    else { cfg_gen gen(r); g = nested(gen.any()); }
    std::map<string, int> known; int pct = r.pick(vector<int>{15, 40, 80});
    for (int n = 0; n < g.nN; ++n) for (auto& x : g.rules[n]) put_attrs(r, x, known, pct, nname(n));
    vector<tokdef> t = make_tokens(r, g.nT);
    string def = "language L {\n" + lexer_text(t, l, r, IGNORE) + grammar_text(g, t, l) + "}\n";
    c.note(def); if (getenv("VF_SHOW")) fputs(def.c_str(), stderr);
    bnf b(g); lalr_ref m(b); if (m.tooBig) { c.count("too-big"); return; }
    ref_machine ref(m);
    if (!ref.apply_attributes()) { c.count("contradictory"); return; }
    ref.finish();
    run_t run; run.file("d.tp", def);
    run.st().options[L"allow-reduce-conflicts"] = L"1";
    vector<string> starts; for (int s : g.starts) starts.push_back("<" + nname(s) + ">");
    if (!run.compile("d.tp", "L", starts)) { c.fail("not-compiled", "stage " + run.stage + "\n" + show_diags(run.st().diags)); return; }
    c.count("conflicts-resolved", ref.resolved); c.count("weak-reductions", ref.weakened);
    check_conflict_reports(c, run, ref);
    namer nm = make_namer(run, t);
    auto h = heights(b);
    for (int k = 0; k < 6; ++k) {
        int start = r.below((int)g.starts.size());
        vector<int> v;
        if (ex && g.nN == 1 && r.chance(3, 4)) random_expr(r, e, r.range(1, 5), v);
        else v = random_tokens(b, b.starts[start], r, h);
        vector<rtoken> in = toks(v); string text = spell(r, in, t);
        compare(c, run, nm, ref, start, in, text, "attribute");
    }
    if (!ref.resolved) c.nontrivial = false;
}

// ---- C11: guards ----------------------------------------------------------------------------------------------------
static void c11(ctx& c) {
    rng& r = c.r; layout l(r);
    egrammar g = nested(guard_grammar(r));
    bnf b(g);
    if (!guards_valid(c, g, b)) return;
    vector<tokdef> t = make_tokens(r, g.nT); string ign = IGNORE; int alt = -1; std::set<int> ignorable;
    if (r.chance(1, 3)) {       // words that are weak: each also reads as an identifier
        static const char* ws[] = { "ab", "cd", "ef", "gh", "ij", "kl", "mn", "op" };
        for (int i = 0; i < g.nT && i < 8; ++i) if (r.chance(1, 2)) { t[i] = tokdef(); t[i].kind = r.chance(1, 2) ? tokdef::IMPLICIT : tokdef::WEAKKEY; t[i].name = ws[i]; t[i].samples.push_back(ws[i]); }
        alt = r.below(g.nT); t[alt] = tokdef(); t[alt].kind = tokdef::LEXER; t[alt].name = "id"; t[alt].def = "/[a-z]+/"; t[alt].samples = {"zz", "ab", "cd", "ef", "gh"};
        for (int i = 0; i < g.nT; ++i) {
            if (t[i].kind == tokdef::KEYWORD) t[i].kind = tokdef::WEAKKEY;
            string n = t[i].name; if (n == "k-1" || n == "var_") { t[i] = tokdef(); t[i].kind = tokdef::LITERAL; t[i].name = n == "k-1" ? "\"??\"" : "\"$$\""; t[i].samples.push_back(n == "k-1" ? "??" : "$$"); }
        }
    }
    if (r.chance(1, 4)) {       // symbols that are ignored where the grammar has no use for them
        for (int i = 0; i < g.nT; ++i) if (i != alt && ignorable.size() < 2 && r.chance(1, 3)) {
            t[i] = tokdef(); t[i].kind = tokdef::LITERAL; t[i].name = ignorable.empty() ? "bang" : "tilde"; t[i].samples.push_back(ignorable.empty() ? "!" : "~~");
            ign += t[i].name + " = \"" + t[i].samples[0] + "\"\n"; ignorable.insert(i);
        }
    }
    string def = "language L {\n" + lexer_text(t, l, r, ign) + grammar_text(g, t, l) + "}\n";
    c.note(def); if (getenv("VF_SHOW")) fputs(def.c_str(), stderr);
    lalr_ref m(b); if (m.tooBig) { c.count("too-big"); return; }
    ref_machine ref(m); ref.finish();
    std::set<int> used; for (auto& p : b.prods) for (int x : p.rhs) if (x < g.nT) used.insert(x);
    if (ref.srConflicts || ref.rrConflicts) { c.count("not-conflict-free"); return; }
    run_t run; run.file("d.tp", def);
    vector<string> starts; for (int s : g.starts) starts.push_back("<" + nname(s) + ">");
    if (!run.compile("d.tp", "L", starts)) { c.fail("not-compiled", "stage " + run.stage + "\n" + show_diags(run.st().diags)); return; }
    c.count("grammars");
    check_conflict_reports(c, run, ref);
    namer nm = make_namer(run, t);
    auto h = heights(b);
    long matched = (*c.counters)["guards-matched"];
    for (int k = 0; k < 8; ++k) {
        int start = r.below((int)g.starts.size());
        vector<int> v = random_tokens(b, b.starts[start], r, h);
        v.erase(std::remove_if(v.begin(), v.end(), [&](int x) { return x >= g.nT; }), v.end());
        vector<rtoken> in = toks(v);
        for (auto& x : in) {
            x.text = r.pick(t[x.t].samples);
            if (alt >= 0 && all_in(x.text, LOW)) {
                int w = -1; for (int i = 0; i < g.nT; ++i) if (i != alt && t[i].samples[0] == x.text && (t[i].kind == tokdef::WEAKKEY || (t[i].kind == tokdef::IMPLICIT && used.count(i)))) w = i;
                x.t = w >= 0 ? w : alt; if (w >= 0) x.strong = alt;
            }
            if (ignorable.count(x.t)) x.ignorable = true;
        }
        if (!ignorable.empty()) for (size_t i = 0; i <= in.size(); ++i) if (r.chance(1, 6)) { vector<int> z(ignorable.begin(), ignorable.end()); rtoken x(r.pick(z)); x.text = t[x.t].samples[0]; x.ignorable = true; in.insert(in.begin() + i, x); ++i; }
        string text = spell(r, in, t);
        compare(c, run, nm, ref, start, in, text, "guard", alt >= 0 || !ignorable.empty());
    }
    if ((*c.counters)["guards-matched"] == matched) c.nontrivial = false;
}

// ---- C13: weak symbols; C14: ignored symbols -------------------------------------------------------------------------
struct ldef {       // one lexical symbol
    string name, def; bool weak; int type;         // type 0 keyword, 1 lexer, 2 ignore; def empty: the name itself
    bool implicit = false; int order = 0;
    std::function<bool(const string&)> match; vector<string> samples;
};
struct lexicon {
    vector<ldef> d;
    // the symbol a whole word is read as: weak before strong, keywords before lexer symbols before ignored ones, then the earlier definition
    int best(const string& w, bool weakToo) const {
        int b = -1;
        for (size_t i = 0; i < d.size(); ++i) {
            if (!d[i].match(w) || (d[i].weak && !weakToo)) continue;
            if (b < 0) { b = (int)i; continue; }
            const ldef &x = d[i], &y = d[b];
            if (x.weak != y.weak) { if (x.weak) b = (int)i; }
            else if (x.type != y.type) { if (x.type < y.type) b = (int)i; }
            else if (x.order < y.order) b = (int)i;
        }
        return b;
    }
    int weak_count(const string& w) const { int n = 0; for (auto& x : d) if (x.weak && x.match(w)) ++n; return n; }
    string text(layout& l, rng& r) {
        vector<string> blocks; vector<vector<int>> who;
        static const char* heads[] = { "keywords", "lexer", "ignore" };
        vector<int> idx; for (size_t i = 0; i < d.size(); ++i) idx.push_back((int)i);
        for (int i = (int)idx.size() - 1; i > 0; --i) std::swap(idx[i], idx[r.below(i + 1)]);
        for (int w = 0; w < 2; ++w) for (int t = 0; t < 3; ++t) {
            vector<int> cur;
            auto flush = [&]() { if (cur.empty()) return; string s = (w ? "weak" + l.sp() : string()) + heads[t] + l.sp() + "{\n"; for (int i : cur) { s += d[i].name; if (!d[i].def.empty()) s += l.sp() + "=" + l.sp() + d[i].def; s += "\n"; } blocks.push_back(s + "}\n"); who.push_back(cur); cur.clear(); };
            for (int i : idx) if (!d[i].implicit && d[i].weak == (w == 1) && d[i].type == t) { if (r.chance(1, 3)) flush(); cur.push_back(i); }
            flush();
        }
        for (int i = (int)blocks.size() - 1; i > 0; --i) { int j = r.below(i + 1); std::swap(blocks[i], blocks[j]); std::swap(who[i], who[j]); }
        string s; int o = 0; for (size_t i = 0; i < blocks.size(); ++i) { s += blocks[i]; for (int x : who[i]) d[x].order = o++; }
        return s;
    }
};
static ldef literal_def(const string& name, const string& text, bool weak, int type, bool implicit) {
    ldef x; x.name = name; x.weak = weak; x.type = type; x.implicit = implicit;
    if (name != text && !implicit) x.def = "\"" + text + "\"";
    x.match = [text](const string& w) { return w == text; }; x.samples.push_back(text); return x;
}
static lexicon make_lexicon(rng& r, bool weakLexer) {
    lexicon L; auto add = [&](const ldef& x) { L.d.push_back(x); };
    auto pat = [&](const char* n, const char* d, bool weak, std::function<bool(const string&)> m, vector<string> s) { ldef x; x.name = n; x.def = d; x.weak = weak; x.type = 1; x.match = m; x.samples = s; add(x); };
    if (r.chance(4, 5)) pat("id", "/[a-z]+/", false, [](const string& w) { return all_in(w, LOW); }, {"if", "then", "zz", "end", "fed", "q"});
    if (r.chance(1, 2)) pat("word", "/[a-z0-9]+/", false, [](const string& w) { return all_in(w, ALNUM); }, {"x9", "1z", "42", "if", "then", "key"});
    if (r.chance(1, 2)) pat("num", "/[0-9]+/", false, [](const string& w) { return all_in(w, DIG); }, {"12", "7", "42"});
    if (r.chance(1, 3)) pat("cap", "/[A-Z][a-z]*/", false, [](const string& w) { return !w.empty() && w[0] >= 'A' && w[0] <= 'Z' && (w.size() == 1 || all_in(w.substr(1), LOW)); }, {"End", "A", "Zoo"});
    if (weakLexer && r.chance(1, 2)) pat("hexa", "/[a-f]+/", true, [](const string& w) { return all_in(w, "abcdef"); }, {"fed", "a", "bee"});
    static const char* words[] = { "if", "then", "end", "key", "x9", "12", "End", "q", "fed", "in" };
    vector<int> p; for (int i = 0; i < 10; ++i) p.push_back(i);
    for (int i = 9; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]);
    int n = r.range(1, 5);
    for (int k = 0; k < n; ++k) {
        string w = words[p[k]]; bool digit = w == "12";
        int how = r.below(6);
        if (how == 0) add(literal_def(digit ? "twelve" : w, w, false, 0, false));
        else if (how == 1) add(literal_def("s-" + w, w, false, 0, false));
        else if (how == 2) add(literal_def(digit ? "twelve" : w, w, true, 0, false));
        else if (how == 3) add(literal_def("k-" + w, w, true, 0, false));
        else { ldef x = literal_def(w.size() == 1 && r.chance(1, 2) ? "'" + w + "'" : how == 4 || digit ? "\"" + w + "\"" : w, w, true, 0, true); add(x); }
    }
    if (r.chance(1, 3)) { string w = words[p[0]]; if (w != "12") add(literal_def("dup", w, !L.d.back().weak, 0, false)); }   // the same text as a weak and as a strong keyword
    if (r.chance(1, 2)) add(literal_def("';'", ";", true, 0, true));
    if (r.chance(1, 2)) add(literal_def("'('", "(", true, 0, true)), add(literal_def("')'", ")", true, 0, true));
    // known finding (probed by case 0): a weak symbol that has two different strong meanings is not recognised
    for (size_t i = 0; i < L.d.size(); ++i) if (L.d[i].name == "hexa")
        for (auto& x : L.d) if (!x.weak && x.type == 0 && L.d[i].match(x.samples[0])) { L.d.erase(L.d.begin() + i); --i; break; }
    while (L.d.size() < 2) add(literal_def(L.d.empty() ? "','" : "'+'", L.d.empty() ? "," : "+", true, 0, true));
    return L;
}
static bool is_ident(const string& s) { for (char c : s) if (!isalnum((unsigned char)c) && c != '-' && c != '_') return false; return true; }

// a weak pattern that is an identifier for most texts but a strong keyword for one of them
static void split_probe(ctx& c) {
    string def = "language L {\nweak lexer { hexa = /[a-f]+/ }\nlexer { id = /[a-z]+/ }\nkeywords { fed }\nignore { ws = /[ ]+/ }\ngrammar { <N0> = hexa id hexa }\n}\n";
    c.note(def);
    run_t run; run.file("d.tp", def);
    if (!run.compile("d.tp", "L", {"<N0>"})) { c.fail("split-probe-not-compiled", show_diags(run.st().diags)); return; }
    namer nm; nm.g = run.lang->grammar(); nm.t = run.lang->terminals();
    for (const char* in : {"abc zz bee", "abc fee fad", "fed zz abc", "abc zz fed"}) {
        parse_out o = run_parser(run, nm, widen(in));
        c.count("inputs");
        if (!o.ok) c.fail(string("split-weak-symbol:") + (strstr(in, "fed") ? "fed" : in), string("hexa id hexa does not match ") + in);
    }
}
static void weak_case(ctx& c, bool ignoring) {
    rng& r = c.r; layout l(r);
    if (!ignoring && c.index == 0) { split_probe(c); return; }
    lexicon L = make_lexicon(r, true);
    size_t solid = L.d.size();
    if (ignoring) {
        if (r.chance(1, 3)) L.d.erase(L.d.begin() + 3 % L.d.size(), L.d.end());
        solid = L.d.size();
        auto ign = [&](const char* n, const char* d, vector<string> s) { ldef x; x.name = n; x.def = d; x.weak = false; x.type = 2; x.samples = s; vector<string> all = s; x.match = [all](const string& w) { return std::find(all.begin(), all.end(), w) != all.end(); }; L.d.push_back(x); };
        int k = r.range(1, 7);
        if (k & 1) ign("newline", "/\\r?\\n/", {"\n", "\r\n"});
        if (k & 2) ign("comment", "/#[a-z ]*#/", {"##", "#note#", "# if then #"});
        if (k & 4) ign("comma", "','", {","});
    }
    // a grammar over these symbols
    cfg_gen gen(r); egrammar g;
    if (r.chance(1, 4)) { g = gen.shaped(); int n = (int)L.d.size(); std::function<void(gitem&)> ren = [&](gitem& i) { if (i.k == gitem::T) i.id = (i.id + (int)c.index) % n; for (auto& x : i.r) for (auto& y : x) ren(y); }; for (auto& rs : g.rules) for (auto& x : rs) for (auto& i : x) ren(i); g.nT = n; }
    else {
        gen.ebnfPct = r.pick(vector<int>{0, 15, 30});
        gen.g = egrammar(); gen.g.nN = r.range(1, 4); gen.g.nT = (int)L.d.size(); gen.g.rules.resize(gen.g.nN); int leading = r.pick(vector<int>{40, 80, 95});
        for (int n = 0; n < gen.g.nN; ++n) for (int j = r.range(1, 3); j > 0; --j) {
            grule x = gen.rule(r.chance(1, 6) ? 0 : r.range(1, 4), 2);
            if (r.below(100) < leading) x.insert(x.begin(), gitem(gitem::T, r.below(gen.g.nT)));
            gen.g.rules[n].push_back(x);
        }
        gen.finish(); g = gen.g;
    }
    g = nested(g);
    string lex = L.text(l, r);
    vector<tokdef> t(L.d.size());
    for (size_t i = 0; i < L.d.size(); ++i) t[i].name = L.d[i].name, t[i].kind = tokdef::LITERAL, t[i].samples = L.d[i].samples;
    // symbols that are only defined by their use in the grammar
    bnf b(g); vector<bool> used(L.d.size(), false);
    for (auto& p : b.prods) for (int x : p.rhs) if (!bnf::isN(x)) used[x] = true;
    for (size_t i = 0; i < L.d.size(); ++i) { if (L.d[i].implicit && !used[i]) L.d[i].match = [](const string&) { return false; }; if (L.d[i].implicit) L.d[i].order = 1000 + (int)i; }
    string def = "language L {\n" + lex + "ignore {\nws = /[ \\t" + string(ignoring ? "" : "\\r\\n") + "]+/\n}\n" + grammar_text(g, t, l) + "}\n";
    c.note(def); if (getenv("VF_SHOW")) fputs(def.c_str(), stderr);
    lalr_ref m(b); if (m.tooBig) { c.count("too-big"); return; }
    ref_machine ref(m); ref.finish();
    if (ref.srConflicts || ref.rrConflicts) { c.count("not-conflict-free"); return; }
    run_t run; run.file("d.tp", def);
    vector<string> starts; for (int s : g.starts) starts.push_back("<" + nname(s) + ">");
    if (!run.compile("d.tp", "L", starts)) { c.fail("not-compiled", "stage " + run.stage + "\n" + show_diags(run.st().diags)); return; }
    c.count("grammars");
    check_conflict_reports(c, run, ref);
    namer nm = make_namer(run, t);
    auto h = heights(b); bool interesting = false;
    for (int k = 0; k < 8; ++k) {
        int start = r.below((int)g.starts.size());
        vector<int> v = random_tokens(b, b.starts[start], r, h);
        vector<rtoken> in; bool ok = true;
        for (int x : v) {
            for (int q = ignoring ? r.below(3) : 0; q > 0; --q) if (solid < L.d.size() && r.chance(1, 2)) { int z = (int)solid + r.below((int)(L.d.size() - solid)); rtoken y(z); y.text = r.pick(L.d[z].samples); y.ignorable = true; in.push_back(y); }
            string w = r.pick(L.d[x].samples); int bst = L.best(w, true);
            if (bst < 0 || L.weak_count(w) > 1) { ok = false; break; }
            rtoken y(bst); y.text = w; y.ignorable = L.d[bst].type == 2;
            if (L.d[bst].weak) { y.strong = L.best(w, false); }
            in.push_back(y);
        }
        if (!ok) { c.count("word-not-used"); continue; }
        string text; int off = 0;
        for (size_t i = 0; i < in.size(); ++i) { if (i || r.chance(1, 4)) { string sp = r.chance(1, 4) ? " \t " : " "; text += sp; off += (int)sp.size(); } in[i].offset = off; text += in[i].text; off += (int)in[i].text.size(); }
        auto e = ref.run(start, in);
        if (ignoring ? e.ignored && e.events.size() >= 2 : e.strongUsed > 0) interesting = true;
        compare(c, run, nm, ref, start, in, text, ignoring ? "ignored" : "weak", true);
    }
    c.nontrivial = interesting;
}
static void c13(ctx& c) { weak_case(c, false); }
static void c14(ctx& c) { weak_case(c, true); }

// ---- C17: languages made of several languages and files --------------------------------------------------------------
static void c17(ctx& c) {
    rng& r = c.r; layout l(r); egrammar g; vector<prec_block> blocks; int mode = r.below(4);
    bool guards = mode == 0;
    if (guards) g = nested(guard_grammar(r));
    else if (mode == 1) {
        expr_case e = expr_grammar(r); g = e.g; vector<int> ops = e.bin; ops.insert(ops.end(), e.pre.begin(), e.pre.end());
        std::sort(ops.begin(), ops.end()); ops.erase(std::unique(ops.begin(), ops.end()), ops.end());
        blocks.push_back(random_prec(r, ops, r.chance(3, 4))); if (r.chance(1, 3)) blocks.push_back(random_prec(r, ops, false));
    } else { cfg_gen gen(r); g = nested(gen.any()); }
    bnf b(g);
    if (guards && !guards_valid(c, g, b)) return;
    vector<tokdef> t = make_tokens(r, g.nT); int alt = -1;
    bool weak = (guards || mode == 3) && r.chance(1, 2);
    if (weak) alt = weak_words(r, g.nT, t);
    lalr_ref m(b); if (m.tooBig) { c.count("too-big"); return; }
    ref_machine ref(m);
    for (auto& x : blocks) ref.apply(x);
    ref.finish();
    if ((guards || weak) && (ref.srConflicts || ref.rrConflicts)) { c.count("not-conflict-free"); return; }
    program P = compose(r, l, g, t, blocks);
    run_t run; for (auto& f : P.files) run.file(f.first, f.second);
    c.note(P.all); if (getenv("VF_SHOW")) fputs(P.all.c_str(), stderr);
    run.st().options[L"allow-reduce-conflicts"] = L"1";
    vector<string> starts; for (int s : g.starts) starts.push_back("<" + nname(s) + ">");
    if (!run.compile("d.tp", P.target, starts)) { c.fail("not-compiled", "stage " + run.stage + "\n" + show_diags(run.st().diags)); return; }
    c.count("languages", P.languages); c.count("files", (long)P.files.size()); c.count("changed-definitions", P.changes); c.count("strays", P.strays);
    check_conflict_reports(c, run, ref);
    namer nm = make_namer(run, t); auto h = heights(b);
    std::set<int> used; for (auto& p : b.prods) for (int x : p.rhs) if (x < g.nT) used.insert(x);
    for (int k = 0; k < 6; ++k) {
        int start = r.below((int)g.starts.size());
        vector<int> v = random_tokens(b, b.starts[start], r, h);
        v.erase(std::remove_if(v.begin(), v.end(), [&](int x) { return x >= g.nT; }), v.end());
        vector<rtoken> in = toks(v);
        for (auto& x : in) {
            x.text = r.pick(t[x.t].samples);
            if (alt >= 0 && all_in(x.text, LOW)) {
                int w = -1; for (int i = 0; i < g.nT; ++i) if (i != alt && t[i].samples[0] == x.text && (t[i].kind == tokdef::WEAKKEY || (t[i].kind == tokdef::IMPLICIT && used.count(i)))) w = i;
                x.t = w >= 0 ? w : alt; if (w >= 0) x.strong = alt;
            }
        }
        string text = spell(r, in, t);
        compare(c, run, nm, ref, start, in, text, "composed", alt >= 0);
    }
    if (!P.changes) c.nontrivial = false;
}

int main(int argc, char** argv) {
    return run_driver(argc, argv, { {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C17", c17} });
}
