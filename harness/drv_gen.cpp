// Monitors for the generated C++: it is compiled, run, and compared with the parser that the tool holds in memory.
#include "lang.h"
#include "lang_ref.h"
#include "lang_gen.h"
#include "gen_support.h"
#include <sys/stat.h>
#include <fstream>
#include <cctype>
#include <functional>
using namespace vf;
using std::string; using std::wstring; using std::vector;

// ---- names: what the manual and the examples promise ------------------------------------------------------------------
static wstring unquote(const wstring& n, size_t min) {
    if (n.size() < min) return n;
    wchar_t a = n[0], z = n[n.size() - 1];
    if ((a == L'<' && z == L'>') || (a == L'"' && z == L'"') || (a == L'\'' && z == L'\'')) return n.substr(1, n.size() - 2);
    return n;
}
static string identifier(const wstring& name) {
    wstring n = unquote(name, 2); string s = "yy_";
    static const std::map<wchar_t, string> punct = { {L'<', "lessthan"}, {L'>', "greaterthan"}, {L'\'', "quote"}, {L'"', "doublequote"}, {L'&', "ampersand"}, {L':', "colon"}, {L'=', "equals"}, {L'!', "exclamation"}, {L'@', "at"}, {L'#', "hash"},
        {L'$', "dollar"}, {L'%', "percent"}, {L'^', "cicumflex"}, {L'*', "star"}, {L'(', "openparen"}, {L')', "closeparen"}, {L'+', "plus"}, {L'/', "slash"}, {L'\\', "backslash"}, {L'|', "pipe"}, {L';', "semicolon"}, {L'.', "dot"}, {L',', "comma"},
        {L'?', "question"}, {L'~', "tilde"}, {L'{', "opencurly"}, {L'}', "closecurly"}, {L'[', "opensquare"}, {L']', "closesquare"} };
    for (wchar_t c : n) {
        if (c < 128 && isalnum((int)c)) s += (char)c;
        else if (punct.count(c)) s += "_" + punct.at(c) + "_";
        else if (c == L'-' && n.size() == 1) s += "_minus_";
        else s += "_";
    }
    return s;
}
struct gnames {
    const contextfree::grammar* g; const contextfree::terminal_dictionary* t; compiler::language_stage* l;
    typedef contextfree::item I;
    wstring rule(const contextfree::rule& r) const {
        if (r.items().empty()) return L"empty";
        if (r.items().size() > 3) return item(*r.items()[0]) + L"_etc";
        wstring s; for (auto& i : r.items()) { if (!s.empty()) s += L"_"; s += item(*i); } return s;
    }
    wstring ebnf(const contextfree::ebnf& e) const { wstring s; bool f = true; for (auto r = e.first_rule(); r != e.last_rule(); ++r) { if (!f) s += L"_or_"; f = false; s += rule(**r); } return f ? wstring(L"empty") : s; }
    wstring item(const contextfree::item& i) const {
        switch (i.type()) {
            case I::terminal: return unquote(t->name_for_symbol(i.symbol()), 3);
            case I::nonterminal: return unquote(g->name_for_nonterminal(i.symbol()), 3);
            case I::optional: return L"optional_" + ebnf(*i.cast_ebnf());
            case I::repeat: case I::repeat_zero_or_one: return L"list_of_" + ebnf(*i.cast_ebnf());
            case I::alternative: return L"one_of_" + ebnf(*i.cast_ebnf());
            default: return L"unknown_item";
        }
    }
};

// ---- the tree that the definition promises ----------------------------------------------------------------------------
struct xnode {
    enum kind { LEAF, NODE, LIST } k = NODE; string cls, leaf; dfa::position from, to;
    std::map<string, std::shared_ptr<xnode>> member; vector<std::shared_ptr<xnode>> content;
};
typedef std::shared_ptr<xnode> xnodep;
static string dump(const xnodep& n) {
    if (!n) return "null\n";
    if (n->k == xnode::LEAF) return "leaf\n:" + n->cls + "\n" + n->leaf;
    string s = n->k == xnode::LIST ? "list\n" : "node\n"; s += ":" + n->cls + "\n" + show(n->from) + "-" + show(n->to) + "\n";
    for (auto& m : n->member) s += "." + m.first + "\n" + dump(m.second);
    for (auto& x : n->content) s += dump(x);
    return s + "end\n";
}
struct x_actions {
    const gnames* nm; const namer* plain; dfa::lexeme_stream* in; std::map<int, vector<string>>* cache; const std::map<string, string>* given;
    ~x_actions() { delete in; }
    dfa::lexeme* read() { dfa::lexeme* r = NULL; (*in) >> r; return r; }
    xnodep shift(const dfa::lexeme_container& x) {
        xnodep n(new xnode); n->k = xnode::LEAF; n->cls = "t" + std::to_string(x->matched());
        n->leaf = std::to_string(x->matched()) + " " + show(x->pos()) + "-" + show(x->final_pos()) + " " + shown_text(*x) + "\n";
        n->from = x->pos(); n->to = x->final_pos(); return n;
    }
    static bool list(const contextfree::item& i) { return i.type() == contextfree::item::repeat || i.type() == contextfree::item::repeat_zero_or_one; }
    // member names of the items of a rule ("" for those that have none)
    const vector<string>& names(int id, const contextfree::rule& r) {
        if (cache->count(id)) return (*cache)[id];
        // rules of one nonterminal share a name only for the same item
        std::map<string, contextfree::item_container> whole;
        for (int o = 0; o < nm->g->max_rule_identifier(); ++o) { auto x = nm->g->rule_with_identifier(o); if (*x->nonterminal() == *r.nonterminal()) names_of(o, *x, whole); }
        return (*cache)[id];
    }
    void names_of(int id, const contextfree::rule& r, std::map<string, contextfree::item_container>& whole) {
        vector<string> v; std::set<string> used; string key = plain->item(*r.nonterminal()) + "->"; bool rep = false;
        for (size_t k = 0; k < r.items().size(); ++k) if (k == 0 && list(*r.nonterminal()) && *r.items()[0] == *r.nonterminal()) rep = true; else key += (key[key.size() - 1] == '>' ? "" : " ") + plain->item(*r.items()[k]);
        for (size_t k = 0; k < r.items().size(); ++k) {
            auto g = given->find(key + "#" + std::to_string((int)k - (rep ? 1 : 0)));
            wstring base = g != given->end() && !g->second.empty() ? widen(g->second) : nm->item(*r.items()[k]), u = base;
            for (int n = 2; used.count(identifier(u)) || (whole.count(identifier(u)) && !(*whole[identifier(u)] == *r.items()[k])); ++n) u = base + L"_" + std::to_wstring(n);
            if (!(k == 0 && rep)) { used.insert(identifier(u)); whole[identifier(u)] = r.items()[k]; }
            bool none = r.items()[k]->type() == contextfree::item::guard || (k == 0 && rep);
            v.push_back(none ? "" : identifier(u));
        }
        (*cache)[id] = v;
    }
    xnodep reduce(int, int rule, const vector<xnodep>& rev, const dfa::position& la) {
        auto r = nm->g->rule_with_identifier(rule); auto nt = r->nonterminal();
        vector<xnodep> items(rev.rbegin(), rev.rend()); auto& ns = names(rule, *r);
        xnodep n(new xnode); n->cls = plain->item(*nt); n->from = n->to = la; bool any = false;
        for (size_t k = 0; k < items.size() && k < ns.size(); ++k) if (!ns[k].empty()) {
            n->member[ns[k]] = items[k];
            if (!any) n->from = items[k]->from; n->to = items[k]->to; any = true;
        }
        if (!list(*nt)) return n;
        xnodep l(new xnode); l->k = xnode::LIST; l->cls = n->cls; n->cls += "@"; l->from = l->to = la;
        if (!items.empty() && *r->items()[0] == *nt) { l->content = items[0]->content; l->from = items[0]->from; }
        else if (items.empty()) return l;
        l->content.push_back(n); l->from = l->content.front()->from; l->to = l->content.back()->to;
        return l;
    }
};

// ---- reading the generated header: which classes there are and what they hold -------------------------------------------
struct gclass { string name; bool leaf = false, list = false; vector<std::pair<string, string>> members; };
static vector<string> lines(const string& s) { vector<string> v; std::istringstream i(s); string l; while (std::getline(i, l)) v.push_back(l); return v; }
static vector<string> words(const string& s) { vector<string> v; string w; for (char c : s) { if (isalnum((unsigned char)c) || c == '_') w += c; else { if (!w.empty()) v.push_back(w); w.clear(); if (!isspace((unsigned char)c)) v.push_back(string(1, c)); } } if (!w.empty()) v.push_back(w); return v; }
static vector<gclass> read_header(const string& h, std::map<string, vector<std::pair<string, int>>>& consts) {
    vector<gclass> cs; string code;
    for (auto& l : lines(h)) { size_t k = l.find("//"); code += (k == string::npos ? l : l.substr(0, k)) + "\n"; }
    vector<string> w = words(code); vector<int> open; vector<string> openName; string pending;
    int cur = -1;
    for (size_t i = 0; i < w.size(); ++i) {
        if (w[i] == "class" && i + 2 < w.size() && (w[i + 2] == ":" || w[i + 2] == "{")) {
            pending = w[i + 1];
            if (w[i + 2] == ":" && i + 4 < w.size() && w[i + 3] == "public" && pending != "terminal") { gclass c; c.name = pending; c.leaf = w[i + 4] == "terminal"; cs.push_back(c); }
        }
        if (w[i] == "{") { openName.push_back(pending); pending.clear(); }
        else if (w[i] == "}") { if (!openName.empty()) openName.pop_back(); }
        cur = -1; for (auto& n : openName) for (size_t k = 0; k < cs.size(); ++k) if (cs[k].name == n) cur = (int)k;
        string in = openName.empty() ? "" : openName.back();
        if (cur >= 0 && in == cs[cur].name) {
            if (w[i] == "data_type" && i && w[i - 1] == "private") ;
            if (w[i] == "m_Data") cs[cur].list = true;
            // const util :: syntax_ptr < X > name ;
            if (w[i] == "syntax_ptr" && i + 5 < w.size() && w[i + 1] == "<") {
                size_t k = i + 2; if (w[k] == "class") ++k;
                if (w[k + 1] == ">" && k + 3 < w.size() && w[k + 3] == ";") cs[cur].members.push_back({w[k], w[k + 2]});
            }
        }
        if (w[i] == "int" && i + 4 < w.size() && w[i + 2] == "=" && isdigit((unsigned char)w[i + 3][0])) consts[in].push_back({w[i + 1], atoi(w[i + 3].c_str())});
    }
    return cs;
}

// ---- one definition ---------------------------------------------------------------------------------------------------
struct gen_case {
    string def, cls, ns, header, source; std::unique_ptr<run_t> run; vector<tokdef> t; egrammar g; std::map<string, string> given;
    vector<std::pair<int, wstring>> inputs; vector<string> tables, tree; std::map<string, vector<std::pair<string, int>>> consts; vector<gclass> classes;
    string qual(int k) const { return "w" + std::to_string(k) + "::" + (ns.empty() ? "" : ns + "::") + cls; }
};
static void put_names(rng& r, grule& rule, std::map<string, string>& known, int pct, const string& lhs, int depth) {
    static const char* ns[] = { "left", "right", "value", "op", "arg-1", "body", "x", "list-of-x", "N0", "rest_2", "name", "shift", "weak" };
    string key = lhs + "->" + canon(rule);
    for (size_t i = 0; i < rule.size(); ++i) {
        gitem& it = rule[i]; string k = key + "#" + std::to_string(i);
        if (it.k != gitem::GUARD) {
            if (!known.count(k)) {
                string n = r.below(100) < pct ? ns[r.below(13)] : "";
                known[k] = n;
            }
            it.name = known[k];
        }
        if (it.k == gitem::GUARD) { for (auto& x : it.r) for (auto& y : x) if (!y.r.empty()) { grule one(1, y); put_names(r, one, known, pct, "", depth + 1); y = one[0]; y.name = ""; } continue; }
        // a choice whose alternative is a choice is one choice
        std::function<void(gitem&)> in = [&](gitem& a) { for (auto& x : a.r) if (it.k == gitem::ALT && x.size() == 1 && x[0].k == gitem::ALT) in(x[0]); else put_names(r, x, known, pct, canon(it), depth + 1); };
        in(it);
    }
}
// a repetition of nothing has no meaning
static bool repeats_nothing(const grule& x) {
    for (auto& i : x) if (i.k != gitem::GUARD) for (auto& y : i.r) {
        if (repeats_nothing(y)) return true;
        if (i.k != gitem::PLUS && i.k != gitem::STAR) continue;
        bool any = false; for (auto& j : y) if (j.k != gitem::GUARD) any = true;
        if (!any) return true;
    }
    return false;
}
static bool build(ctx& c, gen_case& q, rng& r, int k) {
    layout l(r); egrammar g; int shape = r.below(10);
    if (shape < 3) { g = nested(guard_grammar(r)); bnf b(g); if (!guards_valid(c, g, b)) return false; }
    else if (shape < 5) g = expr_grammar(r).g;
    else { cfg_gen gen(r); g = nested(gen.any()); }
    for (auto& rs : g.rules) for (auto& x : rs) if (repeats_nothing(x)) return false;
    std::map<string, int> at; if (shape >= 3 && shape < 5 && r.chance(1, 2)) for (int n = 0; n < g.nN; ++n) for (auto& x : g.rules[n]) put_attrs(r, x, at, 30, nname(n));
    if (r.chance(2, 3)) { int pct = r.pick(vector<int>{20, 50}); for (int n = 0; n < g.nN; ++n) for (auto& x : g.rules[n]) put_names(r, x, q.given, pct, nname(n), 0); }
    q.t = make_tokens(r, g.nT); q.g = g;
    if (r.chance(1, 2)) {       // names that are different but become the same identifier
        static const char* ns[] = { "k-1", "k_1", "k_1_1", "k-1_1", "k_1-1", "N0" }; vector<int> left = {0, 1, 2, 3, 4, 5};
        for (auto& d : q.t) { if (d.name == "k-1") break; if (d.kind != tokdef::LITERAL && !left.empty()) { int x = r.below((int)left.size()); bool taken = false; for (auto& e : q.t) if (e.name == ns[left[x]]) taken = true; if (!taken) { d.name = ns[left[x]]; if (d.kind != tokdef::LEXER) d.samples = { d.name }; } left.erase(left.begin() + x); } }
    }
    q.def = "language L {\n" + lexer_text(q.t, l, r, IGNORE) + grammar_text(g, q.t, l) + "}\n";
    if (getenv("VF_SHOW")) fputs(q.def.c_str(), stderr);
    bnf b(g); lalr_ref m(b); if (m.tooBig || m.st.size() > 60) return false;
    if (shape < 3) { ref_machine ref(m); ref.finish(); if (ref.srConflicts || ref.rrConflicts) return false; }
    q.run.reset(new run_t); run_t& run = *q.run; run.file("d.tp", q.def);
    run.st().options[L"allow-reduce-conflicts"] = L"1";
    vector<string> starts; for (int s : g.starts) starts.push_back("<" + nname(s) + ">");
    if (!run.compile("d.tp", "L", starts)) { c.fail("not-compiled", "stage " + run.stage + "\n" + show_diags(run.st().diags) + q.def); return false; }
    static const char* cn[] = { "Parser", "my-lang", "t", "nt", "L", "terminal2" };
    wstring cls = widen(cn[r.below(6)]), ns = r.chance(1, 2) ? L"" : r.chance(1, 2) ? L"space" : L"my-ns";
    q.cls = identifier(cls); q.ns = ns.empty() ? "" : identifier(ns);
    wstring pre = L"g" + std::to_wstring(k);
    { compiler::output_cplusplus out(run.cc, L"d.tp", run.lexer.get(), run.lang, run.lr.get(), pre, cls, ns); out.compile(); }
    q.source = run.st().written[pre + L".cpp"]; q.header = run.st().written[pre + L".h"];
    q.classes = read_header(q.header, q.consts);
    auto h = heights(b);
    for (int n = 0; n < 8; ++n) {
        int s = r.below((int)g.starts.size()); vector<int> v = random_tokens(b, b.starts[s], r, h);
        v.erase(std::remove_if(v.begin(), v.end(), [&](int x) { return x >= g.nT; }), v.end());
        if (shape < 3 && v.size() > 9) v.resize(9);     // nested guards: the work doubles with every token
        vector<rtoken> in = toks(v); wstring w = widen(spell(r, in, q.t));
        if (r.chance(1, 8) && !w.empty()) w.insert(r.below((int)w.size()), 1, r.pick(vector<wchar_t>{L'?', L'\x1F600', L'!', L'\n', L'\xe9'}));
        q.inputs.push_back({s, w});
    }
    return true;
}
// what the parser in memory does
static void expected(gen_case& q) {
    run_t& run = *q.run; gnames gn; gn.g = run.lang->grammar(); gn.t = run.lang->terminals(); gn.l = run.lang; namer nm = make_namer(run, q.t);
    std::map<int, vector<string>> cache;
    for (auto& in : q.inputs) {
        q.tables.push_back(run_tables(*run.lr->get_tables(), *run.lexer->get_lexer(), in.second, in.first));
        std::wstringstream s(in.second); typedef lr::parser<xnodep, x_actions> P; P p(run.lr->get_tables(), false);
        x_actions* a = new x_actions; a->nm = &gn; a->plain = &nm; a->in = run.lexer->get_lexer()->create_stream_from(s); a->cache = &cache; a->given = &q.given;
        q.tree.push_back(run_state(p.create_parser(a, in.first), [](const xnodep& n) { return dump(n); }));
    }
}
static string program(const vector<gen_case>& qs) {
    std::ostringstream o;
    o << "#include \"gen_support.h\"\n#include <iostream>\nusing std::string;\n";
    for (size_t k = 0; k < qs.size(); ++k) {
        auto& q = qs[k]; string C = q.qual((int)k);
        o << "namespace w" << k << " {\n#include \"g" << k << ".cpp\"\n}\nnamespace d" << k << " {\n";
        for (auto& c : q.classes) o << "void d(const " << C << "::" << c.name << "* n, string& o);\n";
        for (auto& c : q.classes) {
            o << "void d(const " << C << "::" << c.name << "* n, string& o) {\n    if (typeid(*n) != typeid(" << C << "::" << c.name << ")) { o += \"wrong type " << c.name << "\\n\"; return; }\n";
            if (c.leaf) o << "    o += vf::show_leaf(\"" << c.name << "\", *n->get_lexeme());\n    if (n->template content<wchar_t>() != n->get_lexeme()->template content<wchar_t>() || n->pos() != n->get_lexeme()->pos() || n->final_pos() != n->get_lexeme()->final_pos()) o += \"bad leaf\\n\";\n";
            else {
                o << "    o += \"" << (c.list ? "list" : "node") << "\\n:" << c.name << "\\n\" + vf::show(n->pos()) + \"-\" + vf::show(n->final_pos()) + \"\\n\";\n";
                vector<std::pair<string, string>> ms = c.members; std::sort(ms.begin(), ms.end(), [](const std::pair<string, string>& a, const std::pair<string, string>& b) { return a.second < b.second; });
                if (c.list) o << "    size_t k = 0; for (auto i = n->begin(); i != n->end(); ++i, ++k) { d(i->item(), o); if ((*n)[k] != i->item()) o += \"bad index\\n\"; }\n    if (k != n->size()) o += \"bad size\\n\";\n";
                else for (auto& m : ms) o << "    if (n->" << m.second << ".item()) { o += \"." << m.second << "\\n\"; d(n->" << m.second << ".item(), o); }\n";
                o << "    o += \"end\\n\";\n";
            }
            o << "}\n";
        }
        o << "void d(const " << C << "::syntax_node* n, string& o) {\n    if (!n) { o += \"null\\n\"; return; }\n";
        for (auto& c : q.classes) o << "    if (typeid(*n) == typeid(" << C << "::" << c.name << ")) { d(static_cast<const " << C << "::" << c.name << "*>(n), o); return; }\n";
        o << "    o += \"unknown class\\n\";\n}\n";
        for (size_t i = 0; i < q.inputs.size(); ++i) { o << "static const wchar_t in" << i << "[] = {"; for (wchar_t c : q.inputs[i].second) o << (long)c << ","; o << "0};\n"; }
        o << "void run() {\n";
        for (size_t i = 0; i < q.inputs.size(); ++i) {
            int s = q.inputs[i].first;
            o << "    { std::wstring t(in" << i << "); std::cout << \"@tables " << k << " " << i << "\\n\" << vf::run_tables(" << C << "::lr_tables, " << C << "::lexer, t, " << s << ") << std::flush;\n"
              << "      std::wstringstream ss(t); std::cout << \"@tree " << k << " " << i << "\\n\" << vf::run_state(" << C << "::create_" << identifier(widen("<" + nname(q.g.starts[s]) + ">")) << "(ss), [](const " << C << "::syntax_node_container& n) { string o; d(n.item(), o); return o; }) << std::flush;\n"
              << "      long had = 0; for (int n = 0; n < 3; ++n) { if (n == 2) had = vf::live_bytes(); std::wstringstream again(t); vf::run_state(" << C << "::create_" << identifier(widen("<" + nname(q.g.starts[s]) + ">")) << "(again), [](const " << C << "::syntax_node_container& n) { return string(); }); }\n"
              << "      had = vf::live_bytes() - had; std::cout << \"@grown " << k << " " << i << "\\n\" << had << \"\\n\" << std::flush; }\n";
        }
        o << "}\n}\n";
    }
    o << "int main() {\n"; for (size_t k = 0; k < qs.size(); ++k) o << "    d" << k << "::run();\n"; o << "    std::cout << \"@done 0 0\\n\"; return 0;\n}\n";
    return o.str();
}
static string slurp(const string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::ostringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const string& p, const string& s) { std::ofstream f(p.c_str(), std::ios::binary); f << s; }
// class names may be anything, as long as they stand for the same thing throughout one definition
static string same_tree(const string& got, const string& want, std::map<string, string>& a, std::map<string, string>& b) {
    vector<string> x = lines(got), y = lines(want);
    for (size_t i = 0; i < x.size() || i < y.size(); ++i) {
        if (i >= x.size() || i >= y.size()) return "line " + std::to_string(i) + ": one tree ends";
        if (x[i] == y[i]) continue;
        if (x[i][0] == ':' && y[i][0] == ':') {
            auto p = a.insert({x[i], y[i]}), q = b.insert({y[i], x[i]});
            if (p.first->second == y[i] && q.first->second == x[i]) continue;
            return "line " + std::to_string(i) + ": class " + x[i] + " stands for " + y[i] + " and " + p.first->second;
        }
        return "line " + std::to_string(i) + ": " + x[i] + " instead of " + y[i];
    }
    return "";
}
static string env(const char* n) { const char* v = getenv(n); if (!v) throw std::runtime_error(string(n) + " is not set"); return v; }

static void generated(ctx& c, bool trees, bool memory = false) {
    rng& r = c.r; vector<gen_case> qs;
    for (int tries = 0; tries < 40 && (int)qs.size() < 6; ++tries) { gen_case q; if (build(c, q, r, (int)qs.size())) { expected(q); qs.push_back(std::move(q)); } }
    for (size_t k = 0; k < qs.size(); ++k) {
        auto& q = qs[k]; c.note("---- definition " + std::to_string(k) + "\n" + q.def);
        // the constants for the symbols
        auto* td = q.run->lang->terminals(); std::map<string, int> want; std::set<string> clash;
        for (auto& d : q.t) if (d.name.compare(0, 2, "k_") == 0 || d.name.compare(0, 2, "k-") == 0) clash.insert(identifier(widen(d.name)));
        for (int s = 0; s < td->count_symbols(); ++s) { string n = identifier(td->name_for_symbol(s)); if (want.count(n)) clash.insert(n); want[n] = s; }
        std::map<string, int> got; for (auto& x : q.consts["t"]) got[x.first] = x.second;
        if (got.size() != q.consts["t"].size() || (int)got.size() != td->count_symbols()) c.fail("terminal-constants", "there are " + std::to_string(td->count_symbols()) + " terminals, " + std::to_string(q.consts["t"].size()) + " constants with " + std::to_string(got.size()) + " names\n" + q.def);
        for (auto& w : want) if (!clash.count(w.first) && (!got.count(w.first) || got[w.first] != w.second)) c.fail("terminal-constants", "t::" + w.first + " is not " + std::to_string(w.second) + "\n" + q.def);
        std::map<string, int> nts; for (auto& x : q.consts["nt"]) nts[x.first] = x.second;
        for (int n = 0; n < q.g.nN; ++n) { string id = identifier(widen("<" + nname(n) + ">")); int s = q.run->lang->grammar()->id_for_nonterminal(widen("<" + nname(n) + ">")); if (!nts.count(id) || nts[id] != s) c.fail("nonterminal-constants", "nt::" + id + " is not " + std::to_string(s) + "\n" + q.def); }
        c.count("constants", (long)got.size());
    }
    char dir[] = "genXXXXXX"; if (!mkdtemp(dir)) throw std::runtime_error("mkdtemp");
    string D = dir; vector<string> files = {"main.cpp", "prog", "out", "err", "cc"};
    for (size_t k = 0; k < qs.size(); ++k) { string n = "g" + std::to_string(k); spit(D + "/" + n + ".cpp", qs[k].source); spit(D + "/" + n + ".h", qs[k].header); files.push_back(n + ".cpp"); files.push_back(n + ".h"); }
    spit(D + "/main.cpp", program(qs));
    auto clean = [&]() { if (getenv("VF_KEEP")) return; for (auto& f : files) unlink((D + "/" + f).c_str()); rmdir(dir); };
    if (system(("cd " + D + " && " + env("VF_GEN_CXX") + " main.cpp " + env("VF_GEN_LINK") + " -o prog > cc 2>&1").c_str()) != 0) {
        string e = slurp(D + "/cc"), where; vector<string> ls = lines(e); e.clear(); int n = 0;
        for (auto& l : ls) if (l.find("error:") != string::npos && n++ < 4) e += l + "\n";
        clean(); c.count("not-compiling");
        c.fail("generated-code-does-not-compile", e.empty() ? (ls.empty() ? "?" : ls.back()) : e); return;
    }
    c.count("programs"); c.count("definitions", (long)qs.size());
    int rc = system(("cd " + D + " && timeout 120 ./prog > out 2> err").c_str());
    string out = slurp(D + "/out"), err = slurp(D + "/err"); clean();
    // split the output
    std::map<string, string> part; string key; for (auto& l : lines(out)) { if (l[0] == '@') { key = l; part[key]; } else part[key] += l + "\n"; }
    if (rc != 0 || !part.count("@done 0 0")) {
        size_t p = err.find("ERROR: "), q = err.find("runtime error"); size_t b = std::min(p, q);
        string kind = p != string::npos ? "asan" : q != string::npos ? "ubsan" : "status";
        c.fail("generated-program:" + kind, "the generated program ended with status " + std::to_string(rc) + " in " + key + "\n" + (b == string::npos ? err.substr(0, 2000) : err.substr(b > 200 ? b - 200 : 0, 2500)));
        return;
    }
    long accepted = 0;
    for (size_t k = 0; k < qs.size(); ++k) {
        std::map<string, string> a, b;
        for (size_t i = 0; i < qs[k].inputs.size(); ++i) {
            string id = std::to_string(k) + " " + std::to_string(i), head = "definition " + std::to_string(k) + " input " + esc(narrow(qs[k].inputs[i].second)) + "\n";
            const string& gt = part["@tables " + id]; const string& tr = part["@tree " + id];
            c.count("parses"); c.count("events", (long)lines(gt).size());
            if (memory) {
                if (part["@grown " + id] != "0\n") c.fail("leak:generated", head + "each parse leaves " + part["@grown " + id] + "bytes behind");
            } else if (!trees) {
                if (gt != qs[k].tables[i]) c.fail("generated-tables", head + "generated:\n" + gt + "in memory:\n" + qs[k].tables[i]);
                string v1 = lines(tr).empty() ? "" : lines(tr)[0], v2 = lines(qs[k].tree[i])[0];
                if (v1 != v2) c.fail("generated-verdict", head + "generated: " + v1 + ", in memory: " + v2);
            } else {
                string w = same_tree(tr, qs[k].tree[i], a, b);
                if (!w.empty()) c.fail("generated-tree", head + w + "\ngenerated:\n" + tr + "expected:\n" + qs[k].tree[i]);
                c.count("tree-lines", (long)lines(tr).size());
            }
            if (qs[k].tree[i].compare(0, 6, "accept") == 0) ++accepted;
        }
    }
    c.count("accepted", accepted);
    if (accepted >= 4) c.nontrivial = true;
}
static void c19(ctx& c) { generated(c, false); }
static void c24(ctx& c) { generated(c, true); }
static void c27(ctx& c) { if (c.index / 8 % 64) return; generated(c, false, true); c.count("workload-generated"); }       // (slow: few cases)

int main(int argc, char** argv) { return run_driver(argc, argv, { {"C19", c19}, {"C24", c24}, {"C27", c27} }); }
