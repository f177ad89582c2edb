// Monitors for the grammar and parser part, driven through the library API: FIRST/FOLLOW, LALR(1) acceptance and derivations,
// conflicts, error positions, copies of parser states.
#include "common.h"
#include "cfg_ref.h"
#include <memory>
#include <tuple>
#include "TameParse/ContextFree/grammar.h"
#include "TameParse/ContextFree/item.h"
#include "TameParse/ContextFree/ebnf_items.h"
#include "TameParse/ContextFree/standard_items.h"
#include "TameParse/ContextFree/terminal_dictionary.h"
#include "TameParse/Lr/lalr_builder.h"
#include "TameParse/Lr/conflict.h"
#include "TameParse/Lr/lr1_rewriter.h"
#include "TameParse/Lr/parser.h"
#include "TameParse/Lr/ast_parser.h"
#include "TameParse/Lr/ignored_symbols.h"

using namespace vf;
namespace cf = contextfree;
using std::string; using std::vector; using std::set; using std::map; using std::wstring; using std::pair;

static wstring W(const string& s) { return wstring(s.begin(), s.end()); }

// ---- building the project's grammar from the reference description ------------------------------------------------
struct built {
    cf::grammar gram;
    cf::terminal_dictionary terms;
    std::unique_ptr<lr::lalr_builder> builder;
    vector<int> startState;
};
static cf::item_container make_item(built& b, const gitem& i);
static void fill_rule(built& b, cf::rule& r, const grule& g) { for (auto& i : g) r << make_item(b, i); }
static cf::item_container make_item(built& b, const gitem& i) {
    switch (i.k) {
        case gitem::T: return cf::item_container(new cf::terminal(i.id), true);
        case gitem::N: return b.gram.get_nonterminal(W(nname(i.id)));
        case gitem::OPT: { cf::ebnf_optional* e = new cf::ebnf_optional(); fill_rule(b, *e->get_rule(), i.r[0]); return cf::item_container(e, true); }
        case gitem::PLUS: { cf::ebnf_repeating* e = new cf::ebnf_repeating(); fill_rule(b, *e->get_rule(), i.r[0]); return cf::item_container(e, true); }
        case gitem::STAR: { cf::ebnf_repeating_optional* e = new cf::ebnf_repeating_optional(); fill_rule(b, *e->get_rule(), i.r[0]); return cf::item_container(e, true); }
        default: {
            cf::ebnf_alternate* e = new cf::ebnf_alternate();
            fill_rule(b, *e->get_rule(), i.r[0]);
            for (size_t k = 1; k < i.r.size(); ++k) { cf::rule_container nr = e->add_rule(); fill_rule(b, *nr, i.r[k]); }
            return cf::item_container(e, true);
        }
    }
}
static void build_grammar(built& b, const egrammar& g, rng& r) {
    for (int t = 0; t < g.nT; ++t) b.terms.add_symbol(W(tname(t)));
    // the order in which nonterminals are met must not matter
    vector<int> order; for (int n = 0; n < g.nN; ++n) order.push_back(n);
    if (r.chance(1, 2)) for (int n = g.nN - 1; n > 0; --n) std::swap(order[n], order[r.below(n + 1)]);
    // nor the numbers that the items get: unrelated items of the grammar take some away
    int spare = 0; bool spread = r.chance(1, 3);
    auto skip = [&] { if (spread) for (int k = r.pick(vector<int>{0, 0, 3, 11, 29, 40, 70}); k > 0; --k) b.gram.identifier_for_item(cf::item_container(new cf::terminal(5000 + spare++), true)); };
    for (int n : order) {
        skip();
        wstring nm = W(nname(n));
        b.gram.get_nonterminal(nm);
        for (auto& ru : g.rules[n]) {
            cf::rule nr(b.gram.get_nonterminal(nm));
            fill_rule(b, nr, ru);
            b.gram.rules_for_nonterminal(nm).push_back(cf::rule_container(new cf::rule(nr), true));
        }
    }
}
static void build_parser(built& b, const egrammar& g) {
    b.builder.reset(new lr::lalr_builder(b.gram, b.terms));
    for (int s : g.starts) b.startState.push_back(b.builder->add_initial_state(b.gram.get_nonterminal(W(nname(s)))));
    b.builder->complete_parser();
}

// canonical text of the project's items
static string ctext(const built& b, const cf::item& i);
static string ctext(const built& b, const cf::rule& r) { string s; bool f = true; for (auto& i : r.items()) { if (!f) s += " "; f = false; s += ctext(b, *i); } return s; }
static string ctext(const built& b, const cf::item& i) {
    switch (i.type()) {
        case cf::item::empty: return "*";
        case cf::item::eoi: return "$";
        case cf::item::terminal: return tname(i.symbol());
        case cf::item::nonterminal: { wstring n = b.gram.name_for_nonterminal(i.symbol()); return string(n.begin(), n.end()); }
        case cf::item::optional: return "(" + ctext(b, *i.cast_ebnf()->get_rule()) + ")?";
        case cf::item::repeat: return "(" + ctext(b, *i.cast_ebnf()->get_rule()) + ")+";
        case cf::item::repeat_zero_or_one: return "(" + ctext(b, *i.cast_ebnf()->get_rule()) + ")*";
        case cf::item::alternative: { string s = "("; bool f = true; for (auto r = i.cast_ebnf()->first_rule(); r != i.cast_ebnf()->last_rule(); ++r) { if (!f) s += " | "; f = false; s += ctext(b, **r); } return s + ")"; }
        default: return "?";
    }
}
static string rtext(const built& b, const cf::rule& r) { string s = ctext(b, *r.nonterminal()) + " ->"; for (auto& i : r.items()) s += " " + ctext(b, *i); return s; }

// ---- a parser whose items are trees and whose calls are recorded ---------------------------------------------------
struct node { string sym; int tok = -1; string rule; vector<std::shared_ptr<node>> kids; int uses = 0; };
typedef std::shared_ptr<node> nodep;
struct log_t {
    vector<string> events; vector<nodep> nodes; long reads = 0; string problem; int rejectAt = -2; int shifts = 0;
    const vector<int>* in; const built* b; const bnf* g;
};
struct tree_actions {
    log_t* l; size_t p = 0;
    explicit tree_actions(log_t* x) : l(x) {}
    dfa::lexeme* read() {
        ++l->reads;
        if (p >= l->in->size()) return NULL;
        dfa::lexeme::symbols s; s += 'x';
        dfa::lexeme* r = new dfa::lexeme(s, dfa::position((int)p * 2, (int)p / 3, (int)p % 3), (*l->in)[p]);
        ++p;
        return r;
    }
    nodep shift(const dfa::lexeme_container& x) {
        nodep n(new node); n->tok = x->pos().offset() / 2; n->sym = tname(x->matched());
        if (n->tok < 0 || n->tok >= (int)l->in->size() || (*l->in)[n->tok] != x->matched()) l->problem = "shifted lexeme is not a token of the input";
        l->events.push_back("s" + std::to_string(x->matched())); ++l->shifts;
        l->nodes.push_back(n);
        return n;
    }
    nodep reduce(int nt, int rule, const vector<nodep>& items, const dfa::position& la) {
        nodep n(new node);
        const cf::rule_container& r = l->b->gram.rule_with_identifier(rule);
        n->rule = rtext(*l->b, *r);
        n->sym = ctext(*l->b, *r->nonterminal());
        if (l->b->gram.identifier_for_item(r->nonterminal()) != nt) l->problem = "reduction reports a nonterminal that is not the one of its rule";
        if (r->items().size() != items.size()) l->problem = "reduction of " + n->rule + " has " + std::to_string(items.size()) + " items";
        for (size_t k = items.size(); k-- > 0;) {
            if (!items[k]) { l->problem = "reduction received an empty item"; continue; }
            n->kids.push_back(items[k]); ++items[k]->uses;
        }
        for (size_t k = 0; k < n->kids.size() && k < r->items().size(); ++k) {
            string want = ctext(*l->b, *r->items()[k]);
            if (n->kids[k]->sym != want) l->problem = "reduction of " + n->rule + " received " + n->kids[k]->sym + " for " + want;
        }
        int want = l->shifts < (int)l->in->size() ? l->shifts * 2 : -1;
        if (la.offset() != want) l->problem = "reduction reports lookahead offset " + std::to_string(la.offset()) + " instead of " + std::to_string(want);
        l->events.push_back(n->rule);
        l->nodes.push_back(n);
        return n;
    }
};
static log_t* g_log = 0;
struct tree_trace {
    void ignore(const dfa::lexeme_container&) {}
    void shift(const dfa::lexeme_container&, int) {}
    void reduce(int, int, int) {}
    void goto_state(int) {}
    void checked_guard(int, int) {}
    void reject(const dfa::lexeme_container& x) { if (g_log) g_log->rejectAt = x.item() ? x->pos().offset() / 2 : -1; }
};
typedef lr::parser<nodep, tree_actions, tree_trace> tree_parser;

// validity of a derivation tree; appends its yield
static bool check_tree(const bnf& g, const nodep& n, vector<int>& yield, string& why) {
    if (n->tok >= 0) { yield.push_back(n->tok); return true; }
    if (!g.text.count(n->rule)) { why = "not a rule of the grammar: " + n->rule; return false; }
    for (auto& k : n->kids) {
        if (k->uses != 1) { why = "a subtree is used " + std::to_string(k->uses) + " times"; return false; }
        if (!check_tree(g, k, yield, why)) return false;
    }
    return true;
}

struct outcome { int res; nodep root; log_t log; };
static void run_parser(outcome& o, const tree_parser& p, const built& b, const bnf& g, int startState, const vector<int>& in, int maxSteps) {
    o.log.in = &in; o.log.b = &b; o.log.g = &g; g_log = &o.log;
    std::unique_ptr<tree_parser::state> st(p.create_parser(new tree_actions(&o.log), startState));
    o.res = -1;
    for (int k = 0; k < maxSteps; ++k) {
        lr::parser_result::result x = st->process();
        if (x == lr::parser_result::more) continue;
        o.res = x == lr::parser_result::accept ? 1 : 0;
        break;
    }
    if (o.res == 1) o.root = st->get_item();
    g_log = 0;
}

// a grammar that is LALR(1) according to the reference, when one is found within a few tries
static egrammar pick_grammar(ctx& c, bool wantFree) {
    cfg_gen gen(c.r); egrammar g;
    for (int k = 0; k < 12; ++k) {
        g = gen.any();
        if (!wantFree) break;
        bnf b(g); lalr_ref l(b, 150);
        if (!l.tooBig && l.conflict_free()) break;
    }
    return g;
}

// ---- C07 ---------------------------------------------------------------------------------------------------------------
static void c07(ctx& c) {
    egrammar g = pick_grammar(c, false);
    c.note(show(g));
    bnf ref(g);
    built b; build_grammar(b, g, c.r);
    auto compare = [&](const string& what, const cf::item_set& got, const set<int>& want, bool checkEmpty, bool wantEmpty, const string& key) {
        set<int> have; bool eps = false;
        for (cf::item_set::const_iterator i = got.begin(); i != got.end(); ++i) {
            if ((*i)->type() == cf::item::terminal) have.insert((*i)->symbol());
            else if ((*i)->type() == cf::item::empty) eps = true;
        }
        c.count("sets_compared");
        auto str = [&](const set<int>& s) { string r; for (int x : s) r += tname(x) + " "; return r; };
        if (have != want) c.fail(key, what + " is { " + str(have) + "} instead of { " + str(want) + "}");
        else if (checkEmpty && eps != wantEmpty) c.fail(key + "-empty", what + (eps ? " contains" : " does not contain") + " the empty item");
    };
    // ask in a random order: the answer must not depend on what was asked before
    vector<gitem> items;
    std::function<void(const gitem&)> collect = [&](const gitem& i) { items.push_back(i); for (auto& r : i.r) for (auto& k : r) collect(k); };
    for (int n = 0; n < g.nN; ++n) { items.push_back(gitem(gitem::N, n)); for (auto& r : g.rules[n]) for (auto& i : r) if (i.k != gitem::T && i.k != gitem::N) collect(i); }
    for (int i = (int)items.size() - 1; i > 0; --i) std::swap(items[i], items[c.r.below(i + 1)]);
    for (auto& i : items) ref.symbol(i);
    ref.sets();
    bool followFirst = c.r.chance(1, 3);
    auto firsts = [&] {
        for (auto& i : items) {
            if (i.k == gitem::T) continue;
            int s = ref.symbol(i);
            compare("FIRST(" + canon(i) + ")", b.gram.first(make_item(b, i)), ref.first[s - bnf::NT0], true, ref.nullable[s - bnf::NT0], "first");
        }
        for (int n = 0; n < g.nN; ++n) for (auto& r : g.rules[n]) {
            cf::rule nr(b.gram.get_nonterminal(W(nname(n)))); fill_rule(b, nr, r);
            set<int> want; bool all = true;
            for (auto& i : r) { int s = ref.symbol(i); if (!bnf::isN(s)) { want.insert(s); all = false; break; } want.insert(ref.first[s - bnf::NT0].begin(), ref.first[s - bnf::NT0].end()); if (!ref.nullable[s - bnf::NT0]) { all = false; break; } }
            compare("FIRST(" + canon(r) + ")", b.gram.first_for_rule(nr), want, true, all, "first-rule");
        }
    };
    auto follows = [&] {
        for (int n = 0; n < g.nN; ++n) compare("FOLLOW(" + nname(n) + ")", b.gram.follow(b.gram.get_nonterminal(W(nname(n)))), ref.follow[n], false, false, "follow");
    };
    if (followFirst) { follows(); firsts(); } else { firsts(); follows(); }
    for (size_t n = 0; n < ref.first.size(); ++n) if (ref.first[n].size() > 1) c.nontrivial = true;
}

// ---- C08 ---------------------------------------------------------------------------------------------------------------
static void c08(ctx& c) {
    egrammar g = pick_grammar(c, true);
    c.note(show(g));
    bnf ref(g); lalr_ref lal(ref, 300);
    if (lal.tooBig) { c.count("too_big"); return; }
    bool freeOfConflicts = lal.conflict_free();
    bool rr = lal.has_rr();
    built b; build_grammar(b, g, c.r); build_parser(b, g);
    c.count(freeOfConflicts ? "lalr1_grammars" : "conflicting_grammars");
    c.count("parser_states", b.builder->count_states());
    lr::parser_tables t0(*b.builder, NULL);
    lr::parser_tables t1(t0);
    if (c.r.chance(1, 2)) { lr::parser_tables t2(*b.builder, NULL); t1 = t2; }
    tree_parser p(t1);
    vector<int> h = heights(ref);
    for (int k = 0; k < 12; ++k) {
        int s = c.r.below((int)g.starts.size());
        vector<int> in = random_tokens(ref, ref.starts[s], c.r, h);
        int maxSteps = 4000;
        // one input in some cases is long, so that the stack of the parser gets deep: Earley is too slow for it, the reference automaton decides
        bool isLong = k == 11 && freeOfConflicts && c.r.chance(1, 4);
        if (isLong) { in = long_sentence(ref, ref.starts[s], c.r, h, c.r.range(50, 1200)); maxSteps = 20000 + 40 * (int)in.size(); if (in.size() > 200) c.count("long_inputs"); }
        outcome o; run_parser(o, p, b, ref, b.startState[s], in, maxSteps);
        earley_result e; e.accepts = o.res == 1;
        if (!isLong || in.size() <= 40) e = earley(ref, ref.starts[s], in);
        string what = "start " + nname(g.starts[s]) + ", input: " + show_tokens(in) + "-> " + (o.res == 1 ? "accepted" : o.res == 0 ? "rejected" : "no end");
        c.count("parses"); c.count("parser_events", (long)o.log.events.size());
        if (!o.log.problem.empty()) { c.fail("reduction-protocol", what + ": " + o.log.problem); return; }
        if (o.res == 1) {
            c.count("accepted");
            if (!e.accepts) { c.fail("accepts-non-sentence", what + ", but it is not in the language"); return; }
            vector<int> y; string why;
            if (!o.root) { c.fail("tree", what + ": no tree"); return; }
            if (o.root->sym != nname(g.starts[s])) { c.fail("tree", what + ": the tree is a " + o.root->sym); return; }
            if (!check_tree(ref, o.root, y, why)) { c.fail("tree", what + ": " + why); return; }
            bool inOrder = y.size() == in.size(); for (size_t q = 0; q < y.size() && inOrder; ++q) if (y[q] != (int)q) inOrder = false;
            if (!inOrder) { c.fail("tree-yield", what + ": the leaves of the tree are not the input"); return; }
            if (in.size() > 2) c.nontrivial = true;
        } else if (freeOfConflicts && e.accepts) { c.fail("rejects-sentence", what + ", but it is in the language"); return; }
        if (o.res < 0 && freeOfConflicts) { c.fail("no-end", what); return; }
        if (!rr) {
            // without reduce/reduce conflicts the behaviour is fixed: shift wins
            int shifted = 0; vector<string> tr; int rres = lal.run(s, in, shifted, maxSteps, &tr);
            if (rres != o.res) { c.fail("differs-from-lalr", what + ", the LALR(1) automaton (shift preferred) " + (rres == 1 ? "accepts" : rres == 0 ? "rejects" : "does not end")); return; }
            if (rres >= 0 && tr != o.log.events) { c.fail("differs-from-lalr-trace", what + ": a different sequence of shifts and reductions"); return; }
        }
        // the library's own AST parser must build the same tree
        if (o.res == 1 && c.r.chance(1, 3)) {
            struct ls : dfa::lexeme_stream {
                vector<int> in; size_t p = 0; explicit ls(const vector<int>& v) : in(v) {}
                dfa::lexeme_stream& operator>>(dfa::lexeme*& l) { if (p >= in.size()) l = NULL; else { dfa::lexeme::symbols s; s += 'x'; l = new dfa::lexeme(s, dfa::position((int)p * 2, 0, 0), in[p]); ++p; } return *this; }
                dfa::lexeme_stream& operator>>(dfa::lexeme_container& l) { dfa::lexeme* x; (*this) >> x; l = dfa::lexeme_container(x, true); return *this; }
            };
            lr::ast_parser ap(t0);
            std::unique_ptr<lr::ast_parser::state> st(ap.create_parser(new lr::ast_parser_actions(new ls(in)), b.startState[s]));
            if (!st->parse()) { c.fail("ast-parser", what + ": the AST parser rejects it"); return; }
            std::function<bool(const util::astnode&, const node&)> same = [&](const util::astnode& a, const node& n) {
                if (n.tok >= 0) return a.lexeme().item() != NULL && a.lexeme()->pos().offset() / 2 == n.tok && a.children().empty();
                if (a.lexeme().item() != NULL) return false;
                if (rtext(b, *b.gram.rule_with_identifier(a.rule())) != n.rule) return false;
                if (a.item_identifier() != b.gram.identifier_for_item(b.gram.rule_with_identifier(a.rule())->nonterminal())) return false;
                if (a.children().size() != n.kids.size()) return false;
                for (size_t q = 0; q < n.kids.size(); ++q) if (!same(*a.children()[q], *n.kids[q])) return false;
                return true;
            };
            if (!same(*st->get_item(), *o.root)) { c.fail("ast-parser", what + ": the AST differs"); return; }
            c.count("ast_compared");
        }
    }
}

// ---- C09 ---------------------------------------------------------------------------------------------------------------
static void c09(ctx& c) {
    egrammar g = pick_grammar(c, c.r.chance(1, 4));
    c.note(show(g));
    bnf ref(g); lalr_ref lal(ref, 300);
    if (lal.tooBig) { c.count("too_big"); return; }
    built b; build_grammar(b, g, c.r); build_parser(b, g);
    lr::conflict_list found; lr::conflict::find_conflicts(*b.builder, found);
    typedef map<string, pair<bool, set<string>>> conf;      // state kernel + token -> (has shift, reductions)
    conf want, have;
    for (size_t s = 0; s < lal.act.size(); ++s) for (auto& a : lal.act[s]) {
        if (a.second.size() < 2) continue;
        auto& w = want[lal.stext((int)s) + " ON " + ref.sym(a.first)];
        for (int x : a.second) { if (x == lalr_ref::ACC) w.second.insert("* -> accept"); else if (x >= 0) w.first = true; else w.second.insert(ref.ptext(ref.prods[-1 - x])); }
    }
    auto itext = [&](const lr::lr0_item& i) {
        string s = ctext(b, *i.rule()->nonterminal()) + " ->"; int k = 0;
        for (auto& x : i.rule()->items()) { if (k == i.offset()) s += " ^"; s += " " + ctext(b, *x); ++k; }
        if (k == i.offset()) s += " ^";
        return s;
    };
    for (auto& f : found) {
        set<string> ks; const lr::lalr_state& st = *b.builder->machine().state_with_id(f->state());
        for (int i = 0; i < st.count_items(); ++i) ks.insert(itext(*st[i]));
        string key; for (auto& k : ks) key += k + "; ";
        key += " ON " + ctext(b, *f->token());
        if (have.count(key)) c.fail("conflict-reported-twice", key);
        auto& h = have[key];
        h.first = f->first_shift_item() != f->last_shift_item();
        for (auto r = f->first_reduce_item(); r != f->last_reduce_item(); ++r) h.second.insert(r->first->rule()->nonterminal()->type() == cf::item::empty ? string("* -> accept") : rtext(b, *r->first->rule()));
    }
    c.count("conflicts_expected", (long)want.size()); c.count("grammars_without_conflicts", want.empty());
    c.count("states", (long)lal.st.size());
    if ((int)lal.st.size() != b.builder->count_states()) c.fail("state-count", "the machine has " + std::to_string(b.builder->count_states()) + " states instead of " + std::to_string(lal.st.size()));
    for (auto& w : want) {
        if (!have.count(w.first)) { c.fail("conflict-missed", w.first); continue; }
        if (have[w.first].first != w.second.first) c.fail("conflict-shift", w.first);
        if (have[w.first].second != w.second.second) { string s; for (auto& x : have[w.first].second) s += "[" + x + "]"; c.fail("conflict-reductions", w.first + " has " + s); }
    }
    for (auto& h : have) if (!want.count(h.first)) c.fail("conflict-invented", h.first);
    c.nontrivial = lal.st.size() > 4;
}

// ---- C22: errors ---------------------------------------------------------------------------------------------------------
static void c22(ctx& c) {
    egrammar g = pick_grammar(c, true);
    c.note(show(g));
    bnf ref(g); lalr_ref lal(ref, 300);
    if (lal.tooBig || !lal.conflict_free()) { c.count("not_lalr1"); return; }
    built b; build_grammar(b, g, c.r); build_parser(b, g);
    tree_parser p(*b.builder, NULL);
    vector<int> h = heights(ref);
    for (int k = 0; k < 14; ++k) {
        int s = c.r.below((int)g.starts.size());
        vector<int> in = random_tokens(ref, ref.starts[s], c.r, h);
        if (c.r.chance(1, 2)) { if (in.empty() || c.r.chance(1, 3)) in.push_back(c.r.below(g.nT)); else in.resize(c.r.below((int)in.size() + 1)); }
        outcome o; run_parser(o, p, b, ref, b.startState[s], in, 4000);
        earley_result e = earley(ref, ref.starts[s], in);
        string what = "start " + nname(g.starts[s]) + ", input: " + show_tokens(in);
        c.count("parses");
        if (c.r.chance(1, 3)) {
            // what a state says about the symbols that can be next, after each shift
            log_t log; log.in = &in; log.b = &b; log.g = &ref; g_log = 0;
            std::unique_ptr<tree_parser::state> st(p.create_parser(new tree_actions(&log), b.startState[s]));
            int asked = -1;
            for (int k = 0; k < 4000; ++k) {
                if ((int)log.shifts > asked) {
                    asked = (int)log.shifts; vector<int> pre(in.begin(), in.begin() + asked);
                    bool whole = earley(ref, ref.starts[s], pre).accepts;
                    for (int t = 0; t < g.nT; ++t) {
                        pre.push_back(t); bool want = earley(ref, ref.starts[s], pre).viable > asked; pre.pop_back();
                        if (st->can_reduce(t) != want) { c.fail("can-reduce", what + ": after " + std::to_string(asked) + " tokens the state says that " + tname(t) + (want ? " cannot" : " can") + " be next"); return; }
                        c.count(want ? "asked-possible" : "asked-impossible");
                    }
                    bool want = asked < (int)in.size() ? e.viable > asked : whole;
                    if (st->can_reduce() != want) { c.fail("can-reduce", what + ": after " + std::to_string(asked) + " tokens the state says that the next token " + (want ? "cannot" : "can") + " be parsed"); return; }
                }
                if (st->process() != lr::parser_result::more) break;
            }
        }
        if (o.res == 1 || e.accepts) { if (o.res != 1 || !e.accepts) { c.fail("verdict", what); return; } continue; }
        if (o.res < 0) { c.fail("no-end", what); return; }
        c.count("rejections");
        if (in.size() > 2 && e.viable > 0) c.nontrivial = true;
        int want = e.viable < (int)in.size() ? e.viable : -1;
        if (o.log.rejectAt != want) { c.fail("error-position", what + ": error reported at token " + std::to_string(o.log.rejectAt) + ", the first token that cannot continue any sentence is " + std::to_string(want)); return; }
        if (o.log.shifts != e.viable) { c.fail("shifts-past-error", what + ": " + std::to_string(o.log.shifts) + " tokens were shifted, the viable prefix has " + std::to_string(e.viable)); return; }
        if (o.log.reads > (long)o.log.shifts + 1) { c.fail("reads-past-error", what + ": " + std::to_string(o.log.reads) + " tokens were read"); return; }
    }
}

// ---- C25: the LR(1) resolver ---------------------------------------------------------------------------------------------
// nonterminals with the same bodies, told apart by what comes before and after them: beyond LALR(1), mostly within LR(1)
static egrammar context_grammar(rng& r, bool& plain) {
    auto T = [](int i) { return gitem(gitem::T, i); }; auto N = [](int i) { return gitem(gitem::N, i); };
    egrammar g; int k = r.chance(1, 3) ? 3 : 2, pre = r.range(2, 3), suf = r.range(2, 3), body = r.range(1, 2);
    bool chain = r.chance(1, 4), nested = r.chance(1, 6); plain = !chain && !nested;
    g.nT = pre + suf + body + 1; g.nN = 1 + k + (chain ? k : 0); g.rules.resize(g.nN);
    int b0 = pre + suf;
    for (int p = 0; p < pre; ++p) for (int s = 0; s < suf; ++s) {
        if (r.chance(1, 12)) continue;
        int n = 1 + r.below(k); if (chain && r.chance(1, 2)) n += k;
        grule x = { T(p), N(n), T(pre + s) };
        if (nested && r.chance(1, 3)) x.insert(x.begin() + 1, gitem(N(0)));
        if (!plain && r.chance(1, 6)) { gitem o(gitem::OPT); o.r.push_back({ T(b0) }); x.insert(x.begin() + 1, o); }
        g.rules[0].push_back(x);
    }
    if (nested || g.rules[0].empty()) g.rules[0].push_back({ T(b0 + body) });
    int forms = r.range(1, 2);
    for (int f = 0; f < forms; ++f) {
        grule x; for (int q = r.range(0, 2); q > 0; --q) x.push_back(T(b0 + r.below(body))); if (x.empty() && (f || plain || r.chance(2, 3))) x.push_back(T(b0));
        for (int n = 0; n < k; ++n) { bool have = false; for (auto& y : g.rules[1 + n]) if (y.size() == x.size()) have = true; if (!have && (f == 0 || r.chance(2, 3))) g.rules[1 + n].push_back(x); }
    }
    if (chain) for (int n = 0; n < k; ++n) g.rules[1 + k + n] = { r.chance(1, 2) ? grule{ N(1 + n) } : grule{ T(b0), N(1 + n) } };
    g.starts = { 0 };
    return g;
}
static void c25(ctx& c) {
    egrammar g; bool plain = false;
    if (c.r.chance(3, 4)) { g = context_grammar(c.r, plain); bnf b(g); for (bool ok : b.productive()) if (!ok) { c.count("unproductive"); return; } } else g = pick_grammar(c, c.r.chance(1, 2));
    c.note(show(g));
    bnf ref(g); lalr_ref lal(ref, 300);
    if (lal.tooBig) { c.count("too_big"); return; }
    built b; build_grammar(b, g, c.r);
    b.builder.reset(new lr::lalr_builder(b.gram, b.terms));
    b.builder->add_rewriter(lr::action_rewriter_container(new lr::lr1_rewriter(), true));
    for (int s : g.starts) b.startState.push_back(b.builder->add_initial_state(b.gram.get_nonterminal(W(nname(s)))));
    b.builder->complete_parser();
    lr::conflict_list found; lr::conflict::find_conflicts(*b.builder, found);
    bool freeBefore = lal.conflict_free(), freeNow = found.empty();
    if (freeBefore && !freeNow) { c.fail("conflict-invented", "a conflict is reported for an LALR(1) grammar"); return; }
    c.count(freeBefore ? "lalr1_grammars" : freeNow ? "resolved_grammars" : "unresolved_grammars");
    if (plain) c.count(freeBefore ? "plain-lalr" : freeNow ? "plain-resolved" : "plain-unresolved");
    if (plain && !freeNow) c.fail("not-resolved", "");
    if (!freeNow) return;
    tree_parser p(*b.builder, NULL); vector<int> h = heights(ref);
    for (int k = 0; k < 20; ++k) {
        int s = c.r.below((int)g.starts.size());
        vector<int> in = random_tokens(ref, ref.starts[s], c.r, h);
        outcome o; run_parser(o, p, b, ref, b.startState[s], in, 4000);
        earley_result e = earley(ref, ref.starts[s], in);
        string what = "start " + nname(g.starts[s]) + ", input: " + show_tokens(in) + "-> " + (o.res == 1 ? "accepted" : o.res == 0 ? "rejected" : "no end");
        c.count("parses");
        if (!o.log.problem.empty()) { c.fail("reduction-protocol", what + ": " + o.log.problem); return; }
        if ((o.res == 1) != e.accepts) { c.fail(freeBefore ? "verdict-lalr" : "verdict", what + (e.accepts ? ", but it is in the language" : ", but it is not in the language")); return; }
        if (o.res == 1) {
            c.count("accepted"); vector<int> y; string why;
            if (!check_tree(ref, o.root, y, why)) { c.fail("tree", what + ": " + why); return; }
            if (!freeBefore && in.size() > 1) c.nontrivial = true;
        }
        if (freeBefore) { int shifted = 0; vector<string> tr; if (lal.run(s, in, shifted, 4000, &tr) >= 0 && tr != o.log.events) { c.fail("differs-from-lalr-trace", what); return; } }
    }
}

// ---- C15: copies of parser states ------------------------------------------------------------------------------------------
static void c15(ctx& c) {
    egrammar g = pick_grammar(c, true);
    c.note(show(g));
    bnf ref(g); lalr_ref lal(ref, 300);
    if (lal.tooBig || !lal.conflict_free()) { c.count("not_lalr1"); return; }
    built b; build_grammar(b, g, c.r); build_parser(b, g);
    tree_parser p(*b.builder, NULL);
    vector<int> h = heights(ref);
    for (int round = 0; round < 3; ++round) {
        int s = c.r.below((int)g.starts.size());
        vector<int> in = random_tokens(ref, ref.starts[s], c.r, h);
        if (c.r.chance(1, 2)) for (int k = 0; k < 8 && in.size() < 12; ++k) { vector<int> v = random_tokens(ref, ref.starts[s], c.r, h); if (v.size() > in.size()) in = v; }
        bool isLong = round == 2 && c.r.chance(1, 4);
        if (isLong) { in = long_sentence(ref, ref.starts[s], c.r, h, c.r.range(50, 800)); if (in.size() > 200) c.count("long_inputs"); }
        int maxSteps = 20000 + 40 * (int)in.size();
        outcome o; run_parser(o, p, b, ref, b.startState[s], in, maxSteps);
        std::function<string(const nodep&)> text = [&](const nodep& n) { if (!n) return string("null"); if (n->tok >= 0) return std::to_string(n->tok); string r = "[" + n->rule + ":"; for (auto& k : n->kids) r += " " + text(k); return r + "]"; };
        string wantTree = o.res == 1 ? text(o.root) : "";
        c.note("start " + nname(g.starts[s]) + ", input: " + show_tokens(in));
        log_t log; log.in = &in; log.b = &b; log.g = &ref; g_log = 0;
        // a history of step / copy / destroy / look operations over one session
        struct live { std::unique_ptr<tree_parser::state> st; int res; int id; };
        vector<live> ls;
        { live l; l.st.reset(p.create_parser(new tree_actions(&log), b.startState[s])); l.res = -1; l.id = 0; ls.push_back(std::move(l)); }
        string hist; int nextId = 1; long finished = 0;
        bool deep = c.r.chance(1, 4);
        int ops = deep ? 400 : 120;
        for (int k = 0; k < ops && !ls.empty(); ++k) {
            int i = c.r.below((int)ls.size()), w = c.r.below(20);
            if (w < 3 && ls.size() < 12) {
                live l; l.st.reset(new tree_parser::state(*ls[i].st)); l.res = ls[i].res; l.id = nextId++;
                hist += "c" + std::to_string(ls[i].id) + ">" + std::to_string(l.id) + " ";
                // anywhere in the order of destruction
                ls.insert(ls.begin() + c.r.below((int)ls.size() + 1), std::move(l)); c.count("copies");
            } else if (w < 5 && ls.size() > 1) { hist += "d" + std::to_string(ls[i].id) + " "; ls.erase(ls.begin() + i); c.count("destroyed"); }
            else if (w < 7) {
                int off = c.r.below(4);
                const dfa::lexeme_container& la = ls[i].st->look(off);
                hist += "l" + std::to_string(ls[i].id) + " ";
                if (la.item() && (la->pos().offset() / 2 >= (int)in.size() || in[la->pos().offset() / 2] != la->matched())) c.fail("look", "a lookahead is not a token of the input: " + hist);
                c.count("lookaheads");
            } else if (ls[i].res < 0) {
                int n = isLong ? c.r.range(1, 300) : c.r.range(1, 6); hist += "s" + std::to_string(ls[i].id) + " ";
                for (; n > 0; --n) {
                    auto x = ls[i].st->process(); c.count("steps");
                    if (x == lr::parser_result::more) continue;
                    ls[i].res = x == lr::parser_result::accept; ++finished;
                    if (ls[i].res != o.res) { c.fail("copy-verdict", "state " + std::to_string(ls[i].id) + (ls[i].res ? " accepts" : " rejects") + " unlike a fresh parser: " + hist); return; }
                    if (ls[i].res == 1 && text(ls[i].st->get_item()) != wantTree) { c.fail("copy-tree", "state " + std::to_string(ls[i].id) + " has a different tree: " + hist); return; }
                    break;
                }
            }
        }
        // let the rest finish, in random order
        while (!ls.empty()) {
            int i = c.r.below((int)ls.size());
            for (int k = 0; k < maxSteps && ls[i].res < 0; ++k) { auto x = ls[i].st->process(); if (x != lr::parser_result::more) { ls[i].res = x == lr::parser_result::accept; ++finished; } }
            if (ls[i].res != o.res) { c.fail("copy-verdict", "state " + std::to_string(ls[i].id) + " differs from a fresh parser: " + hist); return; }
            if (ls[i].res == 1 && text(ls[i].st->get_item()) != wantTree) { c.fail("copy-tree", "state " + std::to_string(ls[i].id) + " has a different tree: " + hist); return; }
            ls.erase(ls.begin() + i);
        }
        if (log.reads > (long)in.size() + 1) { c.fail("input-read-twice", "the session read " + std::to_string(log.reads) + " tokens: " + hist); return; }
        c.count("finished_states", finished);
        if (nextId > 2 && in.size() > 2) c.nontrivial = true;
    }
}

int main(int argc, char** argv) {
    return run_driver(argc, argv, { {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C15", c15}, {"C22", c22}, {"C25", c25} });
}
