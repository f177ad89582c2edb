// In-process runs of the whole definition-file pipeline: a console that keeps everything in memory, the stages of the
// command line tool in its order, and a parser that records every call it receives.
#ifndef VERIF_LANG_H
#define VERIF_LANG_H
#include "common.h"
#include "cfg_ref.h"
#include <memory>
#include "TameParse/Compiler/console.h"
#include "TameParse/Compiler/parser_stage.h"
#include "TameParse/Compiler/import_stage.h"
#include "TameParse/Compiler/language_builder_stage.h"
#include "TameParse/Compiler/language_stage.h"
#include "TameParse/Compiler/lexer_stage.h"
#include "TameParse/Compiler/lr_parser_stage.h"
#include "TameParse/Compiler/test_stage.h"
#include "TameParse/Compiler/OutputStages/cplusplus.h"
#include "TameParse/Lr/parser.h"
#include "TameParse/Lr/ast_parser.h"
#include "TameParse/Dfa/lexer.h"

namespace vf {

inline std::wstring widen(const std::string& s) {         // UTF-8 to wide
    std::wstring r;
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        unsigned v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
        for (int k = 1; k < n && i + k < s.size(); ++k) v = v << 6 | (s[i + k] & 63);
        r += (wchar_t)v; i += n;
    }
    return r;
}
inline std::string narrow(const std::wstring& w) { return u8s(w); }

struct diag { int sev; std::string id, text, file; int line, col, offset; };
struct mem_state {
    std::map<std::wstring, std::string> files;
    std::map<std::wstring, std::wstring> options;
    std::map<std::wstring, std::string> written;
    std::vector<diag> diags;
    int exitCode = 0;
    std::wostringstream msg, verbose;
    std::wstring input;
    std::vector<std::wstring> opened;
};
// an output file kept in memory: the content is stored when the stream is destroyed
struct mem_out : std::ostringstream {
    std::shared_ptr<mem_state> st; std::wstring name;
    mem_out(std::shared_ptr<mem_state> s, const std::wstring& n) : st(s), name(n) {}
    ~mem_out() { st->written[name] = str(); }
};
struct mem_console : compiler::console {
    std::shared_ptr<mem_state> st;
    mem_console() : st(new mem_state) {}
    compiler::console* clone() const { mem_console* c = new mem_console(); c->st = st; return c; }
    void report_error(const compiler::error& e) {
        diag d; d.sev = e.sev(); d.id = narrow(e.identifier()); d.text = narrow(e.description()); d.file = narrow(e.filename());
        d.line = e.pos().line(); d.col = e.pos().column(); d.offset = e.pos().offset();
        st->diags.push_back(d);
        if (e.sev() >= compiler::error::sev_error && (int)e.sev() > st->exitCode) st->exitCode = e.sev();
    }
    int exit_code() { return st->exitCode; }
    std::wostream& message_stream() { return st->msg; }
    std::wostream& verbose_stream() { return st->verbose; }
    std::wstring get_option(const std::wstring& n) const { auto f = st->options.find(n); return f == st->options.end() ? std::wstring() : f->second; }
    const std::wstring& input_file() const { return st->input; }
    std::istream* open_file(const std::wstring& n) {
        st->opened.push_back(n);
        auto f = st->files.find(n);
        if (f == st->files.end()) return NULL;
        return new std::istringstream(f->second);
    }
    std::ostream* open_binary_file_for_writing(const std::wstring& n) { return new mem_out(st, n); }
};

inline std::string show_diags(const std::vector<diag>& v) {
    std::string s;
    for (auto& d : v) { char b[64]; snprintf(b, sizeof b, " sev%d %d:%d ", d.sev, d.line, d.col); s += d.file + b + d.id + " " + d.text + "\n"; }
    return s;
}

// One run of the pipeline, in the order of the command line tool
struct run_t {
    mem_console* con;
    compiler::console_container cc;
    std::unique_ptr<compiler::parser_stage> parse;
    std::unique_ptr<compiler::import_stage> import;
    std::unique_ptr<compiler::language_builder_stage> builder;
    std::unique_ptr<compiler::lexer_stage> lexer;
    std::unique_ptr<compiler::lr_parser_stage> lr;
    compiler::language_stage* lang = 0;
    std::string stage;
    mem_state& st() { return *con->st; }
    run_t() : con(new mem_console), cc(con, true) {}
    void file(const std::string& n, const std::string& text) { st().files[widen(n)] = text; }
    // returns true if everything up to the parser tables was built without an error
    bool compile(const std::string& main, const std::string& language, const std::vector<std::string>& starts) {
        st().input = widen(main);
        if (!front(main)) return false;
        return back(language, starts);
    }
    bool front(const std::string& main) {
        st().input = widen(main);
        stage = "parse"; parse.reset(new compiler::parser_stage(cc, widen(main))); parse->compile();
        if (st().exitCode || !parse->definition_file().item()) return false;
        stage = "import"; import.reset(new compiler::import_stage(cc, widen(main), parse->definition_file())); import->compile();
        return !st().exitCode;
    }
    bool back(const std::string& language, const std::vector<std::string>& starts) {
        stage = "language"; builder.reset(new compiler::language_builder_stage(cc, st().input, import.get())); builder->compile();
        if (st().exitCode) return false;
        lang = builder->language_with_name(widen(language));
        if (!lang) { stage = "missing-language"; return false; }
        lang->report_unused_symbols();
        stage = "lexer"; lexer.reset(new compiler::lexer_stage(cc, import->file_with_language(widen(language)), lang)); lexer->compile();
        if (st().exitCode) return false;
        std::vector<std::wstring> ss; for (auto& s : starts) ss.push_back(widen(s));
        stage = "parser"; lr.reset(new compiler::lr_parser_stage(cc, import->file_with_language(widen(language)), lang, lexer.get(), ss)); lr->compile();
        if (st().exitCode || !lr->get_tables()) return false;
        stage = "done";
        return true;
    }
    int count(const std::string& id) { int n = 0; for (auto& d : st().diags) if (d.id == id) ++n; return n; }
};

// ---- names --------------------------------------------------------------------------------------------------------
struct namer {
    const contextfree::grammar* g; const contextfree::terminal_dictionary* t;
    std::map<std::string, std::string> rename;      // terminal names -> reference names
    std::string term(int s) const { if (s < 0) return "<" + std::to_string(s) + ">"; std::string n = narrow(t->name_for_symbol(s)); auto f = rename.find(n); return f == rename.end() ? n : f->second; }
    static std::string strip(std::string n) { if (n.size() > 2 && n[0] == '<' && n[n.size() - 1] == '>') return n.substr(1, n.size() - 2); return n; }
    std::string items(const contextfree::rule& r) const { std::string s; bool f = true; for (auto& i : r.items()) { if (!f) s += " "; f = false; s += item(*i); } return s; }
    std::string item(const contextfree::item& i) const {
        typedef contextfree::item I;
        switch (i.type()) {
            case I::empty: return "*";
            case I::eoi: return "$";
            case I::terminal: return term(i.symbol());
            case I::nonterminal: return strip(narrow(g->name_for_nonterminal(i.symbol())));
            case I::optional: return "(" + items(*i.cast_ebnf()->get_rule()) + ")?";
            case I::repeat: return "(" + items(*i.cast_ebnf()->get_rule()) + ")+";
            case I::repeat_zero_or_one: return "(" + items(*i.cast_ebnf()->get_rule()) + ")*";
            case I::alternative: { std::string s = "("; bool f = true; for (auto r = i.cast_ebnf()->first_rule(); r != i.cast_ebnf()->last_rule(); ++r) { if (!f) s += " | "; f = false; s += items(**r); } return s + ")"; }
            case I::guard: return "[=> " + items(*i.cast_guard()->get_rule()) + "]";
            default: return "?";
        }
    }
    std::string rule(const contextfree::rule& r) const { std::string s = item(*r.nonterminal()) + " ->"; for (auto& i : r.items()) s += " " + item(*i); return s; }
};

// ---- a recording parser -------------------------------------------------------------------------------------------
struct tnode { std::string sym, text; std::string rule; int offset = -1; std::vector<std::shared_ptr<tnode>> kids; };
typedef std::shared_ptr<tnode> tnodep;
inline std::string tree_text(const tnodep& n) {
    if (!n) return "-";
    if (n->rule.empty()) return n->sym + ":" + n->text;
    std::string s = "(" + n->sym;
    for (auto& k : n->kids) s += " " + tree_text(k);
    return s + ")";
}
struct parse_log { const namer* nm; std::vector<std::string> events; std::string problem; std::string ignoredText; int ignored = 0; };
struct rec_actions {
    parse_log* l; std::unique_ptr<dfa::lexeme_stream> in;
    rec_actions(parse_log* x, dfa::lexeme_stream* s) : l(x), in(s) {}
    dfa::lexeme* read() { dfa::lexeme* r = NULL; (*in) >> r; return r; }
    tnodep shift(const dfa::lexeme_container& x) {
        tnodep n(new tnode); n->sym = l->nm->term(x->matched()); n->offset = x->pos().offset();
        n->text = narrow(x->content<wchar_t>());
        l->events.push_back("s:" + n->sym + ":" + n->text);
        return n;
    }
    tnodep reduce(int nt, int rule, const std::vector<tnodep>& items, const dfa::position&) {
        tnodep n(new tnode);
        const contextfree::rule_container& r = l->nm->g->rule_with_identifier(rule);
        n->rule = l->nm->rule(*r); n->sym = l->nm->item(*r->nonterminal());
        if (items.size() != r->items().size()) l->problem = "reduction of " + n->rule + " with " + std::to_string(items.size()) + " items";
        size_t pos = r->items().size();
        for (size_t k = items.size(); k-- > 0;) { n->kids.push_back(items[k]); }
        for (size_t k = 0; k < n->kids.size() && k < pos; ++k) {
            std::string want = l->nm->item(*r->items()[k]);
            if (n->kids[k] && r->items()[k]->type() != contextfree::item::guard && n->kids[k]->sym != want) l->problem = "reduction of " + n->rule + " received " + n->kids[k]->sym + " for " + want;
        }
        l->events.push_back(n->rule);
        return n;
    }
};
typedef lr::parser<tnodep, rec_actions> rec_parser;
struct parse_out { bool ok = false; bool stuck = false; int failOffset = -2; std::vector<std::string> events; std::string tree, problem; };
inline parse_out run_parser(run_t& r, const namer& nm, const std::wstring& text, int start = 0, long maxSteps = 20000) {
    parse_out o; parse_log l; l.nm = &nm;
    std::wstringstream in(text);
    rec_parser p(r.lr->get_tables(), false);
    std::unique_ptr<rec_parser::state> s(p.create_parser(new rec_actions(&l, r.lexer->get_lexer()->create_stream_from(in)), start));
    lr::parser_result::result res = lr::parser_result::more;
    for (long n = 0; res == lr::parser_result::more; ++n) {
        if (n > maxSteps || l.events.size() > 4000) { o.stuck = true; break; }
        res = s->process();
    }
    o.ok = res == lr::parser_result::accept;
    if (o.ok) o.tree = tree_text(s->get_item());
    else if (!o.stuck) { const dfa::lexeme_container& la = s->look(); o.failOffset = la.item() ? la->pos().offset() : -1; }
    o.events = l.events; o.problem = l.problem;
    return o;
}

}
#endif
