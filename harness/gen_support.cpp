#include "gen_support.h"
#include "common.h"
namespace vf {
std::string show(const dfa::position& p) { char b[64]; snprintf(b, sizeof b, "%d:%d:%d", p.offset(), p.line(), p.column()); return b; }
std::string shown_text(const dfa::lexeme& l) { return esc(u8s(l.content<wchar_t>())); }
std::string show_leaf(const std::string& cls, const dfa::lexeme& l) { return "leaf\n:" + cls + "\n" + std::to_string(l.matched()) + " " + show(l.pos()) + "-" + show(l.final_pos()) + " " + shown_text(l) + "\n"; }
long live_bytes() { return (long)__sanitizer_get_current_allocated_bytes(); }
struct tab_actions {
    std::string* out; dfa::lexeme_stream* in; int* count;
    tab_actions(std::string* o, dfa::lexeme_stream* s, int* c) : out(o), in(s), count(c) {}
    ~tab_actions() { delete in; }
    dfa::lexeme* read() { dfa::lexeme* r = NULL; (*in) >> r; return r; }
    int shift(const dfa::lexeme_container& x) { *out += "s " + std::to_string(x->matched()) + " " + show(x->pos()) + "-" + show(x->final_pos()) + " " + shown_text(*x) + "\n"; return ++*count; }
    int reduce(int nt, int rule, const std::vector<int>& items, const dfa::position& la) {
        *out += "r " + std::to_string(nt) + " " + std::to_string(rule) + " (";
        for (int i : items) *out += " " + std::to_string(i);
        *out += " ) " + show(la) + "\n"; return ++*count;
    }
};
std::string run_tables(const lr::parser_tables& tables, const dfa::lexer& lexer, const std::wstring& text, int start) {
    std::string out; int count = 0; std::wstringstream in(text);
    typedef lr::parser<int, tab_actions> P;
    P p(&tables, false);
    std::string v = run_state(p.create_parser(new tab_actions(&out, lexer.create_stream_from(in), &count), start), [](int n) { return "item " + std::to_string(n) + "\n"; });
    if (out.size() > 60000) out.resize(60000);
    return out + v;
}
}
