// What a generated parser is run with: the same code runs in the driver (tables in memory) and in the generated program.
#ifndef VERIF_GEN_SUPPORT_H
#define VERIF_GEN_SUPPORT_H
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <cstdio>
#include <typeinfo>
#include "TameParse/Dfa/hard_coded_symbol_table.h"
#include "TameParse/Dfa/state_machine.h"
#include "TameParse/Util/syntax_ptr.h"
#include "TameParse/Dfa/lexer.h"
#include "TameParse/Lr/parser.h"
#include "TameParse/Lr/parser_tables.h"
namespace vf {
// the calls a parser over these tables makes, one per line, and its verdict
std::string run_tables(const lr::parser_tables& tables, const dfa::lexer& lexer, const std::wstring& text, int start);
std::string show(const dfa::position& p);
// what is allocated
long live_bytes();
std::string shown_text(const dfa::lexeme& l);
// one terminal of a tree
std::string show_leaf(const std::string& cls, const dfa::lexeme& l);
// runs a parser state to its end; returns its verdict line, and the tree of an accepted text through *tree
template<class S, class F> std::string run_state(S* s, F dump) {
    lr::parser_result::result res = lr::parser_result::more; long n = 0;
    for (; res == lr::parser_result::more && n < 20000; ++n) res = s->process();
    std::string r;
    if (res == lr::parser_result::more) r = "stuck\n";
    else if (res == lr::parser_result::accept) { r = "accept\n"; r += dump(s->get_item()); }
    else { const dfa::lexeme_container& la = s->look(); r = "reject " + (la.item() ? show(la->pos()) : std::string("end")) + "\n"; }
    delete s;
    return r;
}
}
#endif
