// A random definition file as a list of tokens, together with what it means: one line per element of the file, with the
// tokens it covers. The text is made by placing the tokens with a random layout; the meaning is compared with the AST.
#ifndef VERIF_DEF_MODEL_H
#define VERIF_DEF_MODEL_H
#include "common.h"
#include "lang.h"
#include "TameParse/Language/language_parser.h"
namespace vf {
using std::string; using std::wstring; using std::vector;

struct elem { string text; int from = -1, to = -1; int strTok = -1; int o0 = 0, l0 = 0, c0 = 0, o1 = 0; int so = 0, sl = 0, sc = 0; };
struct at_pos { int off, line, col; };

struct def_model {
    rng& r; vector<wstring> tok; vector<elem> el; int depth = 0;
    std::set<int> openBrace;
    explicit def_model(rng& rr) : r(rr) {}
    int here() const { return (int)tok.size(); }
    void T(const string& s) { tok.push_back(widen(s)); }
    void W(const wstring& s) { tok.push_back(s); }
    // the tool works on UTF-16 code units
    static wstring units(const wstring& s) { wstring o; for (wchar_t ch : s) if (ch > 0xffff) { o += (wchar_t)(0xd800 + ((ch - 0x10000) >> 10)); o += (wchar_t)(0xdc00 + ((ch - 0x10000) & 0x3ff)); } else o += ch; return o; }
    // ---- lexical items
    static const vector<string>& keywords() {
        static const vector<string> k = { "language", "import", "lexer-symbols", "lexer", "ignore", "weak", "keywords", "grammar", "parser", "test", "from", "case", "sensitive", "insensitive",
            "precedence", "left", "right", "non-associative", "non-assoc", "shift", "reduce", "can-clash" };
        return k;
    }
    wstring ident(bool weak = true) {
        if (weak && r.chance(1, 6)) return widen(r.pick(keywords()));
        static const wchar_t first[] = { L'a', L'b', L'X', L'Z', L'_', L'-', L'q', 0xe9, 0x3b1, 0x416, 0x4e2d, 0x2014, 0x203f, 0x1d538, 0x5d0 };
        static const wchar_t more[] = { L'a', L'Z', L'0', L'9', L'-', L'_', 0xbd, 0x663, 0x2167, 0xdf, 0x10400, L'i' };
        wstring s(1, first[r.below(15)]);
        for (int k = r.below(6); k > 0; --k) s += r.chance(1, 4) ? first[r.below(15)] : more[r.below(12)];
        return units(s);
    }
    wstring nonterm() { return L"<" + ident(true) + L">"; }
    wstring chars(const wchar_t* no, int max) {
        wstring s; static const wchar_t pool[] = L"abZ019 +-*/|=[](){}<>.,;:!?@#$%^&~`'\"";
        for (int k = r.below(max + 1); k > 0; --k) {
            wchar_t ch = r.chance(1, 6) ? (wchar_t)r.pick(vector<int>{0xe9, 0x20ac, 0x1f600, 9, 10, 13, 0xa0}) : pool[r.below(37)];
            if (wcschr(no, ch)) continue;
            s += ch;
        }
        return units(s);
    }
    wstring str(bool escapes = true) {                // a quoted string; never ends in a backslash
        wstring s = L"\"";
        for (int k = r.below(4); k >= 0; --k) { s += chars(L"\"", 4); if (escapes && r.chance(1, 3)) { static const wchar_t e[] = L"aenrft\"'x0z["; s += L'\\'; s += e[r.below(12)]; } }
        return s + L"\"";
    }
    static wstring dequote(const wstring& s) {
        wstring o;
        for (size_t i = 1; i + 1 < s.size(); ++i) {
            if (s[i] != L'\\') { o += s[i]; continue; }
            wchar_t ch = s[++i];
            o += ch == L'a' ? L'\a' : ch == L'e' ? (wchar_t)0x1b : ch == L'n' ? L'\n' : ch == L'r' ? L'\r' : ch == L'f' ? L'\f' : ch == L't' ? L'\t' : ch;
        }
        return o;
    }
    wstring chr() {
        if (r.chance(1, 4)) { static const wchar_t e[] = L"nrt\\'\"0["; return wstring(L"'\\") + e[r.below(8)] + L"'"; }
        static const wchar_t p[] = { L'a', L'+', L'"', L'(', L'/', L'*', L' ', 0xe9, 0x20ac, L'=', L'\'' };
        return wstring(L"'") + p[r.below(11)] + L"'";
    }
    wstring regex() {
        wstring s = L"/";
        wstring b = chars(L"/\n\r", 8);
        while (!b.empty() && b[0] == L'*') b.erase(0, 1);
        if (b.empty()) b = L"x";
        s += b;
        if (r.chance(1, 4)) { static const wchar_t e[] = L"/nt.*[u"; s += L'\\'; s += e[r.below(7)]; s += L"y"; }
        return s + L"/";
    }
    // ---- elements
    int add(const string& t) { elem e; e.text = t; e.from = here(); el.push_back(e); return (int)el.size() - 1; }
    void end(int e) { el[e].to = here(); }
    void file() {
        int n = r.range(0, 4);
        for (int k = 0; k < n; ++k) switch (r.below(6)) { case 0: import(); break; case 1: parser(); break; case 2: test(); break; default: language(); }
    }
    void import() { int e = add(""); T("import"); wstring s = str(); W(s); el[e].text = "import " + narrow(dequote(s)); end(e); }
    void parser() {
        int e = add(""); T("parser"); wstring n = ident(), l = ident(); W(n); T(":"); W(l); T("{");
        string t = "parser " + narrow(n) + " for " + narrow(l);
        for (int k = r.range(1, 3); k > 0; --k) { wstring x = nonterm(); W(x); t += " " + narrow(x); }
        T("}"); el[e].text = t; end(e);
    }
    void test() {
        int e = add(""); T("test"); wstring l = ident(); W(l); T("{"); el[e].text = "test " + narrow(l);
        for (int k = r.below(4); k > 0; --k) {
            wstring nl; if (r.chance(1, 6)) { nl = ident(); W(nl); T("."); }
            wstring n = nonterm(); W(n); int ty = r.below(3); T(ty == 0 ? "=" : ty == 1 ? "!=" : "from");
            for (int j = r.range(1, 3); j > 0; --j) {
                int d = add(""); wstring id; if (r.chance(1, 3)) { id = ident(); W(id); T("("); }
                wstring s = str(); el[d].strTok = here(); W(s); if (!id.empty()) T(")");
                el[d].text = " case " + narrow(nl) + "." + narrow(n) + (ty == 0 ? " = " : ty == 1 ? " != " : " from ") + narrow(id) + "(" + narrow(dequote(s)) + ")";
                end(d);
            }
        }
        T("}"); end(e);
    }
    void language() {
        int e = add(""); T("language"); wstring n = ident(); W(n); string t = "language " + narrow(n);
        if (r.chance(1, 3)) { T(":"); wstring i = ident(); W(i); t += " : " + narrow(i); }
        el[e].text = t; T("{");
        for (int k = r.below(6); k > 0; --k) switch (r.below(8)) {
            case 0: case 1: case 2: lexer(); break;
            case 3: precedence(); break;
            default: grammar();
        }
        T("}"); end(e);
    }
    void lexer() {
        int kind = r.below(4);      // symbols, lexer, ignore, keywords
        bool weak = false, ci = false, cs = false;
        if (kind != 2) for (int k = r.chance(1, 2) ? r.range(1, 3) : 0; k > 0; --k) {
            int m = r.below(kind == 0 ? 2 : 3);
            if (m == 0) { T("case"); T("sensitive"); cs = true; } else if (m == 1) { T("case"); T("insensitive"); ci = true; } else { T("weak"); weak = true; }
        }
        static const char* names[] = { "lexer-symbols", "lexer", "ignore", "keywords" };
        T(names[kind]); T("{");
        int e = add(""); el[e].from = -1;
        el[e].text = string(" block ") + names[kind] + (weak ? " weak" : "") + (ci ? " insensitive" : "") + (cs ? " sensitive" : "");
        for (int k = r.below(5); k > 0; --k) {
            int d = add(""); int op = r.below(4); wstring n;
            if (kind >= 2 && op == 3 && r.chance(1, 2)) { n = ident(); W(n); el[d].strTok = here() - 1; el[d].text = "  literal " + narrow(n) + " " + narrow(n); end(d); continue; }
            if (op == 3) T("replace");
            n = ident(); W(n); T(op == 2 ? "|=" : "=");
            int ty = r.below(3); wstring v = ty == 0 ? regex() : ty == 1 ? str() : chr(); el[d].strTok = here(); W(v);
            el[d].text = string("  ") + (ty == 0 ? "regex " : ty == 1 ? "string " : "character ") + narrow(n) + (op == 2 ? " |= " : op == 3 ? " replace " : " = ") + narrow(v);
            end(d);
        }
        T("}");
    }
    void attrs(string& t, bool allow) {
        if (!allow || !r.chance(1, 5)) return;
        T("["); int m = r.range(1, 3); string name, conf;
        bool first = true;
        auto nm = [&]() { if (!first) T(","); first = false; wstring n = ident(); W(n); name = " name=" + narrow(n); };
        auto cf = [&]() { if (!first) T(","); first = false; T("conflict"); T("="); int a = r.below(3); if (a == 2) T("weak"); T(a == 0 ? "shift" : "reduce"); conf = a == 0 ? " shift" : a == 1 ? " reduce" : " weakreduce"; };
        if (m == 3 && r.chance(1, 2)) { cf(); nm(); } else { if (m & 1) nm(); if (m & 2) cf(); }
        T("]"); t += name + conf;
    }
    string ind(int n) { return string(n * 2, ' '); }
    // one simple item; the last token must not be an identifier that the layout could glue to the next (the layout takes care of it)
    void item(int d, int lvl, bool guardOk) {
        int k = r.below(10);
        int e = add("");
        if (lvl > 0 && k >= 7) {
            if (k == 7 && guardOk) {
                bool clash = r.chance(1, 3); T("[=>"); if (clash) { T("["); T("can-clash"); T("]"); }
                string t = ind(d) + "guard" + (clash ? " can-clash" : ""); seq(d + 1, lvl - 1, true); T("]"); attrs(t, true); el[e].text = t; end(e); return;
            }
            if (k == 8) {       // postfix operator: the operand is printed below it
                string t = ind(d); item(d + 1, lvl - 1, guardOk); int o = r.below(3); T(o == 0 ? "*" : o == 1 ? "+" : "?"); t += o == 0 ? "star" : o == 1 ? "plus" : "optional";
                attrs(t, true); el[e].text = t; end(e); return;
            }
            el.pop_back();
            group(d, lvl, true); return;
        }
        string t; wstring src; if (r.chance(1, 8)) { src = ident(); W(src); T("."); }
        int w = r.below(4); wstring x = w == 0 ? str() : w == 1 ? chr() : w == 2 ? nonterm() : ident();
        W(x); t = ind(d) + (w == 0 ? "string " : w == 1 ? "character " : w == 2 ? "nonterminal " : "terminal ") + narrow(src) + "." + narrow(x);
        attrs(t, true); el[e].text = t; end(e);
    }
    // contents of a group or guard: sequences separated by |, printed as the AST normalised (alternatives are a flat list)
    void seq(int d, int lvl, bool guardOk) { alternatives(d, lvl, guardOk, false); }
    void group(int d, int lvl, bool guardOk) { T("("); alternatives(d, lvl - 1, guardOk, true); T(")"); if (pendingAttr >= 0) { attrs(el[pendingAttr].text, true); } }
    int pendingAttr = -1;
    void alternatives(int d, int lvl, bool guardOk, bool) {
        int n = r.chance(2, 3) ? 1 : r.range(2, 3);
        int mine = -1, e = -1;
        if (n > 1) { e = add(ind(d) + "alternatives"); mine = e; ++d; }
        for (int k = 0; k < n; ++k) {
            if (k) T("|");
            int items = r.chance(1, 10) ? 0 : r.range(1, 3);
            int p = -1;
            if (items != 1) { p = add(ind(d) + "sequence"); el[p].from = items ? here() : -1; }
            for (int j = 0; j < items; ++j) item(items != 1 ? d + 1 : d, lvl, guardOk);
            // the recorded range of a sequence followed by | includes the rest: only its start is known
            if (p >= 0 && items) el[p].to = -1;
        }
        if (e >= 0) { end(e); }
        pendingAttr = mine;
    }
    void production(int d) {
        int e = add(ind(d) + "production"); int n = r.chance(1, 8) ? 0 : r.range(1, 4);
        for (int k = 0; k < n; ++k) item(d + 1, 3, true);
        if (n) end(e); else el[e].from = -1;
    }
    void grammar() {
        T("grammar"); T("{"); int g = add(" grammar"); el[g].from = -1;
        for (int k = r.below(4); k > 0; --k) {
            int e = add(""); int op = r.below(3); if (op == 2) T("replace"); wstring n = nonterm(); W(n); T(op == 1 ? "|=" : "=");
            el[e].text = "  " + narrow(n) + (op == 0 ? " =" : op == 1 ? " |=" : " replace");
            int p = r.range(1, 3); for (int j = 0; j < p; ++j) { if (j) T("|"); production(2); }
            end(e);
        }
        T("}");
    }
    void precedence() {
        int e = add(" precedence"); T("precedence"); T("{");
        for (int k = r.below(4); k > 0; --k) {
            int a = r.below(4); T(a == 0 ? "left" : a == 1 ? "right" : a == 2 ? "non-associative" : "non-assoc");
            int x = add(a == 0 ? "  left" : a == 1 ? "  right" : "  nonassoc"); el[x].from = -1;
            if (r.chance(1, 2)) item(2, 1, false); else { T("{"); for (int j = r.below(4); j > 0; --j) item(2, 1, false); T("}"); }
        }
        T("}"); end(e);
    }
    // ---- layout
    wstring text; vector<at_pos> start, fin;
    static bool wordy(wchar_t c) { return c > 0x7e || iswalnum(c) || c == L'_' || c == L'-'; }
    wstring space() {
        wstring s;
        for (int k = r.range(1, 3); k > 0; --k) switch (r.below(12)) {
            case 0: s += L"\n"; break; case 1: s += L"\r\n"; break; case 2: s += L"\r"; break; case 3: s += L"\t"; break; case 4: s += L"\u00a0"; break; case 5: s += L"\u3000"; break;
            case 6: s += L"// x \" ' /* } < \n"; break; case 7: s += L"/* y * \" // \n { */"; break; case 8: s += L"//\r\n"; break; case 9: s += L"/**/"; if (r.chance(1, 2)) s += L" "; break;
            default: s += L" ";
        }
        return s;
    }
    // must a separator come between the two tokens? (only gluing that cannot change the tokens is allowed)
    static bool need(const wstring& a, const wstring& b) {
        wchar_t x = a[a.size() - 1], y = b[0];
        if (wordy(x) && wordy(y)) return true;
        static const wstring safe = L"{}(),;:]";
        if (safe.find(y) != wstring::npos && safe.find(x) != wstring::npos) return false;
        if (y == L'"' && wordy(x)) return false;
        if ((y == L'{' || y == L'}' || y == L'(' || y == L')' || y == L']' || y == L',' || y == L'.' || y == L'<') && (wordy(x) || x == L'>')) return false;
        if ((x == L'{' || x == L'}' || x == L'(' || x == L')' || x == L']' || x == L',' || x == L'.' || x == L':') && (wordy(y) || y == L'<')) return false;
        if ((y == L'*' || y == L'+' || y == L'?') && (wordy(x) || x == L')' || x == L'>' || x == L']')) return false;
        if (y == L'[' && wordy(x)) return false;
        return true;
    }
    void lay() {
        at_pos p = {0, 0, 0}; bool cr = false;
        auto put = [&](const wstring& s) {
            for (wchar_t ch : s) {
                text += ch; ++p.off;
                if (ch == L'\r') { ++p.line; p.col = 0; cr = true; }
                else if (ch == L'\n') { if (!cr) ++p.line; p.col = 0; cr = false; }
                else { ++p.col; cr = false; }
            }
        };
        if (r.chance(1, 3)) put(space());
        for (size_t i = 0; i < tok.size(); ++i) {
            if (i && (need(tok[i - 1], tok[i]) || r.chance(2, 3))) put(space());
            start.push_back(p); put(tok[i]); fin.push_back(p);
        }
        if (r.chance(1, 2)) put(space());
        start.push_back(p);
    }
    string utf8() const { string s; for (size_t i = 0; i < text.size(); ++i) { unsigned v = (unsigned)text[i]; if (v >= 0xd800 && v < 0xdc00 && i + 1 < text.size()) v = 0x10000 + ((v - 0xd800) << 10) + ((unsigned)text[++i] - 0xdc00); if (v < 0x80) s += (char)v; else if (v < 0x800) { s += (char)(0xc0 | v >> 6); s += (char)(0x80 | (v & 63)); } else if (v < 0x10000) { s += (char)(0xe0 | v >> 12); s += (char)(0x80 | ((v >> 6) & 63)); s += (char)(0x80 | (v & 63)); } else { s += (char)(0xf0 | v >> 18); s += (char)(0x80 | ((v >> 12) & 63)); s += (char)(0x80 | ((v >> 6) & 63)); s += (char)(0x80 | (v & 63)); } } return s; }
};

// ---- the AST, printed in the same form ------------------------------------------------------------------------------
struct ast_dump {
    vector<elem> el;
    int put(const string& t, const yy_language::block& b) {
        elem e; e.text = t; e.o0 = b.start_pos().offset(); e.l0 = b.start_pos().line(); e.c0 = b.start_pos().column(); e.o1 = b.end_pos().offset(); el.push_back(e); return (int)el.size() - 1;
    }
    static string ind(int n) { return string(n * 2, ' '); }
    static string at(const yy_language::ebnf_item_attributes& a) {
        typedef yy_language::ebnf_item_attributes A; string s; if (!a.name.empty()) s += " name=" + narrow(a.name);
        if (a.conflict_action == A::conflict_shift) s += " shift"; if (a.conflict_action == A::conflict_reduce) s += " reduce"; if (a.conflict_action == A::conflict_weakreduce) s += " weakreduce";
        return s;
    }
    void item(yy_language::ebnf_item& i, int d) {
        typedef yy_language::ebnf_item I; string a = at(i.attributes());
        string id = narrow(i.source_identifier()) + "." + narrow(i.identifier());
        switch (i.get_type()) {
            case I::ebnf_nonterminal: put(ind(d) + "nonterminal " + id + a, i); break;
            case I::ebnf_terminal: put(ind(d) + "terminal " + id + a, i); break;
            case I::ebnf_terminal_string: put(ind(d) + "string " + id + a, i); break;
            case I::ebnf_terminal_character: put(ind(d) + "character " + id + a, i); break;
            case I::ebnf_guard: put(ind(d) + "guard" + (i.attributes().guard_can_clash ? " can-clash" : "") + a, i); for (auto x = i.begin(); x != i.end(); ++x) item(**x, d + 1); break;
            case I::ebnf_repeat_zero: put(ind(d) + "star" + a, i); for (auto x = i.begin(); x != i.end(); ++x) item(**x, d + 1); break;
            case I::ebnf_repeat_one: put(ind(d) + "plus" + a, i); for (auto x = i.begin(); x != i.end(); ++x) item(**x, d + 1); break;
            case I::ebnf_optional: put(ind(d) + "optional" + a, i); for (auto x = i.begin(); x != i.end(); ++x) item(**x, d + 1); break;
            case I::ebnf_parenthesized: put(ind(d) + "sequence" + a, i); for (auto x = i.begin(); x != i.end(); ++x) item(**x, d + 1); break;
            case I::ebnf_alternative: put(ind(d) + "alternatives" + a, i); for (auto x = i.begin(); x != i.end(); ++x) alt(**x, d + 1, x + 1 == i.end()); break;
            default: put(ind(d) + "?", i);
        }
    }
    // the last alternative of a nested pair holds the rest of the list; a parenthesised one of its own has the same form,
    // so the model is flattened in the same way
    void alt(yy_language::ebnf_item& i, int d, bool last) {
        if (last && i.get_type() == yy_language::ebnf_item::ebnf_alternative && at(i.attributes()).empty()) { for (auto x = i.begin(); x != i.end(); ++x) alt(**x, d, x + 1 == i.end()); return; }
        item(i, d);
    }
    void file(const yy_language::definition_file& f) {
        for (auto b = f.begin(); b != f.end(); ++b) {
            if ((*b)->language()) language(*(*b)->language());
            if ((*b)->import()) put("import " + narrow((*b)->import()->import_filename()), *(*b)->import());
            if ((*b)->parser()) {
                string t = "parser " + narrow((*b)->parser()->parser_name()) + " for " + narrow((*b)->parser()->language_name());
                for (auto& s : (*b)->parser()->start_symbols()) t += " " + narrow(s);
                put(t, *(*b)->parser());
            }
            if ((*b)->test()) {
                auto& t = *(*b)->test(); put("test " + narrow(t.language()), t);
                for (auto d = t.begin(); d != t.end(); ++d) {
                    yy_language::test_definition& x = **d; typedef yy_language::test_definition D;
                    int e = put(" case " + narrow(x.nonterminal_language()) + "." + narrow(x.nonterminal()) + (x.type() == D::match ? " = " : x.type() == D::no_match ? " != " : " from ") + narrow(x.identifier()) + "(" + narrow(x.test_string()) + ")", x);
                    el[e].strTok = 2; el[e].so = x.test_string_position().offset(); el[e].sl = x.test_string_position().line(); el[e].sc = x.test_string_position().column();
                }
            }
        }
    }
    void language(const yy_language::language_block& l) {
        string t = "language " + narrow(l.identifier()); for (auto& i : l.inherits()) t += " : " + narrow(i);
        put(t, l);
        for (auto u = l.begin(); u != l.end(); ++u) {
            typedef yy_language::language_unit U;
            if (yy_language::lexer_block* b = (*u)->any_lexer_block()) {
                string k = (*u)->type() == U::unit_lexer_symbols ? "lexer-symbols" : (*u)->type() == U::unit_lexer_definition ? "lexer" : (*u)->type() == U::unit_ignore_definition ? "ignore" : (*u)->type() == U::unit_keywords_definition ? "keywords" : "?";
                put(" block " + k + (b->is_weak() ? " weak" : "") + (b->is_case_insensitive() ? " insensitive" : "") + (b->is_case_sensitive() ? " sensitive" : ""), *b);
                for (auto d = b->begin(); d != b->end(); ++d) {
                    typedef yy_language::lexeme_definition L; const L& x = **d;
                    string ty = x.get_type() == L::literal ? "literal " : x.get_type() == L::string ? "string " : x.get_type() == L::character ? "character " : "regex ";
                    int e = put("  " + ty + narrow(x.identifier()) + (x.get_type() == L::literal ? " " : x.add_to_definition() ? " |= " : x.replace_definition() ? " replace " : " = ") + narrow(x.definition()), x);
                    el[e].strTok = 1; el[e].so = x.definition_pos().offset(); el[e].sl = x.definition_pos().line(); el[e].sc = x.definition_pos().column();
                }
            }
            if (yy_language::grammar_block* g = (*u)->grammar_definition()) {
                put(" grammar", *g);
                for (auto n = g->begin(); n != g->end(); ++n) {
                    typedef yy_language::nonterminal_definition N;
                    put("  " + narrow((*n)->identifier()) + ((*n)->get_type() == N::assignment ? " =" : (*n)->get_type() == N::addition ? " |=" : " replace"), **n);
                    for (auto p = (*n)->begin(); p != (*n)->end(); ++p) { put("    production", **p); for (auto i = (*p)->begin(); i != (*p)->end(); ++i) item(**i, 3); }
                }
            }
            if (yy_language::precedence_block* p = (*u)->precedence_definition()) {
                put(" precedence", *p);
                for (auto i = p->begin(); i != p->end(); ++i) { put(i->assoc == yy_language::precedence_block::left ? "  left" : i->assoc == yy_language::precedence_block::right ? "  right" : "  nonassoc", *p); for (auto x : i->items) item(*x, 2); }
            }
        }
    }
};

}
#endif
