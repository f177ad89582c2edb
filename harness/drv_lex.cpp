// Monitors for the lexer part: regular expressions, automaton pipeline, tokenisation, symbol sets, UTF-8, case folding.
#include "common.h"
#include "regex_ref.h"
#include "uni_cat.h"
#include <memory>
#include "TameParse/Dfa/lexer.h"
#include "TameParse/Dfa/ndfa_regex.h"
#include "TameParse/Dfa/character_lexer.h"
#include "TameParse/Dfa/symbol_set.h"
#include "TameParse/Dfa/symbol_map.h"
#include "TameParse/Dfa/remapped_symbol_map.h"
#include "TameParse/Dfa/symbol_translator.h"
#include "TameParse/Dfa/hard_coded_symbol_table.h"
#include "TameParse/Dfa/state_machine.h"
#include "TameParse/Util/utf8reader.h"
#include "TameParse/Util/stringreader.h"
#include "TameParse/Util/unicode.h"

using namespace vf;
using namespace dfa;
using std::string; using std::wstring; using std::vector; using std::set; using std::map; using std::pair;
typedef std::unique_ptr<ndfa> ndfa_p;

// ---------------------------------------------------------------------------------------------------------------
struct tok { int id; istr text; int off, line, col; };

// feeds symbols one at a time
class int_stream : public lexer_symbol_stream {
    istr s; size_t p;
public:
    long* reads;
    int_stream(const istr& x, long* rd = 0) : s(x), p(0), reads(rd) {}
    lexer_symbol_stream& operator>>(int& r) { if (reads) ++*reads; r = p < s.size() ? s[p++] : symbol_set::end_of_input; return *this; }
};

static vector<tok> drain(lexeme_stream* st, ctx& c, size_t limit) {
    vector<tok> res;
    for (;;) {
        lexeme* l = NULL;
        (*st) >> l;
        if (!l) break;
        tok t; t.id = l->matched(); t.text = l->content(); t.off = l->pos().offset(); t.line = l->pos().line(); t.col = l->pos().column();
        res.push_back(t);
        delete l;
        if (res.size() > limit + 2) { c.fail("lexer-does-not-stop", "more lexemes than input symbols"); break; }
    }
    c.count("lexemes", (long)res.size());
    return res;
}

static string show(const vector<tok>& v) {
    std::ostringstream o;
    for (auto& t : v) o << t.id << ":'" << u8s(t.text) << "' ";
    return o.str();
}

// reference tokenisation: longest match, ties to the first of `order`, one rejected symbol at a time
struct spec { vector<rep> re; vector<istr> src; vector<int> id; };
static vector<tok> ref_lex(const spec& s, const istr& in, std::function<bool(const vf::re&, int)> has = set_has) {
    vector<tok> res; matcher m(in); m.has = has;
    size_t p = 0;
    while (p < in.size()) {
        size_t best = 0; int id = -1;
        for (size_t i = 0; i < s.re.size(); ++i) {
            size_t n = m.longest(*s.re[i], p);
            if (n > best || (n == best && n > 0 && s.id[i] < id)) { best = n; id = s.id[i]; }
        }
        if (best == 0) best = 1, id = -1;
        tok t; t.id = id; t.text = in.substr(p, best); t.off = (int)p; t.line = t.col = 0;
        res.push_back(t);
        p += best;
    }
    return res;
}
static bool same_tokens(const vector<tok>& a, const vector<tok>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i].id != b[i].id || a[i].text != b[i].text) return false;
    return true;
}

static void pick_alphabet(rng& r, regex_gen& g) {
    static const vector<vector<int>> sets = {
        {'a','b'}, {'a','b','c'}, {'a','b','c','d','0','1'}, {'a','(',')','*','|','?'}, {'[',']','{','}','\\','.','+','^','-'},
        {'a', 0xff, 0x100, 0x101, 0x1ff, 0x200}, {0, 1, 7, 9, 10, 13, 0x1b, 0x0c, 'a'}, {0xfe, 0xff, 0x100, 'z', 0x17e, 0x3b1},
        {'x', 0x10000, 0x10001, 0x103ff, 0x10400, 0x107ff, 0x1f600}, {0xfffd, 0xffff, 0x10000, 0x10ffff, 0x10fc00, 'a'},
        {'a', 'b', 0x4e00, 0x9fff, 0xac00, 0xfffe}, {'A','Z','a','z','0','9','_',' '},
        {0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800}, {0x12000, 0x12345, 0x12fff, 0x2ffff, 'q', 0x30000},
        {'a', '0', '\n', ' ', 0x20ac, 0x2028} };
    g.alphabet = sets[r.below((int)sets.size())];
}

static spec make_spec(ctx& c, regex_gen& g, int maxTok) {
    spec s; rng& r = c.r;
    int n = r.range(1, maxTok);
    for (int i = 0; i < n; ++i) {
        rep x = g.gen(r.range(1, 4));
        s.re.push_back(x);
        s.src.push_back(g.print(*x, 0));
        s.id.push_back(i);
    }
    // symbol ids need not be in definition order
    if (r.chance(1, 3)) for (int i = n - 1; i > 0; --i) std::swap(s.id[i], s.id[r.below(i + 1)]);
    for (int i = 0; i < n; ++i) c.note("token " + std::to_string(s.id[i]) + " = /" + u8s(s.src[i]) + "/");
    return s;
}

static istr make_input(ctx& c, regex_gen& g, const spec& s) {
    rng& r = c.r; istr in;
    int parts = r.range(1, 5);
    for (int i = 0; i < parts; ++i) {
        int w = r.below(6);
        if (w < 4) g.sample(*s.re[r.below((int)s.re.size())], in);
        else for (int k = r.range(1, 4); k > 0; --k) in += w == 4 ? r.pick(g.alphabet) : r.pick(vector<int>{'a','b','c','z',0xff,0x100,0x200,0xfffe,0x10000,0x10ffff,0x1f601,'\n',' '});
        if (r.chance(1, 4) && !in.empty()) in.erase(r.below((int)in.size()), 1);
        if (r.chance(1, 6) && !in.empty()) in[r.below((int)in.size())] = r.pick(g.alphabet);
        if (in.size() > 60) break;
    }
    in = to_utf16(in);
    if (r.chance(1, 8) && in.size() > 1) in.erase(r.below((int)in.size()), 1);     // may leave a lone surrogate
    return in;
}

// ---------------------------------------------------------------------------------------------------------------
// C01: regular expressions and longest match
// the predefined classes {unicode-set-modifier} against the Unicode database
static const char* cat_at(int cp) {
    int lo = 0, hi = UNI_CAT_COUNT; while (lo < hi) { int m = (lo + hi) / 2; if (UNI_CAT[m].b < cp) lo = m + 1; else hi = m; }
    return lo < UNI_CAT_COUNT && UNI_CAT[lo].a <= cp ? UNI_CAT[lo].cat : 0;
}
static void unicode_classes(ctx& c) {
    static const struct { const char* name; const char* cat; } sets[] = {
        {"letter","L"},{"mark","M"},{"number","N"},{"punctuation","P"},{"symbol","S"},{"separator","Z"},{"control","C"},{"letter-uppercase","Lu"},{"letter-lowercase","Ll"},{"letter-titlecase","Lt"},{"letter-modifier","Lm"},{"letter-other","Lo"},
        {"mark-nonspacing","Mn"},{"mark-spacing","Mc"},{"mark-enclosing","Me"},{"number-decimal","Nd"},{"number-letter","Nl"},{"number-other","No"},{"punctuation-connector","Pc"},{"punctuation-dash","Pd"},{"punctuation-open","Ps"},
        {"punctuation-close","Pe"},{"punctuation-initial","Pi"},{"punctuation-final","Pf"},{"punctuation-other","Po"},{"symbol-math","Sm"},{"symbol-currency","Sc"},{"symbol-modifier","Sk"},{"symbol-other","So"},{"separator-space","Zs"},
        {"separator-line","Zl"},{"separator-paragraph","Zp"},{"control-control","Cc"},{"control-format","Cf"},{"control-private","Co"} };
    rng& r = c.r; auto& s = sets[r.below(35)]; static const char* pre[] = { "unicode-", "uni-", "u-" };
    string re = string("{") + pre[r.below(3)] + s.name + "}"; c.note("/" + re + "/");
    ndfa_regex* nfa = new ndfa_regex(); istr w; for (char ch : re) w += ch;
    if (!nfa->check_regex(w).empty()) c.fail("valid-regex-reported", "a predefined class is reported as erroneous: " + re);
    nfa->add_regex(0, w, accept_action(7, false)); lexer lex(nfa); lex.compile(false);
    int tested = 0;
    for (int k = 0; k < 300; ++k) {
        int cp; auto& row = UNI_CAT[r.below(UNI_CAT_COUNT)];
        switch (r.below(6)) { case 0: cp = r.below(0x110000); break; case 1: cp = r.below(0x3000); break; case 2: cp = row.a; break; case 3: cp = row.b; break; case 4: cp = row.b + 1; break; default: cp = row.a + r.below(row.b - row.a + 1); }
        const char* k2 = cat_at(cp); if (!k2 || (cp >= 0xd800 && cp < 0xe000)) continue;
        if (cp > 0xffff && string(s.cat) == "C") continue;      // surrogates, which the lexer works on, are members of this class themselves
        bool want = k2[0] == s.cat[0] && (!s.cat[1] || k2[1] == s.cat[1]);
        istr in; if (cp > 0xffff) { in += 0xd800 + ((cp - 0x10000) >> 10); in += 0xdc00 + ((cp - 0x10000) & 0x3ff); } else in += cp;
        std::unique_ptr<lexeme_stream> st(lex.create_stream(new int_stream(in)));
        vector<tok> got = drain(st.get(), c, in.size());
        bool is = got.size() >= 1 && got[0].id == 7 && got[0].text == in;
        ++tested; c.count("class_members_checked");
        if (is != want) { c.fail("unicode-class", u8(cp) + " (U+" + std::to_string(cp) + ") has category " + k2 + " and " + re + (is ? " matches it" : " does not match it")); return; }
    }
    if (tested > 100) c.nontrivial = true;
}
static void c01(ctx& c) {
    if (c.r.chance(1, 60)) { unicode_classes(c); return; }
    regex_gen g(c.r); pick_alphabet(c.r, g);
    bool useNamed = c.r.chance(1, 3);
    vector<pair<istr, istr>> defs;
    if (useNamed) {
        for (int i = 0; i < 2; ++i) {
            rep d = g.gen(2);
            istr nm = g.ascii(i ? "name-two" : "one");
            istr src = g.print(*d, 0);
            defs.push_back(std::make_pair(nm, src));
            c.note("define {" + u8s(nm) + "} = /" + u8s(src) + "/");
            g.named.push_back(std::make_pair(nm, d));
        }
    }
    spec s = make_spec(c, g, 4);
    ndfa_regex* nfa = new ndfa_regex();
    for (auto& d : defs) nfa->define_expression(d.first, d.second);
    for (size_t i = 0; i < s.re.size(); ++i) {
        vector<regex_error> err = nfa->check_regex(s.src[i]);
        c.count("expressions_checked");
        if (!err.empty()) c.fail("valid-regex-reported", "a well-formed expression is reported as erroneous: /" + u8s(s.src[i]) + "/");
        nfa->add_regex(0, s.src[i], accept_action(s.id[i], false));
    }
    lexer lex(nfa);
    lex.compile(c.r.chance(1, 4));
    int rounds = 6;
    for (int k = 0; k < rounds; ++k) {
        istr in = make_input(c, g, s);
        c.note("input '" + u8s(in) + "'");
        vector<tok> want = ref_lex(s, in);
        std::unique_ptr<lexeme_stream> st(lex.create_stream(new int_stream(in)));
        vector<tok> got = drain(st.get(), c, in.size());
        for (auto& t : want) if (t.text.size() > 1) c.nontrivial = true;
        if (!same_tokens(want, got)) c.fail("tokens-differ", "input '" + u8s(in) + "': expected " + show(want) + " got " + show(got));
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C02: tokenisation conserves the input; positions are right; the source does not matter
struct posref { int off = 0, line = 0, col = 0; bool cr = false; };
static void step(posref& p, int ch) {
    ++p.off;
    if (ch == 0x0a && p.cr) { p.cr = false; return; }             // second half of CR LF
    p.cr = ch == 0x0d;
    if (ch == 0x0a || ch == 0x0d || ch == 0x0b || ch == 0x0c || ch == 0x85 || ch == 0x2028 || ch == 0x2029) { ++p.line; p.col = 0; }
    else ++p.col;
}
static string utf8(const istr& in) { string o; for (size_t i = 0; i < in.size(); ++i) {
        int ch = in[i];
        if (ch >= 0xd800 && ch < 0xdc00 && i + 1 < in.size() && in[i+1] >= 0xdc00 && in[i+1] < 0xe000) { ch = 0x10000 + ((ch - 0xd800) << 10) + (in[i+1] - 0xdc00); ++i; }
        if (ch < 0x80) o += (char)ch;
        else if (ch < 0x800) { o += (char)(0xc0 | ch >> 6); o += (char)(0x80 | (ch & 63)); }
        else if (ch < 0x10000) { o += (char)(0xe0 | ch >> 12); o += (char)(0x80 | ((ch >> 6) & 63)); o += (char)(0x80 | (ch & 63)); }
        else { o += (char)(0xf0 | ch >> 18); o += (char)(0x80 | ((ch >> 12) & 63)); o += (char)(0x80 | ((ch >> 6) & 63)); o += (char)(0x80 | (ch & 63)); }
    } return o; }

static void check_stream(ctx& c, const istr& in, const vector<tok>& got, const char* src) {
    istr all; posref p;
    string why;
    for (auto& t : got) {
        if (t.text.empty()) why = "an empty lexeme";
        if (t.id < 0 && t.text.size() != 1) why = "an unrecognised lexeme of more than one symbol";
        if (t.off != p.off || t.line != p.line || t.col != p.col) {
            std::ostringstream o; o << "lexeme at offset " << p.off << " (line " << p.line << ", column " << p.col << ") reports offset " << t.off << " line " << t.line << " column " << t.col;
            c.fail("position", string(src) + ": " + o.str()); return;
        }
        for (int ch : t.text) step(p, ch);
        all += t.text;
        c.count("positions_checked");
    }
    if (all != in) c.fail("input-not-conserved", string(src) + ": the lexemes spell '" + u8s(all) + "' for the input '" + u8s(in) + "'");
    if (!why.empty()) c.fail("lexeme-shape", string(src) + ": " + why);
}

static void c02(ctx& c) {
    regex_gen g(c.r);
    g.alphabet = c.r.chance(1, 2) ? vector<int>{'a', 'b', ' ', '\n', '\r'} : vector<int>{'a', '\n', '\r', 0x0b, 0x0c, 0x85, 0x2028, 0x2029, 0x1f600, 0xe9};
    spec s = make_spec(c, g, 3);
    ndfa_regex* nfa = new ndfa_regex();
    for (size_t i = 0; i < s.re.size(); ++i) nfa->add_regex(0, s.src[i], accept_action(s.id[i], false));
    lexer lex(nfa); lex.compile(c.r.chance(1, 3));
    for (int k = 0; k < 4; ++k) {
        istr in;
        int n = c.r.chance(1, 6) ? 0 : c.r.range(1, 40);
        while ((int)in.size() < n) { if (c.r.chance(1, 3)) g.sample(*c.r.pick(s.re), in); else in += c.r.pick(g.alphabet); }
        for (auto& ch : in) if (ch >= 0xd800 && ch < 0xe000) ch = 'a';
        in = to_utf16(in);
        c.note("input '" + u8s(in) + "'");
        if (in.size() > 2) c.nontrivial = true;
        // from a symbol stream; the lexer must not read past the end marker more than it has to
        std::unique_ptr<lexeme_stream> st(lex.create_stream(new int_stream(in)));
        vector<tok> a = drain(st.get(), c, in.size());
        check_stream(c, in, a, "symbol stream");
        // asking again at the end of the input gives no lexeme
        for (int q = 0; q < 3; ++q) { lexeme* l = NULL; (*st) >> l; if (l) { c.fail("lexeme-after-end", "a lexeme after the end of the input"); delete l; } }
        // from a UTF-8 stream
        {
            std::istringstream is(utf8(in)); util::utf8reader rd(&is);
            std::unique_ptr<lexeme_stream> u(lex.create_stream_from<wchar_t>(rd));
            vector<tok> b = drain(u.get(), c, in.size());
            check_stream(c, in, b, "UTF-8 reader");
            if (!same_tokens(a, b)) c.fail("source-dependent", "UTF-8 reader: " + show(b) + " but symbols: " + show(a));
        }
        // from a wide string stream and a string reader
        wstring w; for (int ch : in) w += (wchar_t)ch;
        {
            std::wistringstream is(w);
            std::unique_ptr<lexeme_stream> u(lex.create_stream_from(is));
            vector<tok> b = drain(u.get(), c, in.size());
            check_stream(c, in, b, "wide stream");
            if (!same_tokens(a, b)) c.fail("source-dependent", "wide stream: " + show(b) + " but symbols: " + show(a));
        }
        {
            util::wstringreader rd(w);
            std::unique_ptr<lexeme_stream> u(lex.create_stream_from<wchar_t>(rd));
            vector<tok> b = drain(u.get(), c, in.size());
            check_stream(c, in, b, "string reader");
            if (!same_tokens(a, b)) c.fail("source-dependent", "string reader: " + show(b) + " but symbols: " + show(a));
        }
        // two streams of the same lexer, read alternately
        {
            std::unique_ptr<lexeme_stream> x(lex.create_stream(new int_stream(in))), y(lex.create_stream(new int_stream(in)));
            for (size_t i = 0; i <= a.size(); ++i) {
                lexeme *lx = NULL, *ly = NULL; (*x) >> lx; (*y) >> ly;
                bool ok = i < a.size() ? (lx && ly && lx->content() == a[i].text && ly->content() == a[i].text && lx->matched() == a[i].id && ly->matched() == a[i].id) : (!lx && !ly);
                if (lx) { posref q; q.off = a[i < a.size() ? i : 0].off; q.line = a[i < a.size() ? i : 0].line; q.col = a[i < a.size() ? i : 0].col; q.cr = false;
                    // final position = position after the lexeme's text (a CR before the lexeme only matters to an LF at its start)
                    if (!(lx->content()[0] == 0x0a)) { for (int ch : lx->content()) step(q, ch); position f = lx->final_pos();
                        if (f.offset() != q.off || f.line() != q.line || f.column() != q.col) c.fail("final-position", "the end position of a lexeme is wrong"); } }
                delete lx; delete ly;
                if (!ok) { c.fail("streams-interfere", "two streams of one lexer disagree with a single one"); break; }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C03: every stage and representation of the automaton is equivalent
typedef state_machine_tables<wchar_t, hard_coded_symbol_table<wchar_t, 2>> hc_machine;
struct hc_lexer {                       // the table form that generated parsers use
    vector<state_machine_compact_table<false>::entry> entries;
    vector<const state_machine_compact_table<false>::entry*> rows;
    vector<int> accept;
    int* table;
    std::unique_ptr<hard_coded_symbol_table<wchar_t, 2>> st;
    std::unique_ptr<hc_machine> sm;
    std::unique_ptr<basic_lexer> lex;
    size_t size;
    explicit hc_lexer(const ndfa& d) {
        symbol_table<wchar_t> levels;
        for (symbol_map::iterator i = d.symbols().begin(); i != d.symbols().end(); ++i)
            for (symbol_set::iterator j = i->first->begin(); j != i->first->end(); ++j) levels.add_range(*j, i->second);
        int* raw = levels.table.to_hard_coded_table(size);
        table = new int[size]; memcpy(table, raw, size * sizeof(int)); delete[] raw;
        vector<size_t> offs;
        for (int s = 0; s < d.count_states(); ++s) {
            offs.push_back(entries.size());
            map<int, int> sorted;
            for (state::iterator t = d.get_state(s).begin(); t != d.get_state(s).end(); ++t) sorted[t->symbol_set()] = t->new_state();
            for (auto& e : sorted) { state_machine_compact_table<false>::entry x = { e.first, e.second }; entries.push_back(x); }
            int a = -1; const accept_action* hi = NULL;
            for (auto* act : d.actions_for_state(s)) if (!hi || *hi < *act) hi = act;
            if (hi) a = hi->symbol();
            accept.push_back(a);
        }
        offs.push_back(entries.size());
        entries.reserve(entries.size() + 1);
        for (size_t o : offs) rows.push_back(entries.data() + o);
        st.reset(new hard_coded_symbol_table<wchar_t, 2>(table));
        sm.reset(new hc_machine(*st, rows.data(), d.count_states()));
        lex.reset(new dfa_lexer_base<const hc_machine&, 0, 0, false, const hc_machine&>(*sm, d.count_states(), accept.data()));
    }
    ~hc_lexer() { delete[] table; }
};

static void c03(ctx& c) {
    regex_gen g(c.r); pick_alphabet(c.r, g);
    spec s = make_spec(c, g, 4);
    ndfa_regex nfa;
    for (size_t i = 0; i < s.re.size(); ++i) nfa.add_regex(0, s.src[i], accept_action(s.id[i], false));
    vector<pair<string, ndfa_p>> stages;
    ndfa_p uniq(nfa.to_ndfa_with_unique_symbols());
    ndfa_p det(uniq->to_dfa());
    if (!uniq->verify_no_symbol_overlap()) c.fail("overlap", "symbol sets overlap after the unique-symbols stage");
    if (!det->verify_is_dfa()) c.fail("not-deterministic", "the determinised automaton is not deterministic");
    ndfa_p comp(det->to_compact_dfa());
    ndfa_p merg(comp->to_ndfa_with_merged_symbols());
    ndfa_p merg2(det->to_ndfa_with_merged_symbols());
    ndfa_p copy(new ndfa(*det));
    ndfa_p asg(new ndfa()); *asg = *merg;
    c.count("nfa_states", nfa.count_states()); c.count("dfa_states", det->count_states()); c.count("compact_states", comp->count_states());
    stages.push_back(std::make_pair("dfa", std::move(det)));
    stages.push_back(std::make_pair("compact dfa", std::move(comp)));
    stages.push_back(std::make_pair("compact dfa with merged symbols", std::move(merg)));
    stages.push_back(std::make_pair("dfa with merged symbols", std::move(merg2)));
    stages.push_back(std::make_pair("copied dfa", std::move(copy)));
    stages.push_back(std::make_pair("assigned dfa", std::move(asg)));
    struct variant { string name; basic_lexer* l; };
    vector<variant> vs; vector<std::unique_ptr<basic_lexer>> own; vector<std::unique_ptr<hc_lexer>> hcs;
    for (auto& st : stages) {
        if (!st.second->verify_no_symbol_overlap()) c.fail("overlap", "symbol sets overlap in " + st.first);
        if (!st.second->verify_is_dfa()) c.fail("not-deterministic", st.first + " is not deterministic");
        own.emplace_back(new dfa_lexer<wchar_t, state_machine_flat_table>(*st.second)); vs.push_back(variant{st.first + " / flat table", own.back().get()});
        own.emplace_back(new dfa_lexer<wchar_t, state_machine_compact_table<> >(*st.second)); vs.push_back(variant{st.first + " / compact table", own.back().get()});
        own.emplace_back(new dfa_lexer<int, state_machine_flat_table>(*st.second)); vs.push_back(variant{st.first + " / 32-bit symbols", own.back().get()});
        hcs.emplace_back(new hc_lexer(*st.second)); vs.push_back(variant{st.first + " / hard-coded tables", hcs.back()->lex.get()});
    }
    c.count("variants", (long)vs.size());
    for (int k = 0; k < 5; ++k) {
        istr in = make_input(c, g, s);
        c.note("input '" + u8s(in) + "'");
        vector<tok> want = ref_lex(s, in);
        for (auto& t : want) if (t.text.size() > 1) c.nontrivial = true;
        for (auto& v : vs) {
            std::unique_ptr<lexeme_stream> st(v.l->create_stream(new int_stream(in)));
            vector<tok> got = drain(st.get(), c, in.size());
            if (!same_tokens(want, got)) { c.fail("variant:" + v.name.substr(v.name.find(" / ") + 3), v.name + ", input '" + u8s(in) + "': expected " + show(want) + " got " + show(got)); return; }
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C04: symbol set algebra, symbol maps, translation tables, against plain sets of integers
typedef set<int> iset;
static vector<int> breakpoints() { return vector<int>{0,1,2,5,10,64,127,128,255,256,257,300,511,512,513,0x7ff,0x800,0xfeff,0xff00,0xff01,0xffff,0x10000,0x10001,0x1ffff}; }
struct mset {        // model: sorted disjoint ranges over probe points
    std::function<bool(int)> has;
};
static void c04(ctx& c) {
    rng& r = c.r;
    vector<int> bp = breakpoints();
    if (r.chance(1, 2)) { bp.clear(); for (int i = 0; i < 40; ++i) bp.push_back(i); }
    vector<int> probes;
    for (int b : bp) for (int d = -1; d <= 1; ++d) if (b + d >= 0) probes.push_back(b + d);
    probes.push_back(0x7ffffffe);
    std::sort(probes.begin(), probes.end()); probes.erase(std::unique(probes.begin(), probes.end()), probes.end());
    typedef vector<char> bits;
    int np = (int)probes.size();
    auto of_range = [&](int a, int b) { bits x(np); for (int i = 0; i < np; ++i) x[i] = probes[i] >= a && probes[i] < b; return x; };
    vector<pair<symbol_set, bits>> pool;
    pool.push_back(std::make_pair(symbol_set(), bits(np)));
    auto describe = [&](const bits& b) { string s; for (int i = 0; i < np; ++i) if (b[i]) s += std::to_string(probes[i]) + " "; return s; };
    auto verify = [&](symbol_set& s, const bits& b, const string& op) {
        int lastUpper = -1; bool first = true;
        for (symbol_set::iterator i = s.begin(); i != s.end(); ++i) {
            if (i->lower() >= i->upper()) { c.fail("empty-range", op + " left an empty range"); return; }
            if (!first && i->lower() <= lastUpper) { c.fail("not-normalised", op + " left overlapping or unmerged ranges"); return; }
            first = false; lastUpper = i->upper();
        }
        for (int i = 0; i < np; ++i) {
            bool byRange = false; for (symbol_set::iterator j = s.begin(); j != s.end(); ++j) if ((*j)[probes[i]]) byRange = true;
            c.count("membership_probes");
            if (s[probes[i]] != (bool)b[i] || byRange != (bool)b[i]) { c.fail("membership", op + ": symbol " + std::to_string(probes[i]) + (b[i] ? " is missing" : " should not be there") + "; expected members (of the probes) " + describe(b)); return; }
        }
    };
    int ops = r.range(5, 30);
    for (int k = 0; k < ops && !c.fails; ++k) {
        int w = r.below(9);
        int i = r.below((int)pool.size()), j = r.below((int)pool.size());
        int a = r.pick(bp), b = r.pick(bp); if (a > b) std::swap(a, b); if (a == b) b = a + 1;
        symbol_set s = pool[i].first; bits x = pool[i].second; bits rg = of_range(a, b);
        string op;
        switch (w) {
            case 0: case 1: op = "add range"; s |= range<int>(a, b); for (int q = 0; q < np; ++q) x[q] |= rg[q]; break;
            case 2: op = "union"; s |= pool[j].first; for (int q = 0; q < np; ++q) x[q] |= pool[j].second[q]; break;
            case 3: op = "intersection"; s &= pool[j].first; for (int q = 0; q < np; ++q) x[q] &= pool[j].second[q]; break;
            case 4: op = "exclude range"; s.exclude(range<int>(a, b)); for (int q = 0; q < np; ++q) x[q] &= !rg[q]; break;
            case 5: op = "exclude set"; s.exclude(pool[j].first); for (int q = 0; q < np; ++q) x[q] &= !pool[j].second[q]; break;
            case 6: op = "invert"; s.invert(); for (int q = 0; q < np; ++q) x[q] = !x[q]; break;
            case 7: op = "add symbol"; s |= range<int>(a); { bits o = of_range(a, a + 1); for (int q = 0; q < np; ++q) x[q] |= o[q]; } break;
            case 8: op = "intersect range"; s &= range<int>(a, b); for (int q = 0; q < np; ++q) x[q] &= rg[q]; break;
        }
        c.note(op + " [" + std::to_string(a) + "," + std::to_string(b) + ") on set " + std::to_string(i) + " with set " + std::to_string(j));
        verify(s, x, op);
        pool.push_back(std::make_pair(s, x));
    }
    c.nontrivial = pool.size() > 6;
    // equality and order agree with the contents
    for (size_t i = 0; i < pool.size() && !c.fails; ++i) for (size_t j = 0; j < pool.size(); ++j) {
        symbol_set &p = pool[i].first, &q = pool[j].first;
        bool eq = p == q, lt = p < q, gt = q < p;
        c.count("comparisons");
        if ((int)eq + (int)lt + (int)gt != 1) { c.fail("order", "== and < are not a total order"); break; }
        if (eq && pool[i].second != pool[j].second) { c.fail("equality", "sets with different members compare equal"); break; }
        if (!eq && pool[i].second == pool[j].second) {
            // the probes may not see the difference: compare the ranges
            vector<pair<int,int>> u, v; for (auto z = p.begin(); z != p.end(); ++z) u.push_back(std::make_pair(z->lower(), z->upper())); for (auto z = q.begin(); z != q.end(); ++z) v.push_back(std::make_pair(z->lower(), z->upper()));
            if (u == v) { c.fail("equality", "equal sets compare different"); break; }
        }
        if ((p <= q) != (lt || eq) || (p >= q) != (gt || eq) || (p > q) != gt || (p != q) == eq) { c.fail("order", "the comparison operators disagree with each other"); break; }
    }
    // deduplication: disjoint, covering, and each old set is the union of its new sets
    symbol_map m; vector<pair<int, bits>> ids;
    for (auto& p : pool) { if (p.first.empty()) continue; int id = m.identifier_for_symbols(p.first); ids.push_back(std::make_pair(id, p.second));
        if (m.identifier_for_symbols(p.first) != id || m.find_identifier_for_symbols(p.first) != id || !(m[id] == p.first)) c.fail("symbol-map", "a symbol set does not keep its identifier"); }
    std::unique_ptr<remapped_symbol_map> d(remapped_symbol_map::deduplicate(m));
    if (d->has_duplicates()) c.fail("dedupe-overlap", "deduplicated sets overlap");
    map<int, bits> parts;
    for (symbol_map::iterator it = d->begin(); it != d->end(); ++it) { symbol_set ss = *it->first.item(); bits b(np); for (int q = 0; q < np; ++q) b[q] = ss[probes[q]]; parts[it->second] = b; }
    for (int q = 0; q < np; ++q) { int n = 0; for (auto& p : parts) n += p.second[q]; if (n > 1) c.fail("dedupe-overlap", "symbol " + std::to_string(probes[q]) + " is in two deduplicated sets"); }
    for (auto& id : ids) {
        bits u(np); for (int n : d->new_symbols(id.first)) for (int q = 0; q < np; ++q) u[q] |= parts[n][q];
        if (u != id.second) { c.fail("dedupe-cover", "the deduplicated parts of a set are not the set: expected " + describe(id.second) + "got " + describe(u)); break; }
        c.count("dedupe_sets");
    }
    // translation tables
    symbol_translator<wchar_t> t16(*d); symbol_translator<int> t32(*d); symbol_translator<wchar_t> t16c(t16);
    symbol_table<wchar_t> lv; for (symbol_map::iterator it = d->begin(); it != d->end(); ++it) for (auto z = it->first->begin(); z != it->first->end(); ++z) lv.add_range(*z, it->second);
    size_t hs; int* hct = lv.table.to_hard_coded_table(hs); hard_coded_symbol_table<wchar_t, 2> hard(hct);
    for (int q = 0; q < np; ++q) {
        int want = symbol_set::null; for (auto& p : parts) if (p.second[q]) want = p.first;
        c.count("table_lookups");
        if (t32.set_for_symbol(probes[q]) != want) { c.fail("table-32", "32-bit table gives the wrong set for symbol " + std::to_string(probes[q])); break; }
        if (probes[q] > 0xffff) continue;
        if (t16.set_for_symbol(probes[q]) != want || t16c.set_for_symbol(probes[q]) != want) { c.fail("table-16", "16-bit table gives set " + std::to_string(t16.set_for_symbol(probes[q])) + " instead of " + std::to_string(want) + " for symbol " + std::to_string(probes[q])); break; }
        if (hard.lookup(probes[q]) != want) { c.fail("table-hard", "hard-coded table gives set " + std::to_string(hard.lookup(probes[q])) + " instead of " + std::to_string(want) + " for symbol " + std::to_string(probes[q])); break; }
    }
    delete[] hct;
}

// ---------------------------------------------------------------------------------------------------------------
// C05: UTF-8 decoding
static void c05(ctx& c) {
    rng& r = c.r;
    string bytes; istr want; bool bad = false;
    int n = r.below(12);
    for (int i = 0; i < n; ++i) {
        int cls = r.below(6), cp = 0;
        if (cls == 0) cp = r.below(0x80); else if (cls == 1) cp = r.range(0x80, 0x7ff); else if (cls == 2) { cp = r.range(0x800, 0xffff); if (cp >= 0xd800 && cp < 0xe000) cp = 0x20ac; }
        else if (cls == 3) cp = r.range(0x10000, 0x10ffff); else if (cls == 4) cp = r.pick(vector<int>{0x7f,0x80,0x7ff,0x800,0xffff,0x10000,0x10ffff,0xd7ff,0xe000,0xfeff}); else cp = 'a' + r.below(26);
        istr one; one += cp; bytes += utf8(one); want += to_utf16(one);
    }
    if (n > 2) c.nontrivial = true;
    if (r.chance(1, 3)) {       // malformed tail: decoding stops at (or before) the malformed sequence, and nothing invented follows
        bad = true;
        switch (r.below(8)) {
            case 0: bytes += (char)r.range(0x80, 0xbf); break;              // lone continuation
            case 1: bytes += (char)r.range(0xf8, 0xff); bytes += "aaaa"; break;
            case 2: bytes += "\xc3"; break;                                   // truncated
            case 3: bytes += "\xe2\x82"; break;
            case 4: bytes += "\xf0\x9f\x98"; break;
            case 5: bytes += "\xf4\x90\x80\x80"; break;                     // beyond U+10FFFF
            case 6: bytes += "\xc3" "a" "b"; break;
            case 7: bytes += "\xe2" "a" "\x82" "b"; break;
        }
    }
    string hex; char b[4]; for (unsigned char ch : bytes) { snprintf(b, sizeof b, "%02x", ch); hex += b; }
    c.note("bytes " + hex);
    std::istringstream is(bytes); util::utf8reader rd(&is);
    istr got; int guard = 0;
    for (;;) { wchar_t ch = (wchar_t)r.next(); rd.get(ch); if (!rd.good()) break; got += (int)ch; c.count("code_units"); if (++guard > (int)bytes.size() * 2 + 4) { c.fail("utf8-endless", "the reader yields more code units than the bytes can hold"); return; } }
    if (got != want) c.fail(bad ? "utf8-malformed" : "utf8-decode", "decoded '" + u8s(got) + "' instead of '" + u8s(want) + "'");
    // once finished it stays finished
    for (int i = 0; i < 3; ++i) { wchar_t ch = 1; rd.get(ch); if (rd.good()) c.fail("utf8-resumes", "the reader becomes good again after the end"); }
}

// ---------------------------------------------------------------------------------------------------------------
// C06: case-insensitive expressions
static int lower_of(int ch) {
    if (ch >= 'A' && ch <= 'Z') return ch + 32;
    if (ch >= 0xc0 && ch <= 0xde && ch != 0xd7) return ch + 32;
    if (ch >= 0x391 && ch <= 0x3a9 && ch != 0x3a2) return ch + 32;
    if (ch >= 0x410 && ch <= 0x42f) return ch + 32;
    if (ch >= 0x400 && ch <= 0x40f) return ch + 80;
    if (ch >= 0xff21 && ch <= 0xff3a) return ch + 32;
    if (ch >= 0x10400 && ch <= 0x10427) return ch + 40;
    if (ch >= 0x100 && ch <= 0x12f) return ch | 1;
    return ch;
}
static int upper_of(int ch) {
    if (ch >= 'a' && ch <= 'z') return ch - 32;
    if (ch >= 0xe0 && ch <= 0xfe && ch != 0xf7) return ch - 32;
    if (ch >= 0x3b1 && ch <= 0x3c9 && ch != 0x3c2) return ch - 32;
    if (ch >= 0x430 && ch <= 0x44f) return ch - 32;
    if (ch >= 0x450 && ch <= 0x45f) return ch - 80;
    if (ch >= 0xff41 && ch <= 0xff5a) return ch - 32;
    if (ch >= 0x10428 && ch <= 0x1044f) return ch - 40;
    if (ch >= 0x100 && ch <= 0x12f) return ch & ~1;
    return ch;
}
static bool has_ci(const vf::re& x, int cp) { return set_has(x, cp) || set_has(x, lower_of(cp)) || set_has(x, upper_of(cp)); }
static void c06(ctx& c) {
    rng& r = c.r; regex_gen g(r);
    // letters whose only case relatives are each other
    static const vector<vector<int>> al = { {'a','b','d','A','B','Q','1','_'}, {'m','n','o','p','x','M','P','X','[','`','@','{'},
        {0xe0,0xe8,0xc8,0xd0,0xf0,0xd7,0xf7,'a'}, {0x393,0x394,0x396,0x3b3,0x3b4,0x3b6,'z','Z'}, {0x410,0x411,0x416,0x430,0x431,0x436,0x401,0x451},
        {0xff21,0xff22,0xff41,0xff5a,'c'}, {0x10400,0x10410,0x10428,0x10438,'d'}, {0x102,0x103,0x110,0x111,0x128,'e','E'} };
    const vector<int>& A = al[r.below((int)al.size())];
    g.alphabet = A;
    spec s; int n = r.range(1, 3);
    vector<char> ci;
    ndfa_regex* nfa = new ndfa_regex();
    for (int i = 0; i < n; ++i) {
        rep x = g.gen(r.range(1, 3));
        s.re.push_back(x); s.src.push_back(g.print(*x, 0)); s.id.push_back(i); ci.push_back(r.chance(3, 4));
        c.note(string(ci[i] ? "insensitive" : "sensitive") + " token " + std::to_string(i) + " = /" + u8s(s.src[i]) + "/");
        nfa->set_case_insensitive(ci[i]);
        nfa->add_regex(0, s.src[i], accept_action(i, false));
        if (ci[i]) c.nontrivial = true;
    }
    map<const vf::re*, char> ciOf;
    std::function<void(const rep&, char)> mark = [&](const rep& x, char v) { ciOf[x.get()] = v; for (auto& k : x->c) mark(k, v); };
    for (int i = 0; i < n; ++i) mark(s.re[i], ci[i]);
    lexer lex(nfa); lex.compile();
    for (int k = 0; k < 6; ++k) {
        istr in;
        for (int q = r.range(1, 3); q > 0; --q) { if (r.chance(2, 3)) g.sample(*r.pick(s.re), in); else in += r.pick(A); }
        for (auto& ch : in) { // keep to characters whose case relatives the reference knows
            bool known = false; for (int a : A) if (ch == a || ch == lower_of(a) || ch == upper_of(a)) known = true;
            if (!known) ch = r.pick(A);
            if (r.chance(1, 2)) ch = r.chance(1, 2) ? lower_of(ch) : upper_of(ch);
        }
        in = to_utf16(in);
        c.note("input '" + u8s(in) + "'");
        vector<tok> want = ref_lex(s, in, [&](const vf::re& x, int cp) { return ciOf[&x] ? has_ci(x, cp) : set_has(x, cp); });
        std::unique_ptr<lexeme_stream> st(lex.create_stream(new int_stream(in)));
        vector<tok> got = drain(st.get(), c, in.size());
        if (!same_tokens(want, got)) c.fail("case-tokens-differ", "input '" + u8s(in) + "': expected " + show(want) + " got " + show(got));
    }
    // the case maps themselves: membership of each alphabet character in the upper/lower image of a set
    {
        symbol_set ss; vector<pair<int,int>> rg;
        for (int q = r.range(1, 3); q > 0; --q) { int a = r.pick(A), b = r.pick(A); if (a > b) std::swap(a, b); rg.push_back(std::make_pair(a, b)); ss |= range<int>(a, b + 1); }
        symbol_set up = util::unicode().to_upper(ss), lo = util::unicode().to_lower(ss);
        for (int a : A) for (int v : {a, lower_of(a), upper_of(a)}) {
            // v is in the upper image iff some member has it as its uppercase form
            bool wu = false, wl = false;
            for (int pre : {v, lower_of(v), upper_of(v)}) { bool in = false; for (auto& p : rg) if (pre >= p.first && pre <= p.second) in = true; if (in && upper_of(pre) == v) wu = true; if (in && lower_of(pre) == v) wl = true; }
            c.count("case_image_probes");
            if (up[v] != wu) c.fail("upper-image", "uppercase image is wrong for " + u8(v));
            if (lo[v] != wl) c.fail("lower-image", "lowercase image is wrong for " + u8(v));
        }
    }
}

int main(int argc, char** argv) {
    return run_driver(argc, argv, { {"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06} });
}
