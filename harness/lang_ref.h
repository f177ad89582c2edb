// Reference meaning of a definition: an LALR(1) table with precedence and conflict attributes applied, run over tokens that
// may have a second (strong) meaning or be ignorable. Also the printer that writes such a definition as text.
#ifndef VERIF_LANG_REF_H
#define VERIF_LANG_REF_H
#include "cfg_ref.h"
namespace vf {

struct prec_block { std::map<int, std::pair<int, int>> of; };      // terminal -> level, 0 left 1 right 2 non-associative

struct rtoken { std::string shown() const { std::string r; for (char c : text) r += (unsigned char)c < 0x20 ? u8(c) : std::string(1, c); return r; } int t; int strong = -1; bool ignorable = false; std::string text; int offset = 0; rtoken(int x = 0) : t(x) {} };

struct ref_machine {
    enum { WEAK, SHIFT, REDUCE, ACC };
    struct act { int type, arg; };
    const bnf& g; const lalr_ref& m;
    std::vector<std::map<int, std::vector<act>>> tab;
    int srConflicts = 0, rrConflicts = 0, resolved = 0, weakened = 0;
    ref_machine(const lalr_ref& mm) : g(mm.g), m(mm) {
        tab.resize(m.act.size());
        for (size_t s = 0; s < m.act.size(); ++s) for (auto& c : m.act[s]) for (int a : c.second) {
            act x; x.type = a == lalr_ref::ACC ? ACC : a >= 0 ? SHIFT : REDUCE; x.arg = a == lalr_ref::ACC ? 0 : a >= 0 ? a : -1 - a;
            tab[s][c.first].push_back(x);
        }
    }
    int rule_prec(int p, const prec_block& b) const {      // terminal that gives the rule its precedence, or -1
        int f = -1;
        for (int x : g.prods[p].rhs) if (!bnf::isN(x) && b.of.count(x)) { if (f >= 0) return -1; f = x; }
        return f;
    }
    void apply(const prec_block& b) {
        for (auto& st : tab) for (auto& c : st) {
            if (c.first == g.END()) continue;
            int ns = 0, nr = 0, p = -1;
            for (auto& a : c.second) { if (a.type == SHIFT) ++ns; if (a.type == REDUCE) ++nr, p = a.arg; }
            if (ns != 1 || nr != 1) continue;
            int rt = rule_prec(p, b);
            if (rt < 0 || !b.of.count(c.first)) continue;
            int sp = b.of.at(c.first).first, rp = b.of.at(rt).first, as = b.of.at(rt).second, drop = -1;
            if (sp < rp) drop = SHIFT; else if (sp > rp) drop = REDUCE;
            else if (as == 0) drop = SHIFT; else if (as == 1) drop = REDUCE;
            if (drop < 0) continue;
            ++resolved;
            std::vector<act> n; for (auto& a : c.second) if (a.type != drop) n.push_back(a);
            c.second = n;
        }
    }
    // conflict attributes; returns false when a cell has contradictory ones (meaning not defined)
    bool apply_attributes() {
        for (size_t s = 0; s < tab.size(); ++s) {
            std::map<lalr_ref::item, std::set<int>> cl; bool have = false;
            for (auto& c : tab[s]) {
                if (c.first == g.END()) continue;
                int ns = 0, nr = 0;
                for (auto& a : c.second) { if (a.type == SHIFT) ++ns; if (a.type == REDUCE) ++nr; }
                if (!ns || !nr) continue;
                if (!have) cl = m.closure(m.st[s]), have = true;
                int at = 0;
                for (auto& i : cl) {
                    if (i.first.first < 0) continue;
                    auto& p = g.prods[i.first.first];
                    if (i.first.second >= (int)p.rhs.size() || p.rhs[i.first.second] != c.first) continue;
                    int a = p.attr[i.first.second];
                    if (a && at && a != at) return false;
                    if (a) at = a;
                }
                if (!at || (nr > 1 && at != 2)) continue;
                ++resolved;
                std::vector<act> n;
                for (auto a : c.second) {
                    if (at == 1 && a.type == REDUCE) continue;
                    if (at == 2 && a.type == SHIFT) continue;
                    if (at == 3 && a.type == REDUCE) { a.type = WEAK; ++weakened; }
                    n.push_back(a);
                }
                c.second = n;
            }
        }
        return true;
    }
    void finish() {
        for (auto& st : tab) for (auto& c : st) {
            std::stable_sort(c.second.begin(), c.second.end(), [](const act& a, const act& b) { return a.type < b.type; });
            int strong = 0; bool sh = false;
            for (auto& a : c.second) { if (a.type != WEAK) ++strong; if (a.type == SHIFT) sh = true; }
            if (strong > 1) { if (sh) ++srConflicts; else ++rrConflicts; }
        }
    }
    typedef std::vector<int> stack_t;
    void reduce(stack_t& s, int p) const { s.resize(s.size() - g.prods[p].rhs.size()); s.push_back(m.go[s.back()].at(g.prods[p].lhs)); }
    // the token will eventually be shifted (or the input accepted)
    bool will_shift(stack_t s, int t, int budget = 400) const {
        for (; budget > 0; --budget) {
            auto f = tab[s.back()].find(t);
            if (f == tab[s.back()].end()) return false;
            bool moved = false; int reds = 0, shifts = 0;
            for (auto& a : f->second) { if (a.type == SHIFT) ++shifts; if (a.type == REDUCE || a.type == ACC) ++reds; }
            if (!shifts && reds > 1) throw std::string("conflict");
            for (auto& a : f->second) {
                if (a.type == SHIFT || a.type == ACC) return true;
                if (a.type == WEAK) { stack_t w = s; reduce(w, a.arg); if (will_shift(w, t, budget / 2)) return true; continue; }
                reduce(s, a.arg); moved = true; break;
            }
            if (!moved) return false;
        }
        throw std::string("budget");
    }
    // ---- guards
    // does some beginning of the input from position p match the content of the guard?
    // A content without guards of its own is decided from the grammar alone (Earley); otherwise by running the automaton.
    bool matches(int guard, size_t p, const std::vector<rtoken>& in, long& budget) const {
        int gi = guard - g.realT;
        if (plain.empty()) find_plain();
        bool simple = plain[gi]; for (size_t k = p; k < in.size() && simple; ++k) if (in[k].strong >= 0 || in[k].ignorable) simple = false;
        int as = -2;
        if (simple) {
            std::vector<int> v; for (size_t k = p; k < in.size(); ++k) v.push_back(in[k].t);
            --budget;
            return earley(g, g.guardStart[gi], v, true).shortest > 0;
        }
        stack_t s(1, m.startState[g.starts.size() - g.guardStart.size() + gi]);
        for (;;) {
            if (--budget < 0) throw std::string("budget");
            if (will_shift(s, g.EOG())) return true;
            choice c = decide(s, p, in, budget, as, 0);
            if (c.guard >= 0) { shift_guard(s, c.guard, 0); as = -2; continue; }
            if (c.skip) { ++p; continue; }
            int t = as = c.t;
            auto f = tab[s.back()].find(t);
            if (f == tab[s.back()].end() || f->second.empty()) return false;
            if (f->second.size() > 1) throw std::string("conflict");
            const act& a = f->second[0];
            if (a.type == ACC) throw std::string("accept in a guard");
            if (a.type == SHIFT) { s.push_back(a.arg); ++p; as = -2; }
            else reduce(s, a.arg);
        }
    }
    // what the next token means here: a guard to shift, a token to skip, or the symbol it stands for
    struct choice { int guard = -1; bool skip = false; int t = 0; };
    choice decide(const stack_t& s, size_t p, const std::vector<rtoken>& in, long& budget, int as, int* tried) const {
        choice c; c.t = p < in.size() ? in[p].t : g.END();
        if (p >= in.size()) return c;
        if (as != -2) c.t = as;
        std::vector<int> mine = usable(s, c.t, p, in, budget, tried);
        if (mine.size() > 1) throw std::string("two guards match");
        bool open = as == -2 && (in[p].strong >= 0 || in[p].ignorable);
        if (!open) { if (!mine.empty()) c.guard = mine[0]; return c; }
        bool keep = will_shift(s, c.t);
        if (in[p].strong >= 0) {
            std::vector<int> strong = usable(s, in[p].strong, p, in, budget, tried);
            if (!mine.empty()) strong.erase(std::remove(strong.begin(), strong.end(), mine[0]), strong.end());
            if (strong.size() > 1 || (!strong.empty() && (keep || !mine.empty()))) throw std::string("guards on both meanings");
            if (mine.empty() && !strong.empty()) mine = strong;
        }
        if (!mine.empty()) { c.guard = mine[0]; return c; }
        if (!keep) { if (in[p].ignorable) c.skip = true; else if (in[p].strong >= 0) c.t = in[p].strong; }
        return c;
    }
    mutable std::vector<bool> plain; mutable std::vector<std::set<int>> initials;
    void find_plain() const {
        for (size_t k = 0; k < g.guardStart.size(); ++k) {
            std::set<int> seen; std::vector<int> todo(1, g.guardStart[k]); bool ok = true;
            while (!todo.empty()) {
                int n = todo.back(); todo.pop_back();
                if (!seen.insert(n).second) continue;
                for (int p : g.byLhs[n - bnf::NT0]) for (int x : g.prods[p].rhs) { if (bnf::isN(x)) todo.push_back(x); else if (g.isGuard(x)) ok = false; }
            }
            plain.push_back(ok);
            std::set<int> ini, done; std::vector<int> gs(1, (int)k);
            while (!gs.empty()) {
                int q = gs.back(); gs.pop_back();
                if (!done.insert(q).second) continue;
                for (int t : g.first[g.guardStart[q] - bnf::NT0]) { if (g.isGuard(t)) gs.push_back(t - g.realT); else ini.insert(t); }
            }
            initials.push_back(ini);
        }
    }
    // guards that can be used here and whose content matches
    std::vector<int> usable(const stack_t& s, int t, size_t p, const std::vector<rtoken>& in, long& budget, int* tried = 0) const {
        std::vector<int> r;
        if (g.guardName.empty() || t == g.END()) return r;
        if (plain.empty()) find_plain();
        for (size_t k = 0; k < g.guardName.size(); ++k) {
            int gs = g.realT + (int)k;
            if (!tab[s.back()].count(gs) || !initials[k].count(t) || !will_shift(s, gs)) continue;
            if (tried) ++*tried;
            if (matches(gs, p, in, budget)) r.push_back(gs);
        }
        return r;
    }
    void shift_guard(stack_t& s, int guard, std::vector<std::string>* events) const {
        for (int n = 0; n < 300; ++n) {
            auto& c = tab[s.back()].at(guard);
            if (c.size() != 1) throw std::string("conflict");
            if (c[0].type == SHIFT) { s.push_back(c[0].arg); return; }
            if (events) events->push_back(g.ptext(g.prods[c[0].arg]));
            reduce(s, c[0].arg);
        }
        throw std::string("budget");
    }
    struct result { int guardsTried = 0, guardsMatched = 0; std::string why; int verdict = 0; int failToken = -1; std::vector<std::string> events; bool rr = false; bool sr = false; int weakTried = 0, strongUsed = 0, ignored = 0, weakKept = 0; };
    // verdict 1 accepted, 0 rejected, -1 not decided (a reduce/reduce choice or too many steps)
    result run(int start, const std::vector<rtoken>& in, long maxSteps = 3000) const {
        result r; stack_t s(1, m.startState[start]); size_t p = 0; int as = -2; long budget = 20000;
        try {
            for (long n = 0; n < maxSteps; ++n) {
                int t = p < in.size() ? in[p].t : g.END();
                choice c = decide(s, p, in, budget, as, &r.guardsTried);
                if (c.guard >= 0) {
                    ++r.guardsMatched;
                    shift_guard(s, c.guard, &r.events);
                    r.events.push_back("s:" + g.sym(t) + ":" + in[p].shown());     // the action is told about the token that the guard looked at
                    as = -2;
                    continue;
                }
                if (c.skip) { ++r.ignored; ++p; continue; }
                if (as == -2 && p < in.size() && in[p].strong >= 0) { if (c.t == t) ++r.weakKept; else ++r.strongUsed; }
                t = as = c.t;
                auto f = tab[s.back()].find(t);
                const act* a = 0; int reds = 0, shifts = 0;
                if (f != tab[s.back()].end()) for (auto& x : f->second) {
                    if (x.type == REDUCE || x.type == ACC) ++reds;
                    if (x.type == SHIFT) ++shifts;
                    if (a) continue;
                    if (x.type == WEAK) { ++r.weakTried; stack_t w = s; reduce(w, x.arg); if (!will_shift(w, t)) continue; }
                    a = &x;
                }
                if (!a) { r.failToken = (int)p; return r; }
                if (shifts && reds) r.sr = true;
                if (!shifts && reds > 1 && a->type != WEAK) { r.rr = true; r.verdict = -1; return r; }
                if (a->type == ACC) { r.verdict = 1; return r; }
                if (a->type == SHIFT) { r.events.push_back("s:" + g.sym(t) + ":" + in[p].shown()); s.push_back(a->arg); ++p; as = -2; }
                else { r.events.push_back(g.ptext(g.prods[a->arg])); reduce(s, a->arg); }
            }
        } catch (const std::string& w) { r.why = w; }
        r.verdict = -1;
        return r;
    }
};

// ---- definitions as text ------------------------------------------------------------------------------------------
struct tokdef { std::string name; enum { LITERAL, KEYWORD, WEAKKEY, LEXER, WEAKLEXER, IMPLICIT } kind; std::string def; std::vector<std::string> samples; };

struct layout {
    rng& r; bool plain;
    explicit layout(rng& rr, bool p = false) : r(rr), plain(p) {}
    std::string sp() {      // required separator
        if (plain) return " ";
        switch (r.below(12)) { case 0: return "\n"; case 1: return "\t"; case 2: return "  "; case 3: return " // note\n"; case 4: return " /* c */ "; case 5: return "\r\n"; default: return " "; }
    }
};

inline std::string item_text(const gitem& i, const std::vector<tokdef>& t, layout& l);
inline std::string alts_text(const gitem& i, const std::vector<tokdef>& t, layout& l);
inline std::string seq_text(const grule& r, const std::vector<tokdef>& t, layout& l, bool top = false) { if (top && r.size() == 1 && r[0].k == gitem::ALT && !l.plain && l.r.chance(1, 2)) return alts_text(r[0], t, l); std::string s; for (size_t k = 0; k < r.size(); ++k) { if (k) s += l.sp(); s += item_text(r[k], t, l); } return s; }
inline std::string attr_text(const gitem& i) { int a = i.attr; std::string s = a == 1 ? "conflict=shift" : a == 2 ? "conflict = reduce" : a == 3 ? "conflict=weak reduce" : ""; if (!i.name.empty()) s = s.empty() ? i.name : s.size() % 2 ? i.name + ", " + s : s + "," + i.name; return s.empty() ? s : "[" + s + "]"; }
inline std::string item_text(const gitem& i, const std::vector<tokdef>& t, layout& l) {
    switch (i.k) {
        case gitem::T: return t[i.id].name + attr_text(i);
        case gitem::N: return "<" + nname(i.id) + ">" + attr_text(i);
        case gitem::GUARD: {        // id: may clash with another guard
            std::string s = i.id ? "[=>[can-clash]" : "[=>"; if (i.id || l.r.chance(1, 2)) s += l.sp();
            return s + seq_text(i.r[0], t, l, true) + "]";
        }
        case gitem::ALT: { std::string s = "("; for (size_t k = 0; k < i.r.size(); ++k) { if (k) s += l.sp() + "|" + l.sp(); s += seq_text(i.r[k], t, l); } return s + ")" + attr_text(i); }
        default: {
            const char* op = i.k == gitem::OPT ? "?" : i.k == gitem::PLUS ? "+" : "*";
            if (i.r[0].size() == 1 && !i.r[0][0].attr && (i.r[0][0].k == gitem::T || i.r[0][0].k == gitem::N || i.r[0][0].k == gitem::ALT) && l.r.chance(1, 2)) return item_text(i.r[0][0], t, l) + op + attr_text(i);
            return "(" + seq_text(i.r[0], t, l) + ")" + op + attr_text(i);
        }
    }
}
inline std::string alts_text(const gitem& i, const std::vector<tokdef>& t, layout& l) { std::string s; for (size_t k = 0; k < i.r.size(); ++k) { if (k) s += l.sp() + "|" + l.sp(); s += seq_text(i.r[k], t, l); } return s; }
// alternatives are binary in the definition language: (a | b | c) means (a | (b | c))
inline void nest(gitem& i) {
    for (auto& x : i.r) for (auto& y : x) nest(y);
    if (i.k == gitem::ALT && i.r.size() > 2) {
        gitem rest(gitem::ALT); rest.r.assign(i.r.begin() + 1, i.r.end()); nest(rest);
        i.r.resize(1); i.r.push_back(grule(1, rest));
    }
}
inline egrammar nested(egrammar g) { for (auto& rs : g.rules) for (auto& r : rs) for (auto& i : r) nest(i); return g; }
inline std::string grammar_text(const egrammar& g, const std::vector<tokdef>& t, layout& l) {
    std::string s = "grammar" + l.sp() + "{\n";
    for (int n = 0; n < g.nN; ++n) {
        s += "<" + nname(n) + ">" + l.sp() + "=" + l.sp();
        for (size_t k = 0; k < g.rules[n].size(); ++k) { if (k) s += l.sp() + "|" + l.sp(); s += seq_text(g.rules[n][k], t, l); }
        s += "\n";
    }
    return s + "}\n";
}
inline std::string prec_text(const prec_block& b, const std::vector<tokdef>& t, layout& l, rng& r) {
    std::map<int, std::vector<int>> lev; std::map<int, int> as;
    for (auto& x : b.of) { lev[x.second.first].push_back(x.first); as[x.second.first] = x.second.second; }
    std::string s = "precedence" + l.sp() + "{\n";
    for (auto& x : lev) {
        s += as[x.first] == 0 ? "left" : as[x.first] == 1 ? "right" : r.chance(1, 2) ? "non-assoc" : "non-associative";
        if (x.second.size() == 1 && r.chance(1, 2)) s += l.sp() + t[x.second[0]].name;
        else { s += l.sp() + "{"; for (int k : x.second) s += l.sp() + t[k].name; s += l.sp() + "}"; }
        s += "\n";
    }
    return s + "}\n";
}
// lexer blocks for the tokens (literals and implicit keywords need none)
inline std::string lexer_text(const std::vector<tokdef>& t, layout& l, rng& r, const std::string& ignoreBody) {
    std::vector<std::string> blocks;
    auto block = [&](const std::string& head, int kind, bool split) {
        std::string s; int n = 0;
        for (auto& d : t) {
            if (d.kind != kind) continue;
            if (n == 0 || (split && r.chance(1, 4))) { if (n) { s += "}\n"; blocks.push_back(s); } s = head + l.sp() + "{\n"; n = 0; }
            s += d.name; if (!d.def.empty()) s += l.sp() + "=" + l.sp() + d.def; s += "\n"; ++n;
        }
        if (n) blocks.push_back(s + "}\n");
    };
    block("keywords", tokdef::KEYWORD, true); block("weak" + l.sp() + "keywords", tokdef::WEAKKEY, true);
    block("lexer", tokdef::LEXER, true); block("weak" + l.sp() + "lexer", tokdef::WEAKLEXER, true);
    if (!ignoreBody.empty()) blocks.push_back("ignore" + l.sp() + "{\n" + ignoreBody + "}\n");
    for (int i = (int)blocks.size() - 1; i > 0; --i) std::swap(blocks[i], blocks[r.below(i + 1)]);
    std::string s; for (auto& b : blocks) s += b; return s;
}

}
#endif
