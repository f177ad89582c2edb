// Reference semantics for the documented regular expression language, independent of the code under test.
// A regular expression is generated as a tree, printed in the documented syntax, and matched by computing
// sets of end positions on the tree (no automata involved).
#ifndef VERIF_REGEX_REF_H
#define VERIF_REGEX_REF_H
#include "common.h"
#include <memory>

namespace vf {

typedef std::vector<std::pair<int,int>> cset;        // inclusive ranges of code points, unordered
typedef std::basic_string<int> istr;

inline bool in_set(const cset& s, int c) { for (auto& r : s) if (c >= r.first && c <= r.second) return true; return false; }

struct re {
    enum kind { SET, CAT, ALT, STAR, PLUS, OPT, NAMED } k;
    cset s; bool neg = false;                        // SET
    std::vector<std::shared_ptr<re>> c;
    istr name;                                       // NAMED: {name}, c[0] is its definition
    std::string how;                                 // SET: preferred spelling ("." etc.)
    explicit re(kind kk) : k(kk) {}
};
typedef std::shared_ptr<re> rep;

inline bool set_has(const re& r, int cp) { bool b = in_set(r.s, cp); return r.neg ? !b : b; }

// The lexer works on UTF-16 code units: a code point above 0xffff is matched as its surrogate pair.
struct matcher {
    const istr& t;
    std::function<bool(const re&, int)> has;         // allows a different membership test (case insensitivity)
    matcher(const istr& text) : t(text), has(set_has) {}
    std::set<size_t> match(const re& r, const std::set<size_t>& from) const {
        std::set<size_t> res;
        switch (r.k) {
        case re::SET:
            for (size_t p : from) {
                if (p < t.size() && has(r, t[p])) res.insert(p + 1);
                if (p + 1 < t.size() && t[p] >= 0xd800 && t[p] < 0xdc00 && t[p+1] >= 0xdc00 && t[p+1] < 0xe000) {
                    int cp = 0x10000 + ((t[p] - 0xd800) << 10) + (t[p+1] - 0xdc00);
                    if (has(r, cp)) res.insert(p + 2);
                }
            }
            return res;
        case re::CAT:
            res = from;
            for (auto& c : r.c) { if (res.empty()) break; res = match(*c, res); }
            return res;
        case re::ALT:
            for (auto& c : r.c) { auto x = match(*c, from); res.insert(x.begin(), x.end()); }
            return res;
        case re::OPT:
            res = match(*r.c[0], from); res.insert(from.begin(), from.end());
            return res;
        case re::STAR: case re::PLUS: {
            std::set<size_t> front = match(*r.c[0], from);
            res = front;
            while (!front.empty()) {
                std::set<size_t> nx;
                for (size_t p : match(*r.c[0], front)) if (res.insert(p).second) nx.insert(p);
                front = nx;
            }
            if (r.k == re::STAR) res.insert(from.begin(), from.end());
            return res;
        }
        case re::NAMED:
            return match(*r.c[0], from);
        }
        return res;
    }
    // longest non-empty match at p; 0 if none
    size_t longest(const re& r, size_t p) const {
        std::set<size_t> f; f.insert(p);
        auto e = match(r, f);
        if (e.empty() || *e.rbegin() == p) return 0;
        return *e.rbegin() - p;
    }
};

inline bool is_special(int c) { return c < 0x80 && c > 0 && strchr("*+|?.\\()[]{}", c) != 0; }

struct regex_gen {
    rng& r;
    std::vector<int> alphabet;        // code points the expressions are built from
    bool wide = false;                // use code points that need surrogates
    bool sets = true;
    std::vector<std::pair<istr, rep>> named;   // {name} definitions available
    regex_gen(rng& rr) : r(rr) {}

    rep lit(int c) { rep x(new re(re::SET)); x->s.push_back(std::make_pair(c, c)); return x; }
    rep set() {
        rep x(new re(re::SET));
        int w = r.below(10);
        if (w == 0) { x->s.push_back(std::make_pair(0, 0x10ffff)); x->how = "."; return x; }
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            int a = r.pick(alphabet), b = r.chance(1, 2) ? a : r.pick(alphabet);
            if (a > b) std::swap(a, b);
            // avoid ranges that contain the surrogate code points themselves
            if (a < 0xd800 && b > 0xdfff) { if (r.chance(1, 2)) b = a; else a = b; }
            x->s.push_back(std::make_pair(a, b));
        }
        x->neg = w <= 2;
        x->how = "[";
        return x;
    }
    rep gen(int depth) {
        int w = depth <= 0 ? r.below(3) : r.below(12);
        if (w < 2) return lit(r.pick(alphabet));
        if (w == 2) return sets ? set() : lit(r.pick(alphabet));
        if (w < 6) {
            rep x(new re(re::CAT));
            int n = r.range(2, 4);
            for (int i = 0; i < n; ++i) x->c.push_back(gen(depth - 1));
            return x;
        }
        if (w < 8) {
            rep x(new re(re::ALT));
            int n = r.range(2, 3);
            for (int i = 0; i < n; ++i) x->c.push_back(gen(depth - 1));
            return x;
        }
        if (w == 11 && !named.empty()) {
            rep x(new re(re::NAMED));
            auto& d = named[r.below((int)named.size())];
            x->name = d.first; x->c.push_back(d.second);
            return x;
        }
        rep x(new re(w == 8 ? re::STAR : w == 9 ? re::PLUS : re::OPT));
        x->c.push_back(gen(depth - 1));
        return x;
    }

    // --- printing ---
    istr ascii(const std::string& s) { istr x; for (unsigned char c : s) x += (int)c; return x; }
    // one character; next: true if the following printed symbol could be a hex/octal digit
    istr chr(int c, bool inSet) {
        char b[16];
        int w = r.below(8);
        switch (c) {
            case 7: return ascii("\\a"); case 0x1b: return ascii("\\e"); case 9: return ascii("\\t");
            case 0xa: return ascii("\\n"); case 0xd: return ascii("\\r"); case 0xc: return ascii("\\f");
        }
        if (w == 0 && c <= 0xff) { snprintf(b, sizeof b, "\\x%02x", c); return ascii(b); }
        if (w == 1 && c <= 0xff) { snprintf(b, sizeof b, "\\x%02X", c); return ascii(b); }
        if (w == 2 && c <= 0xffff) { snprintf(b, sizeof b, "\\u%04x", c); return ascii(b); }
        if (w == 3 && c <= 0x3ffff) { snprintf(b, sizeof b, "\\o%06o", c); return ascii(b); }
        if (w == 4 && c <= 0xff) { snprintf(b, sizeof b, "\\%03o", c); return ascii(b); }
        if (c == 0) return ascii("\\x00");
        istr x;
        if (is_special(c) || (inSet && (c == '-' || c == '^')) || (w == 5 && c < 0x80 && !isalnum(c))) x += (int)'\\';
        x += c;
        return x;
    }
    // precedence: 0 alt, 1 cat, 2 postfix operand
    istr print(const re& x, int prec) {
        istr o;
        switch (x.k) {
        case re::SET:
            if (x.how == ".") { o += (int)'.'; return o; }
            if (x.how == "[") {
                o += (int)'[';
                if (x.neg) o += (int)'^';
                for (auto& p : x.s) {
                    o += chr(p.first, true);
                    if (p.first != p.second) { o += (int)'-'; o += chr(p.second, true); }
                }
                o += (int)']';
                return o;
            }
            return chr(x.s[0].first, false);
        case re::CAT: case re::ALT: {
            bool par = prec > (x.k == re::ALT ? 0 : 1) || r.chance(1, 8);
            if (par) o += (int)'(';
            for (size_t i = 0; i < x.c.size(); ++i) {
                if (i && x.k == re::ALT) o += (int)'|';
                o += print(*x.c[i], x.k == re::ALT ? 1 : (x.c[i]->k == re::CAT ? (r.chance(1,2) ? 1 : 2) : 1));
            }
            if (par) o += (int)')';
            return o;
        }
        case re::STAR: case re::PLUS: case re::OPT: {
            bool bare = x.c[0]->k == re::SET || x.c[0]->k == re::NAMED;
            if (bare && r.chance(5, 6)) o += print(*x.c[0], 2);
            else { o += (int)'('; o += print(*x.c[0], 0); o += (int)')'; }
            o += (int)(x.k == re::STAR ? '*' : x.k == re::PLUS ? '+' : '?');
            return o;
        }
        case re::NAMED:
            o += (int)'{'; o += x.name; o += (int)'}';
            return o;
        }
        return o;
    }

    // a string that the expression matches (approximately random), in code points
    void sample(const re& x, istr& out, int depth = 0) {
        switch (x.k) {
        case re::SET: {
            if (!x.neg) {
                auto& p = x.s[r.below((int)x.s.size())];
                int c = x.how == "." ? r.pick(alphabet) : (r.chance(1, 2) ? (r.chance(1, 2) ? p.first : p.second) : p.first + r.below(p.second - p.first + 1));
                if (c >= 0xd800 && c < 0xe000) c = p.first;
                out += c;
            } else {
                for (int i = 0; i < 20; ++i) { int c = r.pick(alphabet); if (set_has(x, c)) { out += c; return; } }
                out += set_has(x, 'q') ? (int)'q' : 0x100;
            }
            return; }
        case re::CAT: for (auto& c : x.c) sample(*c, out, depth + 1); return;
        case re::ALT: sample(*x.c[r.below((int)x.c.size())], out, depth + 1); return;
        case re::OPT: if (r.chance(1, 2)) sample(*x.c[0], out, depth + 1); return;
        case re::STAR: case re::PLUS: {
            int n = (x.k == re::PLUS ? 1 : 0) + r.below(depth > 3 ? 2 : 4);
            for (int i = 0; i < n; ++i) sample(*x.c[0], out, depth + 1);
            return; }
        case re::NAMED: sample(*x.c[0], out, depth + 1); return;
        }
    }
};

inline istr to_utf16(const istr& s) {
    istr o;
    for (int c : s) {
        if (c > 0xffff) { o += 0xd800 + ((c - 0x10000) >> 10); o += 0xdc00 + ((c - 0x10000) & 0x3ff); }
        else o += c;
    }
    return o;
}

}
#endif
