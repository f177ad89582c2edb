// Monitors for definition files: what a file says (C16), composition of languages (C17), tests in a definition (C18),
// arbitrary text (C20), determinism (C21), ill-formed definitions (C23), the command line tool (C26).
#include <atomic>
#include <thread>
#include <sched.h>
#include "lang.h"
#include "lang_ref.h"
#include "lang_gen.h"
#include "compose.h"
#include "def_model.h"
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fstream>
#include <unistd.h>
using namespace vf;

static string where(const elem& e) { return "offset " + std::to_string(e.o0) + " (" + std::to_string(e.l0) + ":" + std::to_string(e.c0) + ")"; }

// the alternatives of a group that is itself the last alternative of a group print as one list
static void flatten(vector<elem>& v) {
    for (bool again = true; again;) {
        again = false;
        for (size_t i = 0; i + 1 < v.size() && !again; ++i) {
            size_t d = v[i].text.find_first_not_of(' ');
            if (v[i].text.compare(d, string::npos, "alternatives")) continue;      // only without attributes
            // is it the last child of an alternatives element?
            int parent = -1; for (int j = (int)i - 1; j >= 0; --j) { size_t q = v[j].text.find_first_not_of(' '); if (q < d) { parent = j; break; } }
            if (parent < 0 || v[parent].text.find_first_not_of(' ') != d - 2 || v[parent].text.compare(d - 2, 12, "alternatives")) continue;
            size_t e = i + 1; while (e < v.size() && v[e].text.find_first_not_of(' ') > d) ++e;
            if (e < v.size() && v[e].text.find_first_not_of(' ') == d) continue;     // not the last
            for (size_t j = i + 1; j < e; ++j) v[j].text.erase(0, 2);
            v.erase(v.begin() + i); again = true;
        }
    }
}
static void compare_ast(ctx& c, const def_model& m, const vector<elem>& want, const yy_language::definition_file& f, const char* what) {
    ast_dump d; d.file(f);
    for (size_t i = 0; i < want.size() || i < d.el.size(); ++i) {
        if (i >= want.size() || i >= d.el.size() || want[i].text != d.el[i].text) {
            string a = i < d.el.size() ? d.el[i].text : "(nothing)", b = i < want.size() ? want[i].text : "(nothing)";
            c.fail("content", string(what) + ": element " + std::to_string(i) + " is read as '" + a + "' where the file says '" + b + "'"); return;
        }
        const elem &w = want[i], &g = d.el[i];
        c.count("elements");
        if (w.from >= 0) {
            at_pos p = m.start[w.from];
            if (g.o0 != p.off || g.l0 != p.line || g.c0 != p.col) { c.fail("start-position", string(what) + ": '" + w.text + "' starts at offset " + std::to_string(p.off) + " (" + std::to_string(p.line) + ":" + std::to_string(p.col) + ") but is reported at " + where(g)); return; }
            if (w.to > w.from) {
                int lo = m.fin[w.to - 1].off, hi = m.start[w.to].off;
                // an element at the very end of the file has no token after it
                if (!(g.o1 >= lo && g.o1 <= hi) && !(w.to == (int)m.tok.size() && g.o1 == -1)) { c.fail("end-position", string(what) + ": '" + w.text + "' ends at offset " + std::to_string(lo) + " but is reported to end at " + std::to_string(g.o1)); return; }
            }
            c.count("positions");
        }
        if (w.strTok >= 0) {
            at_pos p = m.start[w.strTok]; if (g.strTok == 2) ++p.off, ++p.col;
            if (g.so != p.off || g.sl != p.line || g.sc != p.col) { c.fail("content-position", string(what) + ": the content of '" + w.text + "' is at offset " + std::to_string(p.off) + " but is reported at " + std::to_string(g.so)); return; }
        }
    }
}
static void c16(ctx& c) {
    rng& r = c.r; def_model m(r); m.file(); m.lay();
    string u = m.utf8(); c.note(u); if (getenv("VF_SHOW")) fputs((u + "\n").c_str(), stderr);
    vector<elem> want = m.el; flatten(want);
    yy_language::language_parser p; p.set_filename(L"d.tp"); bool ok;
    int how = r.below(3);
    if (how == 0) ok = p.parse(m.text); else if (how == 1) ok = p.parse(u); else { std::istringstream s(u); ok = p.parse(s); }
    if (r.chance(1, 8)) ok = p.parse(m.text);       // a parser can be used again
    if (!ok || !p.file_definition().item()) { string e; for (auto& x : p.errors()) e += narrow(x.description()) + " at " + std::to_string(x.pos().offset()) + "\n"; c.fail("not-read", "a well-formed file is rejected: " + e); return; }
    c.count("files");
    compare_ast(c, m, want, *p.file_definition(), "file");
    // copies say the same
    if (r.chance(1, 3)) {
        std::unique_ptr<yy_language::definition_file> k(new yy_language::definition_file(*p.file_definition())), k2(new yy_language::definition_file());
        *k2 = *k; compare_ast(c, m, want, *k, "copy"); k.reset(); compare_ast(c, m, want, *k2, "assigned copy"); c.count("copies");
    }
    if (want.size() >= 6) c.nontrivial = true;
    // a symbol that no token can contain is reported exactly where it is
    if (r.chance(1, 2) && !m.tok.empty()) {
        int at = r.below((int)m.tok.size() + 1); static const wchar_t bad[] = { L'$', L'~', L'%', L'&', L'@', L'^', L'`', 0x7f, 0x20ac, 1 };
        at_pos q = m.start[at]; wstring t = m.text; t.insert(q.off, 1, bad[r.below(10)]);
        t.insert(q.off + 1, L" ");
        if (at) { t.insert(q.off, L" "); ++q.off; ++q.col; }
        // in front of the symbol there may be a comment without an end of line only if it is closed: layout always closes them
        bool ok2 = p.parse(t); auto& es = p.errors();
        c.count("bad-symbols");
        if (ok2) { c.fail("bad-symbol", "a file with an unknown symbol at offset " + std::to_string(q.off) + " is accepted\n" + narrow(t)); return; }
        bool seen = false; for (auto& e : es) if (e.sev() >= compiler::error::sev_error && e.pos().offset() == q.off && e.pos().line() == q.line && e.pos().column() == q.col) seen = true;
        // a guard that looks across the symbol fails at its own beginning: at most two tokens and the modifiers of a block before it
        for (int j = at - 1, free = 2; j >= 0 && !seen; --j) {
            string w = narrow(m.tok[j]); if (w != "weak" && w != "case" && w != "sensitive" && w != "insensitive" && free-- == 0) break;
            for (auto& e : es) if (e.sev() >= compiler::error::sev_error && e.pos().offset() == m.start[j].off) { seen = true; c.count("bad-symbols-in-guards"); }
        }
        if (!seen) c.fail("bad-symbol-position", "an unknown symbol at offset " + std::to_string(q.off) + " is reported at " + (es.empty() ? string("no place") : std::to_string((*es.begin()).pos().offset())) + "\n" + narrow(t));
    }
    // a file that ends inside a block is not accepted
    if (r.chance(1, 4)) {
        vector<int> cuts; for (auto& e : m.el) if (e.text[0] != ' ') for (int k = e.from + 1; k < e.to; ++k) cuts.push_back(k);
        if (!cuts.empty()) {
            int k = r.pick(cuts); bool ok3 = p.parse(m.text.substr(0, m.fin[k - 1].off)); c.count("truncated");
            if (ok3 || p.errors().empty()) c.fail("truncated", "a file that is cut off inside a block is accepted, or rejected without an error:\n" + narrow(m.text.substr(0, m.fin[k - 1].off)));
        }
    }
}

// ---- C18: the tests of a definition file -------------------------------------------------------------------------------
struct test_text {
    string s; int off = 0, line = 0, col = 0; bool exact = true;
    void add(const string& x) { s += x; for (wchar_t ch : widen(x)) { ++off; if (ch == '\n') ++line, col = 0; else if (ch == '\r') exact = false; else ++col; } }
};
// runs the tests of a definition in a process of their own; true if it ends by itself
static bool tests_survive(const string& text) {
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); alarm(20); setitimer(ITIMER_VIRTUAL, nullptr, nullptr);
        try { run_t run; run.file("d.tp", text); if (!run.front("d.tp")) _exit(3); compiler::test_stage tests(run.cc, L"d.tp", run.parse->definition_file(), run.import.get()); tests.compile(); } catch (...) { _exit(4); }
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
// the longest name that a test can have (see the known findings)
static const int NAME_LIMIT = 54;
static void c18(ctx& c) {
    // inputs for which the tool is known to end abnormally (TameParse/Compiler/test_stage.cpp cannot be changed here: it counts as a test file)
    if (c.index < 2) {
        string lang = "language " + string(c.index == 0 ? 60 : 1, 'x') + " { grammar { <A> = \"a\" } }\n", use = "test " + string(c.index == 0 ? 60 : 1, 'x') + " { <" + (c.index ? "Nope" : "A") + "> = \"a\" }\n";
        c.note(lang + use); c.count("probes");
        if (!tests_survive(lang + use)) c.fail(c.index ? "undefined-nonterminal-crash" : "long-test-name-crash", "running the tests of this definition ends the process abnormally");
        return;
    }
    rng& r = c.r; layout l(r); cfg_gen gen(r); egrammar g;
    bool guards = r.chance(1, 5);
    if (guards) g = nested(guard_grammar(r)); else g = nested(gen.any());
    g.starts.clear(); for (int n = 0; n < g.nN; ++n) g.starts.push_back(n);
    bnf b(g); if (guards && !guards_valid(c, g, b)) return;
    for (bool p : b.productive()) if (!p) { c.count("unproductive"); return; }
    lalr_ref m(b); if (m.tooBig) { c.count("too-big"); return; }
    ref_machine ref(m); ref.finish(); if (ref.srConflicts || ref.rrConflicts) { c.count("not-conflict-free"); return; }
    vector<tokdef> t = make_tokens(r, g.nT); auto h = heights(b);
    static const char* names[] = { "Lang", "l", "A-language-with-a-name-longer-than-most", "B_2" }; string name = names[r.below(4)];
    test_text f; string langText = "language " + name + " {\n" + lexer_text(t, l, r, IGNORE) + grammar_text(g, t, l) + "}\n";
    string child; if (r.chance(1, 4)) child = "language Child : " + name + " { }\n";
    bool imported = r.chance(1, 4), testsFirst = r.chance(1, 3); run_t run;
    auto languages = [&]() { if (imported) { f.add("import \"lang.tp\"\n"); run.file("lang.tp", langText + child); } else { f.add(langText); f.add(child); } };
    if (!testsFirst) languages();
    struct expect { bool ok; int kind; int off, line, col; int failOff; bool atEnd; int endOff; string file; };
    struct block { string lang; int off; int passed = 0, failed = 0; bool missing = false; vector<expect> ex; };
    vector<block> bs; int nb = r.range(1, 3), files = 0; int undecided = 0; bool missingFile = false;
    for (int i = 0; i < nb; ++i) {
        block k; k.off = f.off; k.lang = !child.empty() && r.chance(1, 2) ? "Child" : name; if (r.chance(1, 12)) k.lang = "Nowhere", k.missing = true;
        f.add("test" + l.sp() + k.lang + l.sp() + "{\n");
        for (int d = r.chance(1, 10) ? 0 : r.range(1, 4); d > 0; --d) {
            int n = r.below(g.nN), kind = r.pick(vector<int>{0, 0, 0, 1, 1, 2});     // =, !=, from
            f.add("<" + nname(n) + ">" + l.sp() + (kind == 0 ? "=" : kind == 1 ? "!=" : "from") + l.sp());
            for (int q = r.range(1, 3); q > 0; --q) {
                vector<int> v; std::set<int> gs;
                for (int w = 0; w < 4; ++w) {     // mostly what is expected to pass
                    v = random_tokens(b, b.starts[n], r, h); v.erase(std::remove_if(v.begin(), v.end(), [&](int x) { return x >= g.nT; }), v.end());
                    auto e = ref.run(n, toks(v)); if (e.verdict < 0) continue; if ((e.verdict == 1) == (kind != 1) || r.chance(1, 4)) break;
                }
                vector<rtoken> in = toks(v); string text = spell(r, in, t);
                auto e = ref.run(n, in); if (e.verdict < 0) { ++undecided; in.clear(); text = ""; e = ref.run(n, in); if (e.verdict < 0) return; }
                if (!guards) { bool acc = earley(b, b.starts[n], v, false).accepts; if (acc != (e.verdict == 1)) { c.fail("oracles-differ", text); return; } }
                // the text as a string of the definition language
                string lit; bool esc = false;
                for (char ch : text) switch (ch) { case '"': lit += "\\\""; esc = true; break; case '\\': lit += "\\\\"; esc = true; break; case '\n': lit += "\\n"; esc = true; break; case '\r': lit += "\\r"; esc = true; break; case '\t': if (r.chance(1, 2)) lit += "\\t", esc = true; else lit += "\t"; break; default: lit += ch; }
                expect x; x.kind = kind; x.ok = (e.verdict == 1) == (kind != 1);
                bool named = r.chance(1, 4); if (named) f.add("t-" + string(r.chance(1, 5) ? NAME_LIMIT - 7 - (int)k.lang.size() : 3, 'x') + (r.chance(1, 2) ? " " : "") + "(" + l.sp());
                x.off = f.off; x.line = f.line; x.col = f.col;
                x.atEnd = e.verdict == 0 && e.failToken >= (int)in.size(); x.failOff = e.verdict == 1 ? -2 : esc && kind != 2 ? -2 : x.atEnd ? -1 : in[e.failToken].offset;
                if (kind == 2) {
                    if (r.chance(1, 30)) { f.add("\"missing.txt\""); missingFile = true; x.ok = true; x.kind = 3; }
                    else { x.file = "in" + std::to_string(files++) + ".txt"; run.file(x.file, text); f.add("\"" + x.file + "\""); }
                } else f.add("\"" + lit + "\"");
                if (named) f.add(l.sp() + ")");
                x.endOff = f.off; f.add(l.sp());
                if (x.kind != 3) ++(x.ok ? k.passed : k.failed); k.ex.push_back(x);
            }
        }
        f.add("}\n"); bs.push_back(k);
    }
    if (testsFirst) languages();
    c.note(f.s); if (getenv("VF_SHOW")) fputs(f.s.c_str(), stderr);
    run.file("d.tp", f.s);
    if (!run.front("d.tp")) { c.fail("not-read", show_diags(run.st().diags)); return; }
    {
        compiler::test_stage tests(run.cc, L"d.tp", run.parse->definition_file(), run.import.get()); tests.compile();
    }
    auto& ds = run.st().diags; vector<bool> seen(ds.size(), false);
    for (size_t i = 0; i < ds.size(); ++i) if (ds[i].sev < compiler::error::sev_error && ds[i].id != "TEST_SYNTAX_ERROR" && ds[i].id != "FAILURE_POSITION" && ds[i].id != "NO_TESTS_TO_RUN") seen[i] = true;
    auto find = [&](const string& id, const string& file, int off) { for (size_t i = 0; i < ds.size(); ++i) if (!seen[i] && ds[i].id == id && ds[i].file == file && (off == -2 || ds[i].offset == off)) { seen[i] = true; return true; } return false; };
    string all = show_diags(ds); bool bad = false; string messages;
    for (auto& k : bs) {
        if (k.missing) { bad = true; if (!find("CANT_FIND_LANGUAGE", "d.tp", k.off)) { c.fail("missing-language", "no report of a test of an unknown language\n" + all); return; } c.count("missing-languages"); continue; }
        messages += "    " + k.lang + ": " + std::to_string(k.passed) + "/" + std::to_string(k.passed + k.failed) + " passed\n";
        if (!k.passed && !k.failed) { if (!find("NO_TESTS_TO_RUN", "d.tp", k.off)) { c.fail("empty-block", "no report of an empty test block\n" + all); return; } c.count("empty-blocks"); }
        if (k.failed) { bad = true; if (!find("TESTS_FAILED", "d.tp", k.off)) { c.fail("verdict", "no report of " + std::to_string(k.failed) + " failing tests\n" + all); return; } }
        for (auto& x : k.ex) {
            if (x.kind == 3) { if (!find("TEST_FILE_NOT_FOUND", "missing.txt", -2)) { c.fail("missing-file", all); return; } c.count("missing-files"); continue; }
            c.count("tests"); c.count(x.ok ? "passing" : "failing");
            if (x.ok) continue;
            c.nontrivial = true;
            string head = "test at offset " + std::to_string(x.off) + ": ";
            if (x.kind == 2) { if (!find("TEST_SYNTAX_ERROR", x.file, x.failOff)) { c.fail("failure-position", head + "no report that the file fails at offset " + std::to_string(x.failOff) + "\n" + all); return; } }
            else {
                if (!find("THIS_TEST_FAILED", "d.tp", x.off + 1)) { c.fail("verdict", head + "this test has to fail\n" + all); return; }
                if (x.kind == 0) {
                    int want = x.failOff == -2 ? -2 : x.atEnd ? x.endOff : x.off + 1 + x.failOff;
                    if (!find("FAILURE_POSITION", "d.tp", want)) { c.fail("failure-position", head + "no report that it fails at offset " + std::to_string(want) + "\n" + all); return; }
                }
            }
        }
    }
    if (missingFile) bad = true;
    for (size_t i = 0; i < ds.size(); ++i) if (!seen[i]) { c.fail("extra", "unexpected: " + ds[i].id + " at offset " + std::to_string(ds[i].offset) + "\n" + all); return; }
    if ((run.st().exitCode != 0) != bad) { c.fail("exit-code", "exit code " + std::to_string(run.st().exitCode) + "\n" + all); return; }
    // the summary of every block
    string out; for (auto& line : [&]() { vector<string> v; wstring w = run.st().msg.str(); std::stringstream ss(string(w.begin(), w.end())); string x; while (std::getline(ss, x)) v.push_back(x); return v; }()) if (line.find(" passed") != string::npos) out += line + "\n";
    if (out != messages) c.fail("summary", "the summary is\n" + out + "instead of\n" + messages);
}

// ---- C20: whatever the text of a definition is ----------------------------------------------------------------------
// pieces of a definition: words, literals, punctuation, blanks and comments
static vector<string> pieces(const string& s) {
    vector<string> v; size_t i = 0, n = s.size();
    auto word = [](char ch) { return isalnum((unsigned char)ch) || ch == '-' || ch == '_' || (unsigned char)ch >= 0x80; };
    while (i < n) {
        size_t j = i + 1;
        if (isspace((unsigned char)s[i])) while (j < n && isspace((unsigned char)s[j])) ++j;
        else if (word(s[i])) while (j < n && word(s[j])) ++j;
        else if (s[i] == '"') { while (j < n && s[j] != '"') j += s[j] == '\\' ? 2 : 1; ++j; }
        else if (s[i] == '\'') { while (j < n && s[j] != '\'' && j < i + 4) j += s[j] == '\\' ? 2 : 1; ++j; }
        else if (s.compare(i, 2, "//") == 0) while (j < n && s[j] != '\n') ++j;
        else if (s.compare(i, 2, "/*") == 0) { j = s.find("*/", i + 2); j = j == string::npos ? n : j + 2; }
        else if (s[i] == '/') { while (j < n && s[j] != '/' && s[j] != '\n') j += s[j] == '\\' ? 2 : 1; ++j; }
        else if (s[i] == '<') { while (j < n && word(s[j])) ++j; if (j < n && s[j] == '>') ++j; }
        else if (s.compare(i, 3, "[=>") == 0) j = i + 3;
        else if (s.compare(i, 2, "|=") == 0 || s.compare(i, 2, "!=") == 0) j = i + 2;
        if (j > n) j = n;
        v.push_back(s.substr(i, j - i)); i = j;
    }
    return v;
}
// a definition that compiles (mostly)
static program some_program(ctx& c, rng& r, layout& l, bool attrs, vector<string>* sentences = 0) {
    egrammar g; vector<prec_block> blocks; int mode = r.below(4);
    if (mode == 0) { g = nested(guard_grammar(r)); if (sentences) for (;;) { bnf b(g); if (guards_valid(c, g, b)) break; g = nested(guard_grammar(r)); } }
    else if (mode == 1) {
        expr_case e = expr_grammar(r); g = e.g; vector<int> ops = e.bin; ops.insert(ops.end(), e.pre.begin(), e.pre.end());
        std::sort(ops.begin(), ops.end()); ops.erase(std::unique(ops.begin(), ops.end()), ops.end());
        blocks.push_back(random_prec(r, ops, true));
    } else { cfg_gen gen(r); g = nested(gen.any()); }
    if (attrs) { std::map<string, int> known; int pct = r.pick(vector<int>{0, 0, 20}); for (int n = 0; n < g.nN; ++n) for (auto& x : g.rules[n]) put_attrs(r, x, known, pct, nname(n)); }
    vector<tokdef> t = make_tokens(r, g.nT); if (r.chance(1, 3)) weak_words(r, g.nT, t);
    if (sentences) { egrammar q = g; q.starts.assign(1, 0); bnf b(q); auto h = heights(b); for (int k = 0; k < 4; ++k) { vector<int> v = random_tokens(b, b.starts[0], r, h); v.erase(std::remove_if(v.begin(), v.end(), [&](int x) { return x >= g.nT; }), v.end()); if (v.size() > 12) continue; vector<rtoken> in = toks(v); sentences->push_back(spell(r, in, t)); } }
    program p;
    if (r.chance(1, 2)) p = compose(r, l, g, t, blocks);
    else {
        string s = "language L {\n" + lexer_text(t, l, r, IGNORE) + grammar_text(g, t, l); for (auto& b : blocks) if (!b.of.empty()) s += prec_text(b, t, l, r);
        s += "}\n"; p.target = "L"; p.files.push_back({"d.tp", s});
    }
    if (r.chance(1, 3)) { string s = "test " + p.target + " {\n"; for (int k = r.range(1, 3); k > 0; --k) s += "<" + nname(r.below(g.nN)) + "> " + (r.chance(1, 2) ? "=" : "!=") + " \"" + (r.chance(1, 2) ? "if 42" : "") + "\"\n"; p.files[0].second += s + "}\n"; }
    if (r.chance(1, 3)) p.files[0].second += "parser my-parser : " + p.target + " { <N0> }\n";
    return p;
}
static void mutate(rng& r, vector<std::pair<string, vector<string>>>& fs) {
    static const char* odd[] = { "", "{", "}", "(", ")", "[", "]", "[=>", "|", "*", "+", "?", "=", "|=", "!=", ".", ":", "<", ">", "replace", "weak", "language", "import", "grammar", "lexer", "ignore", "keywords", "lexer-symbols", "precedence", "left", "test", "from",
        "parser", "case", "insensitive", "\"\"", "''", "/a*/", "/()/", "/(/", "/[/", "/[z-a]/", "/[]/", "/[^]/", "/a**/", "/{x}/", "/{num}/", "/{unicode-Lu}/", "/{/", "/\\/", "/\\u/", "/\\x4/", "/|/", "/*/", "/a|*/", "<N0>", "<N1>", "<Q>", "N0", "num", "id", "L", "A", "[conflict=shift]", "[conflict=weak reduce]", "[x]",
        "[=> ]", "[=> <N0>]", "()", "(|)", "()*", "(()+)+", "\xc3\xa9", "\xff", "\xf0\x9f\x98\x80", "\"d.tp\"", "\"f1.tp\"", "\"nothing.tp\"", "language L : L { }", "language A : B { } language B : A { }", "\"\\", "/* ", "//" };
    vector<string> pool; for (auto& f : fs) for (auto& p : f.second) if (!isspace((unsigned char)p[0])) pool.push_back(p);
    // changes that mostly leave the syntax as it is: a part for another part of the same kind, a part given a suffix
    bool gentle = r.chance(3, 5);
    auto kind = [](const string& p) -> int { unsigned char ch = p.empty() ? ' ' : p[0]; if (isspace(ch)) return 0; if (ch == '"' || ch == '\'') return 1; if (ch == '<') return 2; if (ch == '/') return p.size() > 1 && (p[1] == '/' || p[1] == '*') ? 0 : 3; if (isalnum(ch) || ch >= 0x80) return 4; return ch == '*' || ch == '+' || ch == '?' ? 5 : 0; };
    for (int k = r.pick(vector<int>{1, 1, 1, 2, 3, 6, 20}); gentle && k > 0; --k) {
        auto& v = fs[r.below((int)fs.size())].second; vector<int> at; for (int i = 0; i < (int)v.size(); ++i) if (kind(v[i])) at.push_back(i);
        if (at.empty()) continue;
        int i = r.pick(at), q = kind(v[i]); vector<string> same; for (auto& p : pool) if (kind(p) == q || (q <= 2 && kind(p) <= 2 && kind(p) && r.chance(1, 3))) same.push_back(p);
        for (auto o : odd) if (kind(o) == q) same.push_back(o);
        if (q <= 2 && r.chance(1, 2)) {
            static const char* after[] = { "*", "+", "?", " [=> <N0>]", " [=> \"(\" ]", "[n]", " [conflict=shift]", " [conflict=reduce]", " [conflict=weak reduce]", " |", " ()", " (<N0>)*", " (<N0> | <N1>)+", " | <N0>", " | <N1> <N0>", " | ()" };
            v[i] += after[r.below(sizeof after / sizeof *after)];
        } else v[i] = r.pick(same);
    }
    for (int k = r.pick(vector<int>{1, 1, 1, 2, 3, 6, 20}); !gentle && k > 0; --k) {
        auto& v = fs[r.below((int)fs.size())].second; if (v.empty()) continue;
        int i = r.below((int)v.size());
        switch (r.below(9)) {
            case 0: v.erase(v.begin() + i); break;
            case 1: v.insert(v.begin() + i, " " + v[r.below((int)v.size())] + " "); break;
            case 2: std::swap(v[i], v[r.below((int)v.size())]); break;
            case 3: v[i] = " " + string(odd[r.below(sizeof odd / sizeof *odd)]) + " "; break;
            case 4: v.insert(v.begin() + i, " " + string(odd[r.below(sizeof odd / sizeof *odd)]) + " "); break;
            case 5: if (!pool.empty()) v[i] = r.pick(pool); break;
            case 6: if (!pool.empty()) v.insert(v.begin() + i, r.pick(pool)); break;
            case 7: { int n = r.range(1, 12); vector<string> w(v.begin() + i, v.begin() + std::min((int)v.size(), i + n)); v.insert(v.begin() + r.below((int)v.size() + 1), w.begin(), w.end()); break; }
            default: { string& s = v[i]; if (!s.empty()) { int q = r.below((int)s.size()); if (r.chance(1, 2)) s[q] = (char)r.below(256); else s.insert(q, 1, (char)r.range(32, 126)); } break; }
        }
    }
    if (r.chance(1, 20)) { auto& v = fs[r.below((int)fs.size())].second; if (!v.empty()) v.resize(r.below((int)v.size())); }
}
// everything that the tool does with a definition; false if it was given up
static bool everything(ctx& c, run_t& run, const vector<string>& languages, const vector<string>& nts, rng& r, bool parse) {
    bool ok = run.front("d.tp");
    if (!run.parse->definition_file().item() && !run.st().exitCode) { c.fail("silent", "a file that cannot be read is not reported"); return false; }
    if (!ok) { c.count("stopped-at-" + run.stage); return true; }
    // tests: not of languages that do not compile (the tool goes on with them), nor with grammars that reduce/reduce choices can keep reducing forever
    bool tests = r.chance(1, 3), testable = tests && parse;      // (circular guards never finish)
    if (testable) for (auto d = run.parse->definition_file()->begin(); testable && d != run.parse->definition_file()->end(); ++d) if ((*d)->test()) for (auto x = (*d)->test()->begin(); testable && x != (*d)->test()->end(); ++x) {
        string tl = narrow((*d)->test()->language()), tn = narrow((*x)->nonterminal());
        if (tl.size() + std::max(tn.size(), (*x)->identifier().size()) > NAME_LIMIT - 5) testable = false;
        if (!run.import->language_with_name(widen(tl))) continue;
        if (!run.back(tl, { tn }) || run.count("CONFLICT_REDUCE_REDUCE") || run.count("CONFLICT_SHIFT_REDUCE")) testable = false;
        if (run.lexer) run.lr.reset(), run.lexer.reset(); run.builder.reset();
    }
    if (tests && !testable) c.count("not-testable");
    run.st().exitCode = 0;
    if (testable) { compiler::test_stage ts(run.cc, L"d.tp", run.parse->definition_file(), run.import.get()); ts.compile(); c.count("test-runs"); }
    if (tests) { run.st().exitCode = 0; run.st().diags.erase(std::remove_if(run.st().diags.begin(), run.st().diags.end(), [](const diag& d) { return d.id.compare(0, 3, "BUG") != 0; }), run.st().diags.end()); }
    vector<string> starts; for (int k = r.range(1, 2); k > 0; --k) starts.push_back(nts.empty() || r.chance(1, 10) ? "<Q>" : r.pick(nts));
    string lang = languages.empty() ? "L" : r.pick(languages);
    if (!run.back(lang, starts)) { c.count("stopped-at-" + run.stage); return true; }
    c.count("compiled");
    { compiler::output_cplusplus out(run.cc, L"d.tp", run.lexer.get(), run.lang, run.lr.get(), L"out", widen(lang), L"ns"); out.compile(); }
    // (with some resolutions of conflicts in cyclic grammars no LR parser ever finishes)
    for (auto& d : run.st().diags) if (d.id.compare(0, 8, "CONFLICT") == 0) parse = false;
    if (parse) {
        namer nm; nm.g = run.lang->grammar(); nm.t = run.lang->terminals();
        vector<string> words = { "if", "42", "+", "(", ")", "#a", "zz", "ab", "\"\"", "while", "$", "<>", ";", "@@", "Q" };
        for (int k = 0; k < 2; ++k) { string s; for (int n = r.below(8); n > 0; --n) s += r.pick(words) + (r.chance(3, 4) ? " " : ""); run_parser(run, nm, widen(s), 0, 2000); c.count("parses"); }
    }
    return true;
}
static void c20(ctx& c) {
    rng& r = c.r; layout l(r); vector<std::pair<string, vector<string>>> fs;
    int how = r.below(5);
    if (how == 0) { def_model m(r); m.file(); m.lay(); fs.push_back({"d.tp", pieces(m.utf8())}); }
    else { program p = some_program(c, r, l, true); for (auto& f : p.files) fs.push_back({f.first, pieces(f.second)}); }
    bool changed = !r.chance(1, 12); if (changed) mutate(r, fs);
    run_t run; string all; vector<string> languages, nts;
    for (auto& f : fs) {
        string s; for (auto& p : f.second) s += p;
        run.file(f.first, s); all += "--- " + f.first + "\n" + s + "\n";
        for (size_t i = 0; i + 2 < f.second.size(); ++i) { if (f.second[i] == "language") languages.push_back(f.second[i + 2]); if (f.second[i].size() > 2 && f.second[i][0] == '<' && f.second[i][f.second[i].size() - 1] == '>') nts.push_back(f.second[i]); }
    }
    c.note(all); if (getenv("VF_SHOW")) fputs(all.c_str(), stderr);
    if (r.chance(1, 4)) run.st().options[L"enable-lr1-resolver"] = L"1";
    if (r.chance(1, 2)) run.st().options[L"show-conflict-details"] = L"1";
    if (r.chance(1, 2)) run.st().options[L"allow-reduce-conflicts"] = L"1";
    bool plain = all.find("[=>") == string::npos && all.find("reduce") == string::npos && all.find("precedence") == string::npos;
    if (!everything(c, run, languages, nts, r, plain)) return;
    c.count("definitions"); c.count("diagnostics", (long)run.st().diags.size());
    for (auto& d : run.st().diags) if (d.id.compare(0, 3, "BUG") == 0) { c.fail("bug-report:" + d.id, "the tool reports a bug in itself\n" + show_diags(run.st().diags)); return; }
    // an error never goes without an exit code, and a refusal never without an error
    bool err = false; for (auto& d : run.st().diags) if (d.sev >= compiler::error::sev_error) err = true;
    if (run.stage != "done" && !run.st().exitCode && run.stage != "missing-language") c.fail("silent", "gives up in stage " + run.stage + " without an error\n" + show_diags(run.st().diags));
    if (err != (run.st().exitCode != 0)) c.fail("exit-code", "exit code " + std::to_string(run.st().exitCode) + "\n" + show_diags(run.st().diags));
    c.nontrivial = changed && !run.st().diags.empty();
}

// ---- C21: the output is a function of the definition -------------------------------------------------------------------
struct produced { string diags, places, messages, verbose; std::map<string, string> files; bool done = false; int exitCode = 0; };
static string masked(const string& s) {        // the time of the run is the only thing that may differ
    std::stringstream in(s); string line, out; while (std::getline(in, line)) { size_t p = line.find("generated by TameParse at"); if (p != string::npos) line.resize(p); out += line + "\n"; } return out;
}
static produced produce(const vector<std::pair<string, string>>& files, const string& target, const vector<string>& starts, const std::map<wstring, wstring>& options) {
    produced o; run_t run; for (auto& f : files) run.file(f.first, f.second); run.st().options = options;
    o.done = run.compile("d.tp", target, starts);
    if (o.done) { compiler::output_cplusplus out(run.cc, L"d.tp", run.lexer.get(), run.lang, run.lr.get(), L"out", widen(target), L"ns"); out.compile(); }
    for (auto& d : run.st().diags) { o.diags += d.id + " " + std::to_string(d.sev) + " " + d.file + " " + d.text + "\n"; o.places += std::to_string(d.offset) + ":" + std::to_string(d.line) + ":" + std::to_string(d.col) + "\n"; }
    o.messages = narrow(run.st().msg.str()); o.verbose = narrow(run.st().verbose.str()); o.exitCode = run.st().exitCode;
    for (auto& w : run.st().written) o.files[narrow(w.first)] = masked(w.second);
    return o;
}
static string first_difference(const string& a, const string& b) {
    std::stringstream x(a), y(b); string p, q; for (int n = 1;; ++n) { bool e = !std::getline(x, p), f = !std::getline(y, q); if (e && f) return "nothing"; if (e || f || p != q) return "line " + std::to_string(n) + ": '" + (e ? "(end)" : p) + "' and '" + (f ? "(end)" : q) + "'"; }
}
static void same(ctx& c, const produced& a, const produced& b, const string& what, bool places, bool streams = true) {
    if (a.done != b.done || a.exitCode != b.exitCode) c.fail("verdict", what + ": exit codes " + std::to_string(a.exitCode) + " and " + std::to_string(b.exitCode));
    else if (a.diags != b.diags) c.fail("diagnostics", what + ": " + first_difference(a.diags, b.diags));
    else if (places && a.places != b.places) c.fail("positions", what + ": " + first_difference(a.places, b.places));
    else if (streams && (a.messages != b.messages || a.verbose != b.verbose)) c.fail("messages", what + ": " + first_difference(a.messages + a.verbose, b.messages + b.verbose));
    else if (a.files.size() != b.files.size()) c.fail("files", what + ": other files are written");
    else for (auto& f : a.files) { auto g = b.files.find(f.first); if (g == b.files.end() || g->second != f.second) { c.fail("files", what + ": " + f.first + " differs, " + (g == b.files.end() ? string("missing") : first_difference(f.second, g->second))); return; } }
}
static void c21(ctx& c) {
    rng& r = c.r; layout l(r); program p = some_program(c, r, l, true);
    bool broken = r.chance(1, 6); vector<std::pair<string, vector<string>>> fs; for (auto& f : p.files) fs.push_back({f.first, pieces(f.second)});
    if (broken) mutate(r, fs);
    vector<std::pair<string, string>> files; string all; for (auto& f : fs) { string s; for (auto& x : f.second) s += x; files.push_back({f.first, s}); all += "--- " + f.first + "\n" + s + "\n"; }
    c.note(all); if (getenv("VF_SHOW")) fputs(all.c_str(), stderr);
    std::map<wstring, wstring> opt; for (auto o : {L"enable-lr1-resolver", L"show-conflict-details", L"disable-compact-dfa", L"disable-merged-dfa"}) if (r.chance(1, 4)) opt[o] = L"1";
    if (r.chance(3, 4)) opt[L"allow-reduce-conflicts"] = L"1"; opt[L"show-propagation"] = L"";
    vector<string> starts(1, "<N0>"); if (r.chance(1, 4)) starts.push_back("<N1>");
    produced a = produce(files, p.target, starts, opt);
    c.count(a.done ? "compiled" : "refused"); c.count("diagnostics", std::count(a.diags.begin(), a.diags.end(), '\n')); for (auto& f : a.files) c.count("lines-written", std::count(f.second.begin(), f.second.end(), '\n'));
    // again, with other things in memory and after other work
    vector<std::unique_ptr<char[]>> held; for (int k = r.range(10, 300); k > 0; --k) held.emplace_back(new char[r.range(1, 600)]);
    for (size_t k = 0; k < held.size(); ++k) if (r.chance(1, 2)) held[k].reset();
    if (r.chance(1, 2)) { rng q(r.next()); layout l2(q); program o = some_program(c, q, l2, true); produce(o.files, o.target, {"<N0>"}, {}); c.count("other-work"); }
    produced b = produce(files, p.target, starts, opt); same(c, a, b, "the same definition twice", true); c.count("repetitions");
    if (c.fails) return;
    // with another layout: blanks and comments mean nothing
    if (!broken) {
        vector<std::pair<string, string>> other; bool clean = true;
        for (auto& f : fs) {
            string s; bool inRegexText = false; (void)inRegexText;
            for (auto& x : f.second) { bool blank = isspace((unsigned char)x[0]) || x.compare(0, 2, "//") == 0 || x.compare(0, 2, "/*") == 0; if (!blank) s += x; else s += r.pick(vector<string>{" ", "\n", "\t", "\r\n", " /* other */ ", " // other\n", "  \n\n"}); }
            other.push_back({f.first, s});
        }
        if (clean) { produced d = produce(other, p.target, starts, opt); same(c, a, d, "another layout", false); c.count("layouts"); }
    }
    if (c.fails) return;
    // with a language that has nothing to do with it
    if (a.done && r.chance(1, 2)) {
        vector<std::pair<string, string>> more = files; string extra = "\nlanguage Zz-other { keywords { zz-a zz-b } grammar { <N0> = zz-a | zz-b <N0> <N1> = zz-a* } }\n"; auto& s = more[r.below((int)more.size())].second; if (s.size() && more.size() == 1 && r.chance(1, 2)) s = extra + s; else s += extra;
        produced d = produce(more, p.target, starts, opt); same(c, a, d, "with an unrelated language", false, false); c.count("unrelated");
    }
    c.nontrivial = a.done && !a.files.empty();
}

// ---- C28: threads ------------------------------------------------------------------------------------------------------
// Built with the race detector. Threads that have nothing in common read definitions, build lexers and parse with parsers of
// their own; then several threads parse with one parser and one lexer. Every result must be the one obtained alone.
struct names;
struct job { std::shared_ptr<names> nm; vector<std::pair<string, string>> files; string target; std::map<wstring, wstring> options; vector<wstring> texts; vector<string> regexes; std::unique_ptr<run_t> built; string alone; };
struct ticket { static const int MAX = 4096; std::atomic<int> next{0}; std::atomic<int> who[MAX]; void take(int id) { int k = next.fetch_add(1, std::memory_order_relaxed); if (k < MAX) who[k].store(id, std::memory_order_relaxed); } };
// the names of what the parser reports are looked up beforehand: the grammar itself is not for several threads
struct names { std::map<int, string> terms, rules, syms; names(run_t& run) {
    namer nm; nm.g = run.lang->grammar(); nm.t = run.lang->terminals(); const lr::parser_tables* t = run.lr->get_tables();
    for (int k = 0; k < run.lang->terminals()->count_symbols(); ++k) terms[k] = nm.term(k);
    for (int k = 0; k < t->count_reduce_rules(); ++k) { int id = t->reduce_rules()[k].ruleId; const contextfree::rule_container& r = nm.g->rule_with_identifier(id); rules[id] = nm.rule(*r); syms[id] = nm.item(*r->nonterminal()); }
} };
struct mt_actions {
    const names* nm; vector<string>* events; std::unique_ptr<dfa::lexeme_stream> in;
    mt_actions(const names* n, vector<string>* e, dfa::lexeme_stream* s) : nm(n), events(e), in(s) {}
    dfa::lexeme* read() { dfa::lexeme* r = NULL; (*in) >> r; return r; }
    tnodep shift(const dfa::lexeme_container& x) { tnodep n(new tnode); auto f = nm->terms.find(x->matched()); n->sym = f == nm->terms.end() ? "?" : f->second; n->offset = x->pos().offset(); n->text = narrow(x->content<wchar_t>()); events->push_back(n->sym + ":" + n->text + "@" + std::to_string(n->offset)); return n; }
    tnodep reduce(int nt, int rule, const vector<tnodep>& items, const dfa::position& at) { tnodep n(new tnode); auto f = nm->rules.find(rule); n->rule = f == nm->rules.end() ? "?" : f->second; n->sym = n->rule; n->kids = items; events->push_back(n->rule + "@" + std::to_string(at.offset())); return n; }
};
typedef lr::parser<tnodep, mt_actions> mt_parser;
template<class step_t> static string mt_parse(const mt_parser& p, dfa::lexer* lx, const names& nm, const wstring& text, const step_t& step) {
    vector<string> events; std::wstringstream in(text); string s;
    std::unique_ptr<mt_parser::state> st(p.create_parser(new mt_actions(&nm, &events, lx->create_stream_from(in)), 0));
    lr::parser_result::result res = lr::parser_result::more;
    for (int n = 0; res == lr::parser_result::more && n < 100 + 12 * (int)text.size(); ++n) { step(); res = st->process(); }
    if (res == lr::parser_result::accept) s = "accept " + tree_text(st->get_item());
    else if (res == lr::parser_result::more) s = "stuck";
    else { const dfa::lexeme_container& la = st->look(); s = "reject@" + std::to_string(la.item() ? la->pos().offset() : -1); }
    for (auto& e : events) s += ";" + e;
    return s + "\n";
}
template<class step_t> static string parses(run_t& run, const names& nm, const vector<wstring>& texts, const step_t& step) {
    string s; mt_parser p(run.lr->get_tables(), false);
    for (auto& x : texts) { s += mt_parse(p, run.lexer->get_lexer(), nm, x, step); step(); }
    return s;
}
template<class step_t> static string work(job& j, const step_t& step) {
    string s; step();
    {   // read the definition
        run_t run; for (auto& f : j.files) run.file(f.first, f.second);
        bool ok = run.front("d.tp"); step(); s += show_diags(run.st().diags) + (ok ? "read\n" : "not read\n");
        if (run.parse && run.parse->definition_file().item()) { ast_dump d; yy_language::definition_file_container f = run.parse->definition_file(); d.file(*f.item()); for (auto& e : d.el) s += e.text + "@" + std::to_string(e.o0) + "\n"; } step();
    }
    {   // build a lexer and read with it
        dfa::ndfa_regex* nfa = new dfa::ndfa_regex(); int id = 0; for (auto& x : j.regexes) nfa->add_regex(0, widen(x), dfa::accept_action(++id, false)); step();
        dfa::lexer lex(nfa); lex.compile(j.regexes.size() % 2 == 0); step();
        for (auto& x : j.texts) {
            std::wstringstream in(x); std::unique_ptr<dfa::lexeme_stream> st(lex.create_stream_from(in)); dfa::lexeme* l = 0;
            for (int n = 0; n < 300; ++n) { (*st) >> l; if (!l) break; s += std::to_string(l->matched()) + ":" + narrow(l->content<wchar_t>()) + "@" + std::to_string(l->pos().offset()) + " "; delete l; step(); }
        }
    }
    if (j.built) s += parses(*j.built, *j.nm, j.texts, step);
    return s;
}
static void c28(ctx& c) {
    rng& r = c.r; int n = r.range(2, 4); vector<job> js(n); int done = 0;
    static const char* words[] = { "if", "42", "7", "x", "abc", "+", "*", "(", ")", "/* x */", "end", "?", "while", "-", ";" };
    static const char* res[] = { "[a-z]+", "[a-z][a-z0-9]*", "[0-9]+", "if|while|end", "[ ]+", "\\(|\\)", ".", "x?y+", "(ab|c)*d", "[^a-z]", "\\d+", "\\s", "[a-f]{2}" };
    for (int k = 0; k < n; ++k) {
        job& j = js[k];
        if (k && r.chance(1, 3)) { job& o = js[k - 1]; j.files = o.files; j.target = o.target; j.options = o.options; j.texts = o.texts; j.regexes = o.regexes; }
        else {
            layout l(r); vector<string> sent; program p = some_program(c, r, l, false, &sent); j.files = p.files; for (auto& x : sent) j.texts.push_back(widen(x)); j.target = p.target;
            for (auto o : {L"disable-compact-dfa", L"disable-merged-dfa"}) if (r.chance(1, 4)) j.options[o] = L"1";
            vector<string> pool(words, words + sizeof words / sizeof *words); for (auto& f : p.files) for (auto& x : pieces(f.second)) if (x.size() < 8 && !isspace((unsigned char)x[0])) pool.push_back(x[0] == '"' || x[0] == '\'' ? x.substr(1, x.size() - 2) : x);
            for (int m = r.range(2, 5); m > 0; --m) { string s; for (int w = r.below(9); w > 0; --w) s += r.pick(pool) + (r.chance(3, 4) ? " " : ""); j.texts.push_back(widen(s)); }
            for (int m = r.range(1, 4); m > 0; --m) j.regexes.push_back(res[r.below(sizeof res / sizeof *res)]);
            string all; for (auto& f : j.files) all += "--- " + f.first + "\n" + f.second + "\n"; c.note("thread " + std::to_string(k) + ":\n" + all); if (getenv("VF_SHOW")) fputs(all.c_str(), stderr);
        }
        j.built.reset(new run_t); for (auto& f : j.files) j.built->file(f.first, f.second); j.built->st().options = j.options;
        bool ok = j.built->compile("d.tp", j.target, {"<N0>"}); for (auto& d : j.built->st().diags) if (d.id.compare(0, 8, "CONFLICT") == 0) ok = false;
        if (!ok) j.built.reset(); else { ++done; j.nm.reset(new names(*j.built)); }
        if (r.chance(1, 8)) { vector<std::pair<string, vector<string>>> fs; for (auto& f : j.files) fs.push_back({f.first, pieces(f.second)}); mutate(r, fs); j.files.clear(); for (auto& f : fs) { string s; for (auto& x : f.second) s += x; j.files.push_back({f.first, s}); } }
    }
    c.count("compiled", done);
    bool before = r.chance(1, 2);       // the results of working alone are taken before or after, so that the first use of everything is sometimes in a thread
    vector<uint64_t> qs; for (int k = 0; k < 2 * n; ++k) qs.push_back(r.next());
    auto alone = [&] { for (auto& j : js) j.alone = work(j, [] { }); };
    if (before) alone();
    std::unique_ptr<ticket> t(new ticket); std::atomic<int> ready{0};
    // every thread waits for the others, then works with pauses at random steps; nothing in here orders one thread after another
    auto threads = [&](std::function<void(int, const std::function<void()>&)> body, int first) {
        ready.store(0); vector<std::thread> ts;
        for (int k = 0; k < n; ++k) ts.emplace_back([&, k] {
            rng q(qs[first + k]); std::function<void()> step = [&] { t->take(k); int w = q.below(24); if (w < 6) sched_yield(); else if (w == 6) usleep(q.below(200)); };
            ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) sched_yield();
            body(k, step);
        });
        for (auto& x : ts) x.join();
    };
    vector<string> got(n);
    threads([&](int k, const std::function<void()>& step) { got[k] = work(js[k], step); }, 0);
    if (!before) alone();
    for (int k = 0; k < n; ++k) if (got[k] != js[k].alone) c.fail("other-result", "thread " + std::to_string(k) + " of " + std::to_string(n) + " gets another result than alone: " + first_difference(js[k].alone, got[k]));
    // one parser and one lexer for all
    for (auto& j : js) {
        if (!j.built || c.fails) continue;
        run_t& run = *j.built; mt_parser p(run.lr->get_tables(), false); dfa::lexer* lx = run.lexer->get_lexer();
        vector<wstring> texts; for (auto& x : js) for (auto& y : x.texts) texts.push_back(y);
        vector<vector<string>> out(n, vector<string>(texts.size()));
        threads([&](int k, const std::function<void()>& step) { for (size_t i = 0; i < texts.size(); ++i) { size_t m = (i + k) % texts.size(); out[k][m] = mt_parse(p, lx, *j.nm, texts[m], step); } }, n);
        for (size_t i = 0; i < texts.size() && !c.fails; ++i) { string e = mt_parse(p, lx, *j.nm, texts[i], [] { }); c.count("shared-parses", n); c.count(e[0] == 'a' ? "accepted" : "rejected"); for (int k = 0; k < n; ++k) if (out[k][i] != e) { c.fail("shared-parser", "a parser used by " + std::to_string(n) + " threads, input " + narrow(texts[i]) + "\nalone: " + e + "there: " + out[k][i]); break; } }
        c.count("shared"); break;
    }
    int last = std::min((int)t->next, (int)ticket::MAX), sw = 0; for (int k = 1; k < last; ++k) if (t->who[k] != t->who[k - 1]) ++sw;
    c.count("threads", n); c.count("steps", last); c.count("switches", sw); c.nontrivial = done > 0 && sw >= n;
}

// ---- C23: what is wrong with a definition is reported, where it is, and nothing else -----------------------------------
// The text is written with marks (\x01 and a character) in front of the places that diagnostics should name.
static string mk(int k) { return string("\x01") + (char)('0' + k); }
struct marked { string text; std::map<int, vector<at_pos>> at; };
static marked strip(const string& s) {
    marked m; string raw; vector<std::pair<size_t, int>> marks; wstring w;
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] == 1) { marks.push_back({raw.size(), s[i + 1] - '0'}); ++i; } else raw += s[i]; }
    m.text = raw; size_t done = 0; at_pos p = {0, 0, 0}; bool cr = false;
    for (auto& q : marks) {
        for (wchar_t ch : widen(raw.substr(done, q.first - done))) {
            ++p.off;
            if (ch == L'\r') { ++p.line; p.col = 0; cr = true; }
            else if (ch == L'\n') { if (!cr) ++p.line; p.col = 0; cr = false; }
            else { ++p.col; cr = false; }
        }
        done = q.first; m.at[q.second].push_back(p);
    }
    return m;
}
struct expected { string id; int sev; vector<int> marks; bool must = true; };     // at the first occurrence of one of the marks
struct fault_set {
    rng& r; layout& l; int next; int uniq = 0; int stage = 9;
    vector<string> blocks, top; vector<expected> ex; vector<string> starts; std::map<wstring, wstring> options;
    fault_set(rng& rr, layout& ll, int n) : r(rr), l(ll), next(n) {}
    enum { W = compiler::error::sev_warning, E = compiler::error::sev_error, D = compiler::error::sev_detail };
    string z() { return "z" + string(1, (char)('a' + uniq / 26 % 26)) + string(1, (char)('a' + uniq++ % 26)); }
    string m(int& k) { k = next++; return mk(k); }
    void is(const string& id, int sev, int mark, int st) { expected e; e.id = id; e.sev = sev; e.marks.push_back(mark); ex.push_back(e); if (sev >= E) stage = std::min(stage, st); }
    void block(const string& head, const string& body) { blocks.push_back(head + l.sp() + "{" + l.sp() + body + l.sp() + "}\n"); }
    string eq() { return l.sp() + "=" + l.sp(); }
    string pad() { string s; for (int k = r.below(3); k > 0; --k) { string n = z(); s += n + eq() + "/" + n + "/" + l.sp(); used += l.sp() + n; } return s; }
    string used;            // terminals that have to be mentioned in the grammar
    void language_fault() {
        int k; string n = z();
        switch (r.below(12)) {
            case 0: {      // the same symbol twice: the one that is processed later is reported
                static const char* heads[] = { "weak keywords", "weak lexer", "keywords", "lexer", "ignore" };
                int a = r.below(5), b = r.chance(1, 2) ? a : r.below(5);
                auto def = [&](int kind, const string& mark) { return pad() + mark + (kind % 2 == 0 && kind < 4 && r.chance(1, 2) ? n : n + eq() + "/" + n + "/") + l.sp() + pad(); };
                string first = def(a, a <= b ? "" : m(k)), second = def(b, a <= b ? m(k) : ""); is("DUPLICATE_LEXER_SYMBOL", E, k, 2);
                if (a == b && r.chance(1, 2)) block(heads[a], first + second); else { block(heads[a], first); block(heads[b], second); }
                break;
            }
            case 1: block(r.pick(vector<string>{"lexer", "ignore", "keywords", "weak lexer"}), pad() + m(k) + n + l.sp() + "|=" + l.sp() + "/q/" + l.sp() + pad()); is("MISSING_LEXER_SYMBOL_FOR_ADDING", E, k, 2); break;
            case 2: block(r.pick(vector<string>{"lexer", "ignore", "keywords", "weak lexer"}), pad() + m(k) + "replace" + l.sp() + n + eq() + "\"q\"" + l.sp() + pad()); is("MISSING_LEXER_SYMBOL_FOR_REPLACING", E, k, 2); break;
            case 3: block("lexer-symbols", n + eq() + "/q/" + l.sp() + m(k) + n + eq() + "/r/"); is("DUPLICATE_LEXER_SYMBOL", E, k, 2); break;
            case 4: if (r.chance(1, 2)) { block("lexer-symbols", m(k) + n + l.sp() + "|=" + l.sp() + "/r/"); is("MISSING_LEXER_SYMBOL_FOR_ADDING", E, k, 2); } else { block("lexer-symbols", m(k) + "replace" + l.sp() + n + eq() + "/r/"); is("MISSING_LEXER_SYMBOL_FOR_REPLACING", E, k, 2); } break;
            case 5: { string a = r.pick(vector<string>{"keywords", "ignore"}), b = a == "ignore" && r.chance(1, 2) ? "keywords" : "lexer"; if (a == "ignore") { b = "lexer"; a = "keywords"; if (r.chance(1, 2)) b = "ignore"; }
                string one = n + eq() + "\"" + n + "\"", two = m(k) + n + l.sp() + "|=" + l.sp() + "/q/"; block(a, one); block(b, two); is("CANNOT_ADD_TO_DIFFERENT_LEXER_SYMBOL_TYPE", E, k, 2); break; }
            case 6: { string d = "<" + n + ">"; string a = d + eq() + "\"zq\"", b = m(k) + d + eq() + "\"zr\"" + l.sp() + d; if (r.chance(1, 2)) block("grammar", a + "\n" + b); else { block("grammar", a); block("grammar", b); } is("DUPLICATE_NONTERMINAL_DEFINITION", E, k, 2); break; }
            case 7: {
                string u = "<" + n + "u>", use = m(k) + u; string d = "<" + n + ">" + eq();
                switch (r.below(6)) { case 0: d += "\"zq\"" + l.sp() + use; break; case 1: d += "(\"zq\"" + l.sp() + use + ")*"; break; case 2: d += use + "?"; break; case 3: d += "[=> \"zq\"" + l.sp() + use + "]" + l.sp() + "\"zq\""; break; case 4: d += "\"zr\" | (\"zs\" | " + use + ")"; break; default: d += use + l.sp() + "|" + l.sp() + "\"zq\""; }
                if (r.chance(1, 2)) d += l.sp() + u; block("grammar", d); is("UNDEFINED_NONTERMINAL", E, k, 2); break;
            }
            case 8: {
                string bad = r.chance(1, 2) ? n : "\"" + n + "\""; string lit = "\"" + n + "k\""; block("grammar", "<" + n + ">" + eq() + lit);
                switch (r.below(3)) { case 0: block("precedence", "left" + l.sp() + m(k) + bad); break; case 1: block("precedence", "left {" + lit + l.sp() + m(k) + bad + "}"); break; default: block("precedence", "left" + l.sp() + lit + l.sp() + "right {" + m(k) + bad + l.sp() + "}"); }
                is("UNDEFINE_TERMINAL", E, k, 2); break;
            }
            case 9: {
                string e = "<" + n + "e>"; block("grammar", "<" + n + ">" + eq() + "\"zq\" [=>" + l.sp() + m(k) + e + r.pick(vector<string>{"", " \"zq\"?", " <" + n + "e>*"}) + "]" + l.sp() + "\"zr\"\n" + e + eq() + r.pick(vector<string>{"\"zq\"?", "(\"zq\" | \"zr\")*", "\"zs\" | ()"}));
                is("INEFFECTIVE_GUARD", E, k, 2); break;
            }
            case 10: top.push_back(m(k) + "language" + l.sp() + "X" + n + " :" + l.sp() + "Nowhere { }\n"); is("CANT_FIND_LANGUAGE", E, k, 2); break;
            default: {
                int len = r.range(1, 3); for (int i = 0; i < len; ++i) { string s = m(k) + "language" + l.sp() + "X" + n + std::to_string(i) + l.sp() + ":" + l.sp() + "X" + n + std::to_string((i + 1) % len) + " { }\n"; top.push_back(s); is("INHERITANCE_LOOP", E, k, 2); }
            }
        }
    }
    bool missing = false, badFile = false; int badMark = 0;
    void import_fault() {
        if (r.chance(1, 4) && !missing) { missing = true; top.push_back("import" + l.sp() + "\"nowhere.tp\"\n"); stage = std::min(stage, 1); return; }
        if (r.chance(1, 3) && !badFile) { badFile = true; m(badMark); top.push_back("import" + l.sp() + "\"bad.tp\"\n"); is("SYNTAX_ERROR", E, badMark, 1); return; }
        int a, b; string n = "X" + z(); string one = m(a) + "language" + l.sp() + n + " { keywords { " + z() + " } }\n", two = m(b) + "language" + l.sp() + n + " { }\n";
        top.push_back(one + two); is("AMBIGUOUS_LANGUAGE_DEFINITION", E, b, 1); is("AMBIGUOUS_LANGUAGE_ORIGINAL", D, a, 1);
    }
    void lexer_fault() {
        int k; string n = z(), at; 
        switch (r.below(3)) {
            case 0: {
                static const char* bad[] = { "zb@(cd", "zb@[cd", "zb@{cd", "zb@{undefined-symbol}c", "(zb)+c@(d|e", "zb\\(c@(d", "zb[(]c@(d", "zb@(d\\)", "zb{unicode-letter}@{unicode-lettr}" };
                at = bad[r.below(9)]; size_t p = at.find('@'); at.replace(p, 1, m(k)); block(r.pick(vector<string>{"lexer", "weak lexer", "keywords"}), pad() + n + eq() + "/" + at + "/"); used += l.sp() + n; is("BAD_REGULAR_EXPRESSION", E, k, 3); break;
            }
            case 1: block("lexer-symbols", n + eq() + m(k) + "/q{" + n + "}/"); block("lexer", n + "t" + eq() + "/" + n + "{" + n + "}/"); used += l.sp() + n + "t"; is("RECURSIVE_LEXER_SYMBOL", E, k, 3); break;
            default: {
                int before = stage; string s = "lexer-symbols"; block(s, n + eq() + "/q" + n + "/"); block(s, n + "b" + eq() + "/z{" + n + "}" + m(k) + "{" + n + "c}/"); block("lexer", n + "t" + eq() + "/" + n + "{" + n + "b}/"); used += l.sp() + n + "t"; is("BAD_REGULAR_EXPRESSION", E, k, 3);
                if (r.chance(1, 2)) { blocks.pop_back(); blocks.pop_back(); ex.pop_back(); stage = before; block("lexer", n + "t" + eq() + "/" + n + "{" + n + "}/"); }      // nothing wrong
            }
        }
    }
    void warning_fault() {
        int a, k; string n = z();
        switch (r.below(5)) {
            case 0: block(r.pick(vector<string>{"keywords", "weak keywords"}), m(k) + n); is("UNUSED_TERMINAL_SYMBOL", W, k, 4); break;
            case 1: block(r.pick(vector<string>{"lexer", "weak lexer"}), pad() + m(k) + n + eq() + "/" + n + "/" + (r.chance(1, 2) ? l.sp() + n + l.sp() + "|=" + l.sp() + "/" + n + "x/" : "")); is("UNUSED_TERMINAL_SYMBOL", W, k, 4); break;
            case 2: block("ignore", n + eq() + "/" + n + "/"); break;           // never used, which is fine
            case 3: {       // hidden by another symbol, or not
                struct two { const char *x, *y; bool hidden; }; static const two t[] = { {"\"#q\"", "/#q/", true}, {"/#[a-c]+/", "/#b+/", true}, {"/#b+/", "/#[a-c]+/", false}, {"/#(a|b)?/", "/#a/", true}, {"/#a*/", "/#a*b/", false}, {"\"#k\"", "/#[a-z]+/", false} };
                two q = t[r.below(6)]; auto put = [&](string s) { s.replace(s.find('#'), 1, n); return s; };
                string x = m(a) + n + "x" + eq() + put(q.x), y = m(k) + n + "y" + eq() + put(q.y); used += l.sp() + n + "x" + l.sp() + n + "y";
                switch (r.below(3)) { case 0: block("lexer", x + l.sp() + y); break; case 1: block("lexer", x); block("lexer", y); break; default: if (r.chance(1, 2)) { block("keywords", x); block("lexer", y); } else { string save = x; blocks.push_back(""); size_t at = blocks.size() - 1; block("keywords", x); blocks[at] = "lexer {" + l.sp() + y + l.sp() + "}\n"; } }
                if (q.hidden) { is("SYMBOL_CANNOT_BE_GENERATED", W, k, 4); is("SYMBOL_CLASHES_WITH", D, a, 4); }
                break;
            }
            default: { string g = m(k) + n + "i"; block("grammar", "<" + n + ">" + eq() + "\"zq\"" + l.sp() + r.pick(vector<string>{g, "(" + g + ")?", "(\"zr\" | " + g + ")", "[=> " + g + "] \"zs\""}) + l.sp() + n + "i"); is("IMPLICIT_LEXER_SYMBOL", W, k, 4); }
        }
    }
    void conflict_fault(bool none, bool allow) {
        int a, b; string n = z(), A = "<" + n + "a>", q = "\"" + n + "q\"", p = "\"" + n + "p\"", x = "\"" + n + "x\"";
        auto either = [&](const string& id, int sev) { expected e; e.id = id; e.sev = sev; e.marks = {a, b}; ex.push_back(e); if (sev >= E) stage = std::min(stage, 5); };
        switch (r.below(4)) {
            case 0: block("grammar", A + eq() + m(a) + A + l.sp() + p + l.sp() + A + l.sp() + "|" + l.sp() + x); is("CONFLICT_SHIFT_REDUCE", none ? E : W, a, 5); is("DETAIL_REDUCE", D, a, 5); break;
            case 1: block("grammar", A + eq() + m(a) + q + l.sp() + A + l.sp() + p + l.sp() + A + l.sp() + "|" + l.sp() + m(b) + q + l.sp() + A + l.sp() + "|" + l.sp() + x); is("CONFLICT_SHIFT_REDUCE", none ? E : W, a, 5); is("DETAIL_REDUCE", D, b, 5); break;
            case 2: block("grammar", A + eq() + "<" + n + "b>" + l.sp() + "|" + l.sp() + "<" + n + "c>\n<" + n + "b>" + eq() + m(a) + q + "\n<" + n + "c>" + eq() + m(b) + q); either("CONFLICT_REDUCE_REDUCE", none || !allow ? E : W); either("DETAIL_REDUCE", D); break;
            default: block("grammar", A + eq() + q + l.sp() + A + l.sp() + q + l.sp() + "|" + l.sp() + x); break;      // nothing wrong
        }
        starts.push_back("<" + n + "a>");
    }
};
static void c23(ctx& c) {
    rng& r = c.r; layout l(r); cfg_gen gen(r);
    if (r.chance(1, 200)) {         // nothing at all
        string s = r.pick(vector<string>{"", "\n", "// a\n", "import \"e.tp\"", "test L { }"}); run_t run; run.file("d.tp", s); run.file("e.tp", " "); c.note(s); run.compile("d.tp", "L", { "<A>" });
        c.count("NO_LANGUAGES_DEFINED"); if (run.st().diags.size() != 1 || run.count("NO_LANGUAGES_DEFINED") != 1 || !run.st().exitCode) c.fail("no-languages", show_diags(run.st().diags));
        return;
    }
    egrammar g = nested(gen.any());
    bnf b(g); for (bool p : b.productive()) if (!p) { c.count("unproductive"); return; }
    lalr_ref m(b); if (m.tooBig) { c.count("too-big"); return; }
    ref_machine ref(m); ref.finish(); if (ref.srConflicts || ref.rrConflicts) { c.count("not-conflict-free"); return; }
    vector<tokdef> t = make_tokens(r, g.nT); fault_set f(r, l, g.nT);
    std::set<int> nts, ts; for (auto& rs : g.rules) for (auto& x : rs) layered::symbols(x, nts, ts);
    for (int i = 0; i < g.nT; ++i) {
        if (ts.count(i) && t[i].kind == tokdef::IMPLICIT) f.is("IMPLICIT_LEXER_SYMBOL", fault_set::W, i, 2);
        if (!ts.count(i) && t[i].kind != tokdef::IMPLICIT && t[i].kind != tokdef::LITERAL) f.is("UNUSED_TERMINAL_SYMBOL", fault_set::W, i, 4);
        t[i].name = mk(i) + t[i].name;
    }
    int what = r.below(10), n = r.pick(vector<int>{1, 1, 1, 2, 3}); bool none = r.chance(1, 4), allow = r.chance(1, 4);
    for (int k = 0; k < n; ++k) {
        if (what == 0) f.import_fault(); else if (what <= 4) f.language_fault(); else if (what <= 6) f.lexer_fault(); else if (what == 7) f.conflict_fault(none, allow);
        if (r.chance(1, 3)) f.warning_fault(); if (r.chance(1, 6)) f.conflict_fault(none, allow);
    }
    if (!f.used.empty()) f.block("grammar", "<zz-used>" + f.eq() + f.used);
    // the language, alone or as the base of another, in one file or two
    string body = lexer_text(t, l, r, IGNORE) + grammar_text(g, t, l); bool child = r.chance(1, 2), split = child && r.chance(1, 2); string inner, outer; 
    bool inBase = r.chance(1, 2);
    for (auto& x : f.blocks) (child && !inBase ? outer : inner) += x;
    string base = string("language") + l.sp() + (child ? "Base" : "L") + " {\n" + body + inner + "}\n", derived = child ? "language L : Base {\n" + outer + "}\n" : "", tops; for (auto& x : f.top) tops += x;
    vector<std::pair<string, string>> files;
    if (split) { files.push_back({"lib.tp", base + (inBase ? tops : "")}); files.push_back({"d.tp", "import \"lib.tp\"\n" + derived + (inBase ? "" : tops)}); }
    else { string all = r.chance(1, 2) ? base + derived : derived + base; files.push_back({"d.tp", r.chance(1, 2) ? all + tops : tops + all}); }
    if (f.badFile) files.push_back({"bad.tp", "language" + l.sp() + "B" + l.sp() + "{" + r.pick(vector<string>{"", " keywords { k }", " grammar { <Z> = k }"}) + "}" + l.sp() + mk(f.badMark) + r.pick(vector<string>{"}", "{", "=", "grammar", "keywords { }"}) + l.sp()});
    run_t run; struct place { string file; at_pos p; }; std::map<int, place> at; string shown;
    for (auto& x : files) { marked s = strip(x.second); run.file(x.first, s.text); shown += "--- " + x.first + "\n" + s.text; for (auto& q : s.at) at[q.first] = place{x.first, q.second[0]}; }
    c.note(shown); if (getenv("VF_SHOW")) fputs(shown.c_str(), stderr);
    if (none) run.st().options[L"no-conflicts"] = L"1"; if (allow) run.st().options[L"allow-reduce-conflicts"] = L"1";
    vector<string> starts = { "<N0>" }; for (auto& s : f.starts) starts.push_back(s);
    bool badStart = r.chance(1, 12); if (badStart) { starts.insert(starts.begin() + r.below((int)starts.size() + 1), "<zz-nowhere>"); }
    run.compile("d.tp", "L", starts);
    // what has to be seen: everything up to the stage that fails
    std::set<string> want, got; int exitCode = 0;
    auto text = [](const string& id, int sev, const string& file, int off, int line, int col) { return id + " severity " + std::to_string(sev) + " at " + file + ":" + std::to_string(line) + ":" + std::to_string(col) + " (offset " + std::to_string(off) + ")"; };
    vector<std::pair<string, vector<string>>> any;
    for (auto& e : f.ex) {
        int st = e.id == "UNUSED_TERMINAL_SYMBOL" ? 3 : e.id == "SYMBOL_CANNOT_BE_GENERATED" || e.id == "SYMBOL_CLASHES_WITH" ? 4 : e.id == "IMPLICIT_LEXER_SYMBOL" ? 2 : e.id.compare(0, 9, "AMBIGUOUS") == 0 || e.id == "SYNTAX_ERROR" ? 1 : e.id.compare(0, 8, "CONFLICT") == 0 || e.id == "DETAIL_REDUCE" ? 5 : e.id == "BAD_REGULAR_EXPRESSION" || e.id == "RECURSIVE_LEXER_SYMBOL" ? 3 : 2;
        if (st > f.stage) continue;
        vector<string> alt; for (int k : e.marks) { place& p = at[k]; alt.push_back(text(e.id, e.sev, p.file, p.p.off, p.p.line, p.p.col)); }
        if (alt.size() == 1) want.insert(alt[0]); else any.push_back({e.id, alt});
        c.count(e.id); if (e.sev >= fault_set::E) exitCode = e.sev;
    }
    if (f.missing) { want.insert(text("CANT_OPEN_FILE", compiler::error::sev_fatal, "nowhere.tp", -1, -1, -1)); exitCode = compiler::error::sev_fatal; c.count("CANT_OPEN_FILE"); }
    if (badStart && f.stage >= 5) { want.insert(text("UNDEFINED_NONTERMINAL", fault_set::E, "d.tp", -1, -1, -1)); exitCode = fault_set::E; c.count("bad-start-symbols"); }
    for (auto& d : run.st().diags) { if (d.id == "DETAIL_REDUCE_IN" || (f.stage == 3 && d.id.compare(0, 7, "SYMBOL_") == 0)) continue; string s = text(d.id, d.sev, d.file, d.offset, d.line, d.col); got.insert(s); }
    string all = show_diags(run.st().diags);
    for (auto& a : any) { bool seen = false; for (auto& s : a.second) if (got.count(s)) { seen = true; want.insert(s); } if (!seen) want.insert(a.second[0]); }
    for (auto& s : want) if (!got.count(s)) { c.fail("missing:" + s.substr(0, s.find(' ')), "not reported: " + s + "\nreported:\n" + all); return; }
    for (auto& s : got) if (!want.count(s)) { c.fail("extra:" + s.substr(0, s.find(' ')), "reported without reason: " + s + "\nreported:\n" + all + "\nexpected:\n" + [&] { string t; for (auto& x : want) t += x + "\n"; return t; }()); return; }
    if (run.st().exitCode != exitCode) { c.fail("exit-code", std::to_string(run.st().exitCode) + "\n" + all); return; }
    c.count("definitions"); c.nontrivial = !want.empty();
}

// ---- C26: the command line tool does what its options say --------------------------------------------------------------
// The tool (built with sanitizers) is run in a directory of its own; what it prints, writes and returns is compared with a
// model of the options, with the stages run in memory for what does not depend on the command line.
struct tool_result { int status = 0; bool crashed = false; string out, err; };
static string slurp(const string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const string& p, const string& t) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << t; }
static tool_result run_tool(const string& root, const string& cwd, const vector<string>& args, const string& input) {
    spit(root + "/.in", input); tool_result t; vector<char*> a; const char* exe = getenv("VF_TOOL"); if (!exe) { fprintf(stderr, "VF_TOOL is not set\n"); exit(2); } a.push_back((char*)"tameparse"); for (auto& x : args) a.push_back((char*)x.c_str()); a.push_back(0);
    string in = root + "/.in", out = root + "/.out", err = root + "/.err";
    setenv("LC_ALL", "C", 1);
    pid_t p = vfork();
    if (!p) {
        if (chdir(cwd.c_str())) _exit(120);
        int i = open(in.c_str(), O_RDONLY), o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(i, 0); dup2(o, 1); dup2(e, 2);
        struct rlimit l; l.rlim_cur = 20; l.rlim_max = 22; setrlimit(RLIMIT_CPU, &l); l.rlim_cur = l.rlim_max = 64 << 20; setrlimit(RLIMIT_FSIZE, &l);
        execv(exe, a.data()); _exit(121);
    }
    int st = 0; waitpid(p, &st, 0); t.out = slurp(out); t.err = slurp(err); unlink(in.c_str()); unlink(out.c_str()); unlink(err.c_str());
    t.crashed = !WIFEXITED(st) || WEXITSTATUS(st) == 98; t.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); return t;
}
static void listing(const string& dir, const string& rel, std::map<string, string>& m) {
    if (DIR* d = opendir(dir.c_str())) {
        while (dirent* e = readdir(d)) { string n = e->d_name; if (n == "." || n == "..") continue; string p = dir + "/" + n; struct stat s; if (lstat(p.c_str(), &s)) continue;
            if (S_ISDIR(s.st_mode)) { m[rel + n + "/"] = ""; listing(p, rel + n + "/", m); } else if (S_ISREG(s.st_mode)) m[rel + n] = slurp(p); else m[rel + n] = "(link)"; }
        closedir(d);
    }
}
static string base_name(const string& s) { size_t p = s.rfind('/'); return p == string::npos ? s : s.substr(p + 1); }
struct tool_console : mem_console {            // files are known by their last name
    std::wstring base(const std::wstring& n) const { size_t p = n.rfind(L'/'); return p == std::wstring::npos ? n : n.substr(p + 1); }
    compiler::console* clone() const { tool_console* c = new tool_console(); c->st = st; return c; }
    std::wstring real_path(const std::wstring& n) { return base(n); }
    std::istream* open_file(const std::wstring& n) { return mem_console::open_file(base(n)); }
};
// one line per diagnostic, as the tool is to print it; those that main.cpp itself reports have no text
static string line_of(const diag& d, bool codes) {
    static const char* sev[] = { "", "", "    ", " warning:", " error:", " failure:", " compiler failure:" };
    string s = base_name(d.file) + ":" + (d.line >= 0 ? std::to_string(d.line + 1) : "") + ":" + (d.col >= 0 ? std::to_string(d.col + 1) : "") + ":";
    s += d.sev <= 6 ? sev[d.sev] : "?"; if (codes) s += " [" + d.id + "]"; return s + " ";
}
static void c26(ctx& c) {
    rng& r = c.r; layout l(r);
    // a definition: conflict-free with a reference automaton, or anything
    egrammar g; vector<tokdef> t; program p; std::unique_ptr<bnf> b; std::unique_ptr<lalr_ref> m; std::unique_ptr<ref_machine> ref; std::map<string, int> known; std::vector<int> h;
    if (r.chance(1, 2)) {
        cfg_gen gen(r); g = nested(gen.any()); g.starts.clear(); for (int n = 0; n < g.nN; ++n) g.starts.push_back(n);
        b.reset(new bnf(g)); bool fine = true; for (bool x : b->productive()) fine = fine && x;
        if (fine) { m.reset(new lalr_ref(*b)); if (!m->tooBig) { ref.reset(new ref_machine(*m)); ref->finish(); if (ref->srConflicts || ref->rrConflicts) ref.reset(); } }
        if (!ref) { c.count("not-conflict-free"); return; }
        t = make_tokens(r, g.nT); vector<prec_block> none;
        if (r.chance(1, 2)) p = compose(r, l, g, t, none);
        else { p.target = "L"; p.files.push_back({"d.tp", "language L {\n" + lexer_text(t, l, r, IGNORE) + grammar_text(g, t, l) + "}\n"}); }
    } else p = some_program(c, r, l, true);
    if (!ref && r.chance(1, 4)) {            // something wrong with it
        vector<std::pair<string, vector<string>>> fs; for (auto& f : p.files) fs.push_back({f.first, pieces(f.second)});
        mutate(r, fs); for (size_t k = 0; k < fs.size(); ++k) { string s; for (auto& x : fs[k].second) s += x; p.files[k].second = s; }
        string all; for (auto& f : p.files) all += f.second; for (char ch : all) if ((unsigned char)ch >= 128 || !ch) { c.count("not-ascii"); return; }
        if (all.find("test") != string::npos) { c.count("tests-changed"); return; }         // see the known findings of C18
    }
    // blocks of the input file
    string& main = p.files[0].second; if (p.files[0].first != "d.tp") { c.fail("harness", "the first file is " + p.files[0].first); return; }
    int blocks = r.pick(vector<int>{0, 0, 1, 1, 1, 2}); if (main.find("parser ") != string::npos) blocks = -1;
    auto nt = [&]() { return "<" + nname(r.below(ref ? g.nN : 2)) + ">"; };
    for (int k = 0; k < blocks; ++k) { string s = "parser" + l.sp() + (k ? "other-parser" : "my-parser") + l.sp() + ":" + l.sp() + (r.chance(1, 12) ? "Nowhere" : p.target) + l.sp() + "{" + l.sp(); for (int q = r.pick(vector<int>{1, 1, 2}); q > 0; --q) s += nt() + l.sp(); main += "\n" + s + "}\n"; }
    bool lone = ref && p.files.size() == 1 && r.chance(1, 3); if (lone) main += "\ntest L { }\n";
    if (ref && r.chance(1, 4)) { string s = "test " + p.target + " {\n"; for (int k = r.range(1, 3); k > 0; --k) s += nt() + " " + (r.chance(1, 2) ? "=" : "!=") + " \"" + (r.chance(1, 2) ? "if 42" : "") + "\"\n"; main += "\n" + s + "}\n"; }
    // where everything is
    char tmp[] = "tool-XXXXXX"; if (!mkdtemp(tmp)) { c.fail("harness", "mkdtemp"); return; }
    char cwdb[4096]; string root = string(getcwd(cwdb, sizeof cwdb)) + "/" + tmp, cwd = root + "/w"; struct remover { string p; ~remover() { if (!getenv("VF_KEEP")) { string q = "rm -rf '" + p + "'"; if (system(q.c_str())) {} } } } rm{root};
    mkdir(cwd.c_str(), 0700); for (auto d : {"/src", "/inc", "/inc2", "/out"}) mkdir((cwd + d).c_str(), 0700);
    string dir = r.pick(vector<string>{"", "", "src/", "src/", "./", "src/../src/"}); if (r.chance(1, 8)) dir = cwd + "/src/"; string inputName = dir + "d.tp"; bool noInput = r.chance(1, 40), missing = r.chance(1, 40);
    string shown; vector<string> includes; std::map<string, bool> there;
    string inputDir = dir.empty() || dir == "./" ? cwd + "/" : cwd + "/src/";
    if (!missing) spit(inputDir + "d.tp", main); else if (r.chance(1, 2)) mkdir((inputDir + "d.tp").c_str(), 0700); there["d.tp"] = !missing;
    for (size_t k = 1; k < p.files.size(); ++k) {
        string n = p.files[k].first; int where = r.below(5); string bad = "language Decoy { keywords { decoy } }\n";
        if (where <= 1) { spit(inputDir + n, p.files[k].second); there[n] = true; if (r.chance(1, 2)) { spit(cwd + "/inc/" + n, bad); includes.push_back("inc"); } }
        else if (where == 2) { spit(cwd + "/" + n, p.files[k].second); there[n] = true; }
        else if (where == 3) { spit(cwd + "/inc/" + n, p.files[k].second); there[n] = true; includes.push_back("inc"); }
        else { spit(cwd + "/inc2/" + n, p.files[k].second); there[n] = true; includes.push_back("inc2"); }
        if (r.chance(1, 40)) { for (auto d : {inputDir, cwd + "/", cwd + "/inc/", cwd + "/inc2/"}) unlink((d + n).c_str()); there[n] = false; }
        if (r.chance(1, 12)) for (auto d : {cwd + "/", inputDir, cwd + "/inc/"}) if (r.chance(1, 2)) if (!mkdir((d + n).c_str(), 0700)) c.count("directories-in-the-way");
    }
    { std::set<string> seen; vector<string> u; for (auto& x : includes) if (seen.insert(x).second) u.push_back(x); includes = u; }
    // a decoy in inc must not be found before the real file in inc2
    if (includes.size() == 2) { bool clash = false; for (size_t k = 1; k < p.files.size(); ++k) { struct stat s; string n = p.files[k].first; clash = clash || (!stat((cwd + "/inc/" + n).c_str(), &s) && !stat((cwd + "/inc2/" + n).c_str(), &s)); } if (clash || r.chance(1, 2)) includes = {"inc2", "inc"}; }
    for (auto& f : p.files) shown += "--- " + f.first + "\n" + f.second;
    // the command line
    struct opt { vector<string> form; }; vector<vector<string>> groups; std::map<wstring, wstring> flags; vector<string> positional; bool badOption = false;
    auto flag = [&](const char* n) { flags[widen(n)] = widen(n); groups.push_back({string("--") + n}); };
    auto value = [&](const char* longName, char s, const string& v) { switch (r.below(4)) { case 0: groups.push_back({string("--") + longName, v}); break; case 1: groups.push_back({string("--") + longName + "=" + v}); break; case 2: groups.push_back({string("-") + s, v}); break; default: groups.push_back({string("-") + s + v}); } };
    string L, C, N, O, T; vector<string> S; bool posInput = r.chance(2, 3);
    if (!noInput) { if (posInput) positional.push_back(inputName); else value("input-file", 'i', inputName); }
    for (auto& x : includes) value("include-path", 'I', x);
    if (r.chance(1, 2)) { L = r.chance(1, 15) ? "Nowhere" : p.target; value("compile-language", 'L', L); }
    if (r.chance(blocks == 1 ? 1 : 3, 4)) for (int k = r.pick(vector<int>{1, 1, 2}); k > 0; --k) { S.push_back(r.chance(1, 30) ? "<Nowhere>" : nt()); value("start-symbol", 'S', S.back()); }
    if (r.chance(1, 3)) { C = r.pick(vector<string>{"my_class", "A", "Parser2"}); value("class-name", 'C', C); }
    if (r.chance(1, 3)) { N = r.pick(vector<string>{"space", "ns_1"}); value("namespace-name", 'N', N); }
    int badOut = r.below(40);            // 0: no such directory, 1: a directory in the way, 2: no space
    string prefix; if (r.chance(2, 3) || badOut <= 2) { prefix = badOut == 0 ? "nowhere/x" : badOut <= 2 ? "blocked" : r.pick(vector<string>{"x", "out/x", "x.y", "./x"}); if (posInput && !noInput && r.chance(1, 3)) positional.push_back(prefix); else value("output-file", 'o', prefix); }
    if (badOut == 1) mkdir((cwd + "/blocked" + r.pick(vector<string>{".h", ".cpp"})).c_str(), 0700);
    if (badOut == 2) { string f = cwd + "/blocked" + r.pick(vector<string>{".h", ".cpp"}); if (symlink("/dev/full", f.c_str())) {} }
    bool stdinTest = false, trace = false; string input; vector<rtoken> in; int lineAdd = 0;
    if (ref && r.chance(1, 2)) { stdinTest = true; if (r.chance(3, 4)) flag("test"); else { trace = r.chance(1, 2); T = trace ? "test-trace" : "test"; value("output-language", 'T', T); } }
    else if (r.chance(1, 4)) { T = r.chance(1, 6) ? "cobol" : "cplusplus"; value("output-language", 'T', T); }
    bool runTests = r.chance(1, 5); if (!ref) for (auto& f : p.files) if (f.second.find("test") != string::npos) runTests = false;     // a parser with conflicts may not end
    if (runTests) flag("run-tests");
    for (auto o : {"enable-lr1-resolver", "show-conflict-details", "disable-compact-dfa", "disable-merged-dfa", "suppress-warnings", "silent", "no-conflicts"}) if (r.chance(1, 8)) flag(o);
    if (r.chance(1, 2)) flag("allow-reduce-conflicts"); if (r.chance(1, 2)) flag("show-error-codes"); bool verbose = r.chance(1, 6); if (verbose) flag("verbose");
    bool show = false; if (r.chance(1, 25)) { flag(r.pick(vector<string>{"show-parser", "show-parser-closure", "show-propagation"}).c_str()); show = true; }
    if (r.chance(1, 50)) { groups.push_back({r.pick(vector<string>{"--no-such-option", "-Q"})}); badOption = true; }
    auto ordered = [](const vector<string>& x) { return x[0].compare(0, 2, "-S") == 0 || x[0].compare(0, 4, "--st") == 0 ? 1 : x[0].compare(0, 2, "-I") == 0 || x[0].compare(0, 5, "--inc") == 0 ? 2 : 0; };
    vector<vector<string>> original = groups; for (size_t k = groups.size(); k > 1; --k) std::swap(groups[k - 1], groups[r.below((int)k)]);
    for (int kind = 1; kind <= 2; ++kind) { size_t from = 0; for (auto& x : groups) if (ordered(x) == kind) { while (ordered(original[from]) != kind) ++from; x = original[from++]; } } vector<string> args; { size_t at = 0; for (size_t k = 0; k <= groups.size(); ++k) { while (at < positional.size() && (k == groups.size() || r.chance(1, 3))) args.push_back(positional[at++]); if (k < groups.size()) for (auto& x : groups[k]) args.push_back(x); } }
    if (!badOption && r.chance(1, 60)) { args.push_back("--namespace-name"); badOption = true; }          // without its value
    for (auto& a : args) shown += " " + a; shown += "\n"; c.note(shown); if (getenv("VF_SHOW")) fputs(shown.c_str(), stderr);
    // what has to happen
    tool_console* con = new tool_console(); run_t run; run.cc = compiler::console_container(con, true); run.con = con; mem_state& st = *con->st;
    for (auto& f : p.files) if (there[f.first]) run.file(f.first, f.second); st.options = flags; st.input = widen(inputName);
    if (!prefix.empty()) st.options[L"output-file"] = widen(prefix); if (!T.empty()) st.options[L"output-language"] = widen(T);
    auto own = [&](int sev, const char* id, const string& file) { diag d; d.sev = sev; d.id = id; d.file = file; d.line = d.col = d.offset = -1; d.text = "\x01"; st.diags.push_back(d); if (sev >= 4) st.exitCode = sev; };
    bool writes = false; string outPrefix = prefix.empty() ? inputName : prefix, stdinPos; bool accepts = false; vector<string> leaves; int startNo = 0;
    auto expect = [&]() {
        if (!run.front(inputName)) return;
        if (runTests) { compiler::test_stage ts(run.cc, widen(inputName), run.parse->definition_file(), run.import.get()); ts.compile(); if (st.exitCode) return; c.count("test-runs"); if (prefix.empty() && S.empty() && T.empty() && !flags.count(L"test") && !flags.count(L"show-parser")) return; }
        run.builder.reset(new compiler::language_builder_stage(run.cc, st.input, run.import.get())); run.builder->compile(); if (st.exitCode) return;
        string lang = L, cls = C; vector<string> starts = S; const yy_language::parser_block* pb = 0; int n = 0, langs = 0; string only;
        auto df = run.parse->definition_file(); for (auto x = df->begin(); x != df->end(); ++x) { if ((*x)->parser()) { ++n; pb = (*x)->parser(); } if ((*x)->language()) { ++langs; only = narrow((*x)->language()->identifier()); } }
        if (n == 1 && L.empty() && S.empty()) { lang = narrow(pb->language_name()); starts.clear(); for (auto& s : pb->start_symbols()) starts.push_back(narrow(s)); if (cls.empty()) cls = narrow(pb->parser_name()); c.count("parser-blocks"); }
        if (lang.empty() && langs == 1) { lang = only; c.count("inferred"); }
        if (lang.empty()) { own(4, "NO_LANGUAGE_SPECIFIED", inputName); return; }
        if (cls.empty()) cls = lang;
        run.lang = run.builder->language_with_name(widen(lang)); if (!run.import->language_with_name(widen(lang)) || !run.lang) { own(4, "MISSING_TARGET_LANGUAGE", inputName); return; }
        run.lang->report_unused_symbols();
        if (starts.empty()) { own(4, "NO_START_SYMBOLS", inputName); return; }
        run.lexer.reset(new compiler::lexer_stage(run.cc, run.import->file_with_language(widen(lang)), run.lang)); run.lexer->compile(); if (st.exitCode) return;
        vector<wstring> ws; for (auto& s : starts) ws.push_back(widen(s));
        run.lr.reset(new compiler::lr_parser_stage(run.cc, run.import->file_with_language(widen(lang)), run.lang, run.lexer.get(), ws)); run.lr->compile(); if (st.exitCode) return;
        if (stdinTest) {            // decided by the reference automaton, for the first start symbol
            if (lang != p.target || !ref) { stdinPos = "?"; return; }
            for (int k = 0; k < g.nN; ++k) if ("<" + nname(k) + ">" == starts[0]) startNo = k;
            auto hh = heights(*b); vector<int> v; for (int w = 0; w < 6; ++w) { v = random_tokens(*b, b->starts[startNo], r, hh); v.erase(std::remove_if(v.begin(), v.end(), [&](int x) { return x >= g.nT; }), v.end()); if (r.chance(1, 2) || ref->run(startNo, toks(v)).verdict == 1) break; }
            in = toks(v); input = spell(r, in, t); auto e = ref->run(startNo, in); if (e.verdict < 0) { stdinPos = "?"; return; }
            if (r.chance(1, 4)) { input = "/* \xc3\xa9 \xe2\x82\xac */\n" + input; lineAdd = 1; c.count("wide-input"); }
            accepts = e.verdict == 1; c.count(accepts ? "accepted" : "rejected"); if (accepts) for (auto& x : in) leaves.push_back(x.text);
            if (!accepts) { diag d; d.sev = 4; d.id = "TEST_PARSER_ERROR"; d.file = "stdin"; d.line = d.col = -1; d.text = "\x01"; if (e.failToken < (int)in.size()) { int off = in[e.failToken].offset; d.line = lineAdd; d.col = 0; bool cr = false; wstring w = widen(lineAdd ? input.substr(input.find('\n') + 1) : input); for (int k = 0; k < off; ++k) { if (w[k] == L'\r') { ++d.line; d.col = 0; cr = true; } else if (w[k] == L'\n') { if (!cr) ++d.line; d.col = 0; cr = false; } else { ++d.col; cr = false; } } } st.diags.push_back(d); st.exitCode = 4; }
            return;
        }
        if (T == "cobol") { own(4, "UNKNOWN_OUTPUT_LANGUAGE_TYPE", inputName); return; }
        { compiler::output_cplusplus out(run.cc, run.import->file_with_language(widen(lang)), run.lexer.get(), run.lang, run.lr.get(), widen(outPrefix), widen(cls), widen(N)); out.compile(); }
        writes = true; if (badOut <= 2 && prefix.size() && prefix != "x") { if (badOut == 0 || badOut == 1 || badOut == 2) st.exitCode = 5; }
    };
    bool refused = badOption || noInput; if (!refused) expect();
    if (stdinPos == "?") { c.count("undecided"); return; }
    bool blocked = writes && badOut <= 2; std::map<string, string> before, after; listing(cwd, "", before);
    if (writes && !blocked && r.chance(1, 3)) for (auto x : {".h", ".cpp"}) { spit(outPrefix[0] == '/' ? outPrefix + x : cwd + "/" + outPrefix + x, string(r.below(200000), 'z')); c.count("overwritten"); }
    before.clear(); listing(cwd, "", before);
    tool_result o = run_tool(root, cwd, args, input); listing(cwd, "", after); c.count("runs");
    string detail = "exit code " + std::to_string(o.status) + (stdinTest ? "\n-- stdin --\n" + input : "") + "\n-- stderr --\n" + o.err.substr(0, 3000) + "\n-- stdout --\n" + o.out.substr(0, 600);
    if (o.crashed) { c.fail("crash", detail); return; }
    // the exit code
    bool bad = refused || st.exitCode != 0;
    if ((o.status != 0) != bad) { c.fail("exit-code", string("expected ") + (bad ? "a failure" : "success") + ", " + detail); return; }
    c.count(bad ? "failures" : "successes");
    // the files
    std::map<string, string> want = before;
    auto rel = [&](string f) { if (f.compare(0, cwd.size() + 1, cwd + "/") == 0) f = f.substr(cwd.size() + 1); if (f.compare(0, 2, "./") == 0) f = f.substr(2); size_t k; while ((k = f.find("src/../")) != string::npos) f.erase(k, 7); return f; };
    if (writes && !blocked) for (auto& w : st.written) want[rel(narrow(w.first))] = w.second;
    if (blocked) for (auto x : {"blocked.h", "blocked.cpp"}) { after.erase(x); want.erase(x); }
    for (auto& f : after) { auto w = want.find(f.first); if (w == want.end()) { c.fail("extra-file", f.first + " was written\n" + detail); return; } if (masked(f.second) != masked(w->second)) { c.fail("file-content", f.first + ": " + first_difference(masked(w->second), masked(f.second)) + "\n" + detail); return; } }
    for (auto& w : want) if (!after.count(w.first)) { c.fail("missing-file", w.first + " is not there\n" + detail); return; }
    if (writes && !blocked) c.count("files-written", 2);
    if (refused) { c.count("refused"); if (o.err.empty()) c.fail("silent-refusal", detail); return; }
    // the diagnostics
    if (!blocked) {
        bool codes = flags.count(L"show-error-codes"), quiet = flags.count(L"suppress-warnings"); size_t at = 0; string e;       // names of files without their directories
        { std::stringstream s(o.err); string x; while (std::getline(s, x)) { size_t colon = x.find(".tp:"); if (colon != string::npos) { size_t sl = x.rfind('/', colon); bool clean = sl != string::npos; for (size_t k = 0; clean && k < sl; ++k) if (x[k] == ' ') clean = false; if (clean) x = x.substr(sl + 1); } e += x + "\n"; } }
        for (auto& d : st.diags) {
            if (d.sev < 2 || (quiet && d.sev != 2 && d.sev <= 3)) continue;
            string x = line_of(d, codes); bool mine = d.text == "\x01"; if (!mine) x += d.text + "\n"; c.count("diagnostics");
            if (trace) { if (e.find(x) == string::npos) { c.fail("diagnostics", "not printed: " + x + "\n" + detail); return; } continue; }
            if (e.compare(at, x.size(), x)) { c.fail("diagnostics", "expected: " + x + "\nprinted: " + e.substr(at, 300) + "\n" + detail); return; }
            at += x.size(); if (mine) { at = e.find('\n', at); at = at == string::npos ? e.size() : at + 1; }
        }
        if (!trace && at < e.size()) { c.fail("diagnostics", "printed without reason: " + e.substr(at, 300) + "\n" + detail); return; }
    } else c.count("blocked");
    // what is printed
    bool silent = flags.count(L"silent");
    if (!show && !verbose && !trace) {
        string x, got = o.out; for (wchar_t ch : st.msg.str()) x += (char)ch;
        if (!silent) { if (got.compare(0, 10, "TameParse ")) { c.fail("banner", detail); return; } got = got.substr(std::min(got.size(), got.find('\n') + 1)); } else x = "";
        if (got != x) { c.fail("messages", "expected: " + x + "\n" + detail); return; }
    }
    if (verbose && stdinTest && !trace && accepts) { size_t at = 0; for (auto& x : leaves) { bool plain = true; for (char ch : x) plain = plain && isalnum((unsigned char)ch); if (!plain) continue; size_t k = o.out.find("\"" + x + "\"", at); if (k == string::npos) { c.fail("tree", "'" + x + "' is not in the tree\n" + detail + o.out); return; } at = k + 1; c.count("leaves"); } }
    if (verbose && !silent && o.out.find("Reading") == string::npos) c.fail("verbose", detail);
    c.nontrivial = writes || stdinTest || !st.diags.empty();
}

int main(int argc, char** argv) {
    vector<prop> v;
    v.push_back({"C16", c16});
    v.push_back({"C18", c18});
    v.push_back({"C20", c20});
    v.push_back({"C21", c21});
    v.push_back({"C28", c28});
    v.push_back({"C23", c23});
    v.push_back({"C26", c26});
    return run_driver(argc, argv, v);
}
