// Every small tree x every layout of it (indentation, scalar style, comments, blank lines, markers): the text parses to the tree.
#include "ytree.hpp"
using namespace mc;
struct Sc { const char* kind; const char* first; std::vector<const char*> lines; std::string val; };   // first: text after the key / dash; lines: block lines (indented by the renderer)
static const std::vector<Sc> SCS = {
    {"plain", "v1", {}, "v1"}, {"dquoted", "\"a: # b: #c\"", {}, "a: # b: #c"}, {"literal", "|", {"l1", "l2"}, "l1\nl2\n"}, {"folded-strip", ">-", {"f1", "f2"}, "f1 f2"},
    {"squoted", "'s q'", {}, "s q"}, {"literal-strip", "|-", {"l1", "", "  l2"}, "l1\n\n  l2"}, {"folded", ">", {"f1", "", "f2"}, "f1\nf2\n"}, {"continued", "p1", {"p2"}, "p1 p2"}, {"number", "-1.5e-3", {}, "-1.5e-3"}, {"bracket", "[1, 2]", {}, "[1, 2]"},
    {"words", "two words", {}, "two words"}, {"empty-quoted", "\"\"", {}, ""}, {"dquoted-spaces", "\"  x  \"", {}, "  x  "}, {"tilde", "~-x", {}, "~-x"}};
struct Lay { int ind; int deco; };
struct R { Ctx& c; Lay l; std::string out; int nsc;
    void eol() { if (l.deco == 3) out += "   "; if (l.deco == 6 && out.back() != '-') out += "\t"; if (l.deco == 4) out += " # comment: \"x"; out += l.deco == 5 ? "\r\n" : "\n"; if (l.deco == 1) out += "\n"; if (l.deco == 2) out += "# comment - a: b\n"; }
    void eol_scalar(bool block) { if (block) { out += l.deco == 5 ? "\r\n" : "\n"; } else eol(); }
    T scalar(int col) { // col: column of the parent key/dash; block lines go deeper
        const Sc& s = SCS[c.choose(nsc)]; out += s.first; if (!s.lines.empty()) { eol_scalar(true); for (size_t i = 0; i < s.lines.size(); i++) { std::string ln = s.lines[i]; if (!ln.empty()) out += std::string(col + l.ind, ' ') + ln; eol_scalar(i + 1 < s.lines.size() || l.deco == 1 || l.deco == 3 || l.deco == 4 || l.deco == 6); } } else eol();
        if (s.lines.size() && (l.deco == 2)) out += "# after\n"; return T::scalar(s.val); }
};
static void body(Ctx& c, int depth, int nsc) {
    static const int INDS[3] = {2, 1, 4}; Lay l{INDS[c.choose(3)], c.choose(8)}; int mark = c.choose(depth == 3 ? 1 : 4); R r{c, l, "", nsc};
    std::function<T(int, int, int)> val; // (depth, parentcol, where) where: 0 root, 1 behind key, 2 behind dash
    val = [&](int d, int col, int where) -> T {
        int k = d > 0 ? c.choose(5) : 0; if (k == 0) { if (where == 0) { return r.scalar(col); } return r.scalar(col); }
        bool map = k <= 2; int n = (k - 1) % 2 + 1; bool compact = where == 2 && map && c.flip(); int mycol;
        if (compact) { size_t nl = r.out.rfind('\n'); mycol = (int)(r.out.size() - (nl == std::string::npos ? 0 : nl + 1)); } else { mycol = where == 0 ? 0 : col + l.ind; if (where != 0) { while (r.out.back() == ' ' || r.out.back() == '\t') r.out.pop_back(); r.eol(); } }
        T t = map ? T::map() : T::seq();
        for (int i = 0; i < n; i++) { if (!(compact && i == 0)) r.out += std::string(mycol, ' ');
            if (map) { static const char* KT[3][2] = {{"a", "b"}, {"\"k: #1: #2\"", "b c"}, {"a-b", "Z"}}; static const char* KV[3][2] = {{"a", "b"}, {"k: #1: #2", "b c"}, {"a-b", "Z"}}; int q = l.deco == 7 ? 1 : l.deco == 0 ? 2 : 0;
                r.out += KT[q][i]; r.out += l.deco == 7 ? " : " : l.deco == 6 ? ":\t" : ": "; T v = val(d - 1, mycol, 1); t.m[KV[q][i]] = v; }
            else { r.out += "- "; t.q.push_back(val(d - 1, mycol, 2)); } }
        return t; };
    if (mark == 1) r.out += (l.deco == 5 ? "---\r\n" : "---\n"); if (mark == 2) r.out += (l.deco == 5 ? "junk: x\r\n---\r\n" : "junk: x\n---\n"); size_t st = r.out.size(); T want = val(depth, 0, 0); (void)st;
    if (mark == 3) r.out += (l.deco == 5 ? "...\r\n- not: [read\n" : "...\n- not: [read\n"); 
    std::string s = r.out; c.key("text " + show(s)); c.note("text " + show(s)); Yaml::Node n;
    try { Yaml::Parse(n, s); } catch (std::exception& e) { c.fail("text " + show(s), std::string("refused: ") + e.what() + "; it denotes " + want.str()); }
    T got = read_node(n); c.check(got == want, "text " + show(s), "parsed as " + got.str() + " instead of " + want.str()); c.state(want.h() ^ (uint64_t)(l.deco * 31 + l.ind)); c.step(); c.validated(); c.evals();
}
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    std::vector<Scenario> sc; sc.push_back({"depth1", [](Ctx& c) { body(c, 1, (int)SCS.size()); }, 3, 4000}); sc.push_back({"depth2", [th](Ctx& c) { body(c, 2, th ? 10 : 6); }, 4, 4000}); if (th) sc.push_back({"depth3", [](Ctx& c) { body(c, 3, 2); }, 4, 4000});
    return main_(argc, argv, "YFID", sc); }
