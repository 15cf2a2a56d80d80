// Parser totality: every short text over a character alphabet, and every short document over a line alphabet.
#include "ytree.hpp"
using namespace mc;
enum { PARSED, REFUSED };
static int try_parse(Ctx& c, const std::string& s, T& t, int how, std::string& what) {
    Yaml::Node root; root["old"] = "content";
    try { if (how == 0) Yaml::Parse(root, s); else if (how == 1) { std::vector<char> b(s.begin(), s.end()); Yaml::Parse(root, b.data(), b.size()); } else { std::stringstream st(s); Yaml::Parse(root, static_cast<std::iostream&>(st)); } }
    catch (const Yaml::Exception& e) { what = e.what(); (void)e.Type(); T tmp = read_node(root); return REFUSED; }
    std::string err; t = read_node(root, err); if (!err.empty()) c.fail("text " + show(s), "the parsed tree is inconsistent: " + err); return PARSED;
}
static void one(Ctx& c, const std::string& s) {
    c.key("text " + show(s)); c.note("text " + show(s)); T a, b; std::string wa, wb; int ra = try_parse(c, s, a, 0, wa); c.evals();
    int rb = try_parse(c, s, b, 1, wb); c.check(ra == rb && a == b && wa == wb, "text " + show(s), "two parses of the same text differ (string / buffer): " + (ra == PARSED ? a.str() : "error " + wa) + " vs " + (rb == PARSED ? b.str() : "error " + wb));
    T d; std::string wd; int rd = try_parse(c, s, d, 2, wd); c.check(ra == rd && a == d && wa == wd, "text " + show(s), "two parses of the same text differ (string / stream)");
    c.check(ra == PARSED || !wa.empty(), "text " + show(s), "refused without a message");
    c.step(); c.validated(); c.state(hash(ra == PARSED ? a.str() : "E" + wa));
}
static const char CH[] = "a1 \n-:\"'\\|>#[{,\t\r%.&]}?~*!@\x80\x01\0";
static void chars(Ctx& c, int len, int nch) { std::string s; for (int i = 0; i < len; i++) s += CH[c.choose(nch)]; one(c, s); }
static const std::vector<std::string> LINES = {"", "a: b", "a:", "b: 1", "- x", "-", "- a: b", "- - x", "a: |", "a: >-", "\"q: r\": s", "'k': 'v'", "a: 'it", "plain", "# c", "a: [1, 2]", "a: # c", "a: \"b # c\"", "---", "...", "\ta: b", "- |", "a: \"x\\\"y\"", ": v", "a : b", "%d", "a: {b: c}", "-x", "- ", "\"a\":b", "a::", "|", "? k", "\"\": \"\""};
static void lines(Ctx& c, int n, int nl) { static const int IND[4] = {0, 2, 4, 1}; std::string s; for (int i = 0; i < n; i++) { int k = c.choose(nl * 4 + 0); s += std::string(IND[k % 4], ' ') + LINES[k / 4] + (i + 1 < n || true ? "\n" : ""); } if (c.flip()) s.pop_back(); one(c, s); }
static void files(Ctx& c) { static const std::string T6[6] = {"", "a: b\n", "- x\n- y", "a: \"x\n", "\ta: b\n", "a:\n  - |\n    z\n"}; int k = c.choose(8); std::string fn = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/ytotal_" + std::to_string(getpid()) + ".yaml"; std::string what = "file case " + std::to_string(k); c.key(what); c.note(what); Yaml::Node n; n["old"] = "x";
    if (k < 6) { FILE* f = fopen(fn.c_str(), "wb"); fwrite(T6[k].data(), 1, T6[k].size(), f); fclose(f); } if (k == 7) fn = "/nonexistent-dir/none.yaml";
    int r = PARSED; std::string err; try { Yaml::Parse(n, fn.c_str()); } catch (const Yaml::Exception& e) { r = REFUSED; err = e.what(); } if (k < 6) unlink(fn.c_str());
    if (k >= 6) { c.check(r == REFUSED && !err.empty(), what, "a missing file is not reported"); } else { T t; std::string e2; int r2 = try_parse(c, T6[k], t, 0, e2); c.check(r == r2 && (r == REFUSED || read_node(n) == t), what, "the file and its text parse differently"); } c.state(k); c.step(); c.validated(); c.evals(); }
int main(int argc, char** argv) {
    bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough"); int N = sizeof(CH) - 1, L = LINES.size();
    std::vector<Scenario> sc; sc.push_back({"chars0-3", [=](Ctx& c) { chars(c, c.choose(4), N); }, 2, 5000});
    sc.push_back({"files", files, 1, 5000});
    sc.push_back({"chars4", [=](Ctx& c) { chars(c, 4, N); }, 2, 5000});
    sc.push_back({"chars5", [=](Ctx& c) { chars(c, 5, th ? N : 12); }, 2, 5000});
    if (th) sc.push_back({"chars6", [=](Ctx& c) { chars(c, 6, 14); }, 3, 5000});
    sc.push_back({"lines1-2", [=](Ctx& c) { lines(c, 1 + c.choose(2), L); }, 2, 5000});
    sc.push_back({"lines3", [=](Ctx& c) { lines(c, 3, th ? L : 16); }, 2, 5000});
    if (th) sc.push_back({"lines4", [=](Ctx& c) { lines(c, 4, 12); }, 3, 5000});
    return main_(argc, argv, "YTOTAL", sc);
}
