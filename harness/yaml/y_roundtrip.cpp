// Every small tree of writable scalars x every serialization configuration: Parse(Serialize(t)) == t, and serializing the
// result again gives the same text.
#include "ytree.hpp"
using namespace mc;
// scalars the serializer can express (see properties.jsonl): no double quote; one line, or at least two lines whose first and
// last are not empty, without '#', without blanks at the ends of the text or of a line
static bool writable(const std::string& s) {
    if (s.find('"') != std::string::npos) return false;
    if (s.find('\n') != std::string::npos) { if (s.find('#') != std::string::npos || s[0] == '\n' || s[0] == ' ' || s[0] == '\'' || s.back() == ' ') return false; std::string b = s; if (b.back() == '\n') b.pop_back(); if (b.find('\n') == std::string::npos || b.back() == '\n') return false;
        size_t i = 0; while (i < b.size()) { size_t e = b.find('\n', i); if (e == std::string::npos) e = b.size(); if (e > i && (b[e - 1] == ' ' )) return false; i = e + 1; } }
    return true; }
// text longer than the line length is folded at single blanks: doubled or outer blanks and '#' do not survive that
static bool foldable(const std::string& s, size_t ml) { if (ml == 0 || s.size() <= ml || s.empty() || s.find('\n') != std::string::npos) return true; return s.find("  ") == std::string::npos && s[0] != ' ' && s[0] != '\'' && s.back() != ' ' && s.find('#') == std::string::npos; }
static void one(Ctx& c, const T& t, const Yaml::SerializeConfig& cfg, const std::string& what) {
    Yaml::Node n; write_node(n, t); std::string s; c.key(what); c.note(what);
    Yaml::Serialize(n, s, cfg); c.check(read_node(n) == t, what, "serializing changed the tree"); Yaml::Node m;
    try { Yaml::Parse(m, s); } catch (std::exception& e) { c.fail(what, "the serialized text " + show(s) + " is refused: " + e.what()); }
    T g = read_node(m); c.check(g == t, what, "the serialized text " + show(s) + " reads back as " + g.str());
    std::string s2; Yaml::Serialize(m, s2, cfg); c.check(s2 == s, what, "serializing again gives " + show(s2) + " instead of " + show(s));
    c.state(hash(s)); c.step(2); c.validated(); c.evals(3); }
static Yaml::SerializeConfig pickcfg(Ctx& c, std::string& d, bool all, size_t* ml = nullptr, bool* nl = nullptr) {
    static const size_t IND[3] = {2, 3, 4}; static const size_t ML[5] = {64, 0, 5, 3, 1}; size_t i = IND[c.choose(3)], m = ML[c.choose(all ? 5 : 3)]; if (ml) *ml = m; bool a = c.flip(), b = c.flip(); if (b && m && m < 64) { c.prune(); } if (nl) *nl = b;
    d = "indent " + std::to_string(i) + " maxlen " + std::to_string(m) + (a ? " seqmap-newline" : "") + (b ? " scalar-newline" : ""); return Yaml::SerializeConfig(i, m, a, b); }
static void scalars(Ctx& c, int maxlen, bool keys) {
    static const std::string AL = "ab \n#:-'|>[]{},&*?%!@=~0."; std::string s; int L = c.choose(maxlen + 1); for (int i = 0; i < L; i++) s += AL[c.choose((int)AL.size())];
    if (!writable(s)) { c.prune(); } if (keys && (s.empty() || s.find('\n') != std::string::npos)) { c.prune(); }
    int where = c.choose(keys ? 2 : 3); T t; if (keys) { T m = T::map(); m.m[s] = where ? T::scalar("v") : T::seq(); if (!where) m.m[s].q.push_back(T::scalar("w")); t = m; }
    else if (where == 0) { t = T::map(); t.m["k"] = T::scalar(s); } else if (where == 1) { t = T::seq(); t.q.push_back(T::scalar(s)); t.q.push_back(T::scalar("z")); } else if (where == 2) { t = T::seq(); T m = T::map(); m.m["k"] = T::scalar(s); m.m["l"] = T::scalar(s); t.q.push_back(m); } 
    std::string d; size_t ml; bool nl; Yaml::SerializeConfig cfg = pickcfg(c, d, true, &ml, &nl); if (!keys && (!foldable(s, ml) || (nl && s.find('\n') != std::string::npos))) c.prune(); // block scalars are only written behind their key
    one(c, t, cfg, t.str() + " " + d); }
static const std::vector<std::string> SV = {"v", "l1\nl2", "a: b, [c]", "three word scalar", "l1\n\n  l2\n", "-1.5e-3", "- x", "~x's", ""};
static T gen(Ctx& c, int d, int nsc) { int k = d > 0 ? c.choose(5) : 0; if (k == 0) return T::scalar(SV[c.choose(nsc)]); T t = k <= 2 ? T::map() : T::seq(); int n = (k - 1) % 2 + 1; static const char* K[2] = {"a b", "k: #1 #2"};
    for (int i = 0; i < n; i++) { T v = gen(c, d - 1, nsc); if (k <= 2) t.m[K[i]] = v; else t.q.push_back(v); } return t; }
static T rootgen(Ctx& c, int d, int nsc) { T t = gen(c, d, nsc); if (t.k == 'S') { c.prune(); } return t; }
static bool has_block(const T& t) { if (t.k == 'S') return t.s.find('\n') != std::string::npos; for (auto& x : t.q) if (has_block(x)) return true; for (auto& x : t.m) if (has_block(x.second)) return true; return false; }
static void trees(Ctx& c, int depth, int nsc, bool all) { std::string d; bool nl; Yaml::SerializeConfig cfg = pickcfg(c, d, all, nullptr, &nl); T t = rootgen(c, depth, nsc); if (nl && has_block(t)) c.prune(); one(c, t, cfg, t.str() + " " + d); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    std::vector<Scenario> sc = {{"scalars", [th](Ctx& c) { scalars(c, th ? 4 : 3, false); }, 3, 4000}, {"keys", [th](Ctx& c) { scalars(c, th ? 4 : 3, true); }, 3, 4000}, {"trees2", [th](Ctx& c) { trees(c, 2, th ? 9 : 5, true); }, 5, 4000}};
    if (th) sc.push_back({"trees3", [](Ctx& c) { trees(c, 3, 2, false); }, 5, 4000});
    return main_(argc, argv, "YRT", sc); }
