// Every operation sequence up to a bounded length over the Node container interface, against a reference tree.
#include "ytree.hpp"
using namespace mc;
static T initial(int i) { T s = T::seq(); s.q = {T::scalar("p"), T::scalar("q")}; T m = T::map(); m.m["a"] = T::scalar("x"); m.m["b"] = T::scalar("y");
    switch (i) { case 0: return T(); case 1: return T::scalar("s0"); case 2: return s; case 3: return m; case 4: { T r = T::map(); r.m["a"] = s; r.m["b"] = T::scalar("y"); return r; }
        case 5: { T r = T::seq(); r.q = {m, T::scalar("z"), s}; return r; } default: { T r = T::seq(); r.q = {T::scalar("0"), T::scalar("1"), T::scalar("2"), T::scalar("3")}; return r; } } }
static const int NINIT = 7;
static void to_seq(T& t) { if (t.k != 'Q') { t = T::seq(); } } static void to_map(T& t) { if (t.k != 'M') { t = T::map(); } }
static void body(Ctx& c, int len) {
    int in = c.choose(NINIT, "initial"); T m = initial(in); Yaml::Node root; write_node(root, m); c.note("initial " + m.str());
    std::string seq = "init" + std::to_string(in);
    { T r = read_node(root); c.check(r == m, "build", "the tree built by PushBack/[] is " + r.str() + " instead of " + m.str()); }
    for (int k = 0; k < len; k++) {
        // target: the root or one of its children
        std::vector<std::pair<std::string, std::pair<int, std::string>>> tg; tg.push_back({"root", {-1, ""}});
        if (m.k == 'Q') for (size_t i = 0; i < m.q.size() && i < 3; i++) tg.push_back({"root[" + std::to_string(i) + "]", {(int)i, ""}});
        if (m.k == 'M') for (auto& p : m.m) tg.push_back({"root[\"" + p.first + "\"]", {-2, p.first}});
        int ti = c.choose((int)tg.size(), "target"); T* t = &m; Yaml::Node* n = &root;
        if (tg[ti].second.first >= 0) { t = &m.q[tg[ti].second.first]; n = &root[(size_t)tg[ti].second.first]; } else if (tg[ti].second.first == -2) { t = &m.m[tg[ti].second.second]; n = &root[tg[ti].second.second]; }
        std::string v = "v" + std::to_string(k), d; int op = c.choose(22, "op"); T nv = T::scalar(v);
        auto K = [&](const std::string& o) { d = tg[ti].first + o; seq += "; " + d; c.key(seq); c.note(d); };
        static const size_t INS[4] = {0, 1, 2, 7};
        switch (op) {
        case 0: K(".PushBack()=" + v); n->PushBack() = v; to_seq(*t); t->q.push_back(nv); break;
        case 1: K(".PushFront()=" + v); n->PushFront() = v; to_seq(*t); t->q.insert(t->q.begin(), nv); break;
        case 2: case 3: case 4: case 5: { size_t i = INS[op - 2]; K(".Insert(" + std::to_string(i) + ")=" + v); n->Insert(i) = v; to_seq(*t); t->q.insert(t->q.begin() + std::min(i, t->q.size()), nv); break; }
        case 6: case 7: case 8: { size_t i = op - 6; K(".Erase(" + std::to_string(i) + ")"); n->Erase(i); if (t->k == 'Q' && i < t->q.size()) t->q.erase(t->q.begin() + i); break; }
        case 9: case 10: { std::string key = op == 9 ? "a" : "c"; K(".Erase(\"" + key + "\")"); n->Erase(key); if (t->k == 'M') t->m.erase(key); break; }
        case 11: case 12: { std::string key = op == 11 ? "a" : "c"; K("[\"" + key + "\"]=" + v); (*n)[key] = v; to_map(*t); t->m[key] = nv; break; }
        case 13: { K("[\"d\"] (read only)"); Yaml::Node& x = (*n)["d"]; to_map(*t); T old = t->m.count("d") ? t->m["d"] : T(); t->m["d"] = old; T r = read_node(x); c.check(r == old, seq, "[\"d\"] read " + r.str()); break; }
        case 14: case 15: { size_t i = op == 14 ? 0 : 5; K("[" + std::to_string(i) + "] (read)"); Yaml::Node& x = (*n)[i]; to_seq(*t); T want = i < t->q.size() ? t->q[i] : T(); T r = read_node(x); c.check(r == want, seq, "[" + std::to_string(i) + "] gave " + r.str() + " instead of " + want.str()); break; }
        case 16: K(" = \"" + v + "\""); *n = v; *t = nv; break;
        case 17: K(".Clear()"); n->Clear(); *t = T(); break;
        case 18: { K(" = root (copy of the whole tree)"); T cp = m; *n = root; *t = cp; break; }
        case 19: { K(" copied out, copy modified"); Yaml::Node cp(*n); T want = *t; { T r = read_node(cp); c.check(r == want, seq, "the copy is " + r.str() + " instead of " + want.str()); } Yaml::Node c2; c2["k"] = "old"; c2 = cp; { T r = read_node(c2); c.check(r == want, seq, "the assigned copy is " + r.str()); } c2.PushBack() = "mutant"; cp["z"] = "mutant"; cp.Clear(); break; }
        case 20: { K("; root = that node"); T cp = *t; root = *n; m = cp; break; }
        case 21: { K("[5] = " + v + " (index out of range)"); bool in = t->k == 'Q' && t->q.size() > 5; (*n)[5] = v; to_seq(*t); if (in) t->q[5] = nv; Yaml::Node fresh; T r = read_node(fresh[(size_t)3]); c.check(r.k == 'N', seq, "an unknown index reads " + r.str() + " instead of a none node"); break; }
        }
        c.step(); std::string err; T r = read_node(root, err); c.state(m.h());
        if (!err.empty()) c.fail(seq, "after " + d + " the accessors contradict each other: " + err + "; expected " + m.str());
        c.check(r == m, seq, "after " + d + " the tree is " + r.str() + " instead of " + m.str());
    }
    c.validated();
}
int main(int argc, char** argv) {
    bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    return main_(argc, argv, "YNODE", {{"ops1", [](Ctx& c) { body(c, 1); }, 2, 4000}, {"ops2", [](Ctx& c) { body(c, 2); }, 3, 4000}, {th ? "ops4" : "ops3", [th](Ctx& c) { body(c, th ? 4 : 3); }, 4, 4000}});
}
