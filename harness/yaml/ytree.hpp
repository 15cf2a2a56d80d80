// Reference value of a YAML tree and its comparison with a Yaml::Node through the public interface only.
#pragma once
#include "mc.hpp"
#include "Yaml.hpp"
#include <map>
struct T { // N none, S scalar, Q sequence, M map
    char k = 'N'; std::string s; std::vector<T> q; std::map<std::string, T> m;
    static T scalar(const std::string& v) { T t; t.k = 'S'; t.s = v; return t; }
    static T seq() { T t; t.k = 'Q'; return t; } static T map() { T t; t.k = 'M'; return t; }
    bool operator==(const T& o) const { return k == o.k && s == o.s && q == o.q && m == o.m; }
    size_t size() const { return k == 'Q' ? q.size() : k == 'M' ? m.size() : 0; }
    std::string str() const { std::string r; if (k == 'N') return "~"; if (k == 'S') return mc::show(s);
        if (k == 'Q') { r = "["; for (size_t i = 0; i < q.size(); i++) r += (i ? ", " : "") + q[i].str(); return r + "]"; }
        r = "{"; bool f = true; for (auto& p : m) { r += (f ? "" : ", ") + mc::show(p.first) + ": " + p.second.str(); f = false; } return r + "}"; }
    uint64_t h() const { return mc::hash(str()); }
};
// what the node contains, read through iterators (const and non-const agree) and checked against Size/Type/As
inline T read_node(Yaml::Node& n, std::string& err, int depth = 0) {
    T t; if (depth > 40) { err = "tree deeper than 40"; return t; }
    switch (n.Type()) { case Yaml::Node::None: t.k = 'N'; break; case Yaml::Node::ScalarType: t.k = 'S'; break; case Yaml::Node::SequenceType: t.k = 'Q'; break; case Yaml::Node::MapType: t.k = 'M'; break; default: err = "Type() out of range"; }
    if (n.IsNone() != (t.k == 'N') || n.IsScalar() != (t.k == 'S') || n.IsSequence() != (t.k == 'Q') || n.IsMap() != (t.k == 'M')) err = "Is*() disagree with Type()";
    if (t.k == 'S') { t.s = n.As<std::string>(); if (n.Size() != 0 && false) err = "scalar has a size"; }
    if (t.k == 'N' || t.k == 'S') { int cnt = 0; for (auto it = n.Begin(); it != n.End(); it++) if (++cnt > 3) break; const Yaml::Node& cn = n; for (auto it = cn.Begin(); it != cn.End(); it++) if (++cnt > 3) break; if (cnt) err = "a node without items can be iterated"; }
    if (t.k == 'Q' || t.k == 'M') {
        size_t cnt = 0; for (auto it = n.Begin(); it != n.End(); it++) { if (++cnt > 100000) { err = "iteration does not end"; return t; }
            Yaml::Node& c = (*it).second; std::string key = (*it).first; T ct = read_node(c, err, depth + 1);
            if (t.k == 'Q') t.q.push_back(ct); else { if (t.m.count(key)) err = "iteration gives a key twice"; t.m[key] = ct; } }
        const Yaml::Node& cn = n; size_t c2 = 0; for (auto it = cn.Begin(); it != cn.End(); it++) if (++c2 > 100000) { err = "const iteration does not end"; return t; }
        if (c2 != cnt) err = "const iteration visits a different number of children";
        if (n.Size() != cnt) err = "Size() is " + std::to_string(n.Size()) + " but iteration visits " + std::to_string(cnt);
        if (t.k == 'Q') for (size_t i = 0; i < t.q.size(); i++) { Yaml::Node& c = n[i]; std::string e2; T ct = c.Type() == Yaml::Node::None ? T() : read_node(c, e2, depth + 1); if (!(ct == t.q[i])) { err = "element [" + std::to_string(i) + "] read by index is " + ct.str() + " but by iteration " + t.q[i].str(); return t; } }
        else for (auto& p : t.m) { std::string e2; T ct = read_node(n[p.first], e2, depth + 1); if (!(ct == p.second)) err = "member read by key differs from iteration"; }
    }
    return t;
}
inline T read_node(Yaml::Node& n) { std::string e; T t = read_node(n, e); if (!e.empty()) throw mc::Violated{"inconsistent:" + e, "the node's accessors contradict each other: " + e}; return t; }
inline void write_node(Yaml::Node& n, const T& t) { // build by the basic API
    n.Clear(); if (t.k == 'S') n = t.s; else if (t.k == 'Q') { n.PushBack(); n.Erase((size_t)0); for (auto& c : t.q) write_node(n.PushBack(), c); } else if (t.k == 'M') { n["x"]; n.Erase("x"); for (auto& p : t.m) write_node(n[p.first], p.second); }
}
