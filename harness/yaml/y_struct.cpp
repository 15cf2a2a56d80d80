// Structs declared with the Yaml-Serializable macros x every small document (each field absent / written in every style / malformed,
// unknown fields at every level): loading, strict loading, hooks, type discrimination and writing against a reference loader.
#include "ytree.hpp"
#include "yaml-serializable.h"
using namespace mc;
static std::vector<std::string> LOG;
SERIALIZABLE_ENUM(Color, Red, Green, DarkBlue)
struct Sc { int i = 7; double d = 2.5; bool b = true; std::string s = "dflt"; Color c = Color::Green; };
IMPL_YAML_SERIALIZABLE_FOR(Sc, i, d, b, s, c)
struct Li { std::vector<int> v = {9}; int fix[2] = {5, 6}; std::array<double, 3> a = {{1, 2, 3}}; std::set<int> st = {4}; std::vector<Color> vc; std::vector<std::string> vs = {"d"}; std::vector<std::vector<int>> vv; };
IMPL_YAML_SERIALIZABLE_FOR(Li, v, fix, a, st, vc, vs, vv)
struct In { int x = 1; std::optional<int> o; };
IMPL_YAML_SERIALIZABLE_FOR(In, x, o)
struct Ne { In in; std::optional<In> oi; std::vector<In> vi; std::shared_ptr<In> sp; std::shared_ptr<In> tail; };
IMPL_YAML_SERIALIZABLE_FOR(Ne, in, oi, vi, sp, tail)
struct M1 { int a = 1; int b = 2; }; IMPL_YAML_SERIALIZABLE_FOR(M1, a, b)
struct M2 { int a = 3; int c = 4; }; IMPL_YAML_SERIALIZABLE_FOR(M2, a, c)
// ---- rendering of reference trees as YAML text (independent of the library's writer)
static void render(const T& t, std::string& o, int col) {
    if (t.k == 'M') for (auto& p : t.m) { o += std::string(col, ' ') + p.first + ":"; if (p.second.k == 'S') o += " " + p.second.s + "\n"; else { o += "\n"; render(p.second, o, col + 2); } }
    else if (t.k == 'Q') for (auto& x : t.q) { o += std::string(col, ' ') + "-"; if (x.k == 'S') o += " " + x.s + "\n"; else { o += "\n"; render(x, o, col + 2); } }
    else if (t.k == 'S') o += t.s + "\n"; }
static std::string text(const T& t) { std::string o; render(t, o, 0); return o; }
static T S(const std::string& s) { return T::scalar(s); }
static T Q(std::vector<T> v) { T t = T::seq(); t.q = v; return t; }
struct Out { bool ok = true; std::vector<std::string> bad; void err(const std::string& p) { ok = false; bad.push_back(p); } };   // paths of fields that must be refused
// what a load did: "" or the path / message of the ConfigurationException
template<class F> static bool load(Ctx& c, const std::string& what, F f, std::string& path, std::string& msg) {
    try { f(); return true; } catch (Yaml::ConfigurationException& e) { path = e._field_name; msg = e.what(); return false; }
    catch (std::exception& e) { c.fail(what, std::string("another exception type than ConfigurationException: ") + e.what()); } }
static void expect(Ctx& c, const std::string& what, bool ok, const std::string& path, const std::string& msg, const Out& o) {
    if (ok && !o.ok) c.fail(what, "accepted, but field " + o.bad[0] + " is malformed"); if (!ok && o.ok) c.fail(what, "refused: " + msg);
    if (!ok) { c.check(std::find(o.bad.begin(), o.bad.end(), path) != o.bad.end(), what, "the error names the field '" + path + "', offending: '" + o.bad[0] + "'"); if (!path.empty()) c.check(msg.find(path) != std::string::npos, what, "the error text does not contain the path " + path); } }
// unknown fields allowed by plain loading and refused by strict loading: parent paths
static void strict_expect(Ctx& c, const std::string& what, bool ok, const std::string& path, const std::string& msg, const Out& o, const std::vector<std::pair<std::string, std::string>>& unk) {
    if (unk.empty()) { expect(c, what, ok, path, msg, o); return; }
    c.check(!ok, what, "strict loading accepted the unused field " + unk[0].second + " under '" + unk[0].first + "'");
    if (o.ok) { bool hit = false; for (auto& u : unk) hit |= u.first == path && msg.find(u.second) != std::string::npos; c.check(hit, what, "strict error does not name an unused field: '" + path + "' " + msg); } }
static std::string dbl(double d) { std::ostringstream s; s << d; return s.str(); }
static std::string show_sc(const Sc& s) { return std::to_string(s.i) + " " + dbl(s.d) + " " + (s.b ? "T" : "F") + " " + show(s.s) + " " + std::to_string((int)s.c); }
template<class V> static std::string lst(const V& v) { std::string r = "["; for (auto& x : v) { std::ostringstream o; o << x; r += o.str() + ";"; } return r + "]"; }
static std::string show_li(const Li& l) { std::string r = lst(l.v) + "[" + std::to_string(l.fix[0]) + "," + std::to_string(l.fix[1]) + "]" + lst(l.a) + lst(l.st) + lst(l.vc) + lst(l.vs) + "{"; for (auto& x : l.vv) r += lst(x); return r + "}"; }
static std::string show_in(const In& i) { return "(" + std::to_string(i.x) + "," + (i.o ? std::to_string(*i.o) : std::string("-")) + ")"; }
static std::string show_ne(const Ne& n) { std::string r = show_in(n.in) + (n.oi ? show_in(*n.oi) : std::string("-")) + "["; for (auto& x : n.vi) r += show_in(x); return r + "]" + (n.sp ? show_in(*n.sp) : std::string("null")) + (n.tail ? show_in(*n.tail) : std::string("null")); }
template<class X> static X file_load(const std::string& txt, bool strict) { std::string fn = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/ystruct_" + std::to_string(getpid()) + ".yaml"; FILE* f = fopen(fn.c_str(), "w"); fwrite(txt.data(), 1, txt.size(), f); fclose(f); struct U { std::string f; ~U() { unlink(f.c_str()); } } u{fn}; return strict ? Yaml::from_file_strict<X>(fn) : Yaml::from_file<X>(fn); }
template<class X, class SH> static void run(Ctx& c, const T& doc, const X& want, SH sh, const Out& o, const std::vector<std::pair<std::string, std::string>>& unk, bool files) {
    std::string txt = text(doc), what = "document " + show(txt), path, msg; c.key(what); c.note(what); X got; bool ok;
    ok = load(c, what, [&] { got = Yaml::from_string<X>(txt); }, path, msg); expect(c, what, ok, path, msg, o); if (ok) c.check(sh(got) == sh(want), what, "loaded " + sh(got) + " instead of " + sh(want));
    X g2; ok = load(c, what, [&] { g2 = Yaml::from_string_strict<X>(txt); }, path, msg); strict_expect(c, what + " strict", ok, path, msg, o, unk); if (ok) c.check(sh(g2) == sh(want), what, "loaded strictly " + sh(g2) + " instead of " + sh(want));
    X g3; ok = load(c, what, [&] { Yaml::from_string(txt, g3); }, path, msg); c.check(ok == o.ok && (!ok || sh(g3) == sh(want)), what, "loading into an existing object differs");
    if (files) { X g4; ok = load(c, what, [&] { g4 = file_load<X>(txt, false); }, path, msg); c.check(ok == o.ok && (!ok || sh(g4) == sh(want)), what, "loading from a file differs"); ok = load(c, what, [&] { g4 = file_load<X>(txt, true); }, path, msg); c.check(ok == (o.ok && unk.empty()), what, "strict loading from a file differs"); }
    if (o.ok) { std::string w = Yaml::to_string(want); X g5; c.note("written " + show(w)); ok = load(c, what, [&] { g5 = Yaml::from_string_strict<X>(w); }, path, msg); c.check(ok, what, "the written object " + show(w) + " is refused: " + msg); c.check(sh(g5) == sh(want), what, "written as " + show(w) + " it reads back as " + sh(g5) + " instead of " + sh(want)); }
    c.state(hash(txt)); c.step(4); c.validated(4); c.evals(); }
static void scal(Ctx& c) {
    T d = T::map(); Sc w; Out o; std::vector<std::pair<std::string, std::string>> unk;
    switch (c.choose(4)) { case 1: d.m["i"] = S("-12"); w.i = -12; break; case 2: d.m["i"] = S("2147483647"); w.i = 2147483647; break; case 3: d.m["i"] = S("0"); w.i = 0; }
    switch (c.choose(4)) { case 1: d.m["d"] = S("-1.5e-3"); w.d = -1.5e-3; break; case 2: d.m["d"] = S("4"); w.d = 4; break; case 3: d.m["d"] = S("1e300"); w.d = 1e300; }
    { static const char* BT[8] = {"true", "True", "yes", "1", "false", "no", "0", "False"}; int k = c.choose(9); if (k) { d.m["b"] = S(BT[k - 1]); w.b = k <= 4; } }
    switch (c.choose(5)) { case 1: d.m["s"] = S("word"); w.s = "word"; break; case 2: d.m["s"] = S("\"a: b # c\""); w.s = "a: b # c"; break; case 3: d.m["s"] = S("\"\""); w.s = ""; break; case 4: d.m["s"] = S("\" x's \""); w.s = " x's "; }
    switch (c.choose(6)) { case 1: d.m["c"] = S("Red"); w.c = Color::Red; break; case 2: d.m["c"] = S("DarkBlue"); w.c = Color::DarkBlue; break; case 3: d.m["c"] = S("red"); o.err("c"); break; case 4: d.m["c"] = S("Re"); o.err("c"); break; case 5: d.m["c"] = S("2"); o.err("c"); break; }
    if (d.m.empty()) c.prune(); switch (c.choose(4)) { case 1: d.m["zz"] = S("1"); unk.push_back({"", "zz"}); break; case 2: d.m["I"] = S("1"); unk.push_back({"", "I"}); break; case 3: d.m["A"] = T::map(); d.m["A"].m["i"] = S("3"); unk.push_back({"", "A"}); break; }
    run(c, d, w, show_sc, o, unk, false); }
static void lists(Ctx& c, bool th) {
    T d = T::map(); Li w; Out o; std::vector<std::pair<std::string, std::string>> unk;
    switch (c.choose(7)) { case 1: d.m["v"] = S("[1, -2,3]"); w.v = {1, -2, 3}; break; case 2: d.m["v"] = Q({S("4"), S("5")}); w.v = {4, 5}; break; case 3: d.m["v"] = S("[]"); w.v = {}; break; case 4: d.m["v"] = S("[ 8 ]"); w.v = {8}; break; case 5: d.m["v"] = S("7"); o.err("v"); break; case 6: d.m["v"] = S("[1, 2"); o.err("v"); break; }
    switch (c.choose(6)) { case 1: d.m["fix"] = S("[1, 2]"); w.fix[0] = 1; w.fix[1] = 2; break; case 2: d.m["fix"] = Q({S("3"), S("4")}); w.fix[0] = 3; w.fix[1] = 4; break; case 3: d.m["fix"] = S("[1]"); o.err("fix"); break; case 4: d.m["fix"] = Q({S("1"), S("2"), S("3")}); o.err("fix"); break; case 5: d.m["fix"] = S("[1, 2, 3]"); o.err("fix"); break; }
    switch (c.choose(th ? 5 : 3)) { case 1: d.m["a"] = S("[0.5,-1e3, 2]"); w.a = {{0.5, -1e3, 2}}; break; case 2: d.m["a"] = S("[1, 2]"); o.err("a"); break; case 3: d.m["a"] = Q({S("1"), S("2"), S("3.25")}); w.a = {{1, 2, 3.25}}; break; case 4: d.m["a"] = S("word"); o.err("a"); break; }
    switch (c.choose(th ? 4 : 3)) { case 1: d.m["st"] = S("[3, 1, 3]"); w.st = {1, 3}; break; case 2: d.m["st"] = Q({S("5")}); w.st = {5}; break; case 3: d.m["st"] = S("[]"); w.st = {}; break; }
    switch (c.choose(5)) { case 1: d.m["vc"] = S("[Red, DarkBlue]"); w.vc = {Color::Red, Color::DarkBlue}; break; case 2: d.m["vc"] = Q({S("Green"), S("Rad")}); o.err("vc.<1>"); break; case 3: d.m["vc"] = S("[Blue, Red]"); o.err("vc.<0>"); break; case 4: d.m["vc"] = Q({S("DarkBlue"), S("Red")}); w.vc = {Color::DarkBlue, Color::Red}; break; }
    switch (c.choose(th ? 4 : 3)) { case 1: d.m["vs"] = S("[a, b c ,d]"); w.vs = {"a", "b c", "d"}; break; case 2: d.m["vs"] = Q({S("x y"), S("\"q, r\"")}); w.vs = {"x y", "q, r"}; break; case 3: d.m["vs"] = S("[one]"); w.vs = {"one"}; break; }
    switch (c.choose(4)) { case 1: d.m["vv"] = Q({S("[1, 2]"), S("[]"), S("[3]")}); w.vv = {{1, 2}, {}, {3}}; break; case 2: d.m["vv"] = Q({Q({S("6")}), S("[7]")}); w.vv = {{6}, {7}}; break; case 3: d.m["vv"] = Q({S("[1]"), S("2")}); o.err("vv.<1>"); break; }
    if (d.m.empty()) c.prune(); if (c.flip()) { d.m["extra"] = S("[1, 2]"); unk.push_back({"", "extra"}); }
    run(c, d, w, show_li, o, unk, false); }
static T indoc(Ctx& c, In& w, Out& o, std::vector<std::pair<std::string, std::string>>& unk, const std::string& path) {
    T d = T::map(); int k = c.choose(6); if (k == 0 || k == 2 || k == 4) { d.m["x"] = S(k == 0 ? "5" : "6"); w.x = k == 0 ? 5 : 6; } if (k == 1 || k == 2) { d.m["o"] = S("8"); w.o = 8; } if (k == 3) { d.m["o"] = S("-1"); w.o = -1; d.m["y"] = S("1"); unk.push_back({path, "y"}); } if (k == 4) { d.m["x1"] = S("z"); unk.push_back({path, "x1"}); } if (k == 5) { d.m["w"] = T::map(); d.m["w"].m["x"] = S("4"); unk.push_back({path, "w"}); } return d; }
static void nested(Ctx& c, bool th) {
    T d = T::map(); Ne w; Out o; std::vector<std::pair<std::string, std::string>> unk; bool files = c.flip();
    if (c.flip()) { d.m["in"] = indoc(c, w.in, o, unk, "in"); } if (c.flip()) { In i; d.m["oi"] = indoc(c, i, o, unk, "oi"); w.oi = i; }
    { int n = c.choose(3); if (n) { T q = T::seq(); for (int i = 0; i < n; i++) { In x; q.q.push_back(indoc(c, x, o, unk, "vi.<" + std::to_string(i) + ">")); w.vi.push_back(x); } d.m["vi"] = q; } }
    if (c.flip()) { In i; d.m["sp"] = indoc(c, i, o, unk, "sp"); w.sp = std::make_shared<In>(i); } if (th && c.flip()) { In i; d.m["tail"] = indoc(c, i, o, unk, "tail"); w.tail = std::make_shared<In>(i); }
    if (d.m.empty()) c.prune(); if (files && (c.trace.size() > 9)) c.prune(); run(c, d, w, show_ne, o, unk, files); }
static void multi(Ctx& c) { T d = T::map(); M1 a; M2 b; static const char* K[4] = {"a", "b", "c", "e"}; bool has[4]; for (int i = 0; i < 4; i++) { has[i] = c.flip(); if (has[i]) d.m[K[i]] = S(std::to_string(10 + i)); } if (d.m.empty()) c.prune(); bool strict = c.flip(); int files = c.choose(2);
    M1 wa; M2 wb; if (has[0]) wa.a = wb.a = 10; if (has[1]) wa.b = 11; if (has[2]) wb.c = 12; std::string txt = text(d), what = "two objects from " + show(txt), p, m; c.key(what); c.note(what); std::string fn = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/ymulti_" + std::to_string(getpid()) + ".yaml"; if (files) { FILE* f = fopen(fn.c_str(), "w"); fputs(txt.c_str(), f); fclose(f); }
    bool ok = load(c, what, [&] { if (files) { if (strict) Yaml::from_file_strict(fn, a, b); else Yaml::from_file(fn, a, b); } else if (strict) Yaml::from_string_strict(txt, a, b); else Yaml::from_string(txt, a, b); }, p, m); if (files) unlink(fn.c_str());
    c.check(ok == !(strict && has[3]), what, ok ? "strict loading accepted a field that neither object has" : "refused: " + m); if (ok) { c.check(a.a == wa.a && a.b == wa.b && b.a == wb.a && b.c == wb.c, what, "wrong values"); std::string o = Yaml::to_string(a, b); M1 a2; M2 b2; b2.a = 99; Yaml::from_string_strict(o, a2, b2); c.check(a2.b == a.b && b2.c == b.c && a2.a == b.a && b2.a == b.a, what, "writing two objects and reading them back differs: " + o); }
    c.state(hash(txt) ^ (strict * 2 + files)); c.step(2); c.validated(); c.evals(); }
// ---- hooks and required fields
struct HB : Yaml::DerivedFields, Yaml::ValidatedYaml { int p = 0, q = 0; void derive() { LOG.push_back("dB p" + std::to_string(p) + "q" + std::to_string(q)); q = p + 1; } void validate() { LOG.push_back("vB q" + std::to_string(q)); if (p == 13) throw Yaml::ConfigurationException("unlucky"); } };
YAML_ADD_REQUIRED_FIELDS_FOR(HB, p)
IMPL_YAML_SERIALIZABLE_FOR(HB, p)
struct HD : HB { int r = 0, s2 = 0; void derive() { LOG.push_back("dD p" + std::to_string(p) + "q" + std::to_string(q) + "r" + std::to_string(r)); s2 = r * 2; } void validate() { LOG.push_back("vD s" + std::to_string(s2)); if (r == 13) throw Yaml::ConfigurationException("unlucky too", "r"); } };
YAML_ADD_REQUIRED_FIELDS_FOR(HD, r)
IMPL_YAML_SERIALIZABLE_WITH_BASE(HD, HB, r)
struct HI : HB { int t = 4; };          // inherits both hooks
IMPL_YAML_SERIALIZABLE_WITH_BASE(HI, HB, t)
struct HT { std::vector<HD> items; HI one; std::optional<HB> opt; };
IMPL_YAML_SERIALIZABLE_FOR(HT, items, one, opt)
struct HE { };  IMPL_YAML_SERIALIZABLE_FOR(HE)
struct HED : HE { int k = 3; void derive() { LOG.push_back("dE k" + std::to_string(k)); } };  IMPL_YAML_SERIALIZABLE_WITH_BASE(HED, HE, k)
struct HR { Li l; HED e; }; IMPL_YAML_SERIALIZABLE_FOR(HR, l, e)
static void hb(int p) { LOG.push_back("dB p" + std::to_string(p) + "q0"); LOG.push_back("vB q" + std::to_string(p + 1)); if (p == 13) throw std::string("!"); }
static void hd(int p, int r) { hb(p); LOG.push_back("dD p" + std::to_string(p) + "q" + std::to_string(p + 1) + "r" + std::to_string(r)); LOG.push_back("vD s" + std::to_string(2 * r)); if (r == 13) throw std::string("!"); }
static std::string fst(const std::vector<std::string>& v) { return v.empty() ? "" : v[0]; }
static void hooks(Ctx& c) {
    T d = T::map(); std::vector<std::string> miss; struct I { bool hp, hr; int p, r; }; std::vector<I> its; static const int V[2] = {3, 13}; std::vector<std::string> bad;
    auto mk = [&](bool needr, const std::string& path) { I i; int k = c.choose(needr ? 7 : 3); i.p = k == 1 || k == 5 ? 13 : 3; i.r = k == 4 || k == 5 ? 13 : 2; i.hp = !(k == 2 || (needr && k == 6)); i.hr = needr && !(k == 3 || k == 6); if (!i.hp || (needr && !i.hr)) miss.push_back(path); if (i.hp && i.p == 13) bad.push_back(path); else if (i.hp && i.hr && i.r == 13) bad.push_back(path + ".r"); return i; };
    auto doc = [&](const I& i, bool needr) { T t = T::map(); if (i.hp) t.m["p"] = S(std::to_string(i.p)); if (i.hr) t.m["r"] = S(std::to_string(i.r)); if (t.m.empty()) t.m["zz"] = S("0"); return t; };
    int n = c.choose(3); bool strict = c.flip(); if (n) { T q = T::seq(); for (int i = 0; i < n; i++) { its.push_back(mk(true, "items.<" + std::to_string(i) + ">")); q.q.push_back(doc(its.back(), true)); } d.m["items"] = q; }
    bool one = c.flip(), opt = c.flip(); I io{}, ip{}; if (one) { io = mk(false, "one"); d.m["one"] = doc(io, false); } if (opt) { ip = mk(false, "opt"); d.m["opt"] = doc(ip, false); } if (d.m.empty()) c.prune();
    std::string txt = text(d), what = std::string(strict ? "strict " : "") + "hooks " + show(txt), p, m; c.key(what); c.note(what); LOG.clear(); HT got; bool zz = false; for (auto& i : its) zz |= !i.hp && !i.hr; if (one) zz |= !io.hp; if (opt) zz |= !ip.hp;
    bool ok = load(c, what, [&] { if (strict) Yaml::from_string_strict(txt, got); else Yaml::from_string(txt, got); }, p, m); std::vector<std::string> log = LOG, want;
    c.check(ok == (miss.empty() && bad.empty()), what, ok ? "accepted although " + (miss.empty() ? fst(bad) + " fails its validation" : "a required field is missing in " + fst(miss)) : "refused: " + m);
    if (!ok) { std::vector<std::string> all = miss; all.insert(all.end(), bad.begin(), bad.end()); c.check(std::find(all.begin(), all.end(), p) != all.end(), what, "the error names '" + p + "', offending: " + fst(all)); }
    else { for (auto& i : its) hd(i.p, i.r); if (one) hb(io.p); if (opt) hb(ip.p); std::string a, b; for (auto& s : log) a += s + "; "; for (auto& s : want = (LOG.erase(LOG.begin(), LOG.begin() + log.size()), LOG)) b += s + "; "; c.check(a == b, what, "hooks ran as " + a + " instead of " + b);
        c.check(got.items.size() == its.size() && (!one || got.one.q == io.p + 1) && got.opt.has_value() == opt && (!opt || got.opt->q == ip.p + 1), what, "derived values are wrong"); for (size_t i = 0; i < its.size(); i++) c.check(got.items[i].s2 == 2 * its[i].r && got.items[i].q == its[i].p + 1, what, "derived values of an item are wrong"); }
    c.state(hash(txt) ^ strict); c.step(); c.validated(); c.evals(); }
// ---- type discrimination
SERIALIZABLE_ENUM(Kind, Circle, Square, Plain, Ghost)
struct Shape : Yaml::TypeDiscriminated<Shape, Kind>, Yaml::DerivedFields { int f = 1; int n = 0; void derive() { LOG.push_back("dShape"); n++; } virtual std::string who() { return "Shape"; } };
IMPL_YAML_SERIALIZABLE_FOR(Shape, type, f)
struct Circle : Shape::Register<Circle, Kind::Circle> { int rad = 2; std::vector<int> l; void derive() { LOG.push_back("dCircle"); } std::string who() { return "Circle"; } };
IMPL_YAML_SERIALIZABLE_WITH_BASE(Circle, Shape, rad, l)
struct Square : Shape::Register<Square, Kind::Square> { int side = 3; std::string who() { return "Square"; } };
YAML_ADD_REQUIRED_FIELDS_FOR(Square, side)
IMPL_YAML_SERIALIZABLE_WITH_BASE(Square, Shape, side)
struct Plain : Shape::Register<Plain, Kind::Plain> { std::string who() { return "Plain"; } };
IMPL_YAML_SERIALIZABLE_WITH_BASE(Plain, Shape)
struct Bag { std::vector<std::shared_ptr<Shape>> shapes; std::shared_ptr<Shape> main; };
IMPL_YAML_SERIALIZABLE_FOR(Bag, shapes, main)
static std::string show_shape(Shape* s) { if (!s) return "null"; std::string r = s->who() + " t" + std::to_string((int)s->type) + " f" + std::to_string(s->f); if (auto* p = dynamic_cast<Circle*>(s)) r += " rad" + std::to_string(p->rad) + lst(p->l); if (auto* p = dynamic_cast<Square*>(s)) r += " side" + std::to_string(p->side); return r; }
struct SD { int k; std::string want; std::vector<std::string> log; T doc; bool bad = false, unk = false; };
static SD shapedoc(Ctx& c) { SD r; T d = T::map(); int k = r.k = c.choose(8); bool f = c.flip(); if (f) d.m["f"] = S("9"); std::string fs = f ? " f9" : " f1";
    switch (k) { case 0: d.m["type"] = S("Circle"); d.m["rad"] = S("7"); r.want = "Circle t0" + fs + " rad7[]"; r.log = {"dShape", "dCircle"}; break; case 1: d.m["type"] = S("Circle"); d.m["l"] = S("[1, 2]"); r.want = "Circle t0" + fs + " rad2[1;2;]"; r.log = {"dShape", "dCircle"}; break; case 2: d.m["type"] = S("Square"); d.m["side"] = S("8"); r.want = "Square t1" + fs + " side8"; r.log = {"dShape"}; break; case 3: d.m["type"] = S("Plain"); r.want = "Plain t2" + fs; r.log = {"dShape"}; break;
        case 4: d.m["type"] = S("Square"); r.bad = true; break; case 5: d.m["type"] = S("Ghost"); r.bad = true; break; case 6: d.m["rad"] = S("7"); r.bad = true; break; case 7: d.m["type"] = S("Square"); d.m["side"] = S("8"); d.m["rad"] = S("5"); r.want = "Square t1" + fs + " side8"; r.log = {"dShape"}; r.unk = true; break; }
    r.doc = d; return r; }
static void apply_check(Ctx& c, const std::string& what, Shape* s) { // which handler runs: the first whose argument type matches
    std::string w = s->who(); for (int ord = 0; ord < 4; ord++) { std::string ran; bool r = false, thrown = false; auto hc = [&](Circle& x) { ran += "C" + std::to_string(x.rad); }; auto hs = [&](Square* x) { ran += "S" + std::to_string(x->side); }; auto hall = [&]() { ran += "*"; }; auto hb = [&](Shape& x) { ran += "B"; };
        std::string C = w == "Circle" ? "C" + std::to_string(dynamic_cast<Circle*>(s)->rad) : "", Q = w == "Square" ? "S" + std::to_string(dynamic_cast<Square*>(s)->side) : "", want;
        switch (ord) { case 0: r = s->try_apply(hc, hs); want = C + Q; break; case 1: r = s->try_apply(hb, hc, hs); want = "B"; break; case 2: r = s->try_apply(hs, hall, hc); want = Q.empty() ? "*" : Q; break; case 3: try { s->apply(hs, hc); r = true; } catch (std::runtime_error&) { thrown = true; } want = Q + C; break; }
        c.check(ran == want && (ord == 3 ? thrown == want.empty() : r == !want.empty()), what, "dispatch order " + std::to_string(ord) + " on " + w + " ran '" + ran + "' instead of '" + want + "'"); } }
static void types(Ctx& c, int maxn) { T d = T::map(); int n = c.choose(maxn + 1); bool strict = c.flip(), main = c.flip(); std::vector<SD> v; if (n) { T q = T::seq(); for (int i = 0; i < n; i++) { v.push_back(shapedoc(c)); q.q.push_back(v.back().doc); } d.m["shapes"] = q; } if (main) { v.push_back(shapedoc(c)); d.m["main"] = v.back().doc; } for (auto& s : v) if (s.doc.m.empty()) c.prune(); if (v.empty()) c.prune();
    std::string txt = text(d), what = std::string(strict ? "strict " : "") + "shapes " + show(txt), p, m; c.key(what); c.note(what); bool bad = false; std::vector<std::string> wlog, paths; for (size_t i = 0; i < v.size(); i++) { std::string pa = main && i + 1 == v.size() ? "main" : "shapes.<" + std::to_string(i) + ">"; if (v[i].bad || (strict && v[i].unk)) { bad = true; paths.push_back(pa); } for (auto& l : v[i].log) wlog.push_back(l); }
    LOG.clear(); Bag b; bool ok = load(c, what, [&] { if (strict) Yaml::from_string_strict(txt, b); else Yaml::from_string(txt, b); }, p, m); c.check(ok == !bad, what, ok ? "accepted although " + fst(paths) + " cannot be built" : "refused: " + m); if (!ok) c.check(std::find(paths.begin(), paths.end(), p) != paths.end(), what, "the error names '" + p + "' instead of '" + fst(paths) + "'");
    if (ok) { std::string g, w, l, wl; for (auto& s : b.shapes) g += show_shape(s.get()) + "; "; g += main ? show_shape(b.main.get()) : "no main"; for (int i = 0; i < n; i++) w += v[i].want + "; "; w += main ? v.back().want : "no main"; c.check(g == w, what, "built " + g + " instead of " + w); for (auto& x : LOG) l += x + ";"; for (auto& x : wlog) wl += x + ";"; c.check(l == wl, what, "derive hooks ran as " + l + " instead of " + wl); if (!main) c.check(!b.main, what, "main is set");
        for (auto& s : b.shapes) apply_check(c, what, s.get()); if (b.main) apply_check(c, what, b.main.get());
        std::string o = Yaml::to_string(b); c.note("written " + show(o)); Bag b2; Yaml::from_string_strict(o, b2); std::string g2; for (auto& s : b2.shapes) g2 += show_shape(s.get()) + "; "; g2 += b2.main ? show_shape(b2.main.get()) : "no main"; c.check(g2 == g, what, "written as " + show(o) + " it reads back as " + g2); }
    c.state(hash(txt) ^ strict); c.step(); c.validated(); c.evals(); }
// ---- writing: objects built directly
static void write_sc(Ctx& c) { Sc s; static const int I[4] = {0, -1, 2147483647, -2147483647 - 1}; static const double D[6] = {0, -0.5, 123456, 1e-300, 1.25e10, -7}; static const std::string ST[8] = {"w", "", "a: b", "it's", " lead", "l1\nl2", "x # y", "- 1"}; s.i = I[c.choose(4)]; s.d = D[c.choose(6)]; s.b = c.flip(); s.s = ST[c.choose(8)]; s.c = (Color)c.choose(3);
    std::string o = Yaml::to_string(s), what = "object " + show_sc(s); c.key(what); c.note(what + " written " + show(o)); Sc g = Yaml::from_string_strict<Sc>(o); c.check(show_sc(g) == show_sc(s) && g.d == s.d, what, "written as " + show(o) + " it reads back as " + show_sc(g)); c.check(Yaml::to_string(g) == o, what, "writing twice differs"); c.state(hash(o)); c.step(); c.validated(); c.evals(); }
static void write_li(Ctx& c) { Li l; static const std::vector<std::vector<int>> VI = {{}, {1}, {-3, 0, 5}}; static const std::vector<std::vector<std::string>> VS = {{}, {"a"}, {"", "x"}, {"a, b", "[c]"}, {"p q", ""}, {"k: v"}}; static const std::vector<std::vector<std::vector<int>>> VV = {{}, {{}}, {{1}, {}}, {{}, {2, 3}}}; l.v = VI[c.choose(3)]; l.vs = VS[c.choose(6)]; l.vv = VV[c.choose(4)]; auto& q = VI[c.choose(3)]; l.st = std::set<int>(q.begin(), q.end()); int n = c.choose(3); for (int i = 0; i < n; i++) l.vc.push_back((Color)c.choose(3)); l.fix[0] = c.flip() ? -4 : 8;
    std::string o = Yaml::to_string(l), what = "object " + show_li(l); c.key(what); c.note(what + " written " + show(o)); Li g = Yaml::from_string_strict<Li>(o); c.check(show_li(g) == show_li(l), what, "written as " + show(o) + " it reads back as " + show_li(g)); c.check(Yaml::to_string(g) == o, what, "writing twice differs"); c.state(hash(o)); c.step(); c.validated(); c.evals(); }
static void write_ne(Ctx& c) { Ne n; auto in = [&]() { In i; i.x = c.flip() ? 3 : -1; if (c.flip()) i.o = 6; return i; }; n.in = in(); if (c.flip()) n.oi = in(); int k = c.choose(3); for (int i = 0; i < k; i++) n.vi.push_back(in()); if (c.flip()) n.sp = std::make_shared<In>(in()); if (c.flip()) n.tail = std::make_shared<In>(in());
    std::string o = Yaml::to_string(n), what = "object " + show_ne(n); c.key(what); c.note(what + " written " + show(o)); Ne g = Yaml::from_string_strict<Ne>(o); c.check(show_ne(g) == show_ne(n), what, "written as " + show(o) + " it reads back as " + show_ne(g)); c.check(Yaml::to_string(g) == o, what, "writing twice differs"); c.state(hash(o)); c.step(); c.validated(); c.evals(); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    std::vector<Scenario> sc = {{"scalars", scal, 3}, {"lists", [th](Ctx& c) { lists(c, th); }, 3}, {"nested", [th](Ctx& c) { nested(c, th); }, 4}, {"multi", multi, 2}, {"hooks", hooks, 4}, {"types", [th](Ctx& c) { types(c, th ? 3 : 2); }, 4}, {"write_sc", write_sc, 2}, {"write_li", write_li, 2}, {"write_ne", write_ne, 2}};
    return main_(argc, argv, "YSTRUCT", sc); }
