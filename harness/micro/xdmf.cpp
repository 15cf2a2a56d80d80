// XDMF writer: every small sequence of attributes on every small grid; the file is parsed back by an independent XML reader.
#include "mc.hpp"
#include "XdmfUniformGridWriter.h"
#include <map>
#include <fstream>
using namespace mc;
struct X { std::string tag, text; std::map<std::string, std::string> at; std::vector<X> ch; };
struct P { const std::string& s; size_t i = 0; std::string err; P(const std::string& t) : s(t) {} void ws() { while (i < s.size() && isspace((unsigned char)s[i])) i++; } bool lit(const char* l) { size_t n = strlen(l); if (s.compare(i, n, l) == 0) { i += n; return true; } return false; }
    void misc() { for (;;) { ws(); if (lit("<?")) { size_t e = s.find("?>", i); if (e == std::string::npos) { err = "unterminated <?"; return; } i = e + 2; } else if (lit("<!--")) { size_t e = s.find("-->", i); if (e == std::string::npos) { err = "unterminated comment"; return; } i = e + 3; } else if (lit("<!")) { size_t e = s.find('>', i); if (e == std::string::npos) { err = "unterminated <!"; return; } i = e + 1; } else return; } }
    bool elem(X& x) { misc(); if (!err.empty()) return false; if (i >= s.size() || s[i] != '<') { err = "element expected at " + s.substr(i, 20); return false; } i++; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == ':')) x.tag += s[i++];
        for (;;) { ws(); if (lit("/>")) return true; if (lit(">")) break; std::string n; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == ':')) n += s[i++]; if (n.empty() || !lit("=\"")) { err = "bad attribute in " + x.tag; return false; } std::string v; while (i < s.size() && s[i] != '"') { if (s[i] == '<') { err = "'<' in attribute"; return false; } v += s[i++]; } i++; if (x.at.count(n)) { err = "duplicate attribute " + n; return false; } x.at[n] = v; }
        for (;;) { while (i < s.size() && s[i] != '<') x.text += s[i++]; if (i >= s.size()) { err = "unclosed " + x.tag; return false; } if (s.compare(i, 4, "<!--") == 0) { misc(); if (!err.empty()) return false; continue; } if (lit("</")) { std::string n; while (i < s.size() && s[i] != '>') n += s[i++]; i++; if (n != x.tag) { err = "</" + n + "> closes <" + x.tag + ">"; return false; } return true; } X y; if (!elem(y)) return false; x.ch.push_back(y); } } };
static std::vector<double> nums(const std::string& s) { std::istringstream i(s); std::vector<double> v; double d; while (i >> d) v.push_back(d); return v; }
static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \n\t"), b = s.find_last_not_of(" \n\t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static void body(Ctx& c, int maxattr) {
    static const int NS[4] = {1, 2, 7, 64}; int n[3]; for (int& v : n) v = NS[c.choose(4)]; int k = c.choose(maxattr + 1); int grids = 1 + (k < 2 ? c.choose(2) : 0); struct A { std::string nm, ty, nt, pr, loc; }; std::vector<A> as; static const char* NM[3] = {"Stress", "grain ID", "vel_grad-1"}; static const char* TY[2] = {"Scalar", "Tensor"}; static const char* LOC[2] = {"micro_state.h5:/TimeStep1/Stress", "out dir/m.h5:/a/b"};
    XdmfUniformGridWriter w(n[0], n[1], n[2]); for (int i = 0; i < k; i++) { A a; a.nm = NM[c.choose(3)]; a.ty = TY[c.choose(2)]; a.loc = LOC[c.choose(2)]; int t = c.choose(3); if (t == 0) w.deduce_attribute_number_type((int*)nullptr, a.nt, a.pr); else if (t == 1) w.deduce_attribute_number_type((float*)nullptr, a.nt, a.pr); else w.deduce_attribute_number_type((double*)nullptr, a.nt, a.pr);
        static const char* NT[3] = {"Int", "Float", "Float"}; static const char* PR[3] = {"4", "4", "8"}; c.check(a.nt == NT[t] && a.pr == PR[t], "number type", "deduced " + a.nt + "/" + a.pr + " for type " + std::to_string(t)); as.push_back(a); }
    std::string what = "grid " + std::to_string(n[0]) + "x" + std::to_string(n[1]) + "x" + std::to_string(n[2]) + " attributes"; for (auto& a : as) what += " [" + a.nm + " " + a.ty + " " + a.nt + a.pr + " " + a.loc + "]"; c.key(what); c.note(what);
    std::string fn = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/xdmf_" + std::to_string(getpid()) + ".xdmf"; for (int g = 0; g < grids; g++) { w.open_file(fn.c_str()); w.write_header("Grid A"); for (auto& a : as) w.write_attribute(a.nm.c_str(), a.ty.c_str(), a.nt.c_str(), a.pr.c_str(), a.loc.c_str()); w.write_footer(); w.close_file(); } // the writer is reused: each file is complete
    std::ifstream f(fn); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str(); unlink(fn.c_str()); X x; P p(s); bool ok = p.elem(x); c.check(ok, what, "not well-formed: " + p.err); p.ws(); c.check(p.i == s.size(), what, "text behind the document element");
    c.check(x.tag == "Xdmf" && x.ch.size() == 1 && x.ch[0].tag == "Domain" && x.ch[0].ch.size() == 1 && x.ch[0].ch[0].tag == "Grid", what, "not one Xdmf/Domain/Grid"); X& g = x.ch[0].ch[0]; c.check(g.at["Name"] == "Grid A" && g.at["GridType"] == "Uniform", what, "grid name or type"); int na = 0, nt = 0, ng = 0;
    for (auto& e : g.ch) { if (e.tag == "Topology") { nt++; auto d = nums(e.at["Dimensions"]); c.check(e.at["TopologyType"] == "3DCoRectMesh" && d.size() == 3 && d[0] == n[0] + 1 && d[1] == n[1] + 1 && d[2] == n[2] + 1, what, "topology dimensions " + e.at["Dimensions"]); }
        else if (e.tag == "Geometry") { ng++; c.check(e.ch.size() == 2 && nums(e.ch[0].text) == std::vector<double>({0, 0, 0}) && nums(e.ch[1].text) == std::vector<double>({1, 1, 1}) && (e.at["Type"] == "ORIGIN_DXDYDZ" || e.at["GeometryType"] == "ORIGIN_DXDYDZ"), what, "geometry origin or spacing"); }
        else if (e.tag == "Attribute") { c.check(na < k, what, "too many attributes"); A& a = as[na]; c.check(e.at["Name"] == a.nm && e.at["AttributeType"] == a.ty && e.at["Center"] == "Cell", what, "attribute " + std::to_string(na) + " name, type or center"); c.check(e.ch.size() == 1 && e.ch[0].tag == "DataItem", what, "attribute without one data item"); X& d = e.ch[0]; auto dm = nums(d.at["Dimensions"]); c.check(d.at["Format"] == "HDF" && d.at["NumberType"] == a.nt && d.at["Precision"] == a.pr, what, "data item format, number type or precision"); c.check(dm.size() == 3 && dm[0] == n[0] && dm[1] == n[1] && dm[2] == n[2], what, "data item dimensions " + d.at["Dimensions"]); c.check(trim(d.text) == a.loc, what, "data item location '" + trim(d.text) + "'"); na++; } }
    c.check(na == k && nt == 1 && ng == 1, what, "number of attributes, topologies or geometries"); c.state(hash(s)); c.step(); c.validated(); c.evals(); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough"); std::vector<Scenario> sc = {{"files", [th](Ctx& c) { body(c, th ? 3 : 2); }, 3}}; return main_(argc, argv, "XDMF", sc); }
