// Scalar conversions: Node::As<T>() gives the value a text denotes, As<T>(default) gives the default exactly when there is none.
#include "ytree.hpp"
#include <limits>
#include <cmath>
using namespace mc;
static Yaml::Node mk(const std::string& s, bool parsed) { Yaml::Node n; if (!parsed) { n = s; return n; } Yaml::Node r; std::string t = "k: \"" + s + "\"\n"; Yaml::Parse(r, t); n = r["k"]; return n; }
template<class N> static void as_int(Ctx& c, const std::string& what, const std::string& txt, long long v, bool parsed) { if (v < (long long)std::numeric_limits<N>::lowest() || (v > 0 && (unsigned long long)v > (unsigned long long)std::numeric_limits<N>::max()) || (std::is_unsigned<N>::value && v < 0)) return; Yaml::Node n = mk(txt, parsed); N a = n.As<N>(), b = n.As<N>((N)77); c.check(a == (N)v && b == (N)v, what, "read as " + std::to_string(a) + " / " + std::to_string(b)); c.evals(2); }
static void ints(Ctx& c, bool th) { static const std::vector<std::string> MAG = {"0", "1", "9", "10", "42", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807"}; std::string t; int k = c.choose(2); bool neg = c.flip(); if (k == 0) t = MAG[c.choose((int)MAG.size())]; else { int L = 1 + c.choose(th ? 5 : 4); for (int i = 0; i < L; i++) t += char('0' + c.choose(10)); }
    int lead = c.choose(3); std::string u = (neg ? "-" : lead == 1 ? "+" : "") + t; if (lead == 2) u = " " + u + " "; bool parsed = c.flip(); long long v = std::stoll(t); if (neg) v = -v; std::string what = "integer " + show(u); c.key(what); c.note(what);
    as_int<int>(c, what, u, v, parsed); as_int<long>(c, what, u, v, parsed); as_int<unsigned>(c, what, u, v, parsed); as_int<size_t>(c, what, u, v, parsed); as_int<short>(c, what, u, v, parsed); Yaml::Node n = mk(u, parsed); double d = n.As<double>(); c.check(d == (double)v, what, "read as double " + std::to_string(d)); c.check(n.As<std::string>() == u, what, "the text changed"); c.check(n.As<bool>() == (u == "1"), what, "read as bool"); c.state(hash(u)); c.step(); c.validated(); }
static void reals(Ctx& c) { static const char* M[12] = {"0", "1", "9.5", "0.1", ".25", "3.", "123456.789", "2.2250738585072014", "1.7976931348623157", "4.9", "0.30000000000000004", "99999999999999999999"}; static const char* E[10] = {"", "e0", "e5", "E-5", "e+10", "e-300", "e307", "E00", "e-1", "e22"}; std::string u = (c.flip() ? "-" : "") + std::string(M[c.choose(12)]) + E[c.choose(10)]; bool parsed = c.flip(); if (c.flip()) u = "  " + u + " "; double v = strtod(u.c_str(), nullptr); if (std::isinf(v) || (v != 0 && std::fabs(v) < 2.3e-308)) c.prune();
    std::string what = "real " + show(u); c.key(what); c.note(what); Yaml::Node n = mk(u, parsed); double a = n.As<double>(), b = n.As<double>(77.0); c.check(a == v && b == v, what, "read as " + std::to_string(a)); float f = n.As<float>(1.f); if (std::fabs(v) < 1e38 && (v == 0 || std::fabs(v) > 1e-37)) c.check(f == strtof(u.c_str(), nullptr), what, "read as float " + std::to_string(f)); c.state(hash(u)); c.step(); c.validated(); c.evals(3); }
static void words(Ctx& c) { static const std::string W[14] = {"abc", "x1", "-", "+", ".", "e5", "--3", "[1]", "true", "yes", "1", "no", "false", "on"}; std::string u = W[c.choose(14)]; unsigned m = c.choose(u.size() <= 5 ? 1 << u.size() : 1); for (size_t i = 0; i < u.size(); i++) if (m >> i & 1) u[i] = toupper(u[i]); bool parsed = c.flip(); std::string l = u; for (auto& ch : l) ch = tolower(ch);
    std::string what = "text " + show(u); c.key(what); c.note(what); Yaml::Node n = mk(u, parsed); bool tr = l == "true" || l == "yes" || l == "1"; c.check(n.As<bool>() == tr && n.As<bool>(true) == tr && n.As<bool>(false) == tr, what, "read as a wrong boolean"); if (l != "1") { c.check(n.As<int>(77) == 77, what, "read as an integer"); c.check(n.As<double>(2.5) == 2.5, what, "read as a real"); } c.check(n.As<std::string>("dd") == u, what, "the text changed"); c.state(hash(u)); c.step(); c.validated(); c.evals(6); }
static void nonscalar(Ctx& c) { Yaml::Node n; int k = c.choose(5); if (k == 1) n.PushBack() = "5"; if (k == 2) n["a"] = "5"; if (k == 3) { n = "5"; n.Clear(); } if (k == 4) { n = "5"; n.PushBack() = "6"; } std::string what = "non-scalar node kind " + std::to_string(k); c.key(what); c.note(what); int t = n.Type();
    switch (c.choose(4)) { case 0: c.check(n.As<int>(77) == 77, what, "integer default"); break; case 1: c.check(n.As<double>(2.5) == 2.5, what, "real default"); break; case 2: c.check(n.As<bool>(true) == true && n.As<bool>(false) == false, what, "boolean default"); break; case 3: c.check(n.As<std::string>("dd") == "dd" && n.As<std::string>() == "", what, "text default"); break; } c.check(n.Type() == t, what, "reading changed the node"); c.state(k); c.step(); c.validated(); c.evals(); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    std::vector<Scenario> sc = {{"ints", [th](Ctx& c) { ints(c, th); }, 3}, {"reals", reals, 3}, {"words", words, 2}, {"nonscalar", nonscalar, 1}}; return main_(argc, argv, "YCONV", sc); }
