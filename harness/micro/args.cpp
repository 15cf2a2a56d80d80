// Command line of the micromechanics applications: every argument list up to a length against an independent GNU-getopt model.
#include "mc.hpp"
#include "command_line_args.h"
#include <getopt.h>
#include <setjmp.h>
#include <iostream>
using namespace mc;
static jmp_buf JB; static int EXITCODE; static bool INPARSE;
extern "C" void __real_exit(int); extern "C" void __wrap_exit(int r) { if (INPARSE) { EXITCODE = r; longjmp(JB, 1); } __real_exit(r); }
struct R { std::string f, e, g, p; int m = 0, u = -1; bool help = false; };
static const char* LN[7] = {"infile", "micro-filetype", "euler-angles", "feature-ids", "phase-ids", "euler-unit", "help"}; static const char SH[8] = "fmegpuh";
static void set(R& r, char c, const std::string& v) { switch (c) { case 'f': r.f = v; break; case 'm': r.m = atoi(v.c_str()); break; case 'e': r.e = v; break; case 'g': r.g = v; break; case 'p': r.p = v; break; case 'u': r.u = atoi(v.c_str()); break; default: r.help = true; } }
static R model(const std::vector<std::string>& a) { // options anywhere among the operands, "--" ends them, long names may be abbreviated
    R r; for (size_t i = 0; i < a.size() && !r.help; i++) { const std::string& s = a[i]; if (s == "--") break; if (s.size() < 2 || s[0] != '-') continue;
        if (s[1] == '-') { size_t q = s.find('='); std::string n = s.substr(2, q == std::string::npos ? q : q - 2); int hit = -1, cnt = 0; for (int k = 0; k < 7; k++) { if (n == LN[k]) { hit = k; cnt = 1; break; } if (std::string(LN[k]).compare(0, n.size(), n) == 0) { hit = k; cnt++; } }
            if (cnt != 1) { r.help = true; break; } if (hit == 6) { r.help = true; break; } if (q != std::string::npos) set(r, SH[hit], s.substr(q + 1)); else if (i + 1 < a.size()) set(r, SH[hit], a[++i]); else r.help = true; }
        else { const char* p = strchr(SH, s[1]); if (!p || s[1] == 'h') { r.help = true; break; } if (s.size() > 2) set(r, s[1], s.substr(2)); else if (i + 1 < a.size()) set(r, s[1], a[++i]); else r.help = true; } }
    if (r.f.empty()) r.help = true; if (r.m == 1 && (r.e.empty() || r.g.empty() || r.p.empty() || r.u == -1)) r.help = true; return r; }
static void one(Ctx& c, const std::vector<std::string>& a) { std::string what = "arguments"; for (auto& s : a) what += " " + s; c.key(what); c.note(what); R w = model(a); std::vector<char*> av; std::vector<std::string> b = a; b.insert(b.begin(), "prog"); for (auto& s : b) av.push_back(&s[0]); av.push_back(nullptr);
    static CommandLineArgs* cl = nullptr; delete cl; cl = new CommandLineArgs; optind = 0; opterr = 0; static volatile bool exited; exited = false; std::streambuf* ob = std::cout.rdbuf(); static std::ostringstream sink; sink.str(""); std::cout.rdbuf(sink.rdbuf()); INPARSE = true; EXITCODE = -1; if (setjmp(JB) == 0) cl->parse_command_line((int)b.size(), av.data()); else exited = true; INPARSE = false; std::cout.rdbuf(ob);
    c.check(exited == w.help, what, exited ? "refused (help and exit " + std::to_string(EXITCODE) + ") although complete" : "accepted although it must be refused"); if (exited) { c.check(EXITCODE != 0, what, "refused with exit status 0"); c.check(sink.str().find("infile") != std::string::npos, what, "refused without the usage text"); }
    else c.check(cl->input_filename == w.f && cl->micro_filetype == w.m && cl->EulerAnglesFullPath == w.e && cl->FeatureIdsFullPath == w.g && cl->PhaseIdsFullPath == w.p && cl->EulerAnglesUnit == w.u, what, "parsed as f=" + cl->input_filename + " m=" + std::to_string(cl->micro_filetype) + " e=" + cl->EulerAnglesFullPath + " g=" + cl->FeatureIdsFullPath + " p=" + cl->PhaseIdsFullPath + " u=" + std::to_string(cl->EulerAnglesUnit));
    c.state(hash(what)); c.step(); c.validated(); c.evals(); }
static const std::vector<std::string> TOK = {"-f", "in.txt", "-fx", "--infile=y", "--inf", "-m", "1", "-m1", "-m0", "-m2", "-e", "/e", "-g/g", "--phase-ids=/p", "-u", "0", "-u1", "-h", "--help", "-x", "--", "pos", "--eu=3", "--euler-a", "--bad", "-e/e2", "-p", "--feature-ids", "--micro-filetype=1", "-"};
static void toks(Ctx& c, int n) { std::vector<std::string> a; int k = c.choose(n + 1); for (int i = 0; i < k; i++) a.push_back(TOK[c.choose((int)TOK.size())]); one(c, a); }
// complete option groups: every subset in every order, each option in one of its spellings
static void groups(Ctx& c, bool th) { struct G { char o; std::vector<std::vector<std::string>> sp; }; static const std::vector<G> GS = {{'f', {{"-f", "a/b"}, {"--infile", "q"}, {"--infile=w"}}}, {'m', {{"-m", "1"}, {"--micro-filetype=1"}, {"-m2"}}}, {'e', {{"-e", "E"}, {"--euler-angles", "F"}}}, {'g', {{"-g", "G"}, {"--feature-ids=H"}}}, {'p', {{"-p", "P"}, {"--phase-ids", "R"}}}, {'u', {{"-u", "1"}, {"--euler-unit=0"}}}}; std::vector<int> left = {0, 1, 2, 3, 4, 5}; std::vector<std::string> a; for (;;) { int k = c.choose((int)left.size() + 1); if (k == 0) break; int g = left[k - 1]; left.erase(left.begin() + (k - 1)); int nsp = th ? (int)GS[g].sp.size() : 2; auto& s = GS[g].sp[c.choose(nsp)]; a.insert(a.end(), s.begin(), s.end()); if (left.empty()) break; } one(c, a); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough"); std::vector<Scenario> sc = {{"tokens", [th](Ctx& c) { toks(c, th ? 5 : 4); }, 3}, {"groups", [th](Ctx& c) { groups(c, th); }, 4}}; return main_(argc, argv, "MARGS", sc); }
