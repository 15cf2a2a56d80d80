// Runs one of the FFT crystal-plasticity applications (its real sources, compiled against shim/) on input files written for the case, with
// one process per MPI rank (the exchange hook of shim/mpi_stub goes through shared memory), and captures the whole state after every step.
#ifndef EVP_HPP
#define EVP_HPP
#include "mc.hpp"
#include <cmath>
#include <map>
#include <fstream>
#include <dirent.h>
#include <pthread.h>
#include "evpfft.h"
namespace evp {
using std::string; using std::vector; typedef vector<double> vd;
static const int NS = 24, NV = 64, NSTEP = 6, NRANK = 8;
struct System { int n[4], b[4]; };
struct Mode { int label = 1, nrs = 5; double gamd0 = 1, twsh = 0, tf = 10, tb = 10, t1 = 0, h0 = 0, h1 = 0; double self = 1; vd lat; vector<System> sys; };
struct Phase { bool gas = false; string cryst = "CUBIC"; double cdim[3] = {1, 1, 1}; vector<Mode> modes; vector<int> active; bool iso = false; double young = 0, nu = 0; double C[6][6] = {}; };
struct Voxel { double ph = 0, th = 0, om = 0; int grain = 1, phase = 1; };
struct Case { int n[3] = {1, 1, 1}; double delt[3] = {1, 1, 1}; vector<Phase> phases; vector<Voxel> vox; int iudot[3][3], iscau[6]; double udot[3][3] = {}, scauchy[3][3] = {}; double eqincr = 1e-4; int ictrl = -1, nsteps = 1; double err = 1e-14; int itmax = 400; int iupdate = 1, iuphard = 1, iwtex = 0, iwfields = 0, iwstep = 1, ithermo = 0; vector<std::array<double, 6>> eth; int ranks = 1; int filetype = 0; int eulunit = 0; bool rawmicro = false; string micro; bool comments = false;
    Case() { for (auto& r : iudot) for (int& x : r) x = 1; for (int& x : iscau) x = 0; } int N() const { return n[0] * n[1] * n[2]; } int id(int i, int j, int k) const { return i + n[0] * (j + n[1] * k); } };
struct VoxS { double ag[9], sg[9], dg[9], vg[9], ep[9], ept[9], cg[36], gd[NS], crss[2 * NS], ga, xk[NS]; int ph, gr; double eul[3]; };
struct StepS { VoxS v[NV]; double sav[9], sav1[9], epav[9], edav[9], dma[9], vgm[9]; double evm, dvm, svm, svm1, evmp, dvmp, errs, erre, delt[3], tdot, avgnr; int iter; };
struct Shm { pthread_barrier_t bar; int bad; char msg[2000]; int steps; StepS st[NSTEP + 1]; size_t len[NRANK]; char buf[NRANK][1 << 20]; };
static Shm* g_shm = nullptr; static int g_rank = 0, g_ranks = 1;
struct Outcome { bool ok = false; int exitcode = -1; bool crashed = false; string what; Shm* s = nullptr; std::map<string, string> files; };
inline vector<vector<char>> exch(const vector<char>& m) { Shm* s = g_shm; if (m.size() > sizeof s->buf[0]) mcshim::fail("harness: message too long"); s->len[g_rank] = m.size(); if (m.size()) memcpy(s->buf[g_rank], m.data(), m.size()); pthread_barrier_wait(&s->bar); vector<vector<char>> o; for (int r = 0; r < g_ranks; r++) o.emplace_back(s->buf[r], s->buf[r] + s->len[r]); pthread_barrier_wait(&s->bar); return o; }
inline string g17(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
inline void put(const string& f, const string& t) { std::ofstream o(f); o << t; }
inline string crystal_file(const Phase& p) { std::ostringstream o; o << "slip systems\n" << p.cryst << "   icryst\n" << g17(p.cdim[0]) << " " << g17(p.cdim[1]) << " " << g17(p.cdim[2]) << "  axes\n" << p.modes.size() << "  nmodesx\n" << p.active.size() << "  nmodes\n"; for (int a : p.active) o << a << " "; o << "  mode(i)\n"; for (const Mode& m : p.modes) { o << "some slip\n" << m.label << " " << m.sys.size() << " " << m.nrs << " " << g17(m.gamd0) << " " << g17(m.twsh) << " 0   modex\n" << g17(m.tf) << " " << g17(m.tb) << " " << g17(m.t1) << " " << g17(m.h0) << " " << g17(m.h1) << "   tau\n" << g17(m.self); for (size_t i = 0; i < p.modes.size(); i++) o << " " << g17(i < m.lat.size() ? m.lat[i] : 1.0); o << "   hself\n"; int w = p.cryst[0] == 'H' || p.cryst[0] == 'T' || p.cryst[0] == 'h' || p.cryst[0] == 't' ? 4 : 3; for (const System& s : m.sys) { for (int i = 0; i < w; i++) o << s.n[i] << " "; o << "  "; for (int i = 0; i < w; i++) o << s.b[i] << " "; o << "  slip\n"; } } return o.str(); }
inline string elastic_file(const Phase& p) { std::ostringstream o; if (p.iso) o << "1  ISO\n" << g17(p.young) << " " << g17(p.nu) << "  young\n"; else { o << "0\n"; for (auto& r : p.C) { for (double x : r) o << g17(x) << " "; o << " row\n"; } } return o.str(); }
inline string micro_file(const Case& q) { std::ostringstream o; for (int k = 0; k < q.n[2]; k++) for (int j = 0; j < q.n[1]; j++) for (int i = 0; i < q.n[0]; i++) { const Voxel& v = q.vox[q.id(i, j, k)]; o << g17(v.ph) << " " << g17(v.th) << " " << g17(v.om) << " " << i + 1 << " " << j + 1 << " " << k + 1 << " " << v.grain << " " << v.phase << (q.comments ? " a voxel\n" : "\n"); } return o.str(); }
inline string vtk_file(const Case& q) { std::ostringstream o; o << "# vtk DataFile Version 3.0\nlattice\nASCII\nDATASET STRUCTURED_POINTS\nDIMENSIONS " << q.n[0] << " " << q.n[1] << " " << q.n[2] << "\nPOINT_DATA " << q.N() << "\nSCALARS density float 1\nLOOKUP_TABLE default\n"; for (int k = 0; k < q.n[2]; k++) for (int j = 0; j < q.n[1]; j++) { for (int i = 0; i < q.n[0]; i++) o << q.vox[q.id(i, j, k)].phase - 1 << " "; o << "\n"; } return o.str(); }
inline string main_file(const Case& q) { size_t nm = 1, ns = 1; for (auto& p : q.phases) { nm = std::max(nm, p.active.size()); size_t s = 0; for (auto& m : p.modes) for (int a : p.active) if (m.label == a) s += m.sys.size(); ns = std::max(ns, s); } for (auto& p : q.phases) for (auto& m : p.modes) ns = std::max(ns, m.sys.size()); std::ostringstream o; o << q.phases.size() << " " << nm << " 1 " << ns << "   NPHMX\n" << q.n[0] << " " << q.n[1] << " " << q.n[2] << "   dims\n" << q.phases.size() << "  nph\n" << g17(q.delt[0]) << " " << g17(q.delt[1]) << " " << g17(q.delt[2]) << "  delt\n* microstructure\nmicro.txt\n";
    for (size_t i = 0; i < q.phases.size(); i++) o << "*INFORMATION ABOUT PHASE\n" << (q.phases[i].gas ? 1 : 0) << "  igas\n* files\npl" << i + 1 << ".txt  plastic\nel" << i + 1 << ".txt  elastic\n"; o << "*INFORMATION ABOUT TEST CONDITIONS\n* boundary conditions\n"; for (auto& r : q.iudot) { for (int x : r) o << x << " "; o << "  iudot\n"; } o << "\n"; for (auto& r : q.udot) { for (double x : r) o << g17(x) << " "; o << "  udot\n"; } o << "\n" << q.iscau[0] << " " << q.iscau[5] << " " << q.iscau[4] << "  iscau\n " << q.iscau[1] << " " << q.iscau[3] << "  \n  " << q.iscau[2] << "   \n\n" << g17(q.scauchy[0][0]) << " " << g17(q.scauchy[0][1]) << " " << g17(q.scauchy[0][2]) << "  scauchy\n" << g17(q.scauchy[1][1]) << " " << g17(q.scauchy[1][2]) << "\n" << g17(q.scauchy[2][2]) << "\n* other\n" << g17(q.eqincr) << "  eqincr\n" << q.ictrl << "  ictrl\n*INFORMATION ABOUT RUN CONDITIONS\n" << q.nsteps << "  nsteps\n" << g17(q.err) << "  err\n" << q.itmax << " itmax\n0  irecover\n0  isave\n" << q.iupdate << "  iupdate\n" << q.iuphard << "  iuphard\n" << q.iwtex << "  iwtex\n" << q.iwfields << " " << q.iwstep << "  iwfields\n" << q.ithermo << "  ithermo\n" << (q.ithermo ? "thermo.txt" : "dummy") << "\n"; return o.str(); }
inline void wipe(const string& d) { if (DIR* p = opendir(d.c_str())) { while (dirent* e = readdir(p)) { string n = e->d_name; if (n == "." || n == "..") continue; string f = d + "/" + n; if (e->d_type == DT_DIR) { wipe(f); rmdir(f.c_str()); } else unlink(f.c_str()); } closedir(p); } }
inline void slurp(const string& d, const string& pre, std::map<string, string>& out) { if (DIR* p = opendir(d.c_str())) { while (dirent* e = readdir(p)) { string n = e->d_name; if (n == "." || n == "..") continue; string f = d + "/" + n; if (e->d_type == DT_DIR) slurp(f, pre + n + "/", out); else { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); out[pre + n] = s.str(); } } closedir(p); } }
template<class A> void mat9(double* o, const A& a) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[3 * i + j] = a(i + 1, j + 1); }
void capture(EVPFFT& e, StepS& t);        // per application: local voxels into the shared step record
inline const Case* g_case = nullptr; inline bool g_keep = false;
// the program: reads the files in the current directory and steps
inline int rank_main(const Case& q, bool prepare_only) {
    CommandLineArgs cmd; cmd.input_filename = "fft.in"; cmd.micro_filetype = q.filetype;
    if (q.filetype == 1) { cmd.EulerAnglesFullPath = "/a/EulerAngles"; cmd.FeatureIdsFullPath = "/a/FeatureIds"; cmd.PhaseIdsFullPath = "/b/Phases"; cmd.EulerAnglesUnit = q.eulunit; auto& f = h5stub::files()["micro.txt"]; auto add = [&](const char* n, int type, int comps, auto get) { auto& d = f.sets[n]; d.dims = {(hsize_t)q.n[2], (hsize_t)q.n[1], (hsize_t)q.n[0], (hsize_t)comps}; d.type = type; d.elem = h5stub::esize(type); d.bytes.resize(q.N() * comps * d.elem); for (int v = 0; v < q.N(); v++) for (int c = 0; c < comps; c++) get(v, c, d.bytes.data() + (v * comps + c) * d.elem); };
        double s = q.eulunit == 1 ? std::acos(-1.0) / 180 : 1; add("/a/EulerAngles", H5T_NATIVE_DOUBLE, 3, [&](int v, int c, char* p) { double x = (c == 0 ? q.vox[v].ph : c == 1 ? q.vox[v].th : q.vox[v].om) * s; memcpy(p, &x, 8); }); add("/a/FeatureIds", H5T_NATIVE_INT, 1, [&](int v, int, char* p) { memcpy(p, &q.vox[v].grain, 4); }); add("/b/Phases", H5T_NATIVE_INT, 1, [&](int v, int, char* p) { memcpy(p, &q.vox[v].phase, 4); }); }
    { EVPFFT e(MPI_COMM_WORLD, cmd); capture(e, g_shm->st[0]); if (!prepare_only) for (e.imicro = 1; e.imicro <= e.nsteps; e.imicro++) { e.evolve(); if (e.imicro <= NSTEP) { capture(e, g_shm->st[e.imicro]); if (g_rank == 0) g_shm->steps = e.imicro; } } }
    return 0; }
inline Outcome run(mc::Ctx& c, const Case& q, bool prepare_only = false) {
    static string dir; if (dir.empty()) { const char* b = getenv("TMPDIR"); dir = string(b ? b : "/tmp") + "/evp_XXXXXX"; vector<char> t(dir.begin(), dir.end()); t.push_back(0); if (!mkdtemp(t.data())) c.fail("harness", "no scratch directory"); dir = t.data(); }
    mkdir(dir.c_str(), 0700);
    if (!g_shm) { g_shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    Shm* s = g_shm; s->bad = 0; s->msg[0] = 0; s->steps = 0; memset((void*)&s->st[0], 0, sizeof s->st[0] * (std::min(q.nsteps, NSTEP) + 1)); pthread_barrierattr_t at; pthread_barrierattr_init(&at); pthread_barrierattr_setpshared(&at, PTHREAD_PROCESS_SHARED); pthread_barrier_init(&s->bar, &at, q.ranks);
    put(dir + "/fft.in", main_file(q)); put(dir + "/micro.txt", q.rawmicro ? q.micro : q.filetype == 2 ? vtk_file(q) : micro_file(q)); for (size_t i = 0; i < q.phases.size(); i++) { put(dir + "/pl" + std::to_string(i + 1) + ".txt", crystal_file(q.phases[i])); put(dir + "/el" + std::to_string(i + 1) + ".txt", elastic_file(q.phases[i])); }
    if (q.ithermo) { std::ostringstream o; for (auto& t : q.eth) { for (double x : t) o << g17(x) << " "; o << (q.comments ? " strain of a grain\n" : "\n"); } put(dir + "/thermo.txt", o.str()); }
    vector<pid_t> pid; fflush(stdout);
    for (int r = 0; r < q.ranks; r++) { pid_t p = fork(); if (p == 0) { if (chdir(dir.c_str())) _exit(99); g_rank = mpistub::rank = r; g_ranks = mpistub::size = q.ranks; if (q.ranks > 1) mpistub::exchange = exch; int rc = 0; try { rc = rank_main(q, prepare_only); fflush(nullptr); } catch (mcshim::Failure& f) { strncpy(s->msg, f.what.c_str(), 1900); s->bad = 1; } catch (std::exception& e) { strncpy(s->msg, e.what(), 1900); s->bad = 2; } _exit(s->bad ? 97 : rc); } pid.push_back(p); }
    Outcome o; o.s = s; int left = q.ranks; bool killed = false; o.exitcode = 0;
    while (left) { int st; bool any = false; for (pid_t& p : pid) if (p && waitpid(p, &st, left == 1 && !killed ? 0 : WNOHANG) == p) { p = 0; left--; any = true; c.beat(); if (!killed && (WIFSIGNALED(st) || WEXITSTATUS(st))) { if (WIFSIGNALED(st)) { o.crashed = true; o.what = "signal " + std::to_string(WTERMSIG(st)); } else o.exitcode = WEXITSTATUS(st); for (pid_t z : pid) if (z) kill(z, SIGKILL); killed = true; } } if (!any) usleep(200); }
    if (s->bad) { o.crashed = s->bad == 1; o.what = s->msg; } o.ok = !o.crashed && o.exitcode == 0; slurp(dir, "", o.files); if (!g_keep) { wipe(dir); rmdir(dir.c_str()); } return o; }
}
#endif
