// Single-process stand-in for the part of MPI the micromechanics codes use. A harness may pretend to be any of several ranks
// (mpistub::rank/size) as long as it does not need their messages; file operations act on ordinary files.
#ifndef VERIF_MPI_STUB
#define VERIF_MPI_STUB
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Info; typedef long long MPI_Offset; typedef long MPI_Aint;
struct MPI_Status { int MPI_SOURCE = 0, MPI_TAG = 0, MPI_ERROR = 0; };
#define MPI_SUCCESS 0
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_INFO_NULL 0
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR 1
#define MPI_BYTE 2
#define MPI_INT 3
#define MPI_FLOAT 4
#define MPI_DOUBLE 5
#define MPI_LONG_DOUBLE 6
#define MPI_LONG 7
#define MPI_UNSIGNED_LONG 8
#define MPI_LONG_LONG 9
#define MPI_UNSIGNED 10
#define MPI_CXX_BOOL 11
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_ORDER_C 0
#define MPI_ORDER_FORTRAN 1
#define MPI_MODE_CREATE 1
#define MPI_MODE_RDONLY 2
#define MPI_MODE_WRONLY 4
#define MPI_MODE_RDWR 8
#define MPI_MODE_UNIQUE_OPEN 32
#define MPI_MODE_APPEND 128
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)1)
#define MPI_UNDEFINED -32766
#define MPI_MAX_PROCESSOR_NAME 256
namespace mpistub {
inline int rank = 0, size = 1; inline long barriers = 0, reductions = 0;
struct Type { size_t lo = 0, size = 0, extent = 0; std::vector<std::pair<size_t, size_t>> blocks; bool committed = true; };   // blocks: (byte offset, length) inside one extent
inline std::map<int, Type>& types() { static std::map<int, Type> t; if (t.empty()) { auto add = [](int id, size_t n) { Type y; y.size = y.extent = n; y.blocks = {{0, n}}; t[id] = y; }; add(1, 1); add(2, 1); add(3, 4); add(4, 4); add(5, 8); add(6, sizeof(long double)); add(7, 8); add(8, 8); add(9, 8); add(10, 4); add(11, 1); } return t; }
inline int new_type(const Type& y) { static int n = 100; types()[++n] = y; return n; }
struct File { int fd = -1; size_t disp = 0, pos = 0; int ftype = MPI_BYTE; };
inline int live_types() { return (int)types().size() - 11; }
inline int open_files = 0;
// several ranks: a harness that really runs them sets exchange (an all-gather of byte strings); otherwise there is one
inline std::vector<std::vector<char>> (*exchange)(const std::vector<char>&) = nullptr;
inline std::vector<std::vector<char>> allgather(const std::vector<char>& m) { if (exchange) return exchange(m); return {m}; }
template<class T> void fold(char* acc, const char* x, int n, int op) { T* a = (T*)acc; const T* b = (const T*)x; for (int i = 0; i < n; i++) a[i] = op == 1 ? a[i] + b[i] : op == 2 ? (a[i] < b[i] ? b[i] : a[i]) : (b[i] < a[i] ? b[i] : a[i]); }
// moves n bytes between memory and the file view, starting at the file pointer
inline int move(File& f, char* mem, size_t n, bool wr) { Type& t = types()[f.ftype]; if (!t.size) return 1; for (size_t k = 0; k < n;) { size_t rep = f.pos / t.size, in = f.pos % t.size; size_t acc = 0; for (auto& b : t.blocks) { if (in < acc + b.second) { size_t off = in - acc, len = b.second - off; if (len > n - k) len = n - k; size_t at = f.disp + rep * t.extent + b.first + off; ssize_t r = wr ? pwrite(f.fd, mem + k, len, at) : pread(f.fd, mem + k, len, at); if (r != (ssize_t)len) return 1; k += len; f.pos += len; break; } acc += b.second; } } return 0; }
inline std::vector<char> pack(const void* buf, int count, int type) { Type& t = types()[type]; std::vector<char> o; for (int i = 0; i < count; i++) for (auto& b : t.blocks) o.insert(o.end(), (const char*)buf + i * t.extent + b.first, (const char*)buf + i * t.extent + b.first + b.second); return o; }
}
typedef mpistub::File* MPI_File;
#define MPI_FILE_NULL ((MPI_File)0)
inline int MPI_Init(int*, char***) { return 0; } inline int MPI_Finalize() { return 0; } inline int MPI_Abort(MPI_Comm, int e) { exit(e); } inline int MPI_Initialized(int* f) { *f = 1; return 0; }
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = mpistub::rank; return 0; } inline int MPI_Comm_size(MPI_Comm, int* s) { *s = mpistub::size; return 0; }
inline int MPI_Comm_split(MPI_Comm c, int color, int, MPI_Comm* o) { *o = color == MPI_UNDEFINED ? MPI_COMM_NULL : c; return 0; } inline int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { *o = c; return 0; } inline int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
inline int MPI_Barrier(MPI_Comm) { mpistub::barriers++; if (mpistub::exchange) mpistub::exchange({}); return 0; } inline double MPI_Wtime() { return 0; }
inline int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) { mpistub::reductions++;
    if (mpistub::exchange) { const char* p = (const char*)(s == MPI_IN_PLACE ? r : s); auto all = mpistub::exchange(std::vector<char>(p, p + n * mpistub::types()[t].extent)); std::vector<char> a = all[0]; for (size_t q = 1; q < all.size(); q++) switch (t) { case MPI_INT: mpistub::fold<int>(a.data(), all[q].data(), n, op); break; case MPI_FLOAT: mpistub::fold<float>(a.data(), all[q].data(), n, op); break; case MPI_DOUBLE: mpistub::fold<double>(a.data(), all[q].data(), n, op); break; case MPI_LONG: mpistub::fold<long>(a.data(), all[q].data(), n, op); break; default: return 1; } memcpy(r, a.data(), a.size()); return 0; }
    if (s != MPI_IN_PLACE) memcpy(r, s, n * mpistub::types()[t].extent); return 0; }
inline int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int, MPI_Comm c) { return MPI_Allreduce(s, r, n, t, o, c); }
inline int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { return 0; }
inline int MPI_Info_create(MPI_Info* i) { *i = 1; return 0; } inline int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; } inline int MPI_Info_free(MPI_Info* i) { *i = 0; return 0; }
inline int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* t) { mpistub::Type y, b = mpistub::types()[o]; for (int i = 0; i < n; i++) for (auto& k : b.blocks) y.blocks.push_back({i * b.extent + k.first, k.second}); y.size = n * b.size; y.extent = n * b.extent; *t = mpistub::new_type(y); return 0; }
inline int MPI_Type_create_subarray(int nd, const int* sz, const int* sub, const int* st, int order, MPI_Datatype o, MPI_Datatype* t) {
    mpistub::Type y, b = mpistub::types()[o]; size_t tot = 1, sel = 1; for (int d = 0; d < nd; d++) { if (st[d] < 0 || sub[d] < 1 || st[d] + sub[d] > sz[d]) return 1; tot *= sz[d]; sel *= sub[d]; } std::vector<int> ix(nd, 0);
    for (size_t q = 0; q < sel; q++) { size_t off = 0, mul = 1; if (order == MPI_ORDER_FORTRAN) for (int d = 0; d < nd; d++) { off += mul * (st[d] + ix[d]); mul *= sz[d]; } else for (int d = nd; d-- > 0;) { off += mul * (st[d] + ix[d]); mul *= sz[d]; } for (auto& k : b.blocks) { size_t a = off * b.extent + k.first; if (!y.blocks.empty() && y.blocks.back().first + y.blocks.back().second == a) y.blocks.back().second += k.second; else y.blocks.push_back({a, k.second}); } if (order == MPI_ORDER_FORTRAN) { for (int d = 0; d < nd; d++) { if (++ix[d] < sub[d]) break; ix[d] = 0; } } else for (int d = nd; d-- > 0;) { if (++ix[d] < sub[d]) break; ix[d] = 0; } }
    y.size = sel * b.size; y.extent = tot * b.extent; *t = mpistub::new_type(y); return 0; }
inline int MPI_Type_commit(MPI_Datatype*) { return 0; } inline int MPI_Type_free(MPI_Datatype* t) { mpistub::types().erase(*t); *t = MPI_DATATYPE_NULL; return 0; }
inline int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)mpistub::types()[t].size; return 0; }
inline int MPI_File_open(MPI_Comm, const char* p, int m, MPI_Info, MPI_File* f) { int fl = (m & MPI_MODE_RDWR) ? O_RDWR : (m & MPI_MODE_WRONLY) ? O_WRONLY : O_RDONLY; if (m & MPI_MODE_CREATE) fl |= O_CREAT; int fd = ::open(p, fl, 0644); *f = nullptr; if (fd < 0) return 1; *f = new mpistub::File; (*f)->fd = fd; mpistub::open_files++; return 0; }
inline int MPI_File_close(MPI_File* f) { ::close((*f)->fd); delete *f; *f = nullptr; mpistub::open_files--; return 0; }
inline int MPI_File_set_size(MPI_File f, MPI_Offset n) { return ftruncate(f->fd, n); }
inline int MPI_File_set_view(MPI_File f, MPI_Offset d, MPI_Datatype, MPI_Datatype ft, const char*, MPI_Info) { f->disp = d; f->ftype = ft; f->pos = 0; return 0; }
inline int MPI_File_write(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status*) { auto v = mpistub::pack(b, n, t); return mpistub::move(*f, v.data(), v.size(), true); }
inline int MPI_File_write_all(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return MPI_File_write(f, b, n, t, s); }
inline int MPI_File_read(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status*) { auto& y = mpistub::types()[t]; for (int i = 0; i < n; i++) for (auto& k : y.blocks) if (mpistub::move(*f, (char*)b + i * y.extent + k.first, k.second, false)) return 1; return 0; }
inline int MPI_File_read_all(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s) { return MPI_File_read(f, b, n, t, s); }
inline int MPI_File_write_at(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { f->pos = o; return MPI_File_write(f, b, n, t, s); }
#endif
