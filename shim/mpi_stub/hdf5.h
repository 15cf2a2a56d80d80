// Stand-in for the part of HDF5 the micromechanics codes use: files are kept in memory (h5stub::files), with hyperslab reads and writes.
#ifndef VERIF_HDF5_STUB
#define VERIF_HDF5_STUB
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <mpi.h>
typedef long long hid_t; typedef unsigned long long hsize_t; typedef int herr_t;
namespace h5stub {
struct Data { std::vector<hsize_t> dims; size_t elem = 0; int type = 0; std::vector<char> bytes; };
struct File { std::map<std::string, Data> sets; };
inline std::map<std::string, File>& files() { static std::map<std::string, File> f; return f; }
struct Space { std::vector<hsize_t> dims, start, stride, count; };
inline std::map<hid_t, Space>& spaces() { static std::map<hid_t, Space> s; return s; } struct Obj { std::string file, set; }; inline std::map<hid_t, Obj>& objs() { static std::map<hid_t, Obj> o; return o; }
inline hid_t fresh() { static hid_t n = 1000; return ++n; }
inline size_t esize(hid_t t) { return t == 1 || t == 2 ? 4 : t == 3 ? 8 : sizeof(long double); }
inline std::vector<size_t> picks(const Space& s) { std::vector<size_t> o; size_t n = s.dims.size(), tot = 1; for (auto c : s.count) tot *= c; for (size_t q = 0; q < tot; q++) { size_t r = q, at = 0, mul = 1; for (size_t d = n; d-- > 0;) { size_t i = r % s.count[d]; r /= s.count[d]; at += mul * (s.start[d] + i * s.stride[d]); mul *= s.dims[d]; } o.push_back(at); } return o; }
}
#define H5P_DEFAULT 0
#define H5P_FILE_ACCESS 1
#define H5P_DATASET_XFER 2
#define H5F_ACC_TRUNC 1
#define H5F_ACC_EXCL 2
#define H5F_ACC_RDONLY 4
#define H5S_NULL 0
#define H5S_SELECT_SET 0
#define H5FD_MPIO_COLLECTIVE 1
#define H5T_NATIVE_INT 1
#define H5T_NATIVE_FLOAT 2
#define H5T_NATIVE_DOUBLE 3
#define H5T_NATIVE_LDOUBLE 4
inline hid_t H5Pcreate(hid_t) { return 7; } inline herr_t H5Pclose(hid_t) { return 0; } inline herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info) { return 0; } inline herr_t H5Pset_dxpl_mpio(hid_t, int) { return 0; } inline herr_t H5Pset_coll_metadata_write(hid_t, bool) { return 0; } inline herr_t H5Pset_all_coll_metadata_ops(hid_t, bool) { return 0; }
inline hid_t H5Fcreate(const char* n, unsigned, hid_t, hid_t) { h5stub::files()[n] = h5stub::File(); hid_t h = h5stub::fresh(); h5stub::objs()[h] = {n, ""}; return h; }
inline hid_t H5Fopen(const char* n, unsigned, hid_t) { if (!h5stub::files().count(n)) return -1; hid_t h = h5stub::fresh(); h5stub::objs()[h] = {n, ""}; return h; }
inline herr_t H5Fclose(hid_t h) { h5stub::objs().erase(h); return 0; }
inline hid_t H5Gcreate2(hid_t f, const char*, hid_t, hid_t, hid_t) { hid_t h = h5stub::fresh(); h5stub::objs()[h] = h5stub::objs()[f]; return h; }
#define H5Gcreate H5Gcreate2
inline herr_t H5Gclose(hid_t h) { h5stub::objs().erase(h); return 0; }
inline hid_t H5Screate_simple(int r, const hsize_t* d, const hsize_t*) { h5stub::Space s; for (int i = 0; i < r; i++) { s.dims.push_back(d[i]); s.start.push_back(0); s.stride.push_back(1); s.count.push_back(d[i]); } hid_t h = h5stub::fresh(); h5stub::spaces()[h] = s; return h; }
inline herr_t H5Sselect_hyperslab(hid_t h, int, const hsize_t* st, const hsize_t* sd, const hsize_t* ct, const hsize_t*) { auto& s = h5stub::spaces()[h]; for (size_t i = 0; i < s.dims.size(); i++) { s.start[i] = st[i]; s.stride[i] = sd ? sd[i] : 1; s.count[i] = ct[i]; } return 0; }
inline herr_t H5Sclose(hid_t h) { h5stub::spaces().erase(h); return 0; }
inline hid_t H5Dopen2(hid_t f, const char* n, hid_t) { auto& o = h5stub::objs()[f]; if (!h5stub::files()[o.file].sets.count(n)) return -1; hid_t h = h5stub::fresh(); h5stub::objs()[h] = {o.file, n}; return h; }
inline hid_t H5Dcreate2(hid_t f, const char* n, hid_t t, hid_t sp, hid_t, hid_t, hid_t) { auto& o = h5stub::objs()[f]; auto& d = h5stub::files()[o.file].sets[n]; d.dims = h5stub::spaces()[sp].dims; d.type = (int)t; d.elem = h5stub::esize(t); size_t k = 1; for (auto q : d.dims) k *= q; d.bytes.assign(k * d.elem, 0); hid_t h = h5stub::fresh(); h5stub::objs()[h] = {o.file, n}; return h; }
inline herr_t H5Dclose(hid_t h) { h5stub::objs().erase(h); return 0; }
inline hid_t H5Dget_space(hid_t h) { auto& o = h5stub::objs()[h]; auto& d = h5stub::files()[o.file].sets[o.set]; return H5Screate_simple((int)d.dims.size(), d.dims.data(), nullptr); }
inline int H5Sget_simple_extent_ndims(hid_t h) { return (int)h5stub::spaces()[h].dims.size(); }
inline herr_t h5move_(hid_t h, hid_t t, hid_t ms, hid_t fs, char* p, bool wr) { auto& o = h5stub::objs()[h]; auto& d = h5stub::files()[o.file].sets[o.set]; if (d.type != t) return -1; auto a = h5stub::picks(h5stub::spaces()[ms]), b = h5stub::picks(h5stub::spaces()[fs]); if (a.size() != b.size() || h5stub::spaces()[fs].dims != d.dims) return -1; for (size_t i = 0; i < a.size(); i++) { char* m = p + a[i] * d.elem; char* f = d.bytes.data() + b[i] * d.elem; if (b[i] * d.elem >= d.bytes.size()) return -1; if (wr) memcpy(f, m, d.elem); else memcpy(m, f, d.elem); } return 0; }
inline herr_t H5Dread(hid_t h, hid_t t, hid_t ms, hid_t fs, hid_t, void* p) { return h5move_(h, t, ms, fs, (char*)p, false); }
inline herr_t H5Dwrite(hid_t h, hid_t t, hid_t ms, hid_t fs, hid_t, const void* p) { return h5move_(h, t, ms, fs, (char*)p, true); }
#endif
