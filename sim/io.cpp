// Matrix files on the simulated disk: C11 (readers under faults) and C12 (writers, crashes, read-back).
#include <fstream>
#include <memory>
#include <sstream>
#include <climits>
#include <sys/mman.h>
#include <unistd.h>
#include "aggregation/sparse_io.h"
#include "aggregation/mmio.h"
#include "aggregation/BCSCMatrix.h"
#include "aggregation/sparse_utilities.h"
#include "harness.h"

namespace sym_lib {  // not in the header, so it may go away
__attribute__((weak)) int mm_read_mtx_crd(char* fname, int* M, int* N, int* nz, int** I, int** J, double** val, MM_typecode* matcode);
}

namespace {
const char* PATH = "m.mtx";
struct Trip { int r, c; double v; double w = 0; };  // w: the imaginary part
bool operator<(const Trip& a, const Trip& b) { return a.c != b.c ? a.c < b.c : a.r != b.r ? a.r < b.r : memcmp(&a.v, &b.v, 16) < 0; }
struct Mat { bool ok = false, sym = false, dense = false, integer = false, pattern = false, complex = false; char kind = 'G'; long m = 0, n = 0; std::vector<Trip> t; std::string why; };

// ---- an independent, lenient reading of the bytes.  keep_rest: the rest of the size line is data, not junk
struct Cur {
  const std::string& s; size_t at; bool hex = true;
  bool lineskip() { while (at < s.size() && s[at] != '\n') at++; if (at < s.size()) { at++; return true; } return false; }
  void ws() { while (at < s.size() && isspace((unsigned char)s[at])) at++; }
  bool num(long& v) {
    ws();
    size_t b = at;
    if (at < s.size() && (s[at] == '+' || s[at] == '-')) at++;
    size_t d = at;
    while (at < s.size() && isdigit((unsigned char)s[at])) at++;
    if (at == d) return false;
    errno = 0;
    v = strtol(s.substr(b, at - b).c_str(), nullptr, 10);
    return errno == 0 && v <= INT_MAX && v >= -INT_MAX;
  }
  bool real(double& v) {
    ws();
    const char* b = s.c_str() + at;
    char* e;
    v = strtod(b, &e);
    // streams do not read hexadecimal numbers
    const char* z = b + (*b == '+' || *b == '-');
    if (!hex && z[0] == '0' && (z[1] == 'x' || z[1] == 'X')) { v = *b == '-' ? -0.0 : 0.0; at += z + 1 - b; return true; }
    if (e == b) return false;
    // the C library's scanf takes an exponent mark without digits for part of the number
    if (*e == 'e' || *e == 'E') { e++; if (*e == '+' || *e == '-') e++; }
    at += e - b;
    return true;
  }
};
std::string lower(std::string x) { for (auto& c : x) c = tolower((unsigned char)c); return x; }
// checks: 0 none, 1 indices must lie in the matrix, 2 and nothing may follow the entries
Mat ref_parse(const std::string& s, bool keep_rest, int checks = 2, bool* rest = nullptr, bool hex = true) {
  Mat a;
  Cur c{s, 0, hex};
  std::string first = s.substr(0, s.find('\n'));
  // the banner: five words
  size_t z = first.find('\0');
  if (z != std::string::npos) first = first.substr(0, z);
  std::istringstream is(first);
  std::string w[5];
  for (auto& x : w) { is >> x; x = lower(x); }
  auto bad = [&](const char* y) { a.why = y; return a; };
  if (w[0].compare(0, 14, "%%matrixmarket") || w[1] != "matrix") return bad("banner");
  if (w[2] == "array") a.dense = true; else if (w[2] != "coordinate") return bad("format");
  if (w[3] == "integer") a.integer = true; else if (w[3] == "pattern") a.pattern = true; else if (w[3] == "complex") a.complex = true; else if (w[3] != "real") return bad("field");
  if (w[4] == "symmetric") a.kind = 'S'; else if (w[4] == "skew-symmetric") a.kind = 'K'; else if (w[4] == "hermitian") a.kind = 'H'; else if (w[4] != "general") return bad("symmetry");
  a.sym = a.kind == 'S';
  if (!c.lineskip()) return bad("nothing after the banner");
  for (;;) {  // comments may be indented
    size_t k = c.at;
    while (k < s.size() && s[k] != '\n' && isspace((unsigned char)s[k])) k++;
    if (k >= s.size() || s[k] != '%') break;
    if (!c.lineskip()) return bad("nothing after the comments");
  }
  long nz = 0;
  if (!c.num(a.m) || !c.num(a.n)) return bad("size line");
  if (a.dense) nz = a.m * a.n; else if (!c.num(nz)) return bad("size line");
  if (a.m < 0 || a.n < 0 || nz < 0) return bad("negative size");
  if (!keep_rest) c.lineskip();
  if (a.dense) {
    if (a.kind != 'G' && a.m > 1) return bad("symmetric array");
    for (long k = 0; k < nz; k++) { Trip t{(int)(k % a.m), (int)(k / a.m), 0}; if (!c.real(t.v) || (a.complex && !c.real(t.w))) return bad("a value is missing"); a.t.push_back(t); }
  } else {
    if (nz > (long)s.size()) return bad("more entries than bytes");
    for (long k = 0; k < nz; k++) {
      long r, q; double v = 1, im = 0;
      if (!c.num(r) || !c.num(q) || (!a.pattern && !c.real(v)) || (a.complex && !c.real(im))) return bad("an entry is missing");
      if (checks && (r < 1 || q < 1 || r > a.m || q > a.n)) return bad("index outside the matrix");
      a.t.push_back({(int)r - 1, (int)q - 1, v, im});
    }
  }
  c.ws();
  if (rest) *rest = c.at < s.size();
  if (checks > 1 && c.at < s.size()) return bad("more data than the size line announces");
  a.ok = true;
  return a;
}
bool same_trips(std::vector<Trip> a, std::vector<Trip> b, double rel, std::string& why, bool order = false) {
  if (a.size() != b.size()) { why = F("%zu entries instead of %zu", b.size(), a.size()); return false; }
  if (!order) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
  for (size_t i = 0; i < a.size(); i++) {
    bool eq = a[i].r == b[i].r && a[i].c == b[i].c;
    double x = a[i].v, y = b[i].v;
    auto near = [rel](double p, double q) { return p == q || (p != p && q != q) || std::fabs(p - q) <= rel * std::fabs(p); };
    bool ev = near(x, y) && near(a[i].w, b[i].w);
    if (!eq || !ev) { why = F("entry (%d,%d,%.17g) instead of (%d,%d,%.17g)", b[i].r, b[i].c, y, a[i].r, a[i].c, x); return false; }
  }
  return true;
}

// ---- random matrices and their text
double rnd_val(Rng& r, int kind) {
  switch (kind) {
    case 0: return r.range(-9, 9);
    case 1: return r.range(-999, 999) / 8.0;
    case 2: return (r.unit() - 0.5) * 10;
    default: return (r.unit() - 0.5) * pow(10, r.range(-30, 30));
  }
}
Mat gen_mat(Rng& r, int maxn) {
  Mat a;
  a.ok = true;
  a.sym = r.chance(1, 3);
  a.m = 1 + r.logu(maxn) - 1;
  if (a.m < 1) a.m = 1;
  a.n = a.sym || r.chance(2, 3) ? a.m : 1 + (long)r.below(maxn);
  int vk = r.below(4);
  int dens = 1 + r.below(12);
  for (int c = 0; c < a.n; c++) {
    if (r.chance(1, 8)) continue;  // an empty column
    for (int q = 0; q < a.m; q++) {
      if (a.sym && q < c) continue;
      if (q == c ? r.chance(9, 10) : r.chance(dens, 24)) a.t.push_back({q, c, rnd_val(r, vk)});
    }
  }
  size_t cap = maxn > 40 ? 4000 : 400;
  if (a.t.size() > cap) a.t.resize(cap);
  return a;
}
void shuffle(Rng& r, std::vector<Trip>& t) { for (size_t k = t.size(); k > 1; k--) std::swap(t[k - 1], t[r.below(k)]); }
// style: 0 column order 1 row order 2 any order
std::string text_of(Rng& r, Mat& a) {
  std::string o;
  int cs = r.below(4);
  std::string ban = "%%MatrixMarket matrix ";
  ban += a.dense ? "array " : "coordinate ";
  std::string fld = a.pattern ? "pattern" : a.integer ? "integer" : a.complex ? "complex" : "real";
  std::string sy = a.kind == 'K' ? "skew-symmetric" : a.kind == 'H' ? "hermitian" : a.sym ? "symmetric" : "general";
  if (cs == 0) { fld[0] = toupper(fld[0]); sy[0] = toupper(sy[0]); }
  o = ban + fld + " " + sy + "\n";
  int nc = r.below(4);
  for (int i = 0; i < nc; i++) { o += "%"; int l = r.below(40); for (int k = 0; k < l; k++) o += "abc 123 %xyz-."[r.below(14)]; o += "\n"; }
  if (a.dense) o += F("%ld %ld\n", a.m, a.n);
  else o += F("%ld %ld %zu\n", a.m, a.n, a.t.size());
  int vf = r.below(4), sp = r.below(3);
  for (auto& t : a.t) {
    if (sp == 1) o += " ";
    if (!a.dense) o += F("%d%s%d", t.r + 1, sp == 2 ? "  " : " ", t.c + 1);
    if (!a.pattern) {
      if (!a.dense) o += sp == 2 ? "\t" : " ";
      std::string v = a.integer ? F("%d", (int)t.v) : vf == 0 ? F("%.17g", t.v) : vf == 1 ? F("%.3f", t.v) : vf == 2 ? F("%.6e", t.v) : F("%20.16g", t.v);
      o += v;
      t.v = strtod(v.c_str(), nullptr);
      if (a.complex) { v = F("%.10g", t.w); o += (sp == 2 ? "\t" : " ") + v; t.w = strtod(v.c_str(), nullptr); }
    }
    o += "\n";
  }
  if (r.chance(1, 6) && o.size() > 1 && !a.t.empty()) o.pop_back();  // no newline at the end
  if (r.chance(1, 10)) o += "\n\n";
  return o;
}

// a stream over the simulated file, delivering it in pieces and failing where the disk fails
struct DiskBuf : std::streambuf {
  std::string name, buf;
  size_t off = 0;
  bool failed = false;
  std::vector<char> piece;
  explicit DiskBuf(const std::string& n) : name(n) {}
  size_t chunk() { int s = sim::g_disk.fault.short_io; return s > 0 ? s : 512; }
  int_type underflow() override {
    sim::Host host;
    auto& d = sim::g_disk;
    auto& f = d.files[name];
    d.reads++;
    size_t left = f.data.size() > off ? f.data.size() - off : 0;
    size_t m = std::min(left, chunk());
    if (d.fault.short_io > 0 && m < left) d.f_short++;
    if (d.fault.eio_at >= 0 && !(failed && d.fault.fail_once)) {
      if ((int64_t)off >= d.fault.eio_at) { d.f_eio++; failed = true; throw std::ios_base::failure("error reading the file"); }
      if ((int64_t)(off + m) > d.fault.eio_at) m = d.fault.eio_at - off;
    }
    if (!m) return traits_type::eof();
    piece.assign(f.data.begin() + off, f.data.begin() + off + m);
    off += m;
    setg(piece.data(), piece.data(), piece.data() + m);
    return traits_type::to_int_type(*gptr());
  }
  // writing
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    for (std::streamsize i = 0; i < n; i++) if (overflow((unsigned char)s[i]) == traits_type::eof()) return i;
    return n;
  }
  int_type overflow(int_type c) override {
    if (c == traits_type::eof()) return 0;
    sim::Host host;
    auto& d = sim::g_disk;
    buf += (char)c;
    if (buf.size() >= (d.fault.short_io > 0 ? (size_t)d.fault.short_io : 64) && !flush()) return traits_type::eof();
    return c;
  }
  bool flush() {
    sim::Host host;
    auto& d = sim::g_disk;
    if (d.crashed) { buf.clear(); return true; }
    d.writes++;
    auto& f = d.files[name];
    size_t m = buf.size();
    bool ok = true;
    if (d.crash_at_byte >= 0 && (int64_t)(d.written + m) > d.crash_at_byte) { m = d.crash_at_byte - d.written; d.crashed = true; f.data.append(buf, 0, m); buf.clear(); return true; }
    for (int64_t* lim : {&d.fault.enospc_at, &d.fault.eio_at})
      if (*lim >= 0 && (int64_t)(d.written + m) > *lim) { m = *lim > (int64_t)d.written ? *lim - d.written : 0; (lim == &d.fault.enospc_at ? d.f_enospc : d.f_eio)++; ok = false; }
    f.data.append(buf, 0, m);
    d.written += m;
    buf.clear();
    return ok;
  }
  int sync() override { return flush() ? 0 : -1; }
};

// ---------------------------------------------------------------- readers
enum { R_MTX, R_STREAM, R_STREAM_DIAG, R_ARRAY, R_LOAD_ARRAY, R_UNSYM, R_PARTS, R_ENTRY, R_ARR_PARTS, R_CRD, R_COUNT };
const char* RN[] = {"read_mtx", "read_mtx_csc_real", "read_mtx_csc_real+diag", "read_mtx_array_real", "load_mtx_array_real", "mm_read_unsymmetric_sparse", "mm_read_mtx_crd_*", "mm_read_mtx_crd_entry", "mm_read_mtx_array_size", "mm_read_mtx_crd"};
bool by_pieces(int rd) { return rd == R_PARTS || rd == R_ENTRY || rd == R_ARR_PARTS || rd == R_CRD; }
bool dense_reader(int rd) { return rd == R_ARRAY || rd == R_LOAD_ARRAY || rd == R_ARR_PARTS; }
// how much of the file a reader answers for: the stream readers stop after the last entry
int checks_of(int rd) { return rd == R_MTX || rd == R_UNSYM ? 2 : 1; }
struct Got { bool ok = false; long m = 0, n = 0; bool sym = false, has_sym = false; bool complex = false; char kind = 'G'; std::vector<Trip> t; std::string err; };

void take_csc(sym_lib::CSC* A, Got& g) {
  g.m = A->m; g.n = A->n;
  g.has_sym = true; g.sym = A->stype != 0;
  if (A->n == 0) return;
  read_ok(A->p, (A->n + 1) * 4, "column pointers");
  REQ(A->p[0] == 0, "bad-matrix", "column pointers start at %d", A->p[0]);
  for (size_t c = 0; c < A->n; c++) REQ(A->p[c] <= A->p[c + 1], "bad-matrix", "column pointers fall at column %zu", c);
  REQ((size_t)A->p[A->n] == A->nnz, "bad-matrix", "the last column pointer is %d, there are %zu entries", A->p[A->n], A->nnz);
  if (!A->nnz) return;
  read_ok(A->i, A->nnz * 4, "row indices");
  if (A->x) read_ok(A->x, A->nnz * 8, "values");
  for (size_t c = 0; c < A->n; c++) for (int k = A->p[c]; k < A->p[c + 1]; k++) g.t.push_back({A->i[k], (int)c, A->x ? A->x[k] : 1.0});
}
Got read_with(int rd, const std::string& path) {
  using namespace sym_lib;
  Got g;
  if (rd == R_MTX) {
    CSC* A;
    { Api a; A = read_mtx(path); }
    if (A) { g.ok = true; take_csc(A, g); { Api a; delete A; } }
  } else if (rd == R_STREAM || rd == R_STREAM_DIAG) {
    if (sim::g_disk.fault.open_errno) { sim::g_disk.f_open++; g.err = "open"; return g; }
    DiskBuf b(path);
    std::ifstream f;
    static_cast<std::ios&>(f).rdbuf(&b);
    f.clear();
    CSC* A = nullptr;
    try {
      { Api a; read_mtx_csc_real(f, A, rd == R_STREAM_DIAG); }
      g.ok = A != nullptr;
    } catch (const std::bad_alloc&) { g.err = "bad_alloc"; }
    catch (const std::exception& e) { g.err = e.what(); }
    if (g.ok) { take_csc(A, g); { Api a; delete A; } }
  } else if (rd == R_ARRAY || rd == R_LOAD_ARRAY) {
    Dense* A = nullptr;
    try {
      if (rd == R_ARRAY) {
        if (sim::g_disk.fault.open_errno) { sim::g_disk.f_open++; return g; }
        DiskBuf b(path);
        std::ifstream f;
        static_cast<std::ios&>(f).rdbuf(&b);
        f.clear();
        { Api a; read_mtx_array_real(f, A); }
      } else {
        // this one opens the file itself: give it an anonymous in-memory file with the simulated content
        int fd = memfd_create("m", 0);
        const std::string& t = sim::g_disk.files[path].data;
        size_t lim = t.size();
        if (write(fd, t.data(), lim) != (ssize_t)lim) { close(fd); FAIL("harness", "memfd"); }
        std::string nm = sim::g_disk.fault.open_errno ? "/proc/self/fd/999999" : "/proc/self/fd/" + std::to_string(fd);
        if (sim::g_disk.fault.open_errno) sim::g_disk.f_open++;
        std::shared_ptr<void> cl(nullptr, [fd](void*) { close(fd); });
        { Api a; load_mtx_array_real(nm, A); }
      }
      g.ok = A != nullptr;
    } catch (const std::bad_alloc&) { g.err = "bad_alloc"; }
    catch (const std::exception& e) { g.err = e.what(); }
    if (g.ok) {
      g.m = A->row; g.n = A->col;
      if (g.m * g.n > 0) read_ok(A->a, A->row * A->col * 8, "values");
      for (long k = 0; k < g.m * g.n; k++) g.t.push_back({(int)(k % g.m), (int)(k / g.m), A->a[k]});
      { Api a; delete A; }
    }
  } else if (rd == R_UNSYM) {
    int M = -1, N = -1, nz = -1, *I = nullptr, *J = nullptr; double* v = nullptr;
    int rc;
    { Api a; rc = mm_read_unsymmetric_sparse(path.c_str(), &M, &N, &nz, &v, &I, &J); }
    if (rc == 0) {
      g.ok = true; g.m = M; g.n = N; g.has_sym = true; g.sym = false;
      REQ(nz >= 0, "bad-matrix", "%d entries", nz);
      if (nz) { read_ok(I, nz * 4, "rows"); read_ok(J, nz * 4, "columns"); read_ok(v, nz * 8, "values"); }
      for (int k = 0; k < nz; k++) g.t.push_back({I[k], J[k], v[k]});
      Api a;
      for (void* b : {(void*)I, (void*)J, (void*)v}) ::operator delete(b);
    }
  } else if (rd == R_CRD) {
    MM_typecode mc;
    int M = -1, N = -1, nz = -1, *I = nullptr, *J = nullptr, rc; double* v = nullptr;
    { Api a; rc = mm_read_mtx_crd(const_cast<char*>(path.c_str()), &M, &N, &nz, &I, &J, &v, &mc); }
    if (rc == 0) {
      REQ(M >= 0 && N >= 0 && nz >= 0, "bad-matrix", "%d x %d, %d entries", M, N, nz);
      REQ(mm_is_matrix(mc) && mm_is_sparse(mc) && mm_is_valid(mc), "bad-matrix", "success for a file that is no sparse matrix");
      int st = mm_is_complex(mc) ? 2 : 1;
      if (nz) {
        REQ(I && J && (v || mm_is_pattern(mc)), "unread-entries", "%s returned success without the %d entries", RN[rd], nz);
        read_ok(I, nz * 4, "rows"); read_ok(J, nz * 4, "columns");
        if (!mm_is_pattern(mc)) read_ok(v, nz * 8 * st, "values");
      }
      g.ok = true; g.m = M; g.n = N; g.has_sym = true; g.sym = mm_is_symmetric(mc); g.kind = mc[3]; g.complex = mm_is_complex(mc);
      for (int k = 0; k < nz; k++) {
        if (I[k] < 1 || I[k] > M || J[k] < 1 || J[k] > N) g.ok = false;  // the caller can tell
        g.t.push_back({I[k] - 1, J[k] - 1, mm_is_pattern(mc) ? 1.0 : v[k * st], st > 1 ? v[2 * k + 1] : 0.0});
      }
      Api a;
      for (void* b : {(void*)I, (void*)J, (void*)v}) ::operator delete(b);
    }
  } else {
    // the caller's own loop over the library's pieces
    FILE* f = sim::disk_fopen(path.c_str(), "r");
    if (!f) return g;
    MM_typecode mc;
    int M, N, nz = 0, rc;
    // what a failed read left of a line or a number is not what is on the disk
    auto cut = [&] { REQ(rc || !ferror(f), "read-error-ignored", "a piece of %s reported success although reading failed at byte %lld", RN[rd], (long long)sim::g_disk.fault.eio_at); };
    { Api a; rc = mm_read_banner(f, &mc); }
    cut();
    if (!rc && (!mm_is_matrix(mc) || !mm_is_valid(mc) || !(rd == R_ARR_PARTS ? mm_is_dense(mc) : mm_is_sparse(mc)))) rc = 1;
    if (!rc) {
      char* name;  // callers print it
      { Api a; name = mm_typecode_to_str(mc); }
      REQ(name, "no-type-name", "an accepted banner has no name");
      std::string head = sim::g_disk.files[path].data;
      head = head.substr(0, head.find('\n'));
      std::istringstream is(head.substr(0, head.find('\0')));
      std::string w[5], all;
      for (auto& x : w) is >> x;
      all = lower(w[1] + " " + w[2] + " " + w[3] + " " + w[4]);
      REQ(all == name, "wrong-type-name", "a banner '%s' is read as '%s'", all.c_str(), name);
      { Api a; ::operator delete(name); }
    }
    if (!rc && rd == R_ARR_PARTS) {
      { Api a; rc = mm_read_mtx_array_size(f, &M, &N); }
      cut();
      if (!rc && (M < 0 || N < 0 || (long)M * N > 100000)) rc = 1;
      for (int k = 0; !rc && k < M * N; k++) {
        Trip t{k % M, k / M, 0};
        if (fscanf(f, "%lg", &t.v) != 1 || (mm_is_complex(mc) && fscanf(f, "%lg", &t.w) != 1)) rc = 1;
        g.t.push_back(t);
      }
    } else if (!rc) {
      { Api a; rc = mm_read_mtx_crd_size(f, &M, &N, &nz); }
      cut();
      if (!rc && (nz < 0 || nz > 100000)) rc = 1;
      if (!rc) {
        int *I = aarr<int>(nz), *J = aarr<int>(nz); double* v = aarr<double>(2 * (size_t)nz);
        // buffers the caller used before: what is not read must not look like an entry
        for (int k = 0; k < nz; k++) { v[2 * k] = v[2 * k + 1] = 1; if (M > 0 && N > 0) { I[k] = 1 + k % M; J[k] = 1 + k % N; } }
        int st = mm_is_complex(mc) ? 2 : 1;
        if (rd == R_PARTS) { Api a; rc = mm_read_mtx_crd_data(f, M, N, nz, I, J, v, mc); }
        else for (int k = 0; !rc && k < nz; k++) { Api a; rc = mm_read_mtx_crd_entry(f, &I[k], &J[k], &v[k * st], &v[k * st + (st > 1)], mc); }
        cut();
        for (int k = 0; !rc && k < nz; k++) if (I[k] < 1 || I[k] > M || J[k] < 1 || J[k] > N) rc = 1;
        if (!rc) for (int k = 0; k < nz; k++) g.t.push_back({I[k] - 1, J[k] - 1, mm_is_pattern(mc) ? 1.0 : v[k * st], st > 1 ? v[2 * k + 1] : 0.0});
      }
    }
    // the caller's part
    if (ferror(f)) rc = 1;
    if (!rc) {
      g.ok = true; g.m = M; g.n = N; g.has_sym = true; g.sym = mm_is_symmetric(mc); g.kind = mc[3]; g.complex = mm_is_complex(mc);
      if (rd == R_ARR_PARTS && (mm_is_pattern(mc) || !mm_is_general(mc))) g.ok = false;  // the caller can tell
    }
    sim::disk_fclose(f);
  }
  return g;
}
bool supported(int rd, const Mat& a) {
  if (!by_pieces(rd) && (a.complex || (a.kind != 'G' && a.kind != 'S'))) return false;
  // forms that do not exist
  if ((a.kind == 'H' && !a.complex && !a.integer) || (a.pattern && (a.kind == 'H' || a.kind == 'K'))) return false;
  switch (rd) {
    case R_ARR_PARTS: return a.dense && !a.sym && a.kind == 'G' && !a.pattern;
    case R_MTX: return !a.dense && !a.pattern;
    case R_STREAM: case R_STREAM_DIAG: return !a.dense;
    case R_ARRAY: case R_LOAD_ARRAY: return a.dense && !a.integer && !a.pattern && !a.sym;
    case R_UNSYM: return !a.dense && !a.pattern && !a.integer && !a.sym;
    default: return !a.dense && !a.integer;
  }
}
void compare(const Mat& want, const Got& g, int rd, bool& ok, std::string& why) {
  ok = false;
  if (!want.ok) { why = "the file is not a matrix: " + want.why; return; }
  if (want.m != g.m || want.n != g.n) { why = F("%ld x %ld instead of %ld x %ld", g.m, g.n, want.m, want.n); return; }
  if (g.has_sym && want.sym != g.sym) { why = want.sym ? "a symmetric matrix became general" : "a general matrix became symmetric"; return; }
  if (want.complex != g.complex || (by_pieces(rd) ? want.kind != g.kind : want.kind != 'G' && want.kind != 'S')) { why = "the kind of matrix is confused"; return; }
  if (dense_reader(rd) != want.dense) { why = "dense and sparse are confused"; return; }
  std::vector<Trip> w = want.t;
  if (rd == R_STREAM_DIAG) {
    // a zero is added on the diagonal of each empty column
    std::set<int> have;
    for (auto& t : w) have.insert(t.c);
    for (int c = 0; c < want.n && c < want.m; c++) if (!have.count(c)) w.push_back({c, c, 0});
  }
  ok = same_trips(w, g.t, 0, why);
}

// ---------------------------------------------------------------- C11
enum { D_NONE, D_TRUNC, D_ZERO, D_GARBLE, D_SWAP, D_DUP, D_EIO, D_OPEN, D_LINE, D_LONG, D_COUNT };
std::string damage(const std::string& t, int kind, Rng& r) {
  std::string s = t;
  if (s.empty()) return s;
  size_t at = r.below(s.size()), len = 1 + r.logu(std::max<size_t>(1, s.size() - at)) - 1;
  if (r.chance(1, 3)) at = std::min(s.size() - 1, (size_t)r.below(80));  // headers are few bytes but matter most
  len = std::max<size_t>(1, std::min(len, s.size() - at));
  switch (kind) {
    case D_TRUNC: s.resize(at); break;
    case D_ZERO: for (size_t i = at; i < at + len; i++) s[i] = 0; break;
    case D_GARBLE: {
      int k = r.below(4);
      for (size_t i = at; i < at + len; i++) s[i] = k == 0 ? (char)r.below(256) : k == 1 ? "0123456789"[r.below(10)] : k == 2 ? " \n\t%-+.e"[r.below(8)] : (char)(s[i] ^ (1 << r.below(8)));
      break;
    }
    case D_SWAP: { size_t b = r.below(s.size()), l = std::min({len, s.size() - at, s.size() - b}); for (size_t i = 0; i < l; i++) std::swap(s[at + i], s[b + i]); break; }
    case D_DUP: s.insert(at, s.substr(at, len)); break;
    case D_LINE: {  // a whole line is lost or repeated
      size_t b = s.rfind('\n', at), e = s.find('\n', at);
      b = b == std::string::npos ? 0 : b + 1;
      e = e == std::string::npos ? s.size() : e + 1;
      if (b > e) b = 0;
      if (r.chance(1, 2)) s.erase(b, e - b); else s.insert(e, s.substr(b, e - b));
      break;
    }
    case D_LONG: { std::string x(50 + r.below(1500), "x1 %\n"[r.below(4)]); s.replace(at, r.below(3), x); break; }  // a run of one character
  }
  return s;
}
struct Case { Mat a; std::string clean, disk; int rd, dk; int64_t eio; };
Case make_case(const Plan& p) {
  Case c;
  Rng r((uint64_t)p.get("mseed"));
  c.rd = p.get("reader", 0, 0, R_COUNT - 1);
  if (c.rd == R_CRD && !sym_lib::mm_read_mtx_crd) c.rd = R_PARTS;
  c.a = gen_mat(r, p.get("msize", 10, 1, 60));
  int f = p.get("mfield", 0, 0, 9);
  if (f == 1) c.a.integer = true;
  if (f == 2) c.a.pattern = true;
  if (by_pieces(c.rd)) {
    int z = p.get("kind", 0, 0, 5);
    if (z & 1) { c.a.complex = true; c.a.integer = c.a.pattern = false; for (auto& t : c.a.t) t.w = rnd_val(r, r.below(4)); }
    if (z >= 2) c.a.kind = z == 5 ? 'H' : z == 3 || z == 4 ? 'K' : 'G';
    if (z >= 2) c.a.sym = false;
  }
  if (dense_reader(c.rd)) {
    if (f < 8) {
      c.a.dense = true; c.a.sym = false; c.a.integer = c.a.pattern = false; c.a.kind = 'G';
      c.a.t.clear();
      c.a.m = std::min(c.a.m, 12L); c.a.n = std::min(c.a.n, 12L);
      for (int q = 0; q < c.a.n; q++) for (int k = 0; k < c.a.m; k++) c.a.t.push_back({k, q, rnd_val(r, r.below(4))});
    }
  } else if (f == 9) { c.a.dense = true; c.a.sym = false; c.a.kind = 'G'; c.a.t.clear(); c.a.m = std::min(c.a.m, 8L); c.a.n = std::min(c.a.n, 8L); for (int q = 0; q < c.a.n; q++) for (int k = 0; k < c.a.m; k++) c.a.t.push_back({k, q, r.range(1, 4) * 1.0}); }
  if (c.a.integer) for (auto& t : c.a.t) t.v = r.range(-50, 50);
  if (c.a.pattern) for (auto& t : c.a.t) t.v = 1;
  int ord = p.get("order", 0, 0, 2);
  if (!c.a.dense) {
    if (ord == 1) std::sort(c.a.t.begin(), c.a.t.end(), [](const Trip& x, const Trip& y) { return x.r != y.r ? x.r < y.r : x.c < y.c; });
    if (ord == 2) shuffle(r, c.a.t);
  }
  c.clean = text_of(r, c.a);
  c.dk = p.get("damage", 0, 0, D_COUNT - 1);
  Rng q((uint64_t)p.get("dseed"));
  c.disk = damage(c.clean, c.dk, q);
  if (p.get("damage2")) c.disk = damage(c.disk, p.get("damage2", 0, 0, D_COUNT - 1), q);
  c.eio = -1;
  if (c.dk == D_EIO || p.get("damage2") == D_EIO) c.eio = c.disk.empty() ? 0 : q.below(c.disk.size() + 1);
  return c;
}
void gen_read(Rng& r, Plan& p) {
  if (p.prop == "C23") p.p["leak"] = 1;
  p.p["reader"] = r.chance(1, 3) ? R_MTX : r.chance(1, 4) ? R_PARTS : r.below(R_COUNT);
  p.p["mseed"] = r.below(1 << 30);
  p.p["msize"] = r.chance(1, 50) ? 41 + r.below(20) : 1 + r.logu(30);
  p.p["mfield"] = r.chance(3, 5) ? 0 : r.below(10);
  if (by_pieces(p.p["reader"])) { p.p["mfield"] = r.chance(1, 3) ? 2 : p.p["mfield"]; p.p["kind"] = r.chance(1, 2) ? 0 : r.below(6); }
  p.p["order"] = r.chance(1, 2) ? 0 : r.below(3);
  p.p["damage"] = r.chance(1, 6) ? 0 : 1 + r.below(D_COUNT - 1);
  p.p["dseed"] = r.below(1 << 30);
  if (r.chance(1, 8)) p.p["damage2"] = r.below(D_COUNT);
  p.p["short"] = r.chance(1, 3) ? 1 + r.logu(60) : 0;
  p.p["once"] = r.below(2);
  p.p["failk"] = r.chance(1, 12) ? 1 + r.below(20) : 0;
  p.cfg.fill = r.below(4);
  p.cfg.budget = 3000000;
}
void body_read(const Plan& p) {
  Case c = make_case(p);
  auto& d = sim::g_disk;
  // a size line that asks for more memory and time than a run has is not explored
  for (int k = 0; k < 2; k++) {
    Mat h = ref_parse(c.disk, k, 0);
    if (h.m > 200000 || h.n > 200000 || (h.dense && h.m * h.n > 200000)) { sim::probe("size-too-large-to-run"); return; }
  }
  d.files[PATH].data = c.disk;
  if (getenv("SIM_SHOW")) { std::string t = c.clean + "<<< clean / on disk >>>\n" + c.disk; if (write(2, t.data(), t.size()) < 0) return; }
  d.fault.short_io = p.get("short", 0, 0, 4096);
  d.fault.eio_at = c.eio;
  d.fault.fail_once = p.get("once");
  bool open_fails = c.dk == D_OPEN;
  if (open_fails) d.fault.open_errno = p.get("once") ? ENOENT : EACCES;
  if (p.get("failk")) sim::arm_alloc_fault(sim::alloc_count() + p.get("failk") - 1, false);
  Got g;
  int64_t live = sim::live_blocks();
  try { g = read_with(c.rd, PATH); }
  catch (const std::bad_alloc&) { g.ok = false; }
  bool oom = sim::alloc_fault_fired();
  sim::arm_alloc_fault(-1, false);
  sim::note_hash(g.ok);
  for (auto& t : g.t) { sim::note_hash(t.r * 100003 + t.c); uint64_t b; memcpy(&b, &t.v, 8); sim::note_hash(b); }
  REQ(d.open_handles == 0 || oom, "file-left-open", "%s returned (%s) with %d file(s) open", RN[c.rd], g.ok ? "a matrix" : "failure", d.open_handles);
  REQ(oom || !p.get("leak") || (int64_t)sim::live_blocks() == live, "leak", "%s returned (%s) and left %ld blocks behind", RN[c.rd], g.ok ? "a matrix" : "failure", (long)(sim::live_blocks() - live));
  bool eio = d.f_eio > 0;
  if (g.ok) {
    REQ(!open_fails, "read-unopened", "%s returned a matrix although the file could not be opened", RN[c.rd]);
    int checks = checks_of(c.rd);
    std::string why;
    bool ok = false;
    for (int keep = 0; keep < 2 && !ok; keep++) {
      std::string w2;
      compare(ref_parse(c.disk, keep, checks, nullptr, c.rd == R_MTX || c.rd == R_UNSYM || by_pieces(c.rd)), g, c.rd, ok, w2);
      if (why.empty()) why = w2;
    }
    REQ(ok, "wrong-matrix", "%s accepted the file as a wrong matrix: %s (damage %d)", RN[c.rd], why.c_str(), c.dk);
    // an unreadable byte before the end of the data: what was read is not what is on the disk
    REQ(!(eio && (!by_pieces(c.rd) || c.rd == R_CRD)), "read-error-ignored", "%s returned a matrix although reading failed at byte %lld of %zu", RN[c.rd], (long long)c.eio, c.disk.size());
    sim::probe("reader-accepted");
  } else {
    sim::probe("reader-refused");
    bool damaged = c.disk != c.clean || eio || open_fails || oom;
    REQ(damaged || !supported(c.rd, c.a), "refused-good-file", "%s refused an undamaged %ld x %ld file: %s", RN[c.rd], c.a.m, c.a.n, g.err.c_str());
  }
}
bool accept_read(const Plan& p, const sim::RunRes& r) {
  // the process may stop on a file that cannot be read; never on a good one
  Case c = make_case(p);
  bool damaged = c.disk != c.clean || c.eio >= 0 || c.dk == D_OPEN || !supported(c.rd, c.a);
  if (r.outcome == sim::O_EXIT) return r.exit_code != 0 && (damaged || r.f_alloc);
  if (r.f_alloc) return r.outcome == sim::O_TERMINATE || (r.outcome == sim::O_CRASH && r.msg.find("null pointer") != std::string::npos);
  return false;
}

// ---------------------------------------------------------------- C12
enum { W_CSC, W_BCSC, W_MM, W_STREAM, W_DENSE, W_FD, W_PARTS, W_VEC, W_COUNT };
const char* WN[] = {"CSC_to_mtx", "BCSC_to_mtx", "mm_write_mtx_crd", "print_csc_templated", "print_dense", "print_csc", "mm_write_*", "save_vector"};
enum { X_NONE, X_OPEN, X_ENOSPC, X_EIO, X_CRASH, X_TORN, X_LOSTBLOCKS, X_COUNT };
void gen_write(Rng& r, Plan& p) {
  if (p.prop == "C23") p.p["leak"] = 1;
  p.p["writer"] = r.below(W_COUNT);
  p.p["wkind"] = r.chance(1, 2) ? 0 : r.below(7);
  p.p["mseed"] = r.below(1 << 30);
  p.p["msize"] = r.chance(1, 50) ? 41 + r.below(20) : 1 + r.logu(40);
  p.p["fault"] = r.below(X_COUNT);
  p.p["fseed"] = r.below(1 << 30);
  p.p["short"] = r.chance(1, 3) ? 1 + r.logu(60) : 0;
  p.p["old"] = r.chance(1, 4);
  p.p["once"] = r.below(2);
  p.cfg.fill = r.below(4);
  p.cfg.budget = 20000000;
}
struct Written { Mat a; double rel = 0; bool unsupported = false, reported_failure = false, can_report = false; };
// write the matrix of the plan; W: what was asked to be written
std::string fixed6(double v) { char b[400]; snprintf(b, sizeof b, "%f", v); return b; }
std::vector<double> vec_of(const Plan& p) {
  Rng r((uint64_t)p.get("mseed"));
  Mat a = gen_mat(r, p.get("msize", 10, 1, 60));
  std::sort(a.t.begin(), a.t.end());
  std::vector<double> v;
  for (auto& t : a.t) v.push_back(t.v);
  return v;
}
Written do_write(const Plan& p, const std::string& path, int w) {
  using namespace sym_lib;
  Rng r((uint64_t)p.get("mseed"));
  Written W;
  Mat a = gen_mat(r, p.get("msize", 10, 1, 60));
  a.sym = false;
  if (w == W_FD) a.m = a.n = std::max(a.m, a.n);
  std::sort(a.t.begin(), a.t.end());
  if (w == W_BCSC) {
    // lower triangular with a full diagonal, as factors have
    a.m = a.n = std::max(a.m, a.n);
    std::set<std::pair<int, int>> s;
    for (int i = 0; i < a.n; i++) s.insert({i, i});
    for (auto& t : a.t) s.insert({std::min(t.r, t.c), std::max(t.r, t.c)});
    a.t.clear();
    for (auto& x : s) a.t.push_back({x.second, x.first, 1 + r.below(50) / 4.0});
  }
  int nnz = a.t.size();
  VI cp(a.n + 1), ci;
  std::vector<double> cx;
  for (auto& t : a.t) { cp[t.c + 1]++; ci.push_back(t.r); cx.push_back(t.v); }
  for (int i = 0; i < a.n; i++) cp[i + 1] += cp[i];
  int *P = acopy(cp), *I = acopy(ci);
  double* X = acopy(cx);
  W.a = a;
  W.rel = 0;
  if (w == W_CSC || w == W_BCSC) {
    CSC A(a.m, a.n, nnz, P, I, X);
    A.stype = 0;
    A.is_pattern = false;
    A.pre_alloc = true;
    W.rel = 5.1e-3;
    W.can_report = true;
    if (w == W_CSC) {
      try { Api q; CSC_to_mtx(path, &A); }
      catch (const std::exception& e) { W.reported_failure = true; }
    }
    else {
      BCSC* B;
      BCSCMatrix* M;
      { Api q; M = new BCSCMatrix(&A); B = M->getBCSC(); }
      try { Api q; BCSC_to_mtx(path, B); }
      catch (const std::exception& e) { W.reported_failure = true; }
      W.a.t.clear();
      for (size_t s = 0; s < B->nodes; s++) {
        int wd = B->supernodes[s + 1] - B->supernodes[s], nr = (B->p[s + 1] - B->p[s]) / wd;
        for (int j = 0; j < wd; j++) for (int k = 0; k < nr; k++) { int pos = B->p[s] + j * nr + k; W.a.t.push_back({B->i[pos], B->supernodes[s] + j, B->x[pos]}); }
      }
      { Api q; delete M; }
    }
  } else if (w == W_MM) {
    VI r1, c1;
    for (auto& t : a.t) { r1.push_back(t.r + 1); c1.push_back(t.c + 1); }
    int *R = acopy(r1), *C = acopy(c1);
    MM_typecode mc;
    mm_initialize_typecode(&mc); mm_set_matrix(&mc); mm_set_coordinate(&mc); mm_set_real(&mc); mm_set_general(&mc);
    switch (p.get("wkind", 0, 0, 6)) {
      case 1: mm_set_pattern(&mc); W.a.pattern = true; for (auto& t : W.a.t) t.v = 1; break;
      case 5: mm_set_hermitian(&mc); W.a.kind = 'H';  // and complex
      case 2: {
        mm_set_complex(&mc); W.a.complex = true;
        std::vector<double> z;
        for (auto& t : W.a.t) { t.w = rnd_val(r, r.below(4)); z.push_back(t.v); z.push_back(t.w); }
        X = acopy(z);
        break;
      }
      case 3: mm_set_symmetric(&mc); W.a.sym = true; W.a.kind = 'S'; break;
      case 4: mm_set_skew(&mc); W.a.kind = 'K'; break;
      case 6: mm_set_integer(&mc); W.unsupported = true; break;
    }
    std::vector<char> nm(path.begin(), path.end()); nm.push_back(0);
    int rc;
    { Api q; rc = mm_write_mtx_crd(nm.data(), a.m, a.n, nnz, R, C, X, mc); }
    W.reported_failure = rc != 0;
    W.can_report = true;
    W.rel = 1e-15;
  } else if (w == W_PARTS) {
    // the caller's own loop over the library's pieces
    FILE* f = sim::disk_fopen(path.c_str(), "w");
    W.can_report = true;
    if (!f) { W.reported_failure = true; return W; }
    MM_typecode mc;
    mm_initialize_typecode(&mc); mm_set_matrix(&mc); mm_set_coordinate(&mc); mm_set_real(&mc); mm_set_general(&mc);
    int rc, rc2;
    bool dense = p.get("wkind", 0, 0, 6) & 1;
    if (dense) {
      mm_set_array(&mc);
      W.a.dense = true;
      W.a.t.clear();
      W.a.m = std::min(a.m, 12L); W.a.n = std::min(a.n, 12L);
      for (int k = 0; k < W.a.m * W.a.n; k++) W.a.t.push_back({(int)(k % W.a.m), (int)(k / W.a.m), rnd_val(r, r.below(4))});
    }
    { Api q; rc = mm_write_banner(f, mc); rc2 = dense ? mm_write_mtx_array_size(f, W.a.m, W.a.n) : mm_write_mtx_crd_size(f, a.m, a.n, nnz); }
    bool ok = !rc && !rc2;
    for (auto& t : W.a.t) if (dense) fprintf(f, "%.17g\n", t.v); else fprintf(f, "%d %d %.17g\n", t.r + 1, t.c + 1, t.v);
    if (ferror(f)) ok = false;
    if (sim::disk_fclose(f)) ok = false;
    W.reported_failure = !ok;
  } else if (w == W_VEC) {
    std::vector<char> nm(path.begin(), path.end()); nm.push_back(0);
    W.can_report = true;
    try { Api q; save_vector(nm.data(), X, nnz); }
    catch (const std::exception& e) { W.reported_failure = true; }
  } else if (w == W_STREAM || w == W_DENSE) {
    DiskBuf b(path);
    if (sim::g_disk.fault.open_errno) { sim::g_disk.f_open++; return W; }
    sim::g_disk.files[path].data.clear();
    if (w == W_STREAM) {
      { Api q; print_csc_templated<double>(a.m, a.n, P, I, X, &b, "  ", "%%MatrixMarket matrix coordinate real general"); }
    } else {
      W.a.dense = true;
      W.a.t.clear();
      W.a.m = std::min(a.m, 12L); W.a.n = std::min(a.n, 12L);
      std::vector<double> v;
      for (int k = 0; k < W.a.m * W.a.n; k++) { v.push_back(rnd_val(r, r.below(4))); W.a.t.push_back({(int)(k % W.a.m), (int)(k / W.a.m), v.back()}); }
      double* V = acopy(v);
      { Api q; print_dense<double>(W.a.m, W.a.n, r.chance(1, 2) ? 1 : W.a.n, V, &b, "  ", "%%MatrixMarket matrix array real general"); }
    }
    b.flush();
  } else {
    // prints to a file descriptor, with 12 digits after the point
    if (sim::g_disk.fault.open_errno) { sim::g_disk.f_open++; return W; }
    sim::g_disk.files[path].data.clear();
    for (auto& t : W.a.t) t.v = strtod(F("%.12f", t.v).c_str(), nullptr);
    { Api q; print_csc(atoi(path.c_str() + 3), "%%MatrixMarket matrix coordinate real general", a.n, P, I, X); }
  }
  return W;
}
void body_write(const Plan& p) {
  auto& d = sim::g_disk;
  int w = p.get("writer", 0, 0, W_COUNT - 1), x = p.get("fault", 0, 0, X_COUNT - 1);
  const std::string path = w == W_FD ? "fd:100001" : PATH;
  d.fault.short_io = p.get("short", 0, 0, 4096);
  Rng r((uint64_t)p.get("fseed"));
  // the full text, from an undisturbed write
  if (do_write(p, path, w).unsupported) {
    // a form this library does not write: the caller is told
    d.fault = sim::DiskFault(); d.files.clear();
    d.fault.open_errno = x == X_OPEN ? EACCES : 0;
    Written W = do_write(p, path, w);
    REQ(W.reported_failure, "unsupported-form-hidden", "%s reported success for values it does not write", WN[w]);
    REQ(d.open_handles == 0, "file-left-open", "%s left %d file(s) open", WN[w], d.open_handles);
    sim::probe("form-refused");
    return;
  }
  std::string full = d.files[path].data;
  if (w == W_VEC) {
    std::string want;
    for (auto& t : vec_of(p)) want += fixed6(t) + "\n";
    REQ(full == want, "round-trip", "save_vector wrote %zu bytes, %zu belong there", full.size(), want.size());
  }
  int wk = p.get("wkind", 0, 0, 6);
  int rd = w == W_DENSE ? R_ARRAY : w == W_PARTS && (wk & 1) ? R_ARR_PARTS : (w == W_MM && wk) || (w == W_PARTS && r.chance(1, 2)) ? (r.chance(1, 2) ? R_PARTS : r.chance(1, 2) && sym_lib::mm_read_mtx_crd ? R_CRD : R_ENTRY) : r.chance(1, 2) ? R_MTX : w == W_MM ? R_UNSYM : R_STREAM;
  REQ(d.open_handles == 0, "file-left-open", "%s left %d file(s) open", WN[w], d.open_handles);
  std::string old;
  if (p.get("old")) { old = "%%MatrixMarket matrix coordinate real general\n3 3 3\n1 1 7\n2 2 8\n3 3 9\n"; if (w == W_DENSE || rd == R_ARR_PARTS) old = "%%MatrixMarket matrix array real general\n1 2\n7\n8\n"; }
  d.files.clear();
  if (!old.empty()) d.files[path].data = old;
  d.written = 0;
  int64_t at = full.empty() ? 0 : r.below(full.size() + 1);
  if (r.chance(1, 3) && !full.empty()) at = full.size() - std::min<int64_t>(full.size(), r.below(40));  // near the end
  d.fault.fail_once = p.get("once");
  if (x == X_OPEN) d.fault.open_errno = p.get("once") ? ENOSPC : EACCES;
  if (x == X_ENOSPC) d.fault.enospc_at = at;
  if (x == X_EIO) d.fault.eio_at = at;
  if (x == X_CRASH) d.crash_at_byte = at;
  int64_t live = sim::live_blocks();
  Written W = do_write(p, path, w);
  REQ(!p.get("leak") || (int64_t)sim::live_blocks() == live, "leak", "%s left %ld blocks behind", WN[w], (long)(sim::live_blocks() - live));
  REQ(d.open_handles == 0, "file-left-open", "%s left %d file(s) open", WN[w], d.open_handles);
  bool failed = d.f_open || d.f_enospc || d.f_eio;
  if (W.can_report) {
    REQ(!failed || W.reported_failure, "write-failure-hidden", "%s reported success although the disk refused the write", WN[w]);
    REQ(failed || !W.reported_failure, "false-failure", "%s reported failure although everything was written", WN[w]);
  }
  // restart: only what is on the disk survives
  d.fault = sim::DiskFault();
  d.crash_at_byte = -1;
  bool crashed = d.crashed;
  d.crashed = false;
  if (!d.files.count(path) || (x == X_OPEN && old.empty())) { sim::probe("no-file-left"); return; }
  std::string& t = d.files[path].data;
  if (x == X_TORN || x == X_LOSTBLOCKS) {
    // power loss after the write: the tail, or blocks that were still in the cache, are gone
    crashed = true;
    if (x == X_TORN) t.resize(std::min<size_t>(t.size(), at));
    else {
      size_t bs = 1u << (3 + r.below(7));
      for (size_t b = 0; b < t.size(); b += bs) if (r.chance(1, 3)) { for (size_t i = b; i < std::min(t.size(), b + bs); i++) t[i] = 0; }
    }
    d.crashed = true;  // counted as a power loss
  }
  std::string left = t;
  if (w == W_VEC) {
    // nothing in the library reads it: what is left must come from this vector
    bool whole = left == full, cut = full.compare(0, left.size(), left) == 0;
    REQ(whole || crashed || failed, "round-trip", "save_vector left %zu of %zu bytes", left.size(), full.size());
    REQ(cut || x == X_LOSTBLOCKS || p.get("once") || (!old.empty() && left == old), "damage-not-detected", "save_vector left bytes that are not the beginning of the vector");
    sim::probe(whole ? "round-trip" : "vector-cut");
    d.crashed = d.crashed || crashed;
    return;
  }
  bool cr = d.crashed; d.crashed = false;
  Got g;
  g = read_with(rd, path);
  d.crashed = cr || crashed;
  sim::note_hash(g.ok); sim::note_hash(left.size());
  REQ(d.open_handles == 0, "file-left-open", "%s left the file open", RN[rd]);
  bool intact = left == full && !crashed && !failed;
  std::string why;
  if (!g.ok) {
    REQ(!intact, "unreadable-output", "%s refuses what %s wrote: %s", RN[rd], WN[w], g.err.c_str());
    sim::probe("damaged-file-refused");
    return;
  }
  Mat want = W.a;
  bool ok;
  std::string o = "dimensions";
  ok = g.m == want.m && g.n == want.n;
  if (ok) ok = same_trips(want.t, g.t, W.rel, o);
  if (ok) { sim::probe(intact ? "round-trip" : "complete-after-fault"); return; }
  if (!intact && !old.empty() && left == old) { sim::probe("old-file-kept"); return; }
  // the format has no end mark: a cut inside the digits of the very last value cannot be seen by any reader
  if (!intact && left.size() < full.size() && full.compare(0, left.size(), left) == 0) {
    size_t e = full.find_last_not_of(" \n\t");
    size_t b = full.find_last_of(" \n\t", e);
    if (left.size() > b) { sim::probe("cut-in-last-value"); return; }
  }
  // a reader that takes one matrix out of a longer stream cannot know that more should belong to it
  if (!intact && checks_of(rd) == 1) {
    bool rest = false, same = false;
    std::string w2;
    Mat m = ref_parse(left, false, 1, &rest, false);
    if (rest) compare(m, g, rd, same, w2);
    if (same) { sim::probe("shorter-matrix-in-stream"); return; }
  }
  // a reported error of a moment, and later writes that went through: bytes are missing inside the file, and what
  // is left can be a well-formed matrix again; nobody can ask more of the reader than to read what is there
  if (!intact && failed && !crashed && p.get("once") && full.compare(0, left.size(), left) != 0) {
    bool same = false;
    std::string w2;
    compare(ref_parse(left, false, checks_of(rd), nullptr, rd == R_MTX || rd == R_UNSYM || by_pieces(rd)), g, rd, same, w2);
    if (same) { sim::probe("hole-in-file"); return; }
  }
  FAIL(intact ? "round-trip" : "damage-not-detected", "%s reads what %s wrote%s as another matrix: %s", RN[rd], WN[w], intact ? "" : " before the failure", o.c_str());
}
bool accept_write(const Plan& p, const sim::RunRes& r) {
  // the reader may stop the process on a damaged file; the writer may stop it when the disk fails
  return r.outcome == sim::O_EXIT && r.exit_code != 0 && p.get("fault") != X_NONE;
}
}  // namespace
void add_io(std::vector<Scenario>& v) {
  v.push_back({"read-file", gen_read, body_read, accept_read});
  v.push_back({"write-file", gen_write, body_write, accept_write});
}
void add_io_props(std::vector<PropEntry>& t) {
  t.push_back({"C11", "read-file", "omp", 1});
  t.push_back({"C11", "read-file", "seq", 3});
  t.push_back({"C12", "write-file", "omp", 1});
  for (const char* b : {"omp", "seq"}) { t.push_back({"C23", "read-file", b, 6}); t.push_back({"C23", "write-file", b, 3}); }
  t.push_back({"C12", "write-file", "seq", 3});
}
