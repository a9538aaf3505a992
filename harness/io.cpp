//@small
// Binary data files: whatever is in the file, the reader returns the data that are there or says why not.
#include "kern.h"
#include "blas.h"
#include <nntl/nntl.h>
#include <nntl/train_data/inmem_train_data_stor.h>
#include <nntl/train_data/seq_data.h>
// the file is a block of memory
static unsigned char g_f[512]; static size_t g_n, g_pos; static int g_open, g_there = 1, g_live;
static int io_open(FILE** f, const char*, const char* mode) { *f = nullptr; vs_assert(mode[0] == 'r', "opened for reading"); if (!g_there) return 2; vs_assert(!g_open, "opened once"); g_open = 1; g_pos = 0; *f = (FILE*)g_f; return 0; }
static int io_close(FILE* f) { vs_assert(f == (FILE*)g_f && g_open, "an open file is closed"); g_open = 0; return 0; }
static size_t io_read(void* p, size_t cap, size_t sz, size_t cnt, FILE* f) { vs_assert(f == (FILE*)g_f && g_open, "an open file is read"); vs_assert(sz * cnt <= cap, "reads fit the buffer"); size_t r = 0; for (; r < cnt && g_pos + sz <= g_n; ++r) { memcpy((char*)p + r * sz, g_f + g_pos, sz); g_pos += sz; } if (r < cnt) g_pos = g_n; return r; }
static long long io_tell(FILE*) { return (long long)g_pos; }
static int io_seek(FILE*, long long o, int w) { if (w == SEEK_CUR) o += (long long)g_pos; else if (w == SEEK_END) o += (long long)g_n; if (o < 0) return -1; g_pos = (size_t)o; return 0; }
static int io_scan(const char* s, const char* fmt, int* v) { vs_assert(fmt[0] == 'c' && fmt[1] == '%' && fmt[2] == 'd' && !fmt[3], "known format"); if (*s++ != 'c') return 0; bool neg = *s == '-'; if (neg || *s == '+') ++s; if (*s < '0' || *s > '9') return 0; int x = 0; while (*s >= '0' && *s <= '9') x = x * 10 + (*s++ - '0'); *v = neg ? -x : x; return 1; }
static void* io_malloc(size_t n) { ++g_live; return malloc(n); }
static void io_free(void* p) { if (p) --g_live; free(p); }
#define fopen_s io_open
#define fclose io_close
#define fread_s io_read
#define _ftelli64 io_tell
#define _fseeki64 io_seek
#define sscanf_s io_scan
#define malloc io_malloc
#define free io_free
#include <nntl/_supp/io/binfile.h>
#undef malloc
#undef free
typedef nntl_supp::binfile BF; typedef BF::ErrorCode EC;
template<class T> static void put(T v) { memcpy(g_f + g_n, &v, sizeof v); g_n += sizeof v; }
static void head(uint32_t sig, uint16_t ver, uint16_t fields, uint16_t cls) { put(sig); put(ver); put(fields); put(cls); }
static const uint32_t SIG = ('l' << 24) | ('t' << 16) | ('n' << 8) | 'n';
// the values of a field as they were written
struct Fld { uint32_t r, c; unsigned char dt; double d[9]; float f[9]; int n; };
static void field(Fld& q, uint32_t r, uint32_t c, unsigned char dt, const char* name, bool term = true) {
	q.r = r; q.c = c; q.dt = dt; q.n = r <= 3 && c <= 3 ? (int)(r * c) : 0; put(r); put(c); int k = 0; for (; name[k]; ++k) g_f[g_n + k] = (unsigned char)name[k]; if (k < 15) g_f[g_n + k++] = term ? 0 : 'q'; for (; k < 15; ++k) g_f[g_n + k] = 'z'; g_n += 15; put(dt);
	for (int i = 0; i < q.n; ++i) if (dt == 0) { q.d[i] = vs_f64_any("v"); put(q.d[i]); } else if (dt == 1) { q.f[i] = vs_f32_any("v"); put(q.f[i]); }
}
template<class T> static void content(const smatrix<T>& m, const Fld& q, bool bias, const char* l) {
	vs_assert(m.rows() == (vl)q.r && m.cols_no_bias() == (vl)q.c && m.emulatesBiases() == bias && !m.bDontManageStorage(), "size and kind of the matrix"); for (int i = 0; i < q.n; ++i) { T v = m.begin()[i], w = q.dt == 0 ? (T)q.d[i] : (T)q.f[i]; vs_assert(w != w ? v != v : v == w, l); } if (bias) for (vl i = 0; i < m.rows(); ++i) vs_assert(m.begin()[q.n + i] == T(1), "biases");
}
static void ended(BF& b, EC ec) { vs_assert(!g_open, "the file is closed"); vs_assert(g_live == 0, "temporary memory is released"); if (ec != EC::Success) vs_assert(b.get_last_error() == ec, "the error is remembered"); }
template<class MT> static void one() {
	Fld q; bool okh = true; uint32_t sig = (uint32_t)vs_i64("signature", 0, 0xffffffffll); uint16_t ver = (uint16_t)vs_i64("version", 0, 65535), cls = (uint16_t)vs_i64("classes", 0, 65535), nf = (uint16_t)vs_i64("fields", 0, 65535); static const uint32_t RS[6] = { 1, 2, 3, 0, 0x80000001u, 0xffffffffu }; uint32_t r = RS[vs_choose("r", 6)], c = RS[vs_choose("c", 6)]; unsigned char dt = (unsigned char)vs_choose("type", 3); if (dt == 2) { dt = (unsigned char)vs_i64("dt", 0, 255); vs_assume(dt > 1); }
	head(sig, ver, nf, cls); field(q, r, c, dt, "anything"); size_t full = g_n; if (q.n && dt < 2) { int cut = (int)vs_choose("cut", 5); g_n = cut == 0 ? full : cut == 1 ? full - 1 : cut == 2 ? 10 + 24 : cut == 3 ? 10 + 5 : 9; }
	size_t need = full; bool bad = r == 0 || c == 0, huge = r >= 0x80000000u || c >= 0x80000000u; g_there = (int)vs_choose("there", 2); BF b; MT m; EC ec = b.read("file", m); ended(b, ec);
	if (!g_there) { vs_assert(ec == EC::FailedToOpenFile, "no such file"); return; } if (g_n < 10) { vs_assert(ec == EC::FailedToReadHeader, "truncated header"); return; } if (sig != SIG) { vs_assert(ec == EC::WrongHeaderSignature, "signature"); return; } if (ver != 0) { vs_assert(ec == EC::UnsupportedFormatVersion, "version"); return; } if (nf != 1) { vs_assert(ec == EC::WrongElementsCount, "number of fields"); return; } if (cls) { vs_assert(ec == EC::InvalidSeqClassCount, "no classes here"); return; }
	if (g_n < 34) { vs_assert(ec == EC::FailedToReadFieldEntry, "truncated entry"); return; } if (bad) { vs_assert(ec == EC::InvalidDataSize, "empty matrix"); return; } if (huge) { vs_assert(ec == EC::MemoryAllocationFailed, "sizes no matrix can have"); return; } if (dt > 1) { vs_assert(ec == EC::UnsupportedIncorrectDataType, "data type"); return; } if (g_n < need) { vs_assert(ec == EC::FailedToReadData, "truncated data"); return; }
	vs_assert(ec == EC::Success, "a proper file is accepted"); content(m, q, false, "elements as in the file"); vs_reach("matrix");
}
//@ prop=C35 entry=h_matrix reach=matrix
//@bounds one matrix, every header (symbolic signature, version, counts), sizes 0..3 and sizes beyond the index type, every data type byte, every value (IEEE bit patterns), file complete or truncated at five places, file missing; read into plain and deformable matrices of float and double
extern "C" void h_matrix() { auto h0 = vs_heap_live(); switch (vs_choose("into", 4)) { case 0: one<smatrix<double>>(); break; case 1: one<smatrix<float>>(); break; case 2: one<smatrix_deform<double>>(); break; default: one<smatrix_deform<float>>(); } vs_assert(vs_heap_live() == h0, "no memory is lost"); }
template<class T> static void tdata() {
	static const char* const N[7] = { "train_x", "train_y", "test_x", "test_y", "", "train_x2", "abcdefghijklmno" }; static const int P[6][4] = { { 0, 1, 2, 3 }, { 3, 2, 1, 0 }, { 2, 0, 3, 1 }, { 1, 3, 0, 2 }, { 0, 1, 0, 3 }, { 0, 1, 2, 4 } }; int p = (int)vs_choose("order", 6), odd = (int)vs_choose("odd", 6), at = odd ? (int)vs_choose("at", 4) : 0, w[4]; for (int i = 0; i < 4; ++i) { w[i] = P[p][i]; if (w[i] == 4) w[i] = 4 + (int)vs_choose("name", 3); } Fld q[4]; uint32_t n[2] = { 2, 1 }, wx = 2, wy = 1; int nf = odd == 1 ? (at & 1 ? 3 : 5) : 4, cls = odd == 2 ? 1 : 0; EC want = EC::Success;
	head(SIG, 0, (uint16_t)nf, (uint16_t)cls); int dt = (int)vs_choose("type", 2); size_t pos[5]; for (int i = 0; i < 4; ++i) { int id = w[i]; pos[i] = g_n; uint32_t r = id < 4 ? n[id >> 1] : 1, c = id & 1 ? wy : wx; if (odd == 3 && at == i) ++r; if (odd == 4 && at == i) ++c; field(q[i], r, c, (unsigned char)((i & 1) ^ dt), N[id]); } pos[4] = g_n; if (odd == 5) g_n = pos[at] + 24 + 3;
	if (nf != 4) want = EC::WrongElementsCount; else if (cls) want = EC::InvalidSeqClassCount; else { int seen = 0; for (int i = 0; i < 4 && want == EC::Success; ++i) { if (w[i] > 3) want = EC::UnknownFieldName; else if (g_n < pos[i + 1]) want = EC::FailedToReadData; else if (seen >> w[i] & 1) want = EC::FieldHasBeenRead; seen |= 1 << w[i]; } if (want == EC::Success && (odd == 3 || odd == 4)) want = EC::FailedToMakeTDOutOfReadData; }
	inmem_train_data_stor<T, T> td; BF b; EC ec = b.read("file", td); ended(b, ec); vs_assert(ec == want, "what is wrong with the file"); vs_assert(td.empty() == (ec != EC::Success), "data only from proper files"); if (ec != EC::Success) return;
	for (int i = 0; i < 4; ++i) { int id = w[i]; if (id & 1) content(td.Y(id >> 1), q[i], false, "labels as in the file"); else content(td.X(id >> 1), q[i], true, "features as in the file"); } vs_reach("td");
}
//@ prop=C35 entry=h_tdata reach=td
//@bounds train and test sets of 2 and 1 samples, fields in several orders, doubled and unknown names (also without terminator), wrong counts, sizes that do not fit, truncation in any field, both data types mixed; read into float and double
extern "C" void h_tdata() { if (vs_choose("float", 2)) tdata<float>(); else tdata<double>(); }
struct SD : seq_data<double> { const smatrix_deform<double>& at(int c, int i) const { return m_seqStor[c][i]; } size_t classes() const { return m_seqStor.size(); } size_t count(int c) const { return m_seqStor[c].size(); } };
//@ prop=C35 entry=h_seq reach=seq
//@bounds sequence sets of 1..2 classes with 0..2 sequences each, stored in any order, wrong class numbers and names, counts that do not add up, truncation; any values
extern "C" void h_seq() {
	int nc_ = 1 + (int)vs_choose("classes", 2), cnt[2], tot = 0; bool zero = false; for (int i = 0; i < nc_; ++i) { cnt[i] = (int)vs_choose("cnt", 3); tot += cnt[i]; if (!cnt[i]) zero = true; } int odd = (int)vs_choose("odd", 5), nf = tot + nc_ + (odd == 1 ? 1 : 0); head(SIG, 0, (uint16_t)nf, (uint16_t)nc_); for (int i = 0; i < nc_; ++i) put((uint16_t)cnt[i]);
	static const char* const N[6] = { "c1", "c2", "c3", "c0", "x1", "c" }; Fld q[4]; int cl[4]; EC want = EC::Success; if (nf <= nc_) want = EC::WrongElementsCount; else if (zero) want = EC::InvalidSeqClassElement; else if (nf != tot + nc_) want = EC::WrongElementsCount; int left[2] = { cnt[0], nc_ > 1 ? cnt[1] : 0 }; int at = odd >= 2 && tot ? (int)vs_choose("at", tot) : -1; size_t end[4];
	for (int i = 0; i < tot; ++i) { int k = tot > 1 || nc_ > 1 ? (int)vs_choose("class", nc_) : 0; if (odd == 2 && i == at) k = 2 + (int)vs_choose("wrong", 4); cl[i] = k; uint32_t r = 1 + (uint32_t)(i & 1), c = odd == 3 && i == at ? 0 : 1; field(q[i], r, c, (unsigned char)(i & 1), N[k]); end[i] = g_n; if (want == EC::Success) { if (k >= 3) want = EC::FailedToParseClassId; else if (k >= nc_ || !left[k]) want = EC::IncoherentSeqClassCount; else { --left[k]; if (!c) want = EC::InvalidDataSize; } } if (want == EC::Success && odd == 4 && i == at) { g_n -= 1; want = EC::FailedToReadData; break; } }
	SD d; BF b; seq_data<double>& dest = d; EC ec = b.read("file", dest); ended(b, ec); vs_assert(ec == want, "what is wrong with the file"); if (ec != EC::Success) return; vs_assert(d.classes() == (size_t)nc_ && !d.empty(), "all classes"); int k[2] = { 0, 0 }; for (int i = 0; i < nc_; ++i) vs_assert(d.count(i) == (size_t)cnt[i] && d.get_class_seq_count()[i] == cnt[i], "as many sequences as announced"); for (int i = 0; i < tot; ++i) content(d.at(cl[i], k[cl[i]]++), q[i], false, "sequences of a class in the order of the file"); vs_reach("seq");
}
