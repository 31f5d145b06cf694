// Model of the C++ stream library for symbolic execution (narrow characters only).
#pragma once
#include <iosfwd>
#include <exception>
#include <stdexcept>
#include <string_view>
#include <new>
#include <typeinfo>
#include <string>
#include <cstdint>
#include <cstdlib>
#include <cmath>
#include <map>
#include <cctype>
extern "C" { double fsx_strtod(const char*, char**); int fsx_fmt_double(char*, size_t, const char*, double); uint64_t fsx_concretize(uint64_t); }
namespace std {
class ios_base {
 public:
  typedef int fmtflags; typedef int iostate; typedef int openmode; typedef int seekdir;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = internal | left | right, basefield = dec | hex | oct, floatfield = fixed | scientific;
  fmtflags fl = dec | skipws; streamsize prec = 6, wid = 0; iostate st = goodbit;
  virtual ~ios_base() {}
  fmtflags flags() const { return fl; } fmtflags flags(fmtflags f) { auto o = fl; fl = f; return o; }
  fmtflags setf(fmtflags f) { auto o = fl; fl |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = fl; fl = (fl & ~m) | (f & m); return o; } void unsetf(fmtflags m) { fl &= ~m; }
  streamsize precision() const { return prec; } streamsize precision(streamsize p) { auto o = prec; prec = p; return o; }
  streamsize width() const { return wid; } streamsize width(streamsize p) { auto o = wid; wid = p; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  class failure;
};
struct fsx_sb { string b; size_t r = 0; string* sink = nullptr; string fname; bool isfile = false, open_ = false, drop = false; };
inline map<string, string>& fsx_vfs() { static map<string, string> m; return m; }
template <> class basic_streambuf<char, char_traits<char>> { public: fsx_sb sb; virtual ~basic_streambuf() {} };
template <> class basic_ios<char, char_traits<char>> : public ios_base {
 public:
  typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type;
  fsx_sb own; char fl_ = ' ';
  fsx_sb& S() { return own; }
  bool good() const { return st == 0; } bool eof() const { return st & eofbit; } bool fail() const { return st & (failbit | badbit); } bool bad() const { return st & badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  void clear(iostate s = goodbit) { st = s; } void setstate(iostate s) { st |= s; } iostate rdstate() const { return st; }
  char fill() const { return fl_; } char fill(char c) { char o = fl_; fl_ = c; return o; }
  iostate exceptions() const { return 0; } void exceptions(iostate) {}
};
template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>> {
 public:
  typedef basic_ostream self;
  basic_ostream() {} virtual ~basic_ostream() {}
  self& raw(const char* p, size_t n) { if (!fail() && !own.drop) own.b.append(p, n); return *this; }
  self& padded(const char* p, size_t n) { if (wid > (streamsize)n) { size_t k = wid - n; if ((fl & adjustfield) == left) { raw(p, n); while (k--) raw(&fl_, 1); } else { while (k--) raw(&fl_, 1); raw(p, n); } } else raw(p, n); wid = 0; return *this; }
  self& put(char c) { return raw(&c, 1); } self& write(const char* p, streamsize n) { return raw(p, n); } self& flush() { return *this; }
  self& operator<<(self& (*f)(self&)) { return f(*this); } self& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; } self& operator<<(basic_ios<char, char_traits<char>>& (*f)(basic_ios<char, char_traits<char>>&)) { f(*this); return *this; }
  self& num(unsigned long v, bool neg) { char t[24]; int n = 24; unsigned base = (fl & hex) ? 16 : (fl & oct) ? 8 : 10; if (base == 10) do { t[--n] = (char)('0' + v % 10); v /= 10; } while (v); else do { t[--n] = "0123456789abcdef"[v % base]; v /= base; } while (v); if (neg) t[--n] = '-'; return padded(t + n, 24 - n); }
  self& operator<<(long v) { return v < 0 ? num(0ul - (unsigned long)v, true) : num(v, false); } self& operator<<(unsigned long v) { return num(v, false); } self& operator<<(int v) { return *this << (long)v; } self& operator<<(unsigned v) { return num(v, false); } self& operator<<(short v) { return *this << (long)v; } self& operator<<(unsigned short v) { return num(v, false); } self& operator<<(long long v) { return *this << (long)v; } self& operator<<(unsigned long long v) { return num(v, false); }
  self& operator<<(bool v) { if (fl & boolalpha) return v ? padded("true", 4) : padded("false", 5); return num(v, false); }
  self& operator<<(double v) { char t[400], f[8] = "%.*"; (void)f; char fmt[32]; int k = 0; fmt[k++] = '%'; fmt[k++] = '.'; int p = (int)prec; if (p < 0) p = 6; if (p >= 10) fmt[k++] = '0' + p / 10; fmt[k++] = '0' + p % 10; fmt[k++] = (fl & floatfield) == fixed ? 'f' : (fl & floatfield) == scientific ? 'e' : 'g'; fmt[k] = 0; int n = fsx_fmt_double(t, sizeof t, fmt, v); return padded(t, n); }
  self& operator<<(float v) { return *this << (double)v; } self& operator<<(long double v) { return *this << (double)v; }
  self& operator<<(const void*) { return padded("0x1", 3); } self& operator<<(nullptr_t) { return padded("nullptr", 7); }
  streampos tellp() { return fail() ? streampos(-1) : streampos((streamoff)own.b.size()); } self& seekp(streampos) { return *this; } self& seekp(streamoff, ios_base::seekdir) { return *this; }
};
typedef basic_ostream<char, char_traits<char>> fsx_os;
inline fsx_os& operator<<(fsx_os& o, char c) { return o.padded(&c, 1); } inline fsx_os& operator<<(fsx_os& o, unsigned char c) { return o << (char)c; } inline fsx_os& operator<<(fsx_os& o, signed char c) { return o << (char)c; }
inline fsx_os& operator<<(fsx_os& o, const char* s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o.padded(s, char_traits<char>::length(s)); }
inline fsx_os& operator<<(fsx_os& o, const string& s) { return o.padded(s.data(), s.size()); }
inline fsx_os& operator<<(fsx_os& o, string_view s) { return o.padded(s.data(), s.size()); }
inline fsx_os& endl(fsx_os& o) { return o.put('\n'); } inline fsx_os& flush(fsx_os& o) { return o; } inline fsx_os& ends(fsx_os& o) { return o.put(0); }
template <class T> inline fsx_os& operator<<(fsx_os&& o, const T& v) { o << v; return o; }
template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>> {
 public:
  typedef basic_istream self; size_t gc = 0;
  basic_istream() {} virtual ~basic_istream() {}
  bool atEnd() { return own.r >= own.b.size(); }
  int peek() { gc = 0; if (!good()) return -1; if (atEnd()) { st |= eofbit; return -1; } return (unsigned char)own.b[own.r]; }
  int get() { gc = 0; if (!good()) { st |= failbit; return -1; } if (atEnd()) { st |= eofbit | failbit; return -1; } gc = 1; return (unsigned char)own.b[own.r++]; }
  self& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
  self& unget() { st &= ~eofbit; if (own.r) own.r--; return *this; } self& putback(char) { return unget(); }
  self& ignore(streamsize n = 1, int d = -1) { while (n-- > 0) { if (atEnd()) { st |= eofbit; break; } int c = (unsigned char)own.b[own.r++]; if (d >= 0 && c == d) break; } return *this; }
  self& read(char* p, streamsize n) { gc = 0; if (!good()) { st |= failbit; return *this; } while ((streamsize)gc < n) { if (atEnd()) { st |= eofbit | failbit; break; } p[gc++] = own.b[own.r++]; } return *this; }
  streamsize gcount() const { return gc; }
  self& getline(char* p, streamsize n, char d = '\n') { gc = 0; size_t k = 0; if (!good()) { st |= failbit; if (n) p[0] = 0; return *this; } for (;;) { if (atEnd()) { st |= eofbit; if (!gc) st |= failbit; break; } char c = own.b[own.r]; if (c == d) { own.r++; gc++; break; } if ((streamsize)k + 1 >= n) { st |= failbit; break; } p[k++] = c; own.r++; gc++; } if (n) p[k] = 0; return *this; }
  streampos tellg() { return fail() ? streampos(-1) : streampos((streamoff)own.r); } self& seekg(streampos p) { st &= ~eofbit; if (!fail()) own.r = (size_t)(streamoff)p; return *this; }
  self& seekg(streamoff o, ios_base::seekdir d) { st &= ~eofbit; if (!fail()) own.r = (d == ios_base::beg ? 0 : d == ios_base::cur ? own.r : own.b.size()) + o; return *this; }
  bool sentry_(bool noskip = false) { if (!good()) { st |= failbit; return false; } if ((fl & skipws) && !noskip) { while (!atEnd() && isspace((unsigned char)own.b[own.r])) own.r++; if (atEnd()) { st |= eofbit | failbit; return false; } } return true; }
  self& operator>>(self& (*f)(self&)) { return f(*this); } self& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  // integer extraction as num_get: optional sign, decimal digits; 0 and failbit when no digits; saturates with failbit
  template <class T> self& integer(T& v, T mn, T mx) {
    if (!sentry_()) return *this;
    bool neg = false; if (!atEnd() && (own.b[own.r] == '-' || own.b[own.r] == '+')) { neg = own.b[own.r] == '-'; own.r++; }
    unsigned __int128 lim; bool isu = mn == 0; if (isu) lim = (unsigned __int128)mx; else lim = neg ? (unsigned __int128)mx + 1 : (unsigned __int128)mx;
    unsigned long limu = (unsigned long)lim; unsigned long acc = 0; bool any = false, ov = false;
    while (!atEnd()) { unsigned char c = own.b[own.r]; if (c < '0' || c > '9') break; unsigned d = c - '0'; any = true; if (acc > limu / 10 || (acc == limu / 10 && d > limu % 10)) ov = true; else acc = acc * 10 + d; own.r++; }
    if (atEnd()) st |= eofbit;
    if (!any) { v = 0; st |= failbit; return *this; }
    if (ov) { v = (neg && !isu) ? mn : mx; st |= failbit; return *this; }
    v = neg ? (T)(0ul - acc) : (T)acc; return *this; }
  self& operator>>(long& v) { return integer<long>(v, -9223372036854775807L - 1, 9223372036854775807L); } self& operator>>(int& v) { return integer<int>(v, -2147483647 - 1, 2147483647); } self& operator>>(short& v) { return integer<short>(v, -32768, 32767); } self& operator>>(long long& v) { long x = v; integer<long>(x, -9223372036854775807L - 1, 9223372036854775807L); v = x; return *this; }
  self& operator>>(unsigned long& v) { return integer<unsigned long>(v, 0, ~0ul); } self& operator>>(unsigned& v) { return integer<unsigned>(v, 0, ~0u); } self& operator>>(unsigned short& v) { return integer<unsigned short>(v, 0, 65535); } self& operator>>(unsigned long long& v) { unsigned long x = v; integer<unsigned long>(x, 0, ~0ul); v = x; return *this; }
  self& operator>>(bool& v) { if (fl & boolalpha) { string w; if (!sentry_()) return *this; while (!atEnd() && isalpha((unsigned char)own.b[own.r])) w += own.b[own.r++]; if (atEnd()) st |= eofbit; if (w == "true") v = true; else { v = false; if (w != "false") st |= failbit; } return *this; } long x = -1; if (!sentry_()) return *this; integer<long>(x, -9223372036854775807L - 1, 9223372036854775807L); if (x == 0) v = false; else if (x == 1) v = true; else { v = true; st |= failbit; } return *this; }
  self& operator>>(double& v) { if (!sentry_()) return *this; char t[64]; int n = 0; bool dot = false, ex = false, dig = false;
    if (!atEnd() && (own.b[own.r] == '-' || own.b[own.r] == '+')) t[n++] = own.b[own.r++];
    while (!atEnd() && n < 60) { char c = own.b[own.r]; if (c >= '0' && c <= '9') dig = true; else if (c == '.' && !dot && !ex) dot = true; else if ((c == 'e' || c == 'E') && !ex && dig) { ex = true; t[n++] = c; own.r++; if (!atEnd() && (own.b[own.r] == '-' || own.b[own.r] == '+')) t[n++] = own.b[own.r++]; continue; } else break; t[n++] = c; own.r++; }
    if (atEnd()) st |= eofbit; t[n] = 0; for (int i = 0; i < n; i++) t[i] = (char)fsx_concretize((unsigned char)t[i]); char* e; double d = fsx_strtod(t, &e); if (n == 0 || e != t + n) { v = 0; st |= failbit; } else v = d; return *this; }
  self& operator>>(float& v) { double d = v; *this >> d; v = (float)d; return *this; } self& operator>>(long double& v) { double d = 0; *this >> d; v = d; return *this; }
};
typedef basic_istream<char, char_traits<char>> fsx_is;
inline fsx_is& operator>>(fsx_is& i, char& c) { if (i.sentry_()) c = i.own.b[i.own.r++]; return i; } inline fsx_is& operator>>(fsx_is& i, unsigned char& c) { return i >> (char&)c; } inline fsx_is& operator>>(fsx_is& i, signed char& c) { return i >> (char&)c; }
inline fsx_is& operator>>(fsx_is& i, string& s) { if (!i.sentry_()) return i; s.clear(); while (!i.atEnd() && !isspace((unsigned char)i.own.b[i.own.r])) s += i.own.b[i.own.r++]; if (i.atEnd()) i.st |= ios_base::eofbit; if (s.empty()) i.st |= ios_base::failbit; return i; }
inline fsx_is& getline(fsx_is& i, string& s, char d) { if (!i.sentry_(true)) return i; s.clear(); bool any = false; for (;;) { if (i.atEnd()) { i.st |= ios_base::eofbit; if (!any) i.st |= ios_base::failbit; break; } any = true; char c = i.own.b[i.own.r++]; if (c == d) break; s += c; } return i; }
inline fsx_is& getline(fsx_is& i, string& s) { return getline(i, s, '\n'); }
inline fsx_is& ws(fsx_is& i) { while (!i.atEnd() && isspace((unsigned char)i.own.b[i.own.r])) i.own.r++; if (i.atEnd()) i.st |= ios_base::eofbit; return i; }
template <> class basic_iostream<char, char_traits<char>> : public fsx_is, public fsx_os { public: basic_iostream() {} virtual ~basic_iostream() {} };
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char, char_traits<char>> { public: basic_stringstream() {} explicit basic_stringstream(ios_base::openmode) {} explicit basic_stringstream(const string& s, ios_base::openmode = 0) { own.b = s; } basic_stringstream(basic_stringstream&& o) { own = o.own; st = o.st; } string str() const { return own.b; } void str(const string& s) { own.b = s; own.r = 0; } };
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public fsx_is { public: basic_istringstream() {} explicit basic_istringstream(const string& s, ios_base::openmode = 0) { own.b = s; } string str() const { return own.b; } void str(const string& s) { own.b = s; own.r = 0; } };
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public fsx_os { public: basic_ostringstream() {} explicit basic_ostringstream(const string& s, ios_base::openmode = 0) { own.b = s; } basic_ostringstream(basic_ostringstream&& o) { own = o.own; st = o.st; } string str() const { return own.b; } void str(const string& s) { own.b = s; } };
template <> class basic_ifstream<char, char_traits<char>> : public fsx_is { public: basic_ifstream() {} explicit basic_ifstream(const string& f, ios_base::openmode = ios_base::in) { open(f); } explicit basic_ifstream(const char* f, ios_base::openmode = ios_base::in) { open(string(f)); } void open(const string& f, ios_base::openmode = ios_base::in) { auto it = fsx_vfs().find(f); if (it == fsx_vfs().end()) st |= failbit; else { own.b = it->second; own.r = 0; own.open_ = true; } } bool is_open() const { return own.open_; } void close() { own.open_ = false; } };
template <> class basic_ofstream<char, char_traits<char>> : public fsx_os { public: basic_ofstream() {} explicit basic_ofstream(const string& f, ios_base::openmode = ios_base::out) { open(f); } explicit basic_ofstream(const char* f, ios_base::openmode = ios_base::out) { open(string(f)); } ~basic_ofstream() { close(); } void open(const string& f, ios_base::openmode m = ios_base::out) { own.fname = f; own.open_ = true; if (m & app) own.b = fsx_vfs()[f]; else fsx_vfs()[f] = ""; } bool is_open() const { return own.open_; } void close() { if (own.open_) fsx_vfs()[own.fname] = own.b; own.open_ = false; } };
template <> class basic_fstream<char, char_traits<char>> : public basic_iostream<char, char_traits<char>> { public: basic_fstream() {} explicit basic_fstream(const string& f, ios_base::openmode m = ios_base::in | ios_base::out) { open(f, m); } ~basic_fstream() { close(); } bool w_ = false; void open(const string& f, ios_base::openmode m) { w_ = m & out; own.fname = f; auto it = fsx_vfs().find(f); if (it != fsx_vfs().end() && !(m & trunc)) { own.b = it->second; own.open_ = true; } else if (w_) own.open_ = true; else st |= failbit; } bool is_open() const { return own.open_; } void close() { if (own.open_ && w_) fsx_vfs()[own.fname] = own.b; own.open_ = false; } };
struct fsx_null_os : public fsx_os { fsx_null_os() { own.drop = true; } };
inline fsx_null_os cout, cerr, clog; inline fsx_is cin;
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; } inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; } inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; } inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; } inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
struct fsx_setw { int n; }; inline fsx_setw setw(int n) { return {n}; } inline fsx_os& operator<<(fsx_os& o, fsx_setw s) { o.width(s.n); return o; }
struct fsx_setp { int n; }; inline fsx_setp setprecision(int n) { return {n}; } inline fsx_os& operator<<(fsx_os& o, fsx_setp s) { o.precision(s.n); return o; }
struct fsx_setf { char c; }; inline fsx_setf setfill(char c) { return {c}; } inline fsx_os& operator<<(fsx_os& o, fsx_setf s) { o.fill(s.c); return o; }
}
