// Replacement for the iostream family while compiling for symbolic execution.
// Streams are backed by strings; files live in an in-memory file system (rt.cpp).
#ifndef FS_IOSTREAM_H
#define FS_IOSTREAM_H
#include <iosfwd>
#include <string>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <exception>

extern "C" {
  // implemented in rt.cpp
  void fs_out_write(int fd, const char *p, size_t n);
}
bool fs_file_read(const std::string &name, std::string &content);
bool fs_file_write(const std::string &name, const std::string &content, bool append);
int  fs_stdin_get();
int  fs_stdin_peek();
void fs_fmt_double(std::string &out, double d, int prec, int mode);

namespace std {
typedef ptrdiff_t streamsize;
typedef long streamoff;

class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static const fmtflags dec=1, hex=2, oct=4, fixed=8, scientific=16, left=32, right=64, boolalpha=128, skipws=256, showpoint=512, uppercase=1024, internal=2048, showbase=4096, showpos=8192, unitbuf=16384;
  static const fmtflags adjustfield = left|right|internal, basefield = dec|hex|oct, floatfield = fixed|scientific;
  static const iostate goodbit=0, badbit=1, eofbit=2, failbit=4;
  static const openmode in=1, out=2, app=4, ate=8, trunc=16, binary=32;
  static const seekdir beg=0, cur=1, end=2;
  class failure : public exception {};
  fmtflags flags() const { return m_flags; }
  fmtflags flags(fmtflags f) { fmtflags o=m_flags; m_flags=f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o=m_flags; m_flags|=f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o=m_flags; m_flags=(m_flags&~m)|(f&m); return o; }
  void unsetf(fmtflags m) { m_flags&=~m; }
  streamsize precision() const { return m_prec; }
  streamsize precision(streamsize p) { streamsize o=m_prec; m_prec=p; return o; }
  streamsize width() const { return m_width; }
  streamsize width(streamsize p) { streamsize o=m_width; m_width=p; return o; }
  static bool sync_with_stdio(bool=true) { return true; }
protected:
  ios_base() : m_flags(dec|skipws), m_prec(6), m_width(0), m_state(goodbit), m_exc(0) {}
  virtual ~ios_base() {}
  fmtflags m_flags; streamsize m_prec, m_width; iostate m_state, m_exc;
};

template<> class basic_streambuf<char, char_traits<char> > {
public:
  typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef long pos_type; typedef long off_type;
  basic_streambuf() : m_pos(0), m_kind(0), m_fd(-1) {}
  virtual ~basic_streambuf() {}
  int sgetc() { if (m_kind==2) return fs_stdin_peek(); return m_pos < m_buf.size() ? (unsigned char)m_buf[m_pos] : -1; }
  int sbumpc() { if (m_kind==2) return fs_stdin_get(); return m_pos < m_buf.size() ? (unsigned char)m_buf[m_pos++] : -1; }
  int snextc() { return sbumpc() == -1 ? -1 : sgetc(); }
  int sputc(char c) { sputn(&c,1); return (unsigned char)c; }
  streamsize sputn(const char *p, streamsize n) { if (m_kind==1) fs_out_write(m_fd,p,n); else m_buf.append(p,n); return n; }
  streamsize in_avail() { return m_buf.size()-m_pos; }
  // shim internals
  string m_buf; size_t m_pos; int m_kind; int m_fd;
};
typedef basic_streambuf<char, char_traits<char> > fs_streambuf;

template<> class basic_ios<char, char_traits<char> > : public ios_base {
public:
  typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type;
  basic_ios() : m_sb(0), m_fill(' ') {}
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  bool good() const { return m_state==0; }
  bool eof() const { return (m_state & eofbit)!=0; }
  bool fail() const { return (m_state & (failbit|badbit))!=0; }
  bool bad() const { return (m_state & badbit)!=0; }
  iostate rdstate() const { return m_state; }
  void clear(iostate s=goodbit) { m_state=s; }
  void setstate(iostate s) { m_state|=s; }
  char fill() const { return m_fill; }
  char fill(char c) { char o=m_fill; m_fill=c; return o; }
  fs_streambuf *rdbuf() const { return m_sb; }
  fs_streambuf *rdbuf(fs_streambuf *b) { fs_streambuf *o=m_sb; m_sb=b; return o; }
  iostate exceptions() const { return m_exc; }
  void exceptions(iostate e) { m_exc=e; }
protected:
  fs_streambuf *m_sb; char m_fill;
};
typedef basic_ios<char, char_traits<char> > fs_ios;

template<> class basic_ostream<char, char_traits<char> > : virtual public basic_ios<char, char_traits<char> > {
public:
  basic_ostream() {}
  explicit basic_ostream(fs_streambuf *b) { m_sb=b; }
  void fs_put(const char *p, size_t n) {
    if (m_width > 0 && (size_t)m_width > n) {
      string pad((size_t)m_width-n, m_fill);
      m_width=0;
      if (m_flags & left) { m_sb->sputn(p,n); m_sb->sputn(pad.data(),pad.size()); }
      else { m_sb->sputn(pad.data(),pad.size()); m_sb->sputn(p,n); }
      return;
    }
    m_width=0;
    m_sb->sputn(p,n);
  }
  basic_ostream &put(char c) { m_sb->sputn(&c,1); return *this; }
  basic_ostream &write(const char *p, streamsize n) { m_sb->sputn(p,n); return *this; }
  basic_ostream &flush() { return *this; }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream &operator<<(bool b) { if (m_flags & boolalpha) fs_put(b?"true":"false", b?4:5); else fs_put(b?"1":"0",1); return *this; }
  basic_ostream &operator<<(short v) { return fs_int((long long)v, (unsigned short)v); }
  basic_ostream &operator<<(unsigned short v) { return fs_uint(v); }
  basic_ostream &operator<<(int v) { return fs_int(v, (unsigned)v); }
  basic_ostream &operator<<(unsigned v) { return fs_uint(v); }
  basic_ostream &operator<<(long v) { return fs_int(v, (unsigned long)v); }
  basic_ostream &operator<<(unsigned long v) { return fs_uint(v); }
  basic_ostream &operator<<(long long v) { return fs_int(v, (unsigned long long)v); }
  basic_ostream &operator<<(unsigned long long v) { return fs_uint(v); }
  basic_ostream &operator<<(float v) { return *this << (double)v; }
  basic_ostream &operator<<(double v) { string s; fs_fmt_double(s, v, (int)m_prec, (m_flags&fixed)?1:(m_flags&scientific)?2:0); fs_put(s.data(), s.size()); return *this; }
  basic_ostream &operator<<(const void *p) { fs_put("0x0",3); return *this; }
  basic_ostream &operator<<(fs_streambuf *b) { int c; while ((c=b->sbumpc())!=-1) put((char)c); return *this; }
  long tellp() { return (long)m_sb->m_buf.size(); }
private:
  basic_ostream &fs_uint(unsigned long long v) {
    unsigned base = (m_flags&hex)?16:(m_flags&oct)?8:10; char b[32]; int n=32;
    do { b[--n]="0123456789abcdef"[v%base]; v/=base; } while(v);
    fs_put(b+n, 32-n); return *this; }
  basic_ostream &fs_int(long long v, unsigned long long u) {
    if (m_flags&(hex|oct)) return fs_uint(u);
    string s = to_string(v); fs_put(s.data(), s.size()); return *this; }
};
typedef basic_ostream<char, char_traits<char> > fs_ostream;

inline fs_ostream &operator<<(fs_ostream &o, const char *p) { o.fs_put(p, strlen(p)); return o; }
inline fs_ostream &operator<<(fs_ostream &o, const string &s) { o.fs_put(s.data(), s.size()); return o; }
inline fs_ostream &operator<<(fs_ostream &o, char c) { o.fs_put(&c,1); return o; }
inline fs_ostream &operator<<(fs_ostream &o, signed char c) { o.fs_put((const char*)&c,1); return o; }
inline fs_ostream &operator<<(fs_ostream &o, unsigned char c) { o.fs_put((const char*)&c,1); return o; }
inline fs_ostream &endl(fs_ostream &o) { o.put('\n'); return o; }
inline fs_ostream &ends(fs_ostream &o) { o.put(0); return o; }
inline fs_ostream &flush(fs_ostream &o) { return o; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }

template<> class basic_istream<char, char_traits<char> > : virtual public basic_ios<char, char_traits<char> > {
public:
  basic_istream() : m_gcount(0) {}
  explicit basic_istream(fs_streambuf *b) : m_gcount(0) { m_sb=b; }
  int get() { int c=m_sb->sbumpc(); m_gcount = c!=-1; if (c==-1) setstate(eofbit|failbit); return c; }
  basic_istream &get(char &ch) { int c=get(); if (c!=-1) ch=(char)c; return *this; }
  int peek() { int c=m_sb->sgetc(); if (c==-1) setstate(eofbit); return c; }
  basic_istream &read(char *p, streamsize n) { m_gcount=0; while (m_gcount<n) { int c=m_sb->sbumpc(); if (c==-1) { setstate(eofbit|failbit); break; } p[m_gcount++]=(char)c; } return *this; }
  basic_istream &unget() { if (m_sb->m_pos) m_sb->m_pos--; return *this; }
  basic_istream &ignore(streamsize n=1, int delim=-1) { while (n-- > 0) { int c=m_sb->sbumpc(); if (c==-1) { setstate(eofbit); break; } if (c==delim) break; } return *this; }
  streamsize gcount() const { return m_gcount; }
  long tellg() { return (long)m_sb->m_pos; }
  basic_istream &seekg(long p) { m_state&=~eofbit; m_sb->m_pos=(size_t)p; return *this; }
  basic_istream &seekg(long p, int dir) { m_state&=~eofbit; m_sb->m_pos=(size_t)(p + (dir==0?0:dir==1?(long)m_sb->m_pos:(long)m_sb->m_buf.size())); return *this; }
  bool fs_skip() { if (!good()) { setstate(failbit); return false; } if (m_flags & skipws) { int c; while ((c=m_sb->sgetc())!=-1 && (c==' '||(c>=9&&c<=13))) m_sb->sbumpc(); } if (m_sb->sgetc()==-1) { setstate(eofbit|failbit); return false; } return true; }
  bool fs_word(string &s) { s.clear(); if (!fs_skip()) return false; int c; while ((c=m_sb->sgetc())!=-1 && !(c==' '||(c>=9&&c<=13))) { s+=(char)c; m_sb->sbumpc(); } if (c==-1) setstate(eofbit); return true; }
  bool fs_intword(string &s) { s.clear(); if (!fs_skip()) return false; int c=m_sb->sgetc(); if (c=='+'||c=='-') { s+=(char)c; m_sb->sbumpc(); } bool any=false; while ((c=m_sb->sgetc())!=-1 && c>='0'&&c<='9') { s+=(char)c; any=true; m_sb->sbumpc(); } if (c==-1) setstate(eofbit); if (!any) setstate(failbit); return any; }
  basic_istream &operator>>(int &v) { string s; v=0; if (fs_intword(s)) { long l=strtol(s.c_str(),0,10); if (l>2147483647L) { v=2147483647; setstate(failbit); } else if (l < -2147483647L-1) { v=-2147483647-1; setstate(failbit); } else v=(int)l; } return *this; }
  basic_istream &operator>>(long &v) { string s; v=0; if (fs_intword(s)) v=strtol(s.c_str(),0,10); return *this; }
  basic_istream &operator>>(unsigned &v) { string s; v=0; if (fs_intword(s)) v=(unsigned)strtol(s.c_str(),0,10); return *this; }
  basic_istream &operator>>(double &v) { v=0; string s; if (!fs_skip()) return *this; int c; while ((c=m_sb->sgetc())!=-1 && ((c>='0'&&c<='9')||c=='+'||c=='-'||c=='.'||c=='e'||c=='E')) { s+=(char)c; m_sb->sbumpc(); } if (c==-1) setstate(eofbit); char *e; v=strtod(s.c_str(),&e); if (s.empty()||*e) setstate(failbit); return *this; }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
protected:
  streamsize m_gcount;
};
typedef basic_istream<char, char_traits<char> > fs_istream;
inline fs_istream &operator>>(fs_istream &i, string &s) { i.fs_word(s); return i; }
inline fs_istream &operator>>(fs_istream &i, char &c) { if (i.fs_skip()) c=(char)i.rdbuf()->sbumpc(); return i; }
inline fs_istream &ws(fs_istream &i) { int c; while ((c=i.rdbuf()->sgetc())!=-1 && (c==' '||(c>=9&&c<=13))) i.rdbuf()->sbumpc(); return i; }
inline fs_istream &getline(fs_istream &i, string &s, char delim) {
  s.clear(); if (!i.good()) { i.setstate(ios_base::failbit); return i; }
  bool any=false; int c;
  for(;;) { c=i.rdbuf()->sbumpc(); if (c==-1) { i.setstate(ios_base::eofbit | (any?0:ios_base::failbit)); break; } any=true; if (c==(unsigned char)delim) break; s+=(char)c; }
  return i; }
inline fs_istream &getline(fs_istream &i, string &s) { return getline(i,s,'\n'); }

template<> class basic_iostream<char, char_traits<char> > : public fs_istream, public fs_ostream { public: basic_iostream() {} };

#define FS_SS(NAME,BASE) \
template<> class NAME<char, char_traits<char>, allocator<char> > : public BASE { public: \
  NAME() { m_sb=&m_own; } \
  explicit NAME(ios_base::openmode) { m_sb=&m_own; } \
  explicit NAME(const string &s, ios_base::openmode m=3) { m_own.m_buf=s; m_sb=&m_own; } \
  string str() const { return m_own.m_buf; } \
  void str(const string &s) { m_own.m_buf=s; m_own.m_pos=0; } \
private: NAME(const NAME&); fs_streambuf m_own; };
FS_SS(basic_ostringstream, fs_ostream)
FS_SS(basic_istringstream, fs_istream)
typedef basic_iostream<char, char_traits<char> > fs_iostream_t;
FS_SS(basic_stringstream, fs_iostream_t)
#undef FS_SS

template<> class basic_ifstream<char, char_traits<char> > : public fs_istream { public:
  basic_ifstream() : m_open(false) { m_sb=&m_own; }
  explicit basic_ifstream(const string &n, ios_base::openmode=1) : m_open(false) { m_sb=&m_own; open(n); }
  explicit basic_ifstream(const char *n, ios_base::openmode=1) : m_open(false) { m_sb=&m_own; open(string(n)); }
  void open(const string &n, ios_base::openmode=1) { m_own.m_pos=0; m_own.m_buf.clear(); m_open=fs_file_read(n,m_own.m_buf); m_state = m_open?0:failbit; }
  bool is_open() const { return m_open; }
  void close() { if (!m_open) setstate(failbit); m_open=false; }
private: basic_ifstream(const basic_ifstream&); fs_streambuf m_own; bool m_open; };

template<> class basic_ofstream<char, char_traits<char> > : public fs_ostream { public:
  basic_ofstream() : m_open(false), m_app(false) { m_sb=&m_own; }
  explicit basic_ofstream(const string &n, ios_base::openmode m=2) : m_open(false), m_app(false) { m_sb=&m_own; open(n,m); }
  explicit basic_ofstream(const char *n, ios_base::openmode m=2) : m_open(false), m_app(false) { m_sb=&m_own; open(string(n),m); }
  ~basic_ofstream() { fs_sync(); }
  void open(const string &n, ios_base::openmode m=2) { m_name=n; m_app=(m&app)!=0; m_own.m_buf.clear(); m_open=fs_file_write(n,string(),m_app); m_state = m_open?0:badbit|failbit; }
  void fs_sync() { if (m_open && !m_own.m_buf.empty()) { fs_file_write(m_name,m_own.m_buf,true); m_own.m_buf.clear(); } }
  basic_ofstream &flush() { fs_sync(); return *this; }
  bool is_open() const { return m_open; }
  void close() { if (!m_open) setstate(failbit); fs_sync(); m_open=false; }
private: basic_ofstream(const basic_ofstream&); string m_name; fs_streambuf m_own; bool m_open, m_app; };

struct fs_setw { int n; }; struct fs_setprec { int n; }; struct fs_setfill { char c; };
inline fs_setw setw(int n) { fs_setw r={n}; return r; }
inline fs_setprec setprecision(int n) { fs_setprec r={n}; return r; }
inline fs_setfill setfill(char c) { fs_setfill r={c}; return r; }
inline fs_ostream &operator<<(fs_ostream &o, fs_setw m) { o.width(m.n); return o; }
inline fs_ostream &operator<<(fs_ostream &o, fs_setprec m) { o.precision(m.n); return o; }
inline fs_ostream &operator<<(fs_ostream &o, fs_setfill m) { o.fill(m.c); return o; }

extern fs_ostream cout, cerr, clog;
extern fs_istream cin;
}
#include <bits/streambuf_iterator.h>
#endif
