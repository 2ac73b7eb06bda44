// A minimal document tree with the interface of the XML reader and writer, for code that
// only needs push / pop / read / write / count (libxml2's wrapper is not in the tree).
#ifndef XMLSTUB_H
#define XMLSTUB_H
#include <memory>
#include <sstream>
namespace QDP {
using QDPUtil::n_uint32_t;
struct XNode { std::string name, text; std::vector<std::shared_ptr<XNode>> kids; };
class XMLWriter {
public:
  std::shared_ptr<XNode> root = std::make_shared<XNode>(); std::vector<std::shared_ptr<XNode>> st{root};
  virtual ~XMLWriter() {}
  void pushN(const std::string& n) { auto k = std::make_shared<XNode>(); k->name = n; st.back()->kids.push_back(k); st.push_back(k); }
  void popN() { if (st.size() < 2) throw std::string("pop without push"); st.pop_back(); }
};
class XMLBufferWriter : public XMLWriter {};
class XMLReader {
public:
  std::shared_ptr<XNode> at;
  XMLReader() {}
  explicit XMLReader(const XMLBufferWriter& w) : at(w.root) {}
  XMLReader(XMLReader& x, const std::string& p) : at(x.find(p)) {}
  void open(const XMLBufferWriter& w) { at = w.root; }
  void close() { at.reset(); }
  std::shared_ptr<XNode> find(std::string p) {
    if (!at) throw std::string("reader is closed");
    while (!p.empty() && p[0] == '/') p = p.substr(1);
    int ix = 1; size_t b = p.find('['); if (b != std::string::npos) { ix = atoi(p.c_str() + b + 1); p = p.substr(0, b); }
    for (auto& k : at->kids) if (k->name == p && --ix == 0) return k;
    throw std::string("no tag ") + p;
  }
  int count(const std::string& p) { int n = 0; if (!at) throw std::string("reader is closed"); for (auto& k : at->kids) n += k->name == p; return n; }
};
inline void push(XMLWriter& x, const std::string& n) { x.pushN(n); }
inline void pop(XMLWriter& x) { x.popN(); }
template <class T> std::string xtext(const T& v) { std::ostringstream s; s.precision(17); s << v; return s.str(); }
inline void write(XMLWriter& x, const std::string& n, const std::string& v) { x.pushN(n); x.st.back()->text = v; x.popN(); }
inline void write(XMLWriter& x, const std::string& n, const char* v) { write(x, n, std::string(v)); }
template <class T> std::enable_if_t<std::is_arithmetic<T>::value> write(XMLWriter& x, const std::string& n, const T& v) { write(x, n, xtext(v)); }
template <class T> void write(XMLWriter& x, const std::string& n, const OScalar<T>& v) { write(x, n, xtext(toDouble(v))); }
inline void write(XMLWriter& x, const std::string& n, const multi1d<int>& v) { std::string s; for (int i = 0; i < v.size(); ++i) s += (i ? " " : "") + std::to_string(v[i]); write(x, n, s); }
inline void read(XMLReader& x, const std::string& n, std::string& v) { v = x.find(n)->text; }
template <class T> std::enable_if_t<std::is_arithmetic<T>::value> read(XMLReader& x, const std::string& n, T& v) { std::istringstream s(x.find(n)->text); if (!(s >> v)) throw std::string("bad value in ") + n; }
template <class T> void read(XMLReader& x, const std::string& n, OScalar<T>& v) { double d; read(x, n, d); v = d; }
inline void read(XMLReader& x, const std::string& n, multi1d<int>& v) { std::istringstream s(x.find(n)->text); std::vector<int> t; int k; while (s >> k) t.push_back(k); v.resize((int)t.size()); for (size_t i = 0; i < t.size(); ++i) v[i] = t[i]; }
} // namespace QDP
#endif
