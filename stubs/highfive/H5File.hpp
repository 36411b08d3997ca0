// Offline stand-in for HighFive/HDF5: an in-memory file system of data files with the
// access rules of the real library (exclusive creation, bounds checks on selections,
// groups/datasets/attributes that already exist are refused, a closed file can not be used).
#ifndef VERIF_STUB_HIGHFIVE
#define VERIF_STUB_HIGHFIVE
#include <string>
#include <vector>
#include <map>
#include <set>
#include <exception>
#include <cstdlib>
#include <cstdint>
#include <sys/stat.h>
typedef unsigned long long hsize_t;
typedef int64_t hid_t;
#define H5E_DEFAULT 0
typedef int (*H5E_auto2_t)(hid_t, void *);
inline int H5Eset_auto(hid_t, H5E_auto2_t, void *) { return 0; }
inline int H5Eset_auto2(hid_t, H5E_auto2_t, void *) { return 0; }

namespace HighFive {
  class File;
}
namespace h5stub {
  struct Dataset {
    std::vector<size_t> dims, maxdims;
    std::vector<double> data;       // row-major
    std::vector<unsigned> writes;   // how often every element was written
    size_t count(const std::vector<size_t> &d) const { size_t n = 1; for (size_t x : d) n *= x; return n; }
  };
  struct FileData {
    std::map<std::string, Dataset> datasets;
    std::set<std::string> groups{""};
    std::map<std::string, std::string> attrs;   // printed value
    unsigned opens = 0, closes = 0;
  };
  struct World {
    std::map<std::string, FileData*> files;
    std::set<const void *> live;                // open handles
    std::vector<std::string> errors;            // use after close, double close, closed twice...
    void (*hook)(const char *op) = nullptr;     // called at every library call
    unsigned long calls = 0, writes = 0;
    volatile long *mirror = nullptr;            // opens, closes, errors: kept outside of the process
    bool check_dirs = false;                    // a file can be created in an existing directory only
    void err(const std::string &e) { errors.push_back(e); if (mirror) ++mirror[2]; }
    size_t open_handles() const { return live.size(); }
    void reset() { files.clear(); live.clear(); errors.clear(); calls = writes = 0; }
  };
  inline World &world() { static World *w = new World(); return *w; }
  inline void call(const char *op) { World &w = world(); ++w.calls; if (w.hook) w.hook(op); }
  inline std::string norm(const std::string &p) {
    std::string r; bool sl = true;
    for (char c : p) { if (c == '/') { if (!sl) r += c; sl = true; } else { r += c; sl = false; } }
    while (!r.empty() && r.back() == '/') r.pop_back();
    return r;
  }
}
namespace HighFive {
  class Exception : public std::exception {
  public:
    explicit Exception(const std::string &s) : m_(s) {}
    ~Exception() noexcept override {}
    const char *what() const noexcept override { return m_.c_str(); }
    virtual void setErrorMsg(const std::string &s) { m_ = s; }
  protected:
    std::string m_;
  };
#define H5STUB_EXC(n) class n : public Exception { public: explicit n(const std::string &s) : Exception(s) {} };
  H5STUB_EXC(ObjectException) H5STUB_EXC(DataTypeException) H5STUB_EXC(FileException) H5STUB_EXC(DataSpaceException)
  H5STUB_EXC(AttributeException) H5STUB_EXC(DataSetException) H5STUB_EXC(GroupException) H5STUB_EXC(PropertyException) H5STUB_EXC(ReferenceException)

  class DataSpace {
  public:
    static const size_t UNLIMITED = SIZE_MAX;
    DataSpace() {}
    explicit DataSpace(const std::vector<size_t> &d) : dims_(d), max_(d) {}
    DataSpace(const std::vector<size_t> &d, const std::vector<size_t> &m) : dims_(d), max_(m) {}
    DataSpace(std::initializer_list<size_t> d) : dims_(d), max_(d) {}
    template <typename T> static DataSpace From(const T &) { return DataSpace(std::vector<size_t>{1}); }
    const std::vector<size_t> &getDimensions() const { return dims_; }
    const std::vector<size_t> &getMaxDimensions() const { return max_; }
    std::vector<size_t> dims_, max_;
  };
  class DataType {};
  template <typename T> class AtomicType : public DataType {};
  class Chunking { public: explicit Chunking(const std::vector<hsize_t> &d) : dims(d) {} Chunking(std::initializer_list<hsize_t> d) : dims(d) {} std::vector<hsize_t> dims; };
  class Deflate { public: explicit Deflate(unsigned) {} };
  class Shuffle {};
  class DataSetCreateProps { public: std::vector<hsize_t> chunk; void add(const Chunking &c) { for (auto d : c.dims) if (d == 0) throw PropertyException("zero sized chunk"); chunk = c.dims; } template <typename T> void add(const T &) {} };

  inline std::string to_attr(const std::string &s) { return s; }
  inline std::string to_attr(const char *s) { return s; }
  inline std::string to_attr(bool b) { return b ? "1" : "0"; }
  template <typename T> std::string to_attr(const T &x) { return std::to_string(x); }

  class Attribute {
  public:
    Attribute() {}
    Attribute(h5stub::FileData* f, const std::string &n) : f_(f), n_(n) {}
    template <typename T> void write(const T &x) { h5stub::call("attr.write"); f_->attrs[n_] = to_attr(x); }
  private:
    h5stub::FileData* f_; std::string n_;
  };

  inline void flat_(const double &x, std::vector<double> &o, std::vector<size_t> &, size_t) { o.push_back(x); }
  template <typename T> void flat_(const std::vector<T> &v, std::vector<double> &o, std::vector<size_t> &sh, size_t d) {
    if (sh.size() <= d) sh.push_back(v.size()); else if (sh[d] != v.size()) throw DataSpaceException("ragged buffer");
    for (auto &x : v) flat_(x, o, sh, d + 1);
  }

  class DataSet;
  class Selection {
  public:
    Selection(h5stub::FileData* f, const std::string &p, const void *h, const std::vector<size_t> &o, const std::vector<size_t> &c)
      : f_(f), p_(p), h_(h), off_(o), cnt_(c) {}
    template <typename T> void write(const T &buf) {
      h5stub::call("write");
      if (!h5stub::world().live.count(h_)) { h5stub::world().err("write through a closed file: " + p_); throw DataSetException("file is closed"); }
      h5stub::Dataset &d = f_->datasets[p_];
      std::vector<double> v; std::vector<size_t> sh; flat_(buf, v, sh, 0);
      size_t n = 1; for (size_t c : cnt_) n *= c;
      if (v.size() != n) throw DataSpaceException("buffer size does not match selection");
      std::vector<size_t> a, b; for (size_t x : sh) if (x != 1) a.push_back(x); for (size_t x : cnt_) if (x != 1) b.push_back(x);
      if (a != b) throw DataSpaceException("buffer shape does not match selection");
      if (off_.size() != d.dims.size() || cnt_.size() != d.dims.size()) throw DataSpaceException("rank mismatch");
      for (size_t i = 0; i < d.dims.size(); ++i) if (off_[i] + cnt_[i] > d.dims[i] || off_[i] > d.dims[i]) throw DataSetException("selection is out of the dataset: " + p_);
      ++h5stub::world().writes;
      if (!n) return;
      std::vector<size_t> ix(cnt_.size(), 0);
      for (size_t k = 0; k < n; ++k) {
        size_t at = 0; for (size_t i = 0; i < ix.size(); ++i) at = at * d.dims[i] + off_[i] + ix[i];
        d.data[at] = v[k]; ++d.writes[at];
        for (size_t i = ix.size(); i-- > 0;) { if (++ix[i] < cnt_[i]) break; ix[i] = 0; }
      }
    }
  private:
    h5stub::FileData* f_; std::string p_; const void *h_; std::vector<size_t> off_, cnt_;
  };
  class DataSet {
  public:
    DataSet() {}
    DataSet(h5stub::FileData* f, const std::string &p, const void *h) : f_(f), p_(p), h_(h) {}
    Selection select(const std::vector<size_t> &o, const std::vector<size_t> &c) const {
      if (o.size() != c.size()) throw DataSpaceException("rank mismatch");
      return Selection(f_, p_, h_, o, c); }
    template <typename T> void write(const T &b) { std::vector<size_t> z(f_->datasets[p_].dims.size(), 0); select(z, f_->datasets[p_].dims).write(b); }
    std::vector<size_t> getDimensions() const { return f_->datasets[p_].dims; }
    DataSpace getSpace() const { auto &d = f_->datasets[p_]; return DataSpace(d.dims, d.maxdims); }
    void resize(const std::vector<size_t> &n) {
      h5stub::call("resize");
      if (!h5stub::world().live.count(h_)) { h5stub::world().err("resize through a closed file: " + p_); throw DataSetException("file is closed"); }
      h5stub::Dataset &d = f_->datasets[p_];
      if (n.size() != d.dims.size()) throw DataSetException("Invalid dataspace dimensions");
      for (size_t i = 0; i < n.size(); ++i) if (d.maxdims[i] != DataSpace::UNLIMITED && n[i] > d.maxdims[i]) throw DataSetException("Could not resize dataset");
      if (std::equal(n.begin() + 1, n.end(), d.dims.begin() + 1)) { d.dims = n; size_t c = d.count(n); d.data.resize(c, 0); d.writes.resize(c, 0); return; }
      h5stub::Dataset e; e.dims = n; e.maxdims = d.maxdims; size_t c = e.count(n); e.data.assign(c, 0); e.writes.assign(c, 0);
      for (size_t k = 0; k < c; ++k) {
        size_t r = k, at = 0; bool in = true; std::vector<size_t> ix(n.size());
        for (size_t i = n.size(); i-- > 0;) { ix[i] = r % n[i]; r /= n[i]; }
        for (size_t i = 0; i < n.size(); ++i) { if (ix[i] >= d.dims[i]) in = false; at = at * d.dims[i] + ix[i]; }
        if (in) { e.data[k] = d.data[at]; e.writes[k] = d.writes[at]; }
      }
      d = e;
    }
  private:
    h5stub::FileData* f_; std::string p_; const void *h_ = nullptr;
  };

  template <class Derived> class NodeTraits {
  public:
    bool exist(const std::string &n) const { auto *s = self("exist"); std::string p = s->full(n); return s->d_->groups.count(p) || s->d_->datasets.count(p); }
    DataSet createDataSet(const std::string &n, const DataSpace &sp, const DataType &, const DataSetCreateProps & = DataSetCreateProps()) { return make(n, sp); }
    template <typename T> DataSet createDataSet(const std::string &n, const DataSpace &sp, const DataSetCreateProps & = DataSetCreateProps()) { return make(n, sp); }
    DataSet getDataSet(const std::string &n) const {
      auto *s = self("getDataSet"); std::string p = s->full(n);
      if (!s->d_->datasets.count(p)) throw DataSetException("Unable to open the dataset \"" + n + "\"");
      return DataSet(s->d_, p, s->handle()); }
    template <typename T> Attribute createAttribute(const std::string &n, const DataSpace &) {
      auto *s = self("createAttribute"); std::string k = s->full("") + "@" + n;
      if (s->d_->attrs.count(k)) throw AttributeException("Unable to create the attribute \"" + n + "\"");
      s->d_->attrs[k] = ""; return Attribute(s->d_, k); }
    bool hasAttribute(const std::string &n) const { auto *s = self("hasAttribute"); return s->d_->attrs.count(s->full("") + "@" + n) > 0; }
  protected:
    const Derived *self(const char *op) const { h5stub::call(op); const Derived *s = static_cast<const Derived *>(this); s->check(op); return s; }
    DataSet make(const std::string &n, const DataSpace &sp) {
      auto *s = self("createDataSet"); std::string p = s->full(n);
      if (s->d_->datasets.count(p) || s->d_->groups.count(p)) throw DataSetException("Unable to create the dataset \"" + n + "\"");
      for (size_t i = p.find('/'); i != std::string::npos; i = p.find('/', i + 1)) s->d_->groups.insert(p.substr(0, i));
      h5stub::Dataset d; d.dims = sp.dims_; d.maxdims = sp.max_; size_t c = d.count(d.dims); d.data.assign(c, 0); d.writes.assign(c, 0);
      s->d_->datasets[p] = d; return DataSet(s->d_, p, s->handle()); }
  };
  class Group : public NodeTraits<Group> {
  public:
    Group() : d_(nullptr) {}
    Group(h5stub::FileData* d, const std::string &p, const void *h) : d_(d), p_(p), h_(h) {}
    std::string full(const std::string &n) const { std::string a = h5stub::norm(n); if (p_.empty()) return a; return a.empty() ? p_ : p_ + "/" + a; }
    const void *handle() const { return h_; }
    void check(const char *op) const { if (!h5stub::world().live.count(h_)) { h5stub::world().err(std::string("group of a closed file used: ") + op); throw GroupException("closed"); } }
    Group createGroup(const std::string &n, bool = true) { self("createGroup"); std::string p = full(n); if (d_->groups.count(p)) throw GroupException("Unable to create the group \"" + n + "\""); for (size_t i = p.find('/'); i != std::string::npos; i = p.find('/', i + 1)) d_->groups.insert(p.substr(0, i)); d_->groups.insert(p); return Group(d_, p, h_); }
    Group getGroup(const std::string &n) const { self("getGroup"); std::string p = full(n); if (!d_->groups.count(p)) throw GroupException("Unable to open the group \"" + n + "\""); return Group(d_, p, h_); }
    h5stub::FileData* d_; std::string p_; const void *h_ = nullptr;
  };
  class File : public NodeTraits<File> {
  public:
    enum : unsigned { ReadOnly = 0x00u, ReadWrite = 0x01u, Truncate = 0x02u, Excl = 0x04u, Debug = 0x08u, Create = 0x10u, Overwrite = Truncate, OpenOrCreate = ReadWrite | Create };
    explicit File(const std::string &path, unsigned flags = ReadOnly) {
      h5stub::call("open");
      // rules of HighFive: Excl or Truncate always go through H5Fcreate (Excl refuses an existing file,
      // Truncate empties it); otherwise the file is opened and, with Create, made when it does not exist.
      auto &w = h5stub::world(); if (w.check_dirs) { std::string dir = path.substr(0, path.find_last_of('/') + 1); struct stat st; if (stat(dir.empty() ? "." : dir.c_str(), &st) || !S_ISDIR(st.st_mode)) throw FileException("Unable to create file " + path); }
      bool have = w.files.count(path) > 0;
      if (flags & Truncate) w.files[path] = new h5stub::FileData();
      else if (flags & Excl) { if (have) throw FileException("Unable to create file " + path); w.files[path] = new h5stub::FileData(); }
      else if (!have) { if (!(flags & Create)) throw FileException("Unable to open file " + path); w.files[path] = new h5stub::FileData(); }
      d_ = w.files[path]; ++d_->opens; w.live.insert(this); if (w.mirror) ++w.mirror[0]; path_ = new std::string(path);
    }
    template <typename Driver> File(const std::string &path, unsigned flags, const Driver &) : File(path, flags) {}
    File(const File &o) : d_(o.d_), path_(o.path_) { h5stub::world().live.insert(this); ++d_->opens; }
    ~File() {
      h5stub::call("close");
      auto &w = h5stub::world();
      if (!w.live.erase(this)) w.err("data file closed twice");
      else { ++d_->closes; if (w.mirror) ++w.mirror[1]; }
    }
    // never give the memory back: a stale pointer stays recognisable as a closed handle
    static void *operator new(size_t n) { return malloc(n); }
    static void operator delete(void *) {}
    std::string full(const std::string &n) const { return h5stub::norm(n); }
    const void *handle() const { return this; }
    void check(const char *op) const { if (!h5stub::world().live.count(this)) { h5stub::world().err(std::string("closed data file used: ") + op); throw FileException("file is closed"); } }
    Group createGroup(const std::string &n, bool = true) { return root("createGroup").createGroup(n); }
    Group getGroup(const std::string &n) const { return const_cast<File *>(this)->root("getGroup").getGroup(n); }
    const std::string &getName() const { return *path_; }
    void flush() { h5stub::call("flush"); check("flush"); }
    Group root(const char *op) { check(op); return Group(d_, "", this); }
    h5stub::FileData* d_; std::string *path_;
  };
}
#endif
