#pragma once
#include <sensor_msgs/PointCloud2.h>
#include <cstdarg>
#include <stdexcept>
namespace sensor_msgs {
class PointCloud2Modifier {
 public:
  explicit PointCloud2Modifier(PointCloud2& c) : c_(c) {}
  size_t size() const { return c_.data.size() / c_.point_step; }
  void resize(size_t n) { c_.data.resize(n * c_.point_step); c_.width = (uint32_t)n; c_.height = 1; c_.row_step = c_.width * c_.point_step; }
  void reserve(size_t n) { c_.data.reserve(n * c_.point_step); }
  void clear() { resize(0); }
  void setPointCloud2Fields(int n, ...) {
    c_.fields.clear(); va_list vl; va_start(vl, n); int off = 0;
    for (int i = 0; i < n; i++) { PointField f; f.name = va_arg(vl, char*); f.count = (uint32_t)va_arg(vl, int); f.datatype = (uint8_t)va_arg(vl, int); f.offset = (uint32_t)off; off += 4 * (int)f.count; c_.fields.push_back(f); }
    va_end(vl); fin(off);
  }
  void setPointCloud2FieldsByString(int n, ...) {
    c_.fields.clear(); va_list vl; va_start(vl, n); int off = 0;
    for (int i = 0; i < n; i++) {
      std::string s = va_arg(vl, char*);
      if (s == "xyz") { const char* a[] = {"x", "y", "z"}; for (auto q : a) { add(q, off); off += 4; } off += 4; }
      else if (s == "rgb" || s == "rgba") { add(s.c_str(), off); off += 4 + 12; }
      else throw std::runtime_error("Field " + s + " does not exist");
    }
    va_end(vl); fin(off);
  }
 private:
  void add(const char* n, int off) { PointField f; f.name = n; f.count = 1; f.datatype = PointField::FLOAT32; f.offset = (uint32_t)off; c_.fields.push_back(f); }
  void fin(int off) { c_.point_step = (uint32_t)off; c_.row_step = c_.width * c_.point_step; c_.data.resize((size_t)c_.height * c_.row_step); }
  PointCloud2& c_;
};
template <class T, class C, class B>
class PCIter {
 public:
  PCIter(C& c, const std::string& n) : c_(&c) {
    long o = -1;
    for (auto& f : c.fields) { if (f.name == n) o = f.offset; else if ((n == "r" || n == "g" || n == "b" || n == "a") && (f.name == "rgb" || f.name == "rgba")) o = f.offset + (n == "r" ? 2 : n == "g" ? 1 : n == "b" ? 0 : 3); }
    if (o < 0) throw std::runtime_error("Field " + n + " does not exist");
    p_ = c.data.data() + o;
  }
  T& operator*() const { return *(T*)p_; }
  T& operator[](size_t i) const { return *(((T*)p_) + i); }
  PCIter& operator++() { p_ += c_->point_step; return *this; }
  PCIter operator+(int i) const { PCIter r(*this); r.p_ += i * (int)c_->point_step; return r; }
  PCIter end() const { PCIter r(*this); r.p_ = c_->data.data() + c_->data.size(); return r; }
  bool operator!=(const PCIter& o) const { return p_ < o.p_; }
 private:
  C* c_; B* p_;
};
template <class T> class PointCloud2Iterator : public PCIter<T, PointCloud2, unsigned char> { public: PointCloud2Iterator(PointCloud2& c, const std::string& n) : PCIter<T, PointCloud2, unsigned char>(c, n) {} };
template <class T> class PointCloud2ConstIterator : public PCIter<const T, const PointCloud2, const unsigned char> { public: PointCloud2ConstIterator(const PointCloud2& c, const std::string& n) : PCIter<const T, const PointCloud2, const unsigned char>(c, n) {} };
}
