// Writes data files in the layout the code under test reads.
#pragma once
#include "H5Cpp.h"
#include <array>
#include <string>
#include <vector>

namespace h5 {
using Vec = std::vector<double>;
// axes: one vector per dimension; values: row major over the axes
inline void write(const std::string& path, const std::vector<Vec>& axes, const Vec& values, unsigned long long levels = 0) {
  H5::H5File f(path, H5F_ACC_TRUNC);
  auto g = f.createGroup("/pandas");
  const unsigned long long n = levels ? levels : axes.size();
  g.createAttribute("axis1_nlevels", H5::PredType::NATIVE_ULLONG, H5::DataSpace(H5S_SCALAR)).write(H5::PredType::NATIVE_ULLONG, &n);
  for (size_t i = 0; i < axes.size(); i++) {
    const hsize_t d = axes[i].size();
    g.createDataSet("axis1_level" + std::to_string(i), H5::PredType::NATIVE_DOUBLE, H5::DataSpace(1, &d)).write(axes[i].data(), H5::PredType::NATIVE_DOUBLE);
  }
  const hsize_t d[2] = {values.size(), 1};
  g.createDataSet("block0_values", H5::PredType::NATIVE_DOUBLE, H5::DataSpace(2, d)).write(values.data(), H5::PredType::NATIVE_DOUBLE);
}
inline std::string table(const std::string& dir, const std::string& name, const Vec& x, const Vec& y) {
  const std::string p = dir + "/" + name + ".hdf5";
  write(p, {x}, y);
  return p;
}
inline std::string table(const std::string& dir, const std::string& name, const std::vector<Vec>& axes, const Vec& v) {
  const std::string p = dir + "/" + name + ".hdf5";
  write(p, axes, v);
  return p;
}
}  // namespace h5
