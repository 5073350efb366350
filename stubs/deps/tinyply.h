// Stand-in for the third-party tinyply writer (not available offline).
// It records every column it is given, so that a caller can inspect what would be written.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <ostream>
namespace tinyply {
enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };
struct RecordedColumn { std::string element; std::vector<std::string> names; size_t count; std::vector<double> data; };
inline std::vector<RecordedColumn>& recorded(){ static std::vector<RecordedColumn> r; return r; }
struct PlyFile {
  std::vector<RecordedColumn> cols;
  void add_properties_to_element(const std::string& element, const std::vector<std::string> names, const Type type, const size_t count, const uint8_t* data, const Type list_type, const size_t list_count){
    RecordedColumn c; c.element = element; c.names = names; c.count = count;
    c.data.resize(count*names.size());
    if (!c.data.empty()) { if (type == Type::FLOAT64) std::memcpy(c.data.data(), data, c.data.size()*sizeof(double));
      else for (size_t i = 0; i < c.data.size(); i++) c.data[i] = reinterpret_cast<const float*>(data)[i]; }
    (void)list_type; (void)list_count;
    cols.push_back(c);
  }
  void write(std::ostream&, bool){ recorded() = cols; }
};
}
