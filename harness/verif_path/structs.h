#ifndef VERIF_PATH_STRUCTS_H_
#define VERIF_PATH_STRUCTS_H_
#include <cstdint>
#include <memory>
#include <string>
#include "verifpb/m2.pb.h"
namespace verif {
struct Leafs {
  int32_t x = 0;
  float w = 0;
};
struct Node {
  int32_t x = 0;
  bool flag = false;
  std::string str;
  std::string raw;
  double d = 0;
  int64_t big = 0;
  uint32_t u = 0;
  Leafs leaf;
  Leafs* ptr = nullptr;
  std::unique_ptr<Node> next;
  std::unique_ptr<int32_t> pi;
  std::shared_ptr<::verifpb::M2> pm;
  ::verifpb::M2 msg;
  ::verifpb::Sub2 sub;
};
}  // namespace verif
#endif
