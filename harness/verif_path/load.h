// Drives rendered loaders and listeners by name.
#ifndef VERIF_PATH_LOAD_H_
#define VERIF_PATH_LOAD_H_
#include <memory>
#include <vector>

#include "arolla/io/input_loader.h"
#include "arolla/io/slot_listener.h"
#include "common/driver.h"
#include "verif_path/reg.h"
#include "verif_path/structs.h"
#include "verifpb/m2.pb.h"
#include "verifpb/m3.pb.h"

namespace verif {
#define VERIF_ROOT(T)                                                                     \
  void Load(json& e, const arolla::InputLoader<T>& l);                                    \
  void Names(json& e, const std::vector<std::unique_ptr<arolla::InputLoader<T>>>& shards); \
  void Listen(json& e, const arolla::SlotListener<T>& l);
#define VERIF_ROOTS            \
  VERIF_ROOT(::verifpb::M2)    \
  VERIF_ROOT(::verifpb::M3)    \
  VERIF_ROOT(Node)             \
  VERIF_ROOT(std::vector<Node>) \
  VERIF_ROOT(std::vector<::verifpb::M2>)
VERIF_ROOTS
#undef VERIF_ROOT

}  // namespace verif
#endif
