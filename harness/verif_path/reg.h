#ifndef VERIF_PATH_REG_H_
#define VERIF_PATH_REG_H_
#include <map>
#include <string>
#include "common/driver.h"
namespace verif {
using Fn = void (*)(json&);
std::map<std::string, Fn>& Registry();
struct Reg {
  Reg(const char* n, Fn f) { Registry()[n] = f; }
};
}  // namespace verif
#endif
