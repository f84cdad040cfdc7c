// Runs generated accessors on random messages.
#include "verif_path/path.h"
#include "arolla/util/init_arolla.h"

int main(int argc, char** argv) {
  arolla::InitArolla();
  auto run = [](json& e) {
    auto it = verif::Registry().find(e.at("fn").get<std::string>());
    if (it == verif::Registry().end()) { std::cerr << "no accessor\n"; std::exit(77); }
    it->second(e);
  };
  return DriverMain(argc, argv, {{"get", run}, {"put", run}, {"load", run}, {"shards", run}, {"listen", run}});
}
