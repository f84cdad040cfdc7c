// Command loop shared by the C++ drivers: reads NDJSON commands, writes one
// NDJSON event per command (the command plus what was observed), flushed.
#ifndef VERIF_DRIVER_H_
#define VERIF_DRIVER_H_
#include <cstdio>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <string>

#include <nlohmann/json.hpp>

using json = nlohmann::json;
using Handler = std::function<void(json&)>;

inline int DriverMain(int argc, char** argv,
                      const std::map<std::string, Handler>& handlers) {
  if (argc < 3) return 77;
  std::ifstream in(argv[1]);
  FILE* out = std::fopen(argv[2], "w");
  if (!in || !out) return 77;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    json e = json::parse(line);
    auto it = handlers.find(e.at("op").get<std::string>());
    if (it == handlers.end()) {
      std::cerr << "unknown op " << line << "\n";
      return 77;
    }
    it->second(e);
    std::string s = e.dump(-1, ' ', true, json::error_handler_t::replace);
    s += '\n';
    std::fwrite(s.data(), 1, s.size(), out);
    std::fflush(out);
  }
  std::fclose(out);
  return 0;
}
#endif
