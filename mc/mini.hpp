// Small helpers shared by harnesses: documents from strings, formatting of numbers, scratch XML files.
#pragma once
#include "pugixml.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>

namespace mini {
inline std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
struct Doc {
  pugi::xml_document doc;
  pugi::xml_node root;
  explicit Doc(const std::string& text) {
    auto r = doc.load_string(text.c_str());
    if (!r) { fprintf(stderr, "harness XML error: %s\n%s\n", r.description(), text.c_str()); _exit(97); }
    root = doc.child("minimc");
  }
};
inline std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
inline void spit(const std::string& p, const std::string& t) { std::ofstream f(p, std::ios::binary); f << t; }
inline std::string repo() { const char* r = getenv("MINIMC_REPO"); return r ? r : "/repo"; }
// minimal multigroup document pieces
inline std::string general(int histories = 1, int threads = 1, int seed = 1, const std::string& tracking = "", const std::string& particles = "neutron") {
  return "<general><particles>" + particles + "</particles><histories>" + std::to_string(histories) + "</histories><threads>" +
         std::to_string(threads) + "</threads><chunksize>1</chunksize><seed>" + std::to_string(seed) + "</seed>" +
         (tracking.empty() ? "" : "<tracking>" + tracking + "</tracking>") + "</general>";
}
inline std::string wrap(const std::string& body) {
  return "<minimc xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:noNamespaceSchemaLocation=\"minimc.xsd\">" + body + "</minimc>";
}
}  // namespace mini
