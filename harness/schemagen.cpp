// schemagen SEED COUNT DIR: writes the template files s<k>.xml
#include "v2_schemas.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
int main(int argc, char **argv) {
  uint64_t seed = strtoull(argv[1], nullptr, 10);
  unsigned n = (unsigned)atoi(argv[2]);
  for (unsigned k = 0; k < n; ++k) {
    std::ofstream o(std::string(argv[3]) + "/s" + std::to_string(k) + ".xml");
    o << fm::schema_xml(v2s::schema(seed, k));
  }
}
