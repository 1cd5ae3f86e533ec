#include <string>
#include "libqasm/versioning.hpp"
std::string library_version() { return cqasm::get_version(); }
