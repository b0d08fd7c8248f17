#ifndef FAKE_PROXYFMU_FS
#define FAKE_PROXYFMU_FS
#include <filesystem>
namespace proxyfmu { namespace filesystem = std::filesystem; }
#endif
