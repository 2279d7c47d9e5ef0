// The installed nanoflann under the names the repository uses.
#pragma once
#include_next <nanoflann.hpp>
namespace nanoflann { using SearchParams=SearchParameters; }
