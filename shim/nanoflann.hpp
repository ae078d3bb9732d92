// newer releases renamed the search parameters
#pragma once
#include_next <nanoflann.hpp>
namespace nanoflann { using SearchParams = SearchParameters; }
