#include <CGAL/STL_Extension/internal/info_check.h>
