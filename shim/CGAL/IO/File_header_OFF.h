#include <CGAL/IO/OFF/File_header_OFF.h>
