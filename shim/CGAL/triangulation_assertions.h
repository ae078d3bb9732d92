#pragma once
#include <CGAL/assertions.h>
#define CGAL_triangulation_precondition CGAL_precondition
#define CGAL_triangulation_postcondition CGAL_postcondition
#define CGAL_triangulation_assertion CGAL_assertion
#define CGAL_triangulation_expensive_precondition(x) ((void)0)
#define CGAL_triangulation_expensive_postcondition(x) ((void)0)
#define CGAL_triangulation_expensive_assertion(x) ((void)0)
#define CGAL_triangulation_precondition_msg CGAL_precondition_msg
#define CGAL_triangulation_assertion_code CGAL_assertion_code
#define CGAL_triangulation_precondition_code CGAL_precondition_code
#define CGAL_triangulation_expensive_assertion_code(x)
#define CGAL_triangulation_expensive_precondition_code(x)
#define CGAL_triangulation_assertion_msg CGAL_assertion_msg
