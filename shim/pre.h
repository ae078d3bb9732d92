#pragma once
#define __TBB_parallel_do_H
#include <tbb/mtbb.h>
