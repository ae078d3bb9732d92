#pragma once
#include "mtbb.h"
namespace tbb{ class task; }
