#pragma once
#include "mtbb.h"
