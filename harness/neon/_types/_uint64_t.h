#pragma once
#include <stdint.h>
