#pragma once
#include <stddef.h>
