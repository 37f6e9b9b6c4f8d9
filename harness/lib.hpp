// The library's public headers.  They carry no extern "C" themselves.
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
extern "C" {
#include "base64.h"
#include "bit_manipulation.h"
#include "bubble_sort.h"
#include "caesar_cipher.h"
#include "chacha20.h"
#include "crc16_base.h"
#include "crc32_base.h"
#include "crc8_base.h"
#include "heap_sort.h"
#include "insertion_sort.h"
#include "json.h"
#include "map.h"
#include "priority_queue.h"
#include "queue.h"
#include "scheduler.h"
#include "selection_sort.h"
#include "utils.h"
#include "vernam_cipher.h"
}
