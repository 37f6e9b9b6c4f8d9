// The 45 named CRC variants and their catalogued parameters (Greg Cook's RevEng
// catalogue names in the comments of the library's headers).
#pragma once
#include "lib.hpp"
#include "refs.hpp"
extern "C" {
#include "crc8.h"
#include "crc8_8h2f.h"
#include "crc8_cdma2000.h"
#include "crc8_darc.h"
#include "crc8_dvb_s2.h"
#include "crc8_ebu.h"
#include "crc8_icode.h"
#include "crc8_itu.h"
#include "crc8_maxim.h"
#include "crc8_rohc.h"
#include "crc8_sae_j1850.h"
#include "crc8_sae_j1850_zero.h"
#include "crc8_wcdma.h"
#include "crc16_a.h"
#include "crc16_arc.h"
#include "crc16_aug_ccit.h"
#include "crc16_buypass.h"
#include "crc16_ccit_false.h"
#include "crc16_ccit_zero.h"
#include "crc16_cdma2000.h"
#include "crc16_dds110.h"
#include "crc16_dect_r.h"
#include "crc16_dect_x.h"
#include "crc16_dnp.h"
#include "crc16_en_13757.h"
#include "crc16_genibus.h"
#include "crc16_kermit.h"
#include "crc16_maxim.h"
#include "crc16_mcrf4xx.h"
#include "crc16_modbus.h"
#include "crc16_riello.h"
#include "crc16_t10_dif.h"
#include "crc16_teledisk.h"
#include "crc16_tms37157.h"
#include "crc16_usb.h"
#include "crc16_x_25.h"
#include "crc32.h"
#include "crc32_bzip2.h"
#include "crc32_c.h"
#include "crc32_d.h"
#include "crc32_jamcrc.h"
#include "crc32_mpeg2.h"
#include "crc32_posix.h"
#include "crc32_q.h"
#include "crc32_xfer.h"
}

struct CrcVariant {
    const char* name;
    ref::CrcSpec spec;
    bool hasFinal;  // takes a "final" flag
    // call with an optional running value; final is ignored when !hasFinal.
    // *last, when given, receives what the caller's running value holds afterwards.
    uint32_t (*call)(const uint8_t*, uint32_t, bool final, uint32_t* last);
};
#define CALLF(T, F) [](const uint8_t* p, uint32_t n, bool f, uint32_t* l) -> uint32_t { if (!l) { return F(p, n, f, nullptr); } T v = (T)*l; uint32_t r = F(p, n, f, &v); *l = v; return r; }
#define CALLN(T, F) [](const uint8_t* p, uint32_t n, bool, uint32_t* l) -> uint32_t { if (!l) { return F(p, n, nullptr); } T v = (T)*l; uint32_t r = F(p, n, &v); *l = v; return r; }
static const CrcVariant CRCS[] = {
    {"Crc8_8h2f", {8, 0x2F, 0xFF, 0xFF, false, false}, true, CALLF(uint8_t, Crc8_8h2f)},
    {"Crc8_darc", {8, 0x39, 0x0, 0x0, true, true}, true, CALLF(uint8_t, Crc8_darc)},
    {"Crc8_ebu", {8, 0x1D, 0xFF, 0x0, true, true}, true, CALLF(uint8_t, Crc8_ebu)},
    {"Crc8_itu", {8, 0x07, 0x0, 0x55, false, false}, true, CALLF(uint8_t, Crc8_itu)},
    {"Crc8_maxim", {8, 0x31, 0x0, 0x0, true, true}, true, CALLF(uint8_t, Crc8_maxim)},
    {"Crc8_rohc", {8, 0x07, 0xFF, 0x0, true, true}, true, CALLF(uint8_t, Crc8_rohc)},
    {"Crc8_saeJ1850", {8, 0x1D, 0xFF, 0xFF, false, false}, true, CALLF(uint8_t, Crc8_saeJ1850)},
    {"Crc8_wcdma", {8, 0x9B, 0x0, 0x0, true, true}, true, CALLF(uint8_t, Crc8_wcdma)},
    {"Crc8", {8, 0x07, 0x0, 0x0, false, false}, false, CALLN(uint8_t, Crc8)},
    {"Crc8_cdma2000", {8, 0x9B, 0xFF, 0x0, false, false}, false, CALLN(uint8_t, Crc8_cdma2000)},
    {"Crc8_dvbS2", {8, 0xD5, 0x0, 0x0, false, false}, false, CALLN(uint8_t, Crc8_dvbS2)},
    {"Crc8_icode", {8, 0x1D, 0xFD, 0x0, false, false}, false, CALLN(uint8_t, Crc8_icode)},
    {"Crc8_saeJ1850Zero", {8, 0x1D, 0x0, 0x0, false, false}, false, CALLN(uint8_t, Crc8_saeJ1850Zero)},
    {"Crc16_a", {16, 0x1021, 0xC6C6, 0x0, true, true}, true, CALLF(uint16_t, Crc16_a)},
    {"Crc16_arc", {16, 0x8005, 0x0, 0x0, true, true}, true, CALLF(uint16_t, Crc16_arc)},
    {"Crc16_dectR", {16, 0x0589, 0x0, 0x1, false, false}, true, CALLF(uint16_t, Crc16_dectR)},
    {"Crc16_dnp", {16, 0x3D65, 0x0, 0xFFFF, true, true}, true, CALLF(uint16_t, Crc16_dnp)},
    {"Crc16_en13757", {16, 0x3D65, 0x0, 0xFFFF, false, false}, true, CALLF(uint16_t, Crc16_en13757)},
    {"Crc16_genibus", {16, 0x1021, 0xFFFF, 0xFFFF, false, false}, true, CALLF(uint16_t, Crc16_genibus)},
    {"Crc16_kermit", {16, 0x1021, 0x0, 0x0, true, true}, true, CALLF(uint16_t, Crc16_kermit)},
    {"Crc16_maxim", {16, 0x8005, 0x0, 0xFFFF, true, true}, true, CALLF(uint16_t, Crc16_maxim)},
    {"Crc16_mcrf4xx", {16, 0x1021, 0xFFFF, 0x0, true, true}, true, CALLF(uint16_t, Crc16_mcrf4xx)},
    {"Crc16_modbus", {16, 0x8005, 0xFFFF, 0x0, true, true}, true, CALLF(uint16_t, Crc16_modbus)},
    {"Crc16_riello", {16, 0x1021, 0xB2AA, 0x0, true, true}, true, CALLF(uint16_t, Crc16_riello)},
    {"Crc16_tms37157", {16, 0x1021, 0x89EC, 0x0, true, true}, true, CALLF(uint16_t, Crc16_tms37157)},
    {"Crc16_usb", {16, 0x8005, 0xFFFF, 0xFFFF, true, true}, true, CALLF(uint16_t, Crc16_usb)},
    {"Crc16_x25", {16, 0x1021, 0xFFFF, 0xFFFF, true, true}, true, CALLF(uint16_t, Crc16_x25)},
    {"Crc16_augCcit", {16, 0x1021, 0x1D0F, 0x0, false, false}, false, CALLN(uint16_t, Crc16_augCcit)},
    {"Crc16_buypass", {16, 0x8005, 0x0, 0x0, false, false}, false, CALLN(uint16_t, Crc16_buypass)},
    {"Crc16_ccitFalse", {16, 0x1021, 0xFFFF, 0x0, false, false}, false, CALLN(uint16_t, Crc16_ccitFalse)},
    {"Crc16_ccitZero", {16, 0x1021, 0x0, 0x0, false, false}, false, CALLN(uint16_t, Crc16_ccitZero)},
    {"Crc16_cdma2000", {16, 0xC867, 0xFFFF, 0x0, false, false}, false, CALLN(uint16_t, Crc16_cdma2000)},
    {"Crc16_dds110", {16, 0x8005, 0x800D, 0x0, false, false}, false, CALLN(uint16_t, Crc16_dds110)},
    {"Crc16_dectX", {16, 0x0589, 0x0, 0x0, false, false}, false, CALLN(uint16_t, Crc16_dectX)},
    {"Crc16_t10Dif", {16, 0x8BB7, 0x0, 0x0, false, false}, false, CALLN(uint16_t, Crc16_t10Dif)},
    {"Crc16_teledisk", {16, 0xA097, 0x0, 0x0, false, false}, false, CALLN(uint16_t, Crc16_teledisk)},
    {"Crc32", {32, 0x04C11DB7, 0xFFFFFFFF, 0xFFFFFFFF, true, true}, true, CALLF(uint32_t, Crc32)},
    {"Crc32_bzip2", {32, 0x04C11DB7, 0xFFFFFFFF, 0xFFFFFFFF, false, false}, true, CALLF(uint32_t, Crc32_bzip2)},
    {"Crc32_c", {32, 0x1EDC6F41, 0xFFFFFFFF, 0xFFFFFFFF, true, true}, true, CALLF(uint32_t, Crc32_c)},
    {"Crc32_d", {32, 0xA833982B, 0xFFFFFFFF, 0xFFFFFFFF, true, true}, true, CALLF(uint32_t, Crc32_d)},
    {"Crc32_jamcrc", {32, 0x04C11DB7, 0xFFFFFFFF, 0x0, true, true}, true, CALLF(uint32_t, Crc32_jamcrc)},
    {"Crc32_posix", {32, 0x04C11DB7, 0x0, 0xFFFFFFFF, false, false}, true, CALLF(uint32_t, Crc32_posix)},
    {"Crc32_mpeg2", {32, 0x04C11DB7, 0xFFFFFFFF, 0x0, false, false}, false, CALLN(uint32_t, Crc32_mpeg2)},
    {"Crc32_q", {32, 0x814141AB, 0x0, 0x0, false, false}, false, CALLN(uint32_t, Crc32_q)},
    {"Crc32_xfer", {32, 0x000000AF, 0x0, 0x0, false, false}, false, CALLN(uint32_t, Crc32_xfer)},
};
static const size_t NCRC = sizeof(CRCS) / sizeof(CRCS[0]);
static_assert(sizeof(CRCS) / sizeof(CRCS[0]) == 45, "45 variants");
