/* the headers and functions of the 45 named CRC variants, as in crcvars.hpp */
#ifdef PORT_CRC
CRC_F(uint8_t, Crc8_8h2f)
CRC_F(uint8_t, Crc8_darc)
CRC_F(uint8_t, Crc8_ebu)
CRC_F(uint8_t, Crc8_itu)
CRC_F(uint8_t, Crc8_maxim)
CRC_F(uint8_t, Crc8_rohc)
CRC_F(uint8_t, Crc8_saeJ1850)
CRC_F(uint8_t, Crc8_wcdma)
CRC_N(uint8_t, Crc8)
CRC_N(uint8_t, Crc8_cdma2000)
CRC_N(uint8_t, Crc8_dvbS2)
CRC_N(uint8_t, Crc8_icode)
CRC_N(uint8_t, Crc8_saeJ1850Zero)
CRC_F(uint16_t, Crc16_a)
CRC_F(uint16_t, Crc16_arc)
CRC_F(uint16_t, Crc16_dectR)
CRC_F(uint16_t, Crc16_dnp)
CRC_F(uint16_t, Crc16_en13757)
CRC_F(uint16_t, Crc16_genibus)
CRC_F(uint16_t, Crc16_kermit)
CRC_F(uint16_t, Crc16_maxim)
CRC_F(uint16_t, Crc16_mcrf4xx)
CRC_F(uint16_t, Crc16_modbus)
CRC_F(uint16_t, Crc16_riello)
CRC_F(uint16_t, Crc16_tms37157)
CRC_F(uint16_t, Crc16_usb)
CRC_F(uint16_t, Crc16_x25)
CRC_N(uint16_t, Crc16_augCcit)
CRC_N(uint16_t, Crc16_buypass)
CRC_N(uint16_t, Crc16_ccitFalse)
CRC_N(uint16_t, Crc16_ccitZero)
CRC_N(uint16_t, Crc16_cdma2000)
CRC_N(uint16_t, Crc16_dds110)
CRC_N(uint16_t, Crc16_dectX)
CRC_N(uint16_t, Crc16_t10Dif)
CRC_N(uint16_t, Crc16_teledisk)
CRC_F(uint32_t, Crc32)
CRC_F(uint32_t, Crc32_bzip2)
CRC_F(uint32_t, Crc32_c)
CRC_F(uint32_t, Crc32_d)
CRC_F(uint32_t, Crc32_jamcrc)
CRC_F(uint32_t, Crc32_posix)
CRC_N(uint32_t, Crc32_mpeg2)
CRC_N(uint32_t, Crc32_q)
CRC_N(uint32_t, Crc32_xfer)
#else
#include "crc8.h"
#include "crc8_8h2f.h"
#include "crc8_cdma2000.h"
#include "crc8_darc.h"
#include "crc8_dvb_s2.h"
#include "crc8_ebu.h"
#include "crc8_icode.h"
#include "crc8_itu.h"
#include "crc8_maxim.h"
#include "crc8_rohc.h"
#include "crc8_sae_j1850.h"
#include "crc8_sae_j1850_zero.h"
#include "crc8_wcdma.h"
#include "crc16_a.h"
#include "crc16_arc.h"
#include "crc16_aug_ccit.h"
#include "crc16_buypass.h"
#include "crc16_ccit_false.h"
#include "crc16_ccit_zero.h"
#include "crc16_cdma2000.h"
#include "crc16_dds110.h"
#include "crc16_dect_r.h"
#include "crc16_dect_x.h"
#include "crc16_dnp.h"
#include "crc16_en_13757.h"
#include "crc16_genibus.h"
#include "crc16_kermit.h"
#include "crc16_maxim.h"
#include "crc16_mcrf4xx.h"
#include "crc16_modbus.h"
#include "crc16_riello.h"
#include "crc16_t10_dif.h"
#include "crc16_teledisk.h"
#include "crc16_tms37157.h"
#include "crc16_usb.h"
#include "crc16_x_25.h"
#include "crc32.h"
#include "crc32_bzip2.h"
#include "crc32_c.h"
#include "crc32_d.h"
#include "crc32_jamcrc.h"
#include "crc32_mpeg2.h"
#include "crc32_posix.h"
#include "crc32_q.h"
#include "crc32_xfer.h"
#endif
