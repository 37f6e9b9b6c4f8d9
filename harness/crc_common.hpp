#pragma once
#include "crcvars.hpp"
#include "engine.hpp"

// reference running value; long messages go through the reference table, which is
// itself compared with the bit-serial form on every run of the enumerated stage
struct CrcRef {
    std::vector<ref::CrcTable> tabs;
    CrcRef() {
        for (size_t i = 0; i < NCRC; ++i) { tabs.emplace_back(CRCS[i].spec.width, CRCS[i].spec.poly); }
    }
    uint32_t reg(size_t v, uint32_t r, const uint8_t* p, size_t n) const {
        const ref::CrcSpec& s = CRCS[v].spec;
        if (n <= 64) { return ref::crcRegister(s.width, s.poly, s.refin, r, p, n); }
        return tabs[v].run(s.refin, r, p, n);
    }
    uint32_t full(size_t v, const uint8_t* p, size_t n) const { return ref::crcFinal(CRCS[v].spec, reg(v, CRCS[v].spec.init, p, n)); }
};
inline const CrcRef& crcRef() {
    static CrcRef r;
    return r;
}
