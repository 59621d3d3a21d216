// Register-level model of the accelerator behind the vendor USB library: decodes every SPI transfer of the real
// FtdiDriver into register reads and writes.
#pragma once
#include <map>
#include <vector>
#include <string>
#include <functional>
#include <cstring>
extern "C" {
#include "libft4222.h"
}
namespace ftm {
struct Access { bool wr; uint32_t addr; std::vector<uint8_t> data; };
inline std::map<uint32_t, uint8_t> mem;          // byte address -> value
inline std::vector<Access> log;
inline std::string bad;                          // malformed transfer seen
inline std::function<int(uint32_t, uint32_t)> on_read;    // may fail a read (nonzero) or update mem first
inline std::function<void(uint32_t, const uint8_t *, uint32_t)> on_write;
inline std::function<int(uint32_t, uint32_t)> fail_write;              // may fail a write (nonzero): no effect
inline bool logging = true;
inline void reset() { mem.clear(); log.clear(); bad.clear(); on_read = nullptr; on_write = nullptr; fail_write = nullptr; }
inline void put(uint32_t a, const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) mem[a + i] = p[i]; }
inline uint8_t get(uint32_t a) { auto i = mem.find(a); return i == mem.end() ? 0 : i->second; }
inline uint32_t get32(uint32_t a) { return (uint32_t)get(a) << 24 | get(a + 1) << 16 | get(a + 2) << 8 | get(a + 3); }
inline void put32(uint32_t a, uint32_t v) { uint8_t b[4] = {(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v}; put(a, b, 4); }
inline int sizes[8] = {4, 16, 32, 64, 128, 256, 0, 0};
}
#ifdef __cplusplus
extern "C" {
#endif
FT_STATUS FT_CreateDeviceInfoList(LPDWORD n) { *n = 1; return FT_OK; }
FT_STATUS FT_GetDeviceInfoList(FT_DEVICE_LIST_INFO_NODE *d, LPDWORD n) { memset(d, 0, sizeof *d); *n = 1; d->Type = FT_DEVICE_4222H_0; strcpy(d->Description, "A"); d->LocId = 0x88888; return FT_OK; }
FT_STATUS FT_OpenEx(PVOID a, DWORD, FT_HANDLE *h) { *h = (void *)((uintptr_t)a + 1); return FT_OK; }
FT_STATUS FT_Close(FT_HANDLE) { return FT_OK; }
FT_STATUS FT_SetUSBParameters(FT_HANDLE, ULONG, ULONG) { return FT_OK; }
FT4222_STATUS FT4222_SPIMaster_Init(FT_HANDLE, FT4222_SPIMode, FT4222_SPIClock, FT4222_SPICPOL, FT4222_SPICPHA, uint8) { return FT4222_OK; }
FT4222_STATUS FT4222_SPIMaster_SetCS(FT_HANDLE, SPI_ChipSelect) { return FT4222_OK; }
FT4222_STATUS FT4222_SetClock(FT_HANDLE, FT4222_ClockRate) { return FT4222_OK; }
FT4222_STATUS FT4222_SPI_SetDrivingStrength(FT_HANDLE, SPI_DrivingStrength, SPI_DrivingStrength, SPI_DrivingStrength) { return FT4222_OK; }
FT4222_STATUS FT4222_GPIO_Init(FT_HANDLE, GPIO_Dir[4]) { return FT4222_OK; }
FT4222_STATUS FT4222_GPIO_Write(FT_HANDLE, GPIO_Port, BOOL) { return FT4222_OK; }
FT4222_STATUS FT4222_GPIO_Read(FT_HANDLE, GPIO_Port, BOOL *v) { *v = 1; return FT4222_OK; }
FT4222_STATUS FT4222_SetSuspendOut(FT_HANDLE, BOOL) { return FT4222_OK; }
FT4222_STATUS FT4222_SetWakeUpInterrupt(FT_HANDLE, BOOL) { return FT4222_OK; }
FT4222_STATUS FT4222_UnInitialize(FT_HANDLE) { return FT4222_OK; }
FT4222_STATUS FT4222_I2CMaster_Init(FT_HANDLE, uint32) { return FT4222_OK; }
FT4222_STATUS FT4222_I2CMaster_ReadEx(FT_HANDLE, uint16, uint8, uint8 *b, uint16 n, uint16 *t) { memset(b, 0, n); *t = n; return FT4222_OK; }
FT4222_STATUS FT4222_I2CMaster_WriteEx(FT_HANDLE, uint16, uint8, uint8 *, uint16 n, uint16 *t) { *t = n; return FT4222_OK; }
FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE, uint8 *rb, uint8 *wb, uint8 sw, uint16 mw, uint16 mr, uint32 *got) {
    using namespace ftm;
    if (sw || mw < 4) { bad = "transfer without header"; return FT4222_IO_ERROR; }
    uint8_t c = wb[0]; int n = sizes[c & 7]; bool wr = c >> 7; int type = (c >> 5) & 3;
    uint32_t addr = ((uint32_t)wb[1] << 16 | wb[2] << 8 | wb[3]) << 2;
    *got = mr;
    if (!n) { bad = "bad length code"; return FT4222_IO_ERROR; }
    if (wr) {
        if (mr || mw != 4 + n || type != 0) { bad = "write transfer length or type does not match its header"; return FT4222_IO_ERROR; }
        if (logging) ftm::log.push_back({true, addr, std::vector<uint8_t>(wb + 4, wb + 4 + n)});
        if (fail_write) if (int r = fail_write(addr, n)) return (FT4222_STATUS)r;
        put(addr, wb + 4, n);
        if (on_write) on_write(addr, wb + 4, n);
    } else {
        if (mw != 4 || mr != 4 + n || type != 3) { bad = "read transfer length or type does not match its header"; return FT4222_IO_ERROR; }
        if (logging) ftm::log.push_back({false, addr, {}});
        if (on_read) if (int r = on_read(addr, n)) return (FT4222_STATUS)r;
        memset(rb, 0xEE, 4);
        for (int i = 0; i < n; i++) rb[4 + i] = get(addr + i);
    }
    return FT4222_OK;
}
#ifdef __cplusplus
}
#endif
