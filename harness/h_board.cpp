// C34: the board control layer (USB transport, PLL, reset, fan, voltage, current, temperature alarms) of the real driver
// against a model of the vendor library and of the board behind it, with every single and double transport failure.
#include "vh.h"
#include <gmp.h>
#include <cmath>
#include <limits>
#include "hw/hw_interface.hpp"
#include "hw/chia_driver.hpp"
#include "hw/pll_freqs.hpp"
extern "C" {
#include "libft4222.h"
}
using namespace vh;
int chia_vdf_is_emu = 1;
extern "C" int nanosleep(const struct timespec *, struct timespec *) { return 0; }

// ---------------------------------------------------------------- the board
enum Kind { FAIL, FAIL_AFTER, SHORT };     // error without effect, error after the effect, "ok" but incomplete
struct Fault { int at; int kind; };
struct Board {
    bool open[2]; int mode[2];             // 0 none, 1 SPI, 2 I2C; handle 0 is the data interface, 1 the GPIO interface
    int dir[4], out[4];
    std::map<uint32_t, uint8_t> mem; std::map<int, uint8_t> vr, cs; int i2cptr; uint16_t cs_code;
    bool sawlow; bool acked, locked, alarm; int divr, divfi, divq, range;
    std::string bad;
    uint32_t get32(uint32_t a) { uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | (mem.count(a + i) ? mem[a + i] : 0); return v; }
    void put32(uint32_t a, uint32_t v) { for (int i = 0; i < 4; i++) mem[a + i] = v >> (24 - 8 * i); }
    void chip_reset() { mem.clear(); put32(0, 1); put32(PVT_TEMP_ALARM_EXTERNAL_REG_OFFSET, 0x3ff); put32(PVT_TEMP_ALARM_ENGINE_REG_OFFSET, 0x3ff); acked = locked = false; divr = divfi = divq = range = -1; }
    void power_on() {
        open[0] = open[1] = false; mode[0] = mode[1] = 0; for (int i = 0; i < 4; i++) dir[i] = GPIO_INPUT, out[i] = 0;
        vr.clear(); cs.clear(); vr[7] = 0x50; i2cptr = -1; cs_code = 0x5a3; sawlow = alarm = false; bad.clear(); chip_reset();
    }
    bool level(int p) { return dir[p] == GPIO_OUTPUT ? out[p] : true; }
    void gpio_changed() { if (!level(2)) { sawlow = true; chip_reset(); } }
    void after_write(uint32_t addr) {
        if (addr == CLOCK_CONTROL_REG_OFFSET) {
            uint32_t c = get32(0);
            if (c & 1) acked = locked = false;
            if (c & 4 && !(c & 1)) { acked = locked = true; divr = get32(CLOCK_PRE_DIVIDE_REG_OFFSET); divfi = get32(CLOCK_FB_DIVIDE_INTEGER_REG_OFFSET); divq = get32(CLOCK_POST_DIVIDE_REG_OFFSET); range = get32(CLOCK_FILTER_RANGE_REG_OFFSET); }
        }
    }
    double freq() { return acked ? 100.0 / (divr + 1) * (divfi + 1) * 4 / ((divq + 1) * 2) : 0; }
};
static Board B;
static int calls; static std::vector<Fault> plan; static bool closefault;
static std::vector<std::string> trace;
static int fault(const char *name) {
    int i = calls++, k = -1;
    for (auto &f : plan) if (f.at == i) k = f.kind;
    if (k >= 0 && (!strcmp(name, "UnInitialize") || !strcmp(name, "Close"))) closefault = true;
    if (k >= 0 && trace.size() < 8) trace.push_back(fmt("%s#%d %s", name, i, k == FAIL ? "fails" : k == FAIL_AFTER ? "fails after its effect" : "incomplete"));
    return k;
}
static int hidx(FT_HANDLE h) { return (int)(intptr_t)h - 1; }
static bool live(FT_HANDLE h) { int i = hidx(h); return i >= 0 && i < 2 && B.open[i]; }
static const int SPI_SIZES[8] = {4, 16, 32, 64, 128, 256, 0, 0};
extern "C" {
FT_STATUS FT_CreateDeviceInfoList(LPDWORD n) { int k = fault("CreateDeviceInfoList"); if (k == FAIL) return FT4222_IO_ERROR; *n = k == SHORT ? 0 : 1; return FT_OK; }
FT_STATUS FT_GetDeviceInfoList(FT_DEVICE_LIST_INFO_NODE *d, LPDWORD n) {
    int k = fault("GetDeviceInfoList"); if (k == FAIL) return FT4222_IO_ERROR;
    memset(d, 0, sizeof *d); *n = 1; d->Type = k == SHORT ? 3 : FT_DEVICE_4222H_0; strcpy(d->Description, "FT4222 A"); d->LocId = 0x88888; return FT_OK;
}
FT_STATUS FT_OpenEx(PVOID a, DWORD, FT_HANDLE *h) {
    int k = fault("OpenEx"); uintptr_t loc = (uintptr_t)a; int i = loc == 0x88888 ? 0 : loc == 0x88889 || loc == 0x8888b ? 1 : -1;
    // configuration mode 0: the GPIO interface is at +1; mode 1: at +3. This board is in mode 0.
    if (k == FAIL || k == FAIL_AFTER || i < 0 || loc == 0x8888b) return FT_DEVICE_NOT_FOUND;
    if (B.open[i]) return 3;
    B.open[i] = true; B.mode[i] = 0; *h = (FT_HANDLE)(intptr_t)(i + 1); return FT_OK;
}
FT_STATUS FT_Close(FT_HANDLE h) { int k = fault("Close"); if (!live(h)) { B.bad = "a handle that is not open is closed"; return 1; } if (k == FAIL) return FT4222_IO_ERROR; B.open[hidx(h)] = false; B.mode[hidx(h)] = 0; return FT_OK; }
static FT4222_STATUS simple(const char *n, FT_HANDLE h) { int k = fault(n); if (!live(h)) { B.bad = std::string(n) + " on a handle that is not open"; return FT4222_IO_ERROR; } return k == FAIL || k == FAIL_AFTER ? FT4222_IO_ERROR : FT4222_OK; }
FT_STATUS FT_SetUSBParameters(FT_HANDLE h, ULONG, ULONG) { return simple("SetUSBParameters", h); }
FT4222_STATUS FT4222_SetClock(FT_HANDLE h, FT4222_ClockRate) { return simple("SetClock", h); }
FT4222_STATUS FT4222_SPIMaster_Init(FT_HANDLE h, FT4222_SPIMode m, FT4222_SPIClock, FT4222_SPICPOL, FT4222_SPICPHA, uint8) { auto r = simple("SPIMaster_Init", h); if (!r) B.mode[hidx(h)] = m == SPI_IO_QUAD ? 1 : 9; return r; }
FT4222_STATUS FT4222_SPIMaster_SetCS(FT_HANDLE h, SPI_ChipSelect) { return simple("SetCS", h); }
FT4222_STATUS FT4222_SPI_SetDrivingStrength(FT_HANDLE h, SPI_DrivingStrength, SPI_DrivingStrength, SPI_DrivingStrength) { return simple("SetDrivingStrength", h); }
FT4222_STATUS FT4222_I2CMaster_Init(FT_HANDLE h, uint32) { auto r = simple("I2CMaster_Init", h); if (!r) B.mode[hidx(h)] = 2; return r; }
FT4222_STATUS FT4222_UnInitialize(FT_HANDLE h) { auto r = simple("UnInitialize", h); if (!r) B.mode[hidx(h)] = 0; return r; }
FT4222_STATUS FT4222_SetSuspendOut(FT_HANDLE h, BOOL) { return simple("SetSuspendOut", h); }
FT4222_STATUS FT4222_SetWakeUpInterrupt(FT_HANDLE h, BOOL) { return simple("SetWakeUpInterrupt", h); }
FT4222_STATUS FT4222_GPIO_Init(FT_HANDLE h, GPIO_Dir d[4]) {
    int k = fault("GPIO_Init"); if (!live(h) || hidx(h) != 1) { B.bad = "GPIO on a wrong handle"; return FT4222_IO_ERROR; }
    if (k != FAIL) { for (int i = 0; i < 4; i++) B.dir[i] = d[i]; B.gpio_changed(); }
    return k == FAIL || k == FAIL_AFTER ? FT4222_IO_ERROR : FT4222_OK;
}
FT4222_STATUS FT4222_GPIO_Write(FT_HANDLE h, GPIO_Port p, BOOL v) {
    int k = fault("GPIO_Write"); if (!live(h) || hidx(h) != 1) { B.bad = "GPIO on a wrong handle"; return FT4222_IO_ERROR; }
    if (k != FAIL) { B.out[p] = v; B.gpio_changed(); }
    return k == FAIL || k == FAIL_AFTER ? FT4222_IO_ERROR : FT4222_OK;
}
FT4222_STATUS FT4222_GPIO_Read(FT_HANDLE h, GPIO_Port p, BOOL *v) { int k = fault("GPIO_Read"); if (!live(h) || k == FAIL || k == FAIL_AFTER) return FT4222_IO_ERROR; *v = B.level(p); return FT4222_OK; }
FT4222_STATUS FT4222_I2CMaster_WriteEx(FT_HANDLE h, uint16 a, uint8, uint8 *b, uint16 n, uint16 *t) {
    int k = fault("I2C write"); if (!live(h) || B.mode[hidx(h)] != 2) { B.bad = "I2C transfer outside I2C mode"; return FT4222_IO_ERROR; }
    if (a != 0x38 && a != 0x70) { B.bad = "no such I2C device"; return FT4222_IO_ERROR; }
    int m = k == FAIL ? 0 : k == SHORT ? n - 1 : n;
    if (m > 0) B.i2cptr = b[0];
    for (int i = 1; i < m; i++) (a == 0x38 ? B.vr : B.cs)[b[0] + i - 1] = b[i];
    if (k != FAIL) *t = m;
    return k == FAIL || k == FAIL_AFTER ? FT4222_IO_ERROR : FT4222_OK;
}
FT4222_STATUS FT4222_I2CMaster_ReadEx(FT_HANDLE h, uint16 a, uint8, uint8 *b, uint16 n, uint16 *t) {
    int k = fault("I2C read"); if (!live(h) || B.mode[hidx(h)] != 2) { B.bad = "I2C transfer outside I2C mode"; return FT4222_IO_ERROR; }
    int m = k == FAIL ? 0 : k == SHORT ? n - 1 : n;
    uint8_t two[2] = {(uint8_t)(B.cs_code >> 4), (uint8_t)(B.cs_code << 4)};
    for (int i = 0; i < m; i++) b[i] = a == 0x38 ? B.vr[B.i2cptr + i] : B.i2cptr == 0 && B.cs[0xA] == 2 ? two[i & 1] : 0xEE;
    if (k != FAIL) *t = m;
    return k == FAIL || k == FAIL_AFTER ? FT4222_IO_ERROR : FT4222_OK;
}
FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE h, uint8 *rb, uint8 *wb, uint8 sw, uint16 mw, uint16 mr, uint32 *got) {
    if (!live(h) || B.mode[hidx(h)] != 1) { fault("SPI"); B.bad = "SPI transfer outside SPI mode"; return FT4222_IO_ERROR; }
    if (sw || mw < 4) { fault("SPI"); B.bad = "malformed transfer"; return FT4222_IO_ERROR; }
    uint8_t c = wb[0]; int n = SPI_SIZES[c & 7]; bool wr = c >> 7; uint32_t addr = ((uint32_t)wb[1] << 16 | wb[2] << 8 | wb[3]) << 2;
    int k = fault(wr ? "SPI write" : "SPI read");
    if (!n || (wr ? mr || mw != 4 + n : mw != 4 || mr != 4 + n)) { B.bad = "malformed transfer"; return FT4222_IO_ERROR; }
    if (wr) {
        if (k != FAIL && B.level(2)) { for (int i = 0; i < n; i++) B.mem[addr + i] = wb[4 + i]; B.after_write(addr); }
        *got = 0;
    } else if (k != FAIL) {
        if (addr == CLOCK_STATUS_REG_OFFSET) B.put32(addr, (uint32_t)B.acked << CLOCK_STATUS_DIVACK_BIT | (uint32_t)B.locked << CLOCK_STATUS_LOCK_BIT);
        int m = k == SHORT ? mr - 1 : mr; memset(rb, 0xEE, m < 4 ? m : 4);
        for (int i = 4; i < m; i++) rb[i] = B.level(2) ? B.mem.count(addr + i - 4) ? B.mem[addr + i - 4] : 0 : 0xFF;
        *got = m;
    }
    return k == FAIL || k == FAIL_AFTER ? FT4222_IO_ERROR : FT4222_OK;
}
}

// ---------------------------------------------------------------- operations: run on the driver, then judged against the board
struct Result { bool ok = false; std::string bad; };
struct Op { std::string name; std::function<Result(ChiaDriver *&)> run; bool may_refuse = false; };
static std::vector<Op> OPS;
static double vid_volt(int vid) { return (24375.0 + vid * 625.0) / 100000.0; }
static double ref_temp(uint32_t c) { double x = c; return -60.9267 + x * (0.33061 + x * (-0.00018002 + x * (0.000000065714 + x * -0.000000000008929))); }
static uint32_t ref_code(double t) { return (uint32_t)(205.64 + t * (3.7764 + t * (0.0076534 + t * (0.00002108 + t * 0.000000027093))) + 0.5); }
static bool near(double a, double b) { return std::fabs(a - b) < 1e-6; }
static int entry_for(double f) { for (int i = 0; i < (int)VALID_PLL_FREQS; i++) if (pll_entries[i].freq >= f) return i; return -1; }
static std::string pll_state(int e) {
    auto &s = pll_entries[e].settings;
    if (!B.acked || B.divr != (int)s.divr || B.divfi != (int)s.divfi || B.divq != (int)s.divq) return fmt("PLL runs with dividers %d/%d/%d", B.divr, B.divfi, B.divq);
    double rf = 100.0 / (s.divr + 1); int r = 0; while (rf >= pll_filter_ranges[r]) r++;
    if (B.range != r) return fmt("PLL filter range is %d", B.range);
    if (B.get32(CLOCK_CONTROL_REG_OFFSET)) return fmt("clock control left at %x", B.get32(CLOCK_CONTROL_REG_OFFSET));
    return "";
}
static void build_ops() {
    auto val = [](const char *n, std::function<double(ChiaDriver *)> f, std::function<double()> truth) { OPS.push_back({n, [=](ChiaDriver *&d) { Result r; double v = f(d); r.ok = v != 0.0; if (r.ok && !near(v, truth())) r.bad = fmt("returns %g, the truth is %g", v, truth()); return r; }}); };
    OPS.push_back({"RegWrite", [](ChiaDriver *&d) { Result r; r.ok = d->RegWrite(0x20104, (uint32_t)0xA1B2C3D4) == 0; if (r.ok && B.level(2) && B.get32(0x20104) != 0xA1B2C3D4) r.bad = "register not written"; return r; }});
    OPS.push_back({"RegRead", [](ChiaDriver *&d) { Result r; uint32_t v = 0x77777777; r.ok = d->RegRead(0x20204, v) == 0; if (r.ok && v != B.get32(0x20204)) r.bad = fmt("register reads %x", v); return r; }});
    for (int n : {1, 5, 100, 256, 300, 700}) {
        OPS.push_back({fmt("Write %d bytes", n), [n](ChiaDriver *&d) { Result r; std::vector<uint8_t> b(n); for (int i = 0; i < n; i++) b[i] = i * 7 + n; r.ok = d->ftdi.Write(0x30000, b.data(), n) == 0; if (r.ok) for (int i = 0; i < n; i++) if (B.mem[0x30000 + i] != b[i]) { r.bad = fmt("byte %d not written", i); break; } return r; }});
        OPS.push_back({fmt("Read %d bytes", n), [n](ChiaDriver *&d) { Result r; std::vector<uint8_t> b(n + 8, 0x5C); for (int i = 0; i < n; i++) B.mem[0x40000 + i] = i * 11 + n; r.ok = d->ftdi.Read(0x40000, b.data(), n) == 0; if (r.ok) for (int i = 0; i < n; i++) if (B.mem[0x40000 + i] != b[i]) { r.bad = fmt("byte %d wrong", i); break; } for (int i = 0; i < 8; i++) if (b[n + i] != 0x5C) r.bad = "reads beyond the buffer"; return r; }});
    }
    for (double f : {12.5, 1100.0, 2200.0})
        OPS.push_back({fmt("SetPLLFrequency(%g)", f), [f](ChiaDriver *&d) { Result r; B.sawlow = false; uint32_t old = d->freq_idx; r.ok = d->SetPLLFrequency(f, 0); int e = entry_for(f); if (r.ok) { r.bad = pll_state(e); if (r.bad.empty() && (int)d->freq_idx != e) r.bad = "wrong table index remembered"; if (r.bad.empty() && !(B.sawlow && B.level(2))) r.bad = "board not reset"; } else if (d->freq_idx != old) r.bad = "frequency remembered although not set"; return r; }});
    OPS.push_back({"SetPLLFrequency(entry 700)", [](ChiaDriver *&d) { Result r; uint32_t old = d->freq_idx; r.ok = d->SetPLLFrequency(0.0, 700); if (r.ok) { r.bad = pll_state(700); if (r.bad.empty() && d->freq_idx != 700) r.bad = "wrong table index remembered"; } else if (d->freq_idx != old) r.bad = "frequency remembered although not set"; return r; }});
    OPS.push_back({"SetPLLFrequency(1e9)", [](ChiaDriver *&d) { Result r; int c = calls; r.ok = d->SetPLLFrequency(1e9, 0); if (r.ok) r.bad = "accepted"; else if (calls != c) r.bad = "refused but the board was accessed"; return r; }, true});
    val("GetPLLFrequency", [](ChiaDriver *d) { return d->GetPLLFrequency(); }, [] { uint32_t c = B.get32(0); return c & 2 || c & 8 ? 100.0 : c & 1 ? 0.0 : 100.0 / (B.get32(CLOCK_PRE_DIVIDE_REG_OFFSET) + 1) * (B.get32(CLOCK_FB_DIVIDE_INTEGER_REG_OFFSET) + 1) * 4 / ((B.get32(CLOCK_POST_DIVIDE_REG_OFFSET) + 1) * 2); });
    OPS.back().may_refuse = true;          // 0 while in reset
    for (double v : {0.7, 0.88, 1.0})
        OPS.push_back({fmt("SetBoardVoltage(%g)", v), [v](ChiaDriver *&d) { Result r; r.ok = d->SetBoardVoltage(v) == 0; if (r.ok) { double p = vid_volt(B.vr[7]); if (p > v + 1e-5 || p < v - 0.00626) r.bad = fmt("regulator at %g V", p); if (B.vr[8] != 0xe4) r.bad = "compensation not written"; } return r; }});
    OPS.push_back({"SetBoardVoltage(1.2)", [](ChiaDriver *&d) { Result r; auto keep = B.vr; r.ok = d->SetBoardVoltage(1.2) == 0; if (r.ok) r.bad = "accepted"; if (B.vr != keep) r.bad = "refused but written"; return r; }, true});
    val("GetBoardVoltage", [](ChiaDriver *d) { return d->GetBoardVoltage(); }, [] { return vid_volt(B.vr[7]); });
    val("GetBoardCurrent", [](ChiaDriver *d) { return d->GetBoardCurrent(); }, [] { return B.cs_code * 440.0 / (8.0 * 4096.0); });
    val("GetPower", [](ChiaDriver *d) { return d->GetPower(); }, [] { return B.cs_code * 440.0 / (8.0 * 4096.0) * vid_volt(B.vr[7]); });
    for (int e = 0; e < 2; e++) {
        uint32_t reg = e ? PVT_TEMP_ALARM_ENGINE_REG_OFFSET : PVT_TEMP_ALARM_EXTERNAL_REG_OFFSET; const char *nm = e ? "Engine" : "External";
        for (double t : {-20.0, 100.0})
            OPS.push_back({fmt("SetTempAlarm%s(%g)", nm, t), [=](ChiaDriver *&d) { Result r; r.ok = e ? d->SetTempAlarmEngine(t) : d->SetTempAlarmExternal(t); if (r.ok && B.level(2) && (B.get32(reg) & 0x3ff) != ref_code(t)) r.bad = fmt("threshold register holds %x", B.get32(reg)); return r; }});
        val(e ? "GetTempAlarmEngine" : "GetTempAlarmExternal", [=](ChiaDriver *d) { return e ? d->GetTempAlarmEngine() : d->GetTempAlarmExternal(); }, [=] { return ref_temp(B.get32(reg) & 0x3ff); });
        for (int set = 0; set < 2; set++)
            OPS.push_back({fmt("IsTempAlarm%sSet (%s)", nm, set ? "set" : "clear"), [=](ChiaDriver *&d) { Result r; B.put32(reg, (B.get32(reg) & 0x3ff) | set << 15); bool a = e ? d->IsTempAlarmEngineSet() : d->IsTempAlarmExternalSet(); r.ok = a == (bool)set; if (!a && set) r.bad = "alarm not seen"; B.put32(reg, B.get32(reg) & 0x3ff); return r; }});
    }
    for (int set = 0; set < 4; set++)
        OPS.push_back({fmt("IsTempAlarmSet (%d)", set), [=](ChiaDriver *&d) { Result r; for (int e = 0; e < 2; e++) { uint32_t reg = e ? PVT_TEMP_ALARM_ENGINE_REG_OFFSET : PVT_TEMP_ALARM_EXTERNAL_REG_OFFSET; B.put32(reg, (B.get32(reg) & 0x3ff) | (set >> e & 1) << 15); } bool a = d->IsTempAlarmSet(); r.ok = a == (set != 0); if (!a && set) r.bad = "alarm not seen"; for (uint32_t reg : {PVT_TEMP_ALARM_ENGINE_REG_OFFSET, PVT_TEMP_ALARM_EXTERNAL_REG_OFFSET}) B.put32(reg, B.get32(reg) & 0x3ff); return r; }});
    OPS.push_back({"GetPvtTemp", [](ChiaDriver *&d) { Result r; B.put32(PVT_TEMPERATURE_REG_OFFSET, 480); double v = d->GetPvtTemp(); r.ok = v != 0.0; if (r.ok && !near(v, ref_temp(480))) r.bad = fmt("returns %g", v); return r; }});
    OPS.push_back({"GetPvtVoltage", [](ChiaDriver *&d) { Result r; B.put32(PVT_VOLTAGE_REG_OFFSET, 700); double v = d->GetPvtVoltage(); r.ok = v != 0.0; if (r.ok && !near(v, 0.00054903 * 700 + 0.45727)) r.bad = fmt("returns %g", v); return r; }});
    OPS.push_back({"Reset", [](ChiaDriver *&d) { Result r; B.sawlow = false; r.ok = d->Reset(1000) == 0; if (r.ok && !(B.sawlow && B.level(2))) r.bad = "reset line not pulsed"; if (r.ok && B.dir[2] != GPIO_INPUT) r.bad = "reset line left driven"; return r; }});
    OPS.push_back({"TurnFanOn", [](ChiaDriver *&d) { Result r; r.ok = d->TurnFanOn() == 0; if (r.ok && !(B.dir[3] == GPIO_OUTPUT && B.out[3])) r.bad = "fan line not driven high"; return r; }});
    OPS.push_back({"TurnFanOff", [](ChiaDriver *&d) { Result r; r.ok = d->TurnFanOff() == 0; if (r.ok && !(B.dir[3] == GPIO_OUTPUT && !B.out[3])) r.bad = "fan line not driven low"; return r; }});
    OPS.push_back({"Open again", [](ChiaDriver *&d) { Result r; r.ok = d->ftdi.Open() == 0; if (r.ok && !(B.open[0] && B.open[1] && d->ftdi.IsOpen())) r.bad = "device not open"; if (r.ok && B.mode[0] != 1) r.bad = "data interface not initialised for SPI"; return r; }});
    OPS.push_back({"init_hw", [](ChiaDriver *&d) {
        Result r; d->ftdi.Close(); delete d; closefault = closefault && (B.open[0] || B.open[1]); B.open[0] = B.open[1] = false;      // what the old driver leaves is not init_hw's fault
        B.sawlow = false; ChiaDriver *n = init_hw(1100.0, 0.88); r.ok = n != nullptr;
        if (r.ok) {
            int e = entry_for(1100.0); r.bad = pll_state(e); double p = vid_volt(B.vr[7]);
            if (r.bad.empty() && (p > 0.88 + 1e-5 || p < 0.88 - 0.00626)) r.bad = fmt("regulator at %g V", p);
            if (r.bad.empty() && (B.get32(PVT_TEMP_ALARM_ENGINE_REG_OFFSET) & 0x3ff) != ref_code(100.0)) r.bad = "engine temperature alarm not set";
            if (r.bad.empty() && (B.get32(PVT_TEMP_ALARM_EXTERNAL_REG_OFFSET) & 0x3ff) != ref_code(100.0)) r.bad = "external temperature alarm not set";
            if (r.bad.empty() && !(B.get32(PVT_ENABLE_REG_OFFSET) & 1)) r.bad = "temperature sensor not enabled";
            if (r.bad.empty() && !B.level(2)) r.bad = "board held in reset";
            d = n;
        } else {
            if (!closefault && (B.open[0] || B.open[1])) r.bad = "device left open after a failed start";
            B.open[0] = B.open[1] = false; closefault = false;
            auto keep = plan; plan.clear(); d = new ChiaDriver(); if (d->ftdi.Open()) r.bad = "device cannot be opened after a failed start"; plan = keep;
        }
        return r; }});
}
static ChiaDriver *fresh() {
    B.power_on(); plan.clear(); calls = 0; closefault = false; trace.clear();
    auto *d = new ChiaDriver(); d->freq_idx = 0;
    if (d->ftdi.Open()) { fprintf(stderr, "open failed\n"); abort(); }
    // a started board: PLL running, thresholds set
    if (!d->SetPLLFrequency(1100.0, 0) || !d->SetTempAlarmEngine(90) || !d->SetTempAlarmExternal(90)) { viol("cannot-start", "the board cannot be started without any failure"); }
    calls = 0; return d;
}
static std::string tracestr() { std::string s; for (auto &t : trace) s += (s.empty() ? "" : ", ") + t; return s.empty() ? "no failure" : s; }
static void done(ChiaDriver *d) { plan.clear(); delete d; C.traces++; }
// Runs the operations one after the other under the plan; the fault positions count from the first operation's start.
static int run_seq(const std::vector<int> &seq, const std::vector<Fault> &pl) {
    ChiaDriver *d = fresh(); plan = pl; std::string hist; bool failed = false;
    auto judge = [&](const Op &op, Result &r, const char *phase) {
        C.transitions++; C.states++;
        // a reset whose failure was reported may leave the chip in reset: until the next reset it does not answer
        if (!B.level(2) && op.name != "Reset" && op.name != "init_hw" && op.name.find("SetPLLFrequency(1") && op.name.find("SetPLLFrequency(2")) r.bad.clear();
        if (!r.bad.empty()) viol(fmt("%s-%s", op.name.c_str(), r.bad.substr(0, 30).c_str()), fmt("%s%s: %s; %s (%s)", hist.c_str(), op.name.c_str(), r.ok ? "reports success" : "reports failure", r.bad.c_str(), tracestr().c_str()) + phase);
        if (!B.bad.empty()) { viol(fmt("%s-%s", op.name.c_str(), B.bad.c_str()), fmt("%s%s: %s (%s)", hist.c_str(), op.name.c_str(), B.bad.c_str(), tracestr().c_str()) + phase); B.bad.clear(); }
    };
    int n = 0;
    for (int o : seq) {
        size_t hits = trace.size();
        if (!d->ftdi.IsOpen() || !B.open[0] || !B.open[1]) {       // the last reopening failed: only opening again is allowed
            auto keep = plan; plan.clear(); if (d->ftdi.Open()) { viol("reopen-fails", fmt("%s: the device cannot be opened again (%s)", hist.c_str(), tracestr().c_str())); done(d); return calls; } plan = keep;
        }
        Result r = OPS[o].run(d); failed = trace.size() > hits; judge(OPS[o], r, "");
        if (!r.ok && !failed && trace.empty() && !OPS[o].may_refuse) viol(fmt("%s-fails", OPS[o].name.c_str()), fmt("%s%s fails although every transfer works", hist.c_str(), OPS[o].name.c_str()));
        hist += OPS[o].name + "; "; n = calls;
    }
    // whatever happened, without further failures the board is controllable again
    plan.clear();
    if (!d->ftdi.IsOpen() || !B.open[0] || !B.open[1]) if (d->ftdi.Open()) { viol("reopen-fails", fmt("%s: the device cannot be opened again (%s)", hist.c_str(), tracestr().c_str())); done(d); return n; }
    if (B.level(2) || OPS[seq.back()].name == "Reset") { Result r = OPS[seq.back()].run(d); judge(OPS[seq.back()], r, " when repeated"); if (!r.ok && !OPS[seq.back()].may_refuse) viol(fmt("no-repeat-%s", OPS[seq.back()].name.c_str()), fmt("%sfails again although every transfer works again (%s)", hist.c_str(), tracestr().c_str())); }
    if (d->Reset(1000) || !B.level(2)) viol("no-recovery-reset", fmt("%safterwards the board cannot be reset (%s)", hist.c_str(), tracestr().c_str()));
    static std::vector<int> again; if (again.empty()) for (int i = 0; i < (int)OPS.size(); i++) if (!strcmp(OPS[i].name.c_str(), "SetPLLFrequency(1100)") || !strcmp(OPS[i].name.c_str(), "SetBoardVoltage(0.7)") || OPS[i].name == "GetBoardCurrent" || OPS[i].name == "RegWrite" || OPS[i].name == "TurnFanOn" || OPS[i].name == "TurnFanOff" || OPS[i].name == "Reset" || OPS[i].name == "Read 300 bytes") again.push_back(i);
    std::vector<int> rec = again; rec.insert(rec.begin(), seq.back());
    for (int o : rec) { Result r = OPS[o].run(d); judge(OPS[o], r, " in the recovery"); if (!r.ok && !OPS[o].may_refuse) viol(fmt("no-recovery-%s", OPS[o].name.c_str()), fmt("after %s%s fails although every transfer works again (%s)", hist.c_str(), OPS[o].name.c_str(), tracestr().c_str())); }
    if (!trace.empty()) C.nontrivial++;
    delete d; C.traces++;
    if (B.open[0] || B.open[1]) viol("leaked-handle", fmt("%s: the device is still open after the driver is gone (%s)", hist.c_str(), tracestr().c_str()));
    return n;
}
static void mode_fault() {
    for (int o = 0; o < (int)OPS.size(); o++) {
        int n = run_seq({o}, {}); C.extra["vendor_calls_" + OPS[o].name] = n;
        for (int i = 0; i < n; i++) {
            if (!next()) continue;
            for (int k = 0; k < 3; k++) {
                int m = run_seq({o}, {{i, k}});
                // second failure anywhere later (a failed call can lengthen or shorten the rest)
                for (int j = i + 1; j < m + 2; j++) for (int l = 0; l < 3; l++) run_seq({o}, {{i, k}, {j, l}});
                // the transport stays dead from here on
                std::vector<Fault> dead; for (int j = i; j < n + 40; j++) dead.push_back({j, k}); run_seq({o}, dead);
            }
            if (C.evaluated % 61 == 1) sample(fmt("%s with call %d failing", OPS[o].name.c_str(), i));
        }
    }
}
static void mode_seq() {
    int N = OPS.size();
    for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) {
        if (!next()) continue;
        int n = run_seq({a, b}, {});
        for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) run_seq({a, b}, {{i, k}});
        for (int c = 0; c < N; c++) { int m = run_seq({a, b, c}, {}); if (C.thorough()) for (int i = 0; i < m; i++) for (int k = 0; k < 3; k++) run_seq({a, b, c}, {{i, k}}); }
        if ((a * N + b) % 977 == 3) sample(OPS[a].name + "; " + OPS[b].name);
    }
}
static void check_volt(ChiaDriver *d, double v) {
    B.vr[7] = 0x33; B.vr[8] = 0x44; B.bad.clear();
    int rc = d->SetBoardVoltage(v); C.transitions++; C.states++;
    double p = vid_volt(B.vr[7]);
    if (rc == 0) {
        C.nontrivial++;
        if (!(p <= v + 1e-5 && p > v - 0.00626)) viol("voltage-wrong", fmt("SetBoardVoltage(%.17g) reports success and programs %g V", v, p));
        if (B.vr[7] < 0x29 || B.vr[7] > 0x79) viol("voltage-unsafe", fmt("SetBoardVoltage(%.17g) programs code %x outside 0.5..1.0 V", v, B.vr[7]));
        if (B.vr[8] != 0xe4) viol("voltage-comp", fmt("SetBoardVoltage(%.17g) leaves the compensation at %x", v, B.vr[8]));
        double g = d->GetBoardVoltage(); if (!near(g, p)) viol("voltage-readback", fmt("GetBoardVoltage returns %g for %g", g, p));
    } else {
        if (v >= 0.5 && v <= 1.0) viol("voltage-refused", fmt("SetBoardVoltage(%.17g) refused", v));
        if (B.vr[7] != 0x33 || B.vr[8] != 0x44) viol("voltage-refused-written", fmt("SetBoardVoltage(%.17g) refused but the regulator was written", v));
    }
    if (!B.bad.empty()) viol("voltage-transfer", B.bad);
}
static void mode_volt() {
    ChiaDriver *d = fresh();
    for (int blk = -10; blk < 2500; blk++) {            // every 10 uV from -10 mV to 2.5 V
        if (!next()) continue;
        for (int i = 0; i < 100; i++) check_volt(d, (blk * 100 + i) * 1e-5);
        C.traces++;
    }
    for (int code = -40; code < 1100; code++) {
        if (!next()) continue;
        double v = vid_volt(code); check_volt(d, v); check_volt(d, std::nextafter(v, 1e9)); check_volt(d, std::nextafter(v, -1e9)); C.traces++;
    }
    if (next()) { for (double v : {1e1, 1e2, 1e3, 1e4, 42949.67295, 42949.67296, 42950.4, 42950.5467, 4.3e4, 8.6e4, 1e6, 1e9, 1.8e14, 1e15, 1e20, 1e300, -1e-3, -0.5, -0.8, -42948.9, -1e5, -1e20, -0.0, 5e-324, (double)INFINITY, -(double)INFINITY, (double)NAN}) check_volt(d, v); for (int e = 0; e < 1000; e++) { double w = 0.8 + e * 42949.67296; check_volt(d, w); check_volt(d, -w); } C.traces++; }
    for (int vid = 0; vid < 256; vid++) if (next()) { B.vr[7] = vid; double g = d->GetBoardVoltage(); C.states++; C.transitions++; if (!near(g, vid_volt(vid))) viol("vid-read", fmt("code %x reads as %g V", vid, g)); C.traces++; }
    for (int cs = 0; cs < 4096; cs++) if (next()) {
        B.cs_code = cs; double t = cs * 440.0 / (8.0 * 4096.0), g = d->GetBoardCurrent(); C.states++; C.transitions++; if (!near(g, t)) viol("current-read", fmt("current code %d reads as %g A", cs, g));
        B.vr[7] = cs & 255; g = d->GetPower(); if (!near(g, t * vid_volt(cs & 255))) viol("power", fmt("power for current %d and voltage code %d reads as %g W", cs, cs & 255, g)); C.traces++;
    }
    delete d;
}
static void mode_temp() {
    ChiaDriver *d = fresh();
    for (uint32_t c = 0; c < 1024; c++) if (next()) {
        double t = ref_temp(c); C.states++; C.traces++;
        B.put32(PVT_TEMPERATURE_REG_OFFSET, c); if (!near(d->GetPvtTemp(), t)) viol("temp-read", fmt("temperature code %u reads as %g, should be %g", c, d->GetPvtTemp(), t));
        B.put32(PVT_VOLTAGE_REG_OFFSET, c); if (!near(d->GetPvtVoltage(), 0.00054903 * c + 0.45727)) viol("pvt-voltage", fmt("voltage code %u reads as %g", c, d->GetPvtVoltage()));
        for (uint32_t hi : {0u, 0x400u, 0x8000u, 0xffff7c00u, 0xfffffc00u}) {
            B.put32(PVT_TEMP_ALARM_EXTERNAL_REG_OFFSET, c | hi); B.put32(PVT_TEMP_ALARM_ENGINE_REG_OFFSET, (c ^ 1) | hi); C.transitions += 4;
            if (!near(d->GetTempAlarmExternal(), t) || !near(d->GetTempAlarmEngine(), ref_temp(c ^ 1))) viol("alarm-read", fmt("alarm threshold register %x reads as %g / %g", c | hi, d->GetTempAlarmExternal(), d->GetTempAlarmEngine()));
            bool s = hi >> 15 & 1; if (d->IsTempAlarmExternalSet() != s || d->IsTempAlarmEngineSet() != s || d->IsTempAlarmSet() != s) viol("alarm-flag", fmt("alarm register %x not reported as %s", c | hi, s ? "set" : "clear"));
        }
    }
    auto set = [&](double t) {
        for (int e = 0; e < 2; e++) {
            uint32_t reg = e ? PVT_TEMP_ALARM_ENGINE_REG_OFFSET : PVT_TEMP_ALARM_EXTERNAL_REG_OFFSET, oth = e ? PVT_TEMP_ALARM_EXTERNAL_REG_OFFSET : PVT_TEMP_ALARM_ENGINE_REG_OFFSET;
            B.put32(reg, 0x155); B.put32(oth, 0x2aa); bool ok = e ? d->SetTempAlarmEngine(t) : d->SetTempAlarmExternal(t); uint32_t v = B.get32(reg); C.transitions++; C.states++;
            if (B.get32(oth) != 0x2aa) viol("alarm-other", fmt("setting one alarm to %g changes the other", t));
            if (ok) { C.nontrivial++;
                double back = ref_temp(v & 0x3ff); if (v > 0x3ff || !(std::fabs(back - t) < 2.0)) viol("alarm-wrong", fmt("alarm set to %.17g: register %x, that is %g", t, v, back)); }
            else { if (t >= -40 && t <= 125) viol("alarm-refused", fmt("alarm temperature %g refused", t)); if (v != 0x155) viol("alarm-refused-written", fmt("alarm temperature %g refused but written", t)); }
        }
    };
    for (int blk = -60; blk < 400; blk++) if (next()) { for (int i = 0; i < 100; i++) set(blk + i / 100.0); C.traces++; }
    for (int blk = 400; blk < 2000; blk++) if (next()) { for (int i = 0; i < 100; i++) set(blk + i / 100.0); C.traces++; }
    for (int blk = -273; blk < -60; blk++) if (next()) { for (int i = 0; i < 100; i++) set(blk + i / 100.0); C.traces++; }
    delete d;
}
int main(int argc, char **argv) {
    init(argc, argv); if (!getenv("VH_STDERR")) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
    build_ops();
    if (C.mode == "volt") mode_volt();
    else if (C.mode == "temp") mode_temp();
    else if (C.mode == "fault") mode_fault();
    else if (C.mode == "seq") mode_seq();
    else return 3;
    return finish();
}
