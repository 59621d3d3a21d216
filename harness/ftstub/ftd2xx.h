// Stand-in for FTDI's header (the vendor package is not installed): only the declarations chiavdf's driver uses.
#pragma once
#include <stdint.h>
typedef unsigned int DWORD; typedef DWORD *LPDWORD; typedef unsigned int ULONG; typedef void *PVOID; typedef int BOOL;
typedef PVOID FT_HANDLE; typedef ULONG FT_STATUS;
typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32;
#define WINAPI
#define FTD2XX_API
#define LIBFT4222_API
enum { FT_OK = 0, FT_DEVICE_NOT_FOUND = 2 };
#define FT_OPEN_BY_LOCATION 4
enum { FT_DEVICE_4222H_0 = 10, FT_DEVICE_4222H_1_2 = 11 };
typedef struct { ULONG Flags, Type, ID; DWORD LocId; char SerialNumber[16]; char Description[64]; FT_HANDLE ftHandle; } FT_DEVICE_LIST_INFO_NODE;
#ifdef __cplusplus
extern "C" {
#endif
FT_STATUS FT_CreateDeviceInfoList(LPDWORD); FT_STATUS FT_GetDeviceInfoList(FT_DEVICE_LIST_INFO_NODE *, LPDWORD);
FT_STATUS FT_OpenEx(PVOID, DWORD, FT_HANDLE *); FT_STATUS FT_Close(FT_HANDLE); FT_STATUS FT_SetUSBParameters(FT_HANDLE, ULONG, ULONG);
#ifdef __cplusplus
}
#endif
