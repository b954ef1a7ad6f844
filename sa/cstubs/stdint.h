#ifndef STUB_STDINT
#define STUB_STDINT
typedef unsigned char uint8_t; typedef unsigned short uint16_t; typedef unsigned int uint32_t; typedef unsigned long uint64_t;
typedef signed char int8_t; typedef short int16_t; typedef int int32_t; typedef long int64_t; typedef long intptr_t; typedef unsigned long uintptr_t;
#define UINT32_MAX 4294967295U
#define INT32_MAX 2147483647
#define UINT8_MAX 255
#endif
