// Included in front of everything that is built for the scheduler: calls of
// these C functions go to sim_rt.cpp, which sees the memory they use.
#pragma once
#ifdef __cplusplus
#define SIM_C extern "C"
#define SIM_T noexcept(true)
#else
#define SIM_C extern
#define SIM_T
#endif
SIM_C void *memcpy(void *, const void *, __SIZE_TYPE__) SIM_T __asm__("sim_memcpy");
SIM_C void *memmove(void *, const void *, __SIZE_TYPE__) SIM_T __asm__("sim_memmove");
SIM_C void *memset(void *, int, __SIZE_TYPE__) SIM_T __asm__("sim_memset");
SIM_C int memcmp(const void *, const void *, __SIZE_TYPE__) SIM_T __asm__("sim_memcmp");
SIM_C __SIZE_TYPE__ strlen(const char *) SIM_T __asm__("sim_strlen");
SIM_C int strcmp(const char *, const char *) SIM_T __asm__("sim_strcmp");
SIM_C char *strcpy(char *, const char *) SIM_T __asm__("sim_strcpy");
SIM_C char *strcat(char *, const char *) SIM_T __asm__("sim_strcat");
SIM_C char *strncpy(char *, const char *, __SIZE_TYPE__) SIM_T __asm__("sim_strncpy");
SIM_C char *strtok(char *, const char *) SIM_T __asm__("sim_strtok");
SIM_C int sprintf(char *, const char *, ...) SIM_T __asm__("sim_sprintf");
SIM_C int snprintf(char *, __SIZE_TYPE__, const char *, ...) SIM_T __asm__("sim_snprintf");
SIM_C int vsnprintf(char *, __SIZE_TYPE__, const char *, __builtin_va_list) SIM_T __asm__("sim_vsnprintf");
SIM_C char *setlocale(int, const char *) SIM_T __asm__("sim_setlocale");
