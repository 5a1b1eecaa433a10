// Executes AArch64 machine code of leaf routines one instruction at a time and watches what they do.
#pragma once
#include <cstdint>
#include <cstddef>
struct ArmImage;
ArmImage *armLoad(const unsigned char *elf, size_t size, const char *label);
int armEntry(ArmImage *, const char *name);      // -1 if there is no such routine
// sig: per argument w (n words written), r (n words read), x (both), v (a value)
uint64_t armCall(ArmImage *, int entry, const char *name, const char *sig, int n, uint64_t a, uint64_t b = 0, uint64_t c = 0);
extern uint64_t armSteps;
