#pragma once
#include "arm64emu.hpp"
#include <string>
#include <vector>
struct ArmReg { std::string name; ArmImage *(*image)(); };
std::vector<ArmReg *> &armRegs() __attribute__((weak));
struct ArmRegister { ArmRegister(ArmReg *r) { if (armRegs) armRegs().push_back(r); } };
