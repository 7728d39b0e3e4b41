#pragma once
#include "rt.h"
bool interpLoad(const std::string& bc, const std::map<std::string, i64>& params, u64 maxInstr);
void interpRun();
void interpCleanup();
u64 interpInstrs();
std::vector<std::string> executedFns();
