#pragma once
#include "machine.h"
#include "observe.h"
/* empty string: fine */
str check_consistent(const Desc& d);
str check_truth_x86(const Desc& d, const Machine& m);
str check_names_x86(const Desc& d, const Machine& m);
str check_truth_arm(const Desc& d, const Machine& m);
str check_truth_riscv(const Desc& d, const Machine& m);
/* same partition of the keys */
bool same_partition(const std::vector<u64>& a, const std::vector<u64>& b);
u32 arm_uarch(u32 midr);
/* What follows from the files an ARM kernel offers, for processors it says little about */
struct ArmGuess {
	std::map<u32, u32> leader, midr; /* by Linux number: first processor of the cluster, type of the core */
	bool listed = false;             /* all processors are in sibling lists */
	const char* how = "lists";
	const char* types = "reported";
};
ArmGuess arm_guess(Machine& m, const std::set<str>& unreadable, bool five);
/* level 1 geometry reported by the kernel: {size, associativity, line, sets} by processor, instruction caches first */
using L1Told = std::map<std::pair<u32, int>, std::array<u32, 4>>;
str check_arm_caches(const Desc& d, const Machine& m, const L1Told& told);
str check_guess(const Desc& d, const Machine& m, const ArmGuess& g);
