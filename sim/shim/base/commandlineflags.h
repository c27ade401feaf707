#ifndef SIM_BASE_COMMANDLINEFLAGS_H_
#define SIM_BASE_COMMANDLINEFLAGS_H_
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
#endif
