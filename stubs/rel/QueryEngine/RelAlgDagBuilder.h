#pragma once
// stands for the repository header, which needs rapidjson (not installed)
#include "IR/Node.h"
#include "Shared/SqlTypesLayout.h"
