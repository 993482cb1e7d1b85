#pragma once
// stands for QueryEngine/Execute.h (LLVM, Arrow): an executor that knows the ranges of the columns of the query
#define QUERYENGINE_EXECUTE_H
#include <memory>
#include <string>
#include "DataProvider/TableFragmentsInfo.h"
#include "Shared/SqlTypesLayout.h"
#include "IR/TypeUtils.h"
#include "Shared/Config.h"
#include "Shared/funcannotations.h"
#include "Shared/misc.h"
#include "QueryEngine/ExpressionRange.h"
#include "QueryEngine/QueryPhysicalInputsCollector.h"
struct InputTableInfo {
  int db_id;
  int table_id;
  std::shared_ptr<const TableFragmentsInfo> info = std::make_shared<TableFragmentsInfo>();
};
struct FakeProxy { int getIdOfString(const std::string&) const { return 7; } };
struct FakeConfig { struct { struct { bool null_div_by_zero = false; } codegen; } exec; };
class Executor {
 public:
  FakeConfig cfg;
  bool outer = false;
  ExpressionRange ranges[2] = {ExpressionRange::makeInvalidRange(), ExpressionRange::makeInvalidRange()};
  FakeProxy proxy;
  const FakeConfig& getConfig() const { return cfg; }
  bool containsLeftDeepOuterJoin() const { return outer; }
  ExpressionRange getColRange(const PhysicalInput& p) const { return ranges[p.col_id]; }
  const FakeProxy* getStringDictionaryProxy(int, int, bool) const { return &proxy; }
  int getRowSetMemoryOwner() const { return 0; }
};
