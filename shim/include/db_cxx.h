#pragma once
// Berkeley DB is not installed: only enough for engine/bdb_raw_engine.h to parse.  bdb_raw_engine.cc is not built.
#include <sys/types.h>
class DbEnv;
class Dbc;
class DbTxn;
class Dbt {
 public:
  void* data = nullptr;
  unsigned size = 0;
  void* get_data() const { return data; }
  unsigned get_size() const { return size; }
};
class Db {
 public:
  DbEnv* get_env() { return nullptr; }
};
