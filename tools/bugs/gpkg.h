#pragma once
#include <sqlite3.h>
struct sqlite3_api_routines;
extern "C" int sqlite3_gpkg_auto_init( sqlite3 *db, char **pzErrMsg, const struct sqlite3_api_routines *pThunk );
