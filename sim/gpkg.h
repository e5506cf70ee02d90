// Stand-in for libgpkg's header (libgpkg is not available offline): declares the one entry point geodiff uses.
#pragma once
#include <sqlite3.h>
struct sqlite3_api_routines;
#ifdef __cplusplus
extern "C" {
#endif
int sqlite3_gpkg_auto_init( sqlite3 *db, char **pzErrMsg, const struct sqlite3_api_routines *pThunk );
#ifdef __cplusplus
}
#endif
