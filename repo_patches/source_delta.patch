From 2bf68c51dbb980f16dbc09ff5580b8be2f480503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:59 +0000
Subject: [PATCH 01/56] fix: Value keeps a valid state when copying its string
 runs out of memory

operator= and setString() set the type (and copied the other object's string
pointer) before allocating, so a failed allocation left an object whose
destructor freed memory it did not own.
---
 geodiff/src/changeset.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 89ee970..45d97a6 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -38,13 +38,17 @@ struct Value
 
     Value &operator=( const Value &other )
     {
+      if ( this == &other )
+        return *this;
+      // make the deep copy first: if that throws, this object stays valid
+      std::string *str = nullptr;
+      if ( other.mType == TypeText || other.mType == TypeBlob )
+        str = new std::string( *other.mVal.str );
       reset();
       mType = other.mType;
       mVal = other.mVal;
-      if ( mType == TypeText || mType == TypeBlob )
-      {
-        mVal.str = new std::string( *mVal.str ); // make a deep copy
-      }
+      if ( str )
+        mVal.str = str;
       return *this;
     }
 
@@ -111,10 +115,11 @@ struct Value
     }
     void setString( Type t, const char *ptr, int size )
     {
-      reset();
       assert( t == TypeText || t == TypeBlob );
+      std::string *str = new std::string( ptr, size );
+      reset();
       mType = t;
-      mVal.str = new std::string( ptr, size );
+      mVal.str = str;
     }
     void setUndefined()
     {
-- 
2.43.0


From a1fb773b615daddbf7444504916b7a925c6e5272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:35 +0000
Subject: [PATCH 02/56] fix: C API functions report every C++ exception through
 the return code

Only GeoDiffException was caught (and none in GEODIFF_changesCount): failed
allocations and damaged changesets let exceptions out of the C interface.
---
 geodiff/src/geodiff.cpp | 84 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 82 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index ff4da8d..7872cd4 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -33,8 +33,15 @@ const char *GEODIFF_version()
 
 void _errorLogCallback( void *pArg, int iErrCode, const char *zMsg )
 {
-  std::string msg = "SQLITE3: (" + std::to_string( iErrCode ) + ")" + zMsg;
-  Logger::instance().error( msg );
+  try
+  {
+    std::string msg = "SQLITE3: (" + std::to_string( iErrCode ) + ")" + zMsg;
+    Logger::instance().error( msg );
+  }
+  catch ( const std::exception & )
+  {
+    // must not propagate through SQLite which is calling us
+  }
 }
 
 static bool gInitialized = false;
@@ -58,6 +65,19 @@ void GEODIFF_setMaximumLoggerLevel( GEODIFF_LoggerLevel maxLogLevel )
   Logger::instance().setMaxLogLevel( maxLogLevel );
 }
 
+//! Logs an exception that is not reported elsewhere (e.g. failed memory allocation), so that it does not leave the C interface
+static int unexpectedError( const std::exception &exc, int rc )
+{
+  try
+  {
+    Logger::instance().error( exc.what() );
+  }
+  catch ( const std::exception & )
+  {
+  }
+  return rc;
+}
+
 int GEODIFF_createChangeset( const char *base, const char *modified, const char *changeset )
 {
   return GEODIFF_createChangesetEx( "sqlite", nullptr, base, modified, changeset );
@@ -72,6 +92,7 @@ int GEODIFF_applyChangeset( const char *base, const char *changeset )
 int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraInfo,
                                const char *base, const char *modified,
                                const char *changeset )
+try
 {
   if ( !driverName || !base || !modified || !changeset )
   {
@@ -104,10 +125,15 @@ int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraIn
 
   return GEODIFF_SUCCESS;
 }
+catch ( const std::exception &exc )
+{
+  return unexpectedError( exc, GEODIFF_ERROR );
+}
 
 
 int GEODIFF_applyChangesetEx( const char *driverName, const char *driverExtraInfo,
                               const char *base, const char *changeset )
+try
 {
   if ( !driverName || !base || !changeset )
   {
@@ -145,6 +171,10 @@ int GEODIFF_applyChangesetEx( const char *driverName, const char *driverExtraInf
 
   return GEODIFF_SUCCESS;
 }
+catch ( const std::exception &exc )
+{
+  return unexpectedError( exc, GEODIFF_ERROR );
+}
 
 
 int GEODIFF_createRebasedChangeset( const char *base,
@@ -153,6 +183,7 @@ int GEODIFF_createRebasedChangeset( const char *base,
                                     const char *changeset,
                                     const char *conflictfile
                                   )
+try
 {
   if ( !conflictfile )
   {
@@ -188,6 +219,10 @@ int GEODIFF_createRebasedChangeset( const char *base,
     return GEODIFF_ERROR;
   }
 }
+catch ( const std::exception &exc )
+{
+  return unexpectedError( exc, GEODIFF_ERROR );
+}
 
 int GEODIFF_createRebasedChangesetEx( const char *driverName,
                                       const char *driverExtraInfo,
@@ -196,6 +231,7 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
                                       const char *base2their,
                                       const char *rebased,
                                       const char *conflictfile )
+try
 {
   if ( !driverName || !base || !base2modified || !base2their || !rebased || !conflictfile )
   {
@@ -233,9 +269,14 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
     return GEODIFF_ERROR;
   }
 }
+catch ( const std::exception &exc )
+{
+  return unexpectedError( exc, GEODIFF_ERROR );
+}
 
 
 int GEODIFF_hasChanges( const char *changeset )
+try
 {
   if ( !changeset )
   {
@@ -252,8 +293,13 @@ int GEODIFF_hasChanges( const char *changeset )
 
   return !reader.isEmpty();
 }
+catch ( const std::exception &exc )
+{
+  return unexpectedError( exc, -1 );
+}
 
 int GEODIFF_changesCount( const char *changeset )
+try
 {
   if ( !changeset )
   {
@@ -275,8 +321,13 @@ int GEODIFF_changesCount( const char *changeset )
 
   return changesCount;
 }
+catch ( const std::exception &exc )
+{
+  return unexpectedError( exc, -1 );
+}
 
 static int listChangesJSON( const char *changeset, const char *jsonfile, bool onlySummary )
+try
 {
   if ( !jsonfile || !changeset )
   {
@@ -307,6 +358,10 @@ static int listChangesJSON( const char *changeset, const char *jsonfile, bool on
   flushString( jsonfile, res );
   return GEODIFF_SUCCESS;
 }
+catch ( const std::exception &exc )
+{
+  return unexpectedError( exc, GEODIFF_ERROR );
+}
 
 int GEODIFF_listChanges( const char *changeset, const char *jsonfile )
 {
@@ -319,6 +374,7 @@ int GEODIFF_listChangesSummary( const char *changeset, const char *jsonfile )
 }
 
 int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
+try
 {
   if ( !changeset )
   {
@@ -358,6 +414,10 @@ int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
 
   return GEODIFF_SUCCESS;
 }
+catch ( const std::exception &exc )
+{
+  return unexpectedError( exc, GEODIFF_ERROR );
+}
 
 
 
@@ -365,6 +425,7 @@ int GEODIFF_rebase( const char *base,
                     const char *modified_their,
                     const char *modified,
                     const char *conflictfile )
+try
 {
   if ( !base || !modified_their || !modified || !conflictfile )
   {
@@ -389,6 +450,10 @@ int GEODIFF_rebase( const char *base,
 
   return GEODIFF_rebaseEx( "sqlite", "", base, modified, base2theirs.c_path(), conflictfile );
 }
+catch ( const std::exception &exc )
+{
+  return unexpectedError( exc, GEODIFF_ERROR );
+}
 
 
 int GEODIFF_rebaseEx( const char *driverName,
@@ -397,6 +462,7 @@ int GEODIFF_rebaseEx( const char *driverName,
                       const char *modified,
                       const char *base2their,
                       const char *conflictfile )
+try
 {
   if ( !base || !modified || !modified || !conflictfile )
   {
@@ -476,10 +542,15 @@ int GEODIFF_rebaseEx( const char *driverName,
     return GEODIFF_ERROR;
   }
 }
+catch ( const std::exception &exc )
+{
+  return unexpectedError( exc, GEODIFF_ERROR );
+}
 
 
 int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo, const char *src,
                       const char *driverDstName, const char *driverDstExtraInfo, const char *dst )
+try
 {
   if ( !driverSrcName || !src || !driverDstName || !dst )
   {
@@ -556,9 +627,14 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
 
   return GEODIFF_SUCCESS;
 }
+catch ( const std::exception &exc )
+{
+  return unexpectedError( exc, GEODIFF_ERROR );
+}
 
 
 int GEODIFF_dumpData( const char *driverName, const char *driverExtraInfo, const char *src, const char *changeset )
+try
 {
   if ( !driverName || !src || !changeset )
   {
@@ -595,3 +671,7 @@ int GEODIFF_dumpData( const char *driverName, const char *driverExtraInfo, const
 
   return GEODIFF_SUCCESS;
 }
+catch ( const std::exception &exc )
+{
+  return unexpectedError( exc, GEODIFF_ERROR );
+}
-- 
2.43.0


From 76663a29a470479d55637983ad24bf054e20a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:56 +0000
Subject: [PATCH 03/56] fix: errors when writing a changeset file are reported

ChangesetWriter ignored the state of its stream, so a full disk or a write
error gave a truncated changeset and GEODIFF_SUCCESS. Opening the changeset
in dumpData and makeCopy was not checked either.
---
 geodiff/src/changesetwriter.cpp |  7 +++++++
 geodiff/src/changesetwriter.h   |  3 +++
 geodiff/src/geodiff.cpp         | 13 ++++++++++---
 geodiff/src/geodiffrebase.cpp   |  1 +
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/changesetwriter.cpp b/geodiff/src/changesetwriter.cpp
index 3b7b6fe..b1bc72d 100644
--- a/geodiff/src/changesetwriter.cpp
+++ b/geodiff/src/changesetwriter.cpp
@@ -52,6 +52,13 @@ void ChangesetWriter::writeEntry( const ChangesetEntry &entry )
     writeRowValues( entry.newValues );
 }
 
+void ChangesetWriter::close()
+{
+  mFile.close();
+  if ( !mFile )
+    throw GeoDiffException( "Unable to write changeset file" );
+}
+
 void ChangesetWriter::writeByte( char c )
 {
   mFile.write( &c, 1 );
diff --git a/geodiff/src/changesetwriter.h b/geodiff/src/changesetwriter.h
index 81a40b8..6d5cd32 100644
--- a/geodiff/src/changesetwriter.h
+++ b/geodiff/src/changesetwriter.h
@@ -33,6 +33,9 @@ class ChangesetWriter
     //! writes table change entry
     void writeEntry( const ChangesetEntry &entry );
 
+    //! closes the file, throws an exception if anything could not be written
+    void close();
+
   private:
 
     void writeByte( char c );
diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 7872cd4..0f71524 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -116,6 +116,7 @@ try
     if ( !writer.open( changeset ) )
       throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->createChangeset( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -405,6 +406,7 @@ try
   try
   {
     invertChangeset( reader, writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -596,8 +598,10 @@ try
     // get source data
     {
       ChangesetWriter writer;
-      writer.open( tmpFileChangeset.c_path() );
+      if ( !writer.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for writing: " + tmpFileChangeset.path() );
       driverSrc->dumpData( writer );
+      writer.close();
     }
 
     // create destination
@@ -613,7 +617,8 @@ try
     // insert data to destination
     {
       ChangesetReader reader;
-      reader.open( tmpFileChangeset.c_path() );
+      if ( !reader.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for reading: " + tmpFileChangeset.path() );
       driverDst->applyChangeset( reader );
     }
   }
@@ -660,8 +665,10 @@ try
 
     // get source data
     ChangesetWriter writer;
-    writer.open( changeset );
+    if ( !writer.open( changeset ) )
+      throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->dumpData( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 1bc459b..0cf4319 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -558,6 +558,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
       }
     }
   }
+  writer.close();
 
   return GEODIFF_SUCCESS;
 }
-- 
2.43.0


From 0e71d522b0765f02b4b7fe49c4966d16f0ea9983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 04/56] fix: errors when writing JSON files, copying files and
 writing buffers are reported

flushString(), filecopy() and Buffer::write() ignored failed and short writes,
so listings, conflict files, rebased and concatenated changesets could be
incomplete although the call reported success.
---
 geodiff/src/geodiffutils.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 15368b9..4d39d5f 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -188,8 +188,11 @@ void Buffer::write( const std::string &filename )
   {
     throw GeoDiffException( "Unable to open " + filename + " for writing" );
   }
-  fwrite( mZ, mAlloc, 1, f );
-  fclose( f );
+  bool written = mAlloc == 0 || fwrite( mZ, mAlloc, 1, f ) == 1;
+  if ( fclose( f ) != 0 || !written )
+  {
+    throw GeoDiffException( "Unable to write " + filename );
+  }
 }
 
 const char *Buffer::c_buf() const
@@ -282,13 +285,14 @@ void filecopy( const std::string &to, const std::string &from )
 #ifdef WIN32
   std::wstring wFrom = stringToWString( from );
   std::wstring wTo = stringToWString( to );
-  CopyFile( wFrom.c_str(), wTo.c_str(), false );
+  if ( !CopyFile( wFrom.c_str(), wTo.c_str(), false ) )
+    throw GeoDiffException( "Unable to copy " + from + " to " + to );
 #else
 
-  std::ifstream  src( from, std::ios::binary );
-  std::ofstream  dst( to,   std::ios::binary );
-
-  dst << src.rdbuf();
+  // read the whole file first: inserting a stream buffer does not report read errors
+  Buffer buf;
+  buf.read( from );
+  buf.write( to );
 #endif
 }
 
@@ -444,6 +448,8 @@ void flushString( const std::string &filename, const std::string &str )
   std::ofstream out( filename );
   out << str;
   out.close();
+  if ( !out )
+    throw GeoDiffException( "Unable to write " + filename );
 }
 
 std::string getEnvVar( std::string const &key, const std::string &defaultVal )
-- 
2.43.0


From 9658a2a43da77646b012d8a9e45e1b667519098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 05/56] fix: rebasing with an empty changeset on one side
 writes the result and keeps the inputs

filecopy() takes (to, from); the arguments were swapped, so the input changeset
was truncated and no rebased changeset was written. With no changes on our side
the rebased changeset must be empty: it gets applied on top of theirs.
---
 geodiff/src/geodiffrebase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 0cf4319..c067d92 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -580,7 +580,7 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_THEIRS.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2theirs) --\n" );
-    filecopy( changeset_BASE_MODIFIED, changeset_THEIRS_MODIFIED );
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );
     return GEODIFF_SUCCESS;
   }
 
@@ -593,7 +593,8 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_MODIFIED.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2modified) --\n" );
-    filecopy( changeset_BASE_THEIRS, changeset_THEIRS_MODIFIED );
+    // there is nothing to add on top of "theirs": the result is an empty changeset as well
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );
     return GEODIFF_SUCCESS;
   }
 
-- 
2.43.0


From 9a2dbe830363356b254a526965e4e640058a4e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 06/56] fix: ChangesetReader never reads past the end of a
 truncated or damaged changeset

Numbers, varints and text lengths were read without checking how much data is
left, and unknown record types were skipped byte by byte instead of being
reported.
---
 geodiff/src/changesetreader.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 27ca43c..62786f5 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -60,6 +60,10 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
       entry.table = &mCurrentTable;
       return true;  // we're done!
     }
+    else
+    {
+      throwReaderError( "nextEntry: unexpected record type" );
+    }
   }
   return false;
 }
@@ -88,6 +92,13 @@ int ChangesetReader::readVarint()
 {
   u32 value;
   const unsigned char *ptr = ( const unsigned char * )mBuffer->c_buf() + mOffset;
+  // a varint takes up to 9 bytes, all but the last one (or the 9th) have the top bit set
+  int available = mBuffer->size() - mOffset;
+  int pos = 0;
+  while ( pos < 8 && pos < available && ( ptr[pos] & 0x80 ) )
+    ++pos;
+  if ( pos >= available )
+    throwReaderError( "readVarint: at the end of buffer" );
   int nBytes = getVarint32( ptr, value );
   mOffset += nBytes;
   return value;
@@ -123,6 +134,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit int (big endian)
       int64_t v;
       uint64_t x;
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: number: at the end of buffer" );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
@@ -134,6 +147,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit double (big endian)
       double v;
       uint64_t x;
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: number: at the end of buffer" );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
@@ -143,7 +158,7 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
     else if ( type == Value::TypeText || type == Value::TypeBlob ) // 0x03 or 0x04
     {
       int len = readVarint();
-      if ( mOffset + len > mBuffer->size() )
+      if ( len < 0 || len > mBuffer->size() - mOffset )
         throwReaderError( "readRowValues: text/blob: at the end of buffer" );
       values[i].setString( type == Value::TypeText ? Value::TypeText : Value::TypeBlob, mBuffer->c_buf() + mOffset, len );
       mOffset += len;
-- 
2.43.0


From 207f0c8a44f96201a9cb30c0df3c1fd7291c9e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 07/56] fix: table blocks with other key flags do not reuse the
 statements of the previous block

---
 geodiff/src/changesetutils.cpp       | 2 +-
 geodiff/src/drivers/sqlitedriver.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 2d9b5dd..f348051 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -29,7 +29,7 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
   while ( reader.nextEntry( entry ) )
   {
     assert( entry.table );
-    if ( entry.table->name != currentTableName )
+    if ( entry.table->name != currentTableName || entry.table->primaryKeys != currentPkeys )
     {
       writer.beginTable( *entry.table );
       currentTableName = entry.table->name;
diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index fd237ab..73c7079 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -669,6 +669,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
 void SqliteDriver::applyChangeset( ChangesetReader &reader )
 {
   std::string lastTableName;
+  std::vector<bool> lastPrimaryKeys;
   std::unique_ptr<Sqlite3Stmt> stmtInsert, stmtUpdate, stmtDelete;
   TableSchema tbl;
 
@@ -700,10 +701,11 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   ChangesetEntry entry;
   while ( reader.nextEntry( entry ) )
   {
-    if ( entry.table->name != lastTableName )
+    if ( !stmtInsert || entry.table->name != lastTableName || entry.table->primaryKeys != lastPrimaryKeys )
     {
       std::string tableName = entry.table->name;
       lastTableName = tableName;
+      lastPrimaryKeys = entry.table->primaryKeys;
       tbl = tableSchema( tableName );
 
       if ( tbl.columns.size() == 0 )
-- 
2.43.0


From 134ae268c96d189080580e04db41bd2794876931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 08/56] fix: errors when reading rows from SQLite are reported
 instead of ending the result early

---
 geodiff/src/drivers/sqlitedriver.cpp | 30 +++++++++++++++++----------
 geodiff/src/drivers/sqliteutils.cpp  | 31 ++++++++++++++++++++--------
 geodiff/src/drivers/sqliteutils.h    |  2 ++
 3 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 73c7079..c528257 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -178,11 +178,11 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
                                " ORDER BY name";
   Sqlite3Stmt statement;
   statement.prepare( mDb, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     const char *name = ( const char * )sqlite3_column_text( statement.get(), 0 );
     if ( !name )
-      continue;
+      throw GeoDiffException( "Unable to read name of a table" );
 
     std::string tableName( name );
     /* typically geopackage from ogr would have these (table name is simple)
@@ -222,7 +222,7 @@ bool tableExists( std::shared_ptr<Sqlite3Db> db, const std::string &tableName, c
   Sqlite3Stmt stmtHasGeomColumnsInfo;
   stmtHasGeomColumnsInfo.prepare( db, "SELECT name FROM \"%w\".sqlite_master WHERE type='table' "
                                   "AND name='%q'", dbName.c_str(), tableName.c_str() );
-  return sqlite3_step( stmtHasGeomColumnsInfo.get() ) == SQLITE_ROW;
+  return stmtHasGeomColumnsInfo.nextRow();
 }
 
 TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useModified )
@@ -237,15 +237,18 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
 
   Sqlite3Stmt statement;
   statement.prepare( mDb, "PRAGMA '%q'.table_info('%q')", dbName.c_str(), tableName.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     const unsigned char *zName = sqlite3_column_text( statement.get(), 1 );
     if ( zName == nullptr )
       throw GeoDiffException( "NULL column name in table schema: " + tableName );
+    const unsigned char *zType = sqlite3_column_text( statement.get(), 2 );
+    if ( zType == nullptr )
+      throw GeoDiffException( "NULL column type in table schema: " + tableName );
 
     TableColumnInfo columnInfo;
     columnInfo.name = ( const char * )zName;
-    columnInfo.type = ( const char * ) sqlite3_column_text( statement.get(), 2 );
+    columnInfo.type = ( const char * ) zType;
     columnInfo.isNotNull = sqlite3_column_int( statement.get(), 3 );
     columnInfo.isPrimaryKey = sqlite3_column_int( statement.get(), 5 );
 
@@ -269,7 +272,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
   int srsId = -1;
   Sqlite3Stmt stmtGeomCol;
   stmtGeomCol.prepare( mDb, "SELECT * FROM \"%w\".gpkg_geometry_columns WHERE table_name = '%q'", dbName.c_str(), tableName.c_str() );
-  if ( SQLITE_ROW == sqlite3_step( stmtGeomCol.get() ) )
+  if ( stmtGeomCol.nextRow() )
   {
     const unsigned char *chrColumnName = sqlite3_column_text( stmtGeomCol.get(), 1 );
     const unsigned char *chrTypeName = sqlite3_column_text( stmtGeomCol.get(), 2 );
@@ -304,7 +307,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
   {
     Sqlite3Stmt stmtCrs;
     stmtCrs.prepare( mDb, "SELECT * FROM \"%w\".gpkg_spatial_ref_sys WHERE srs_id = %d", dbName.c_str(), srsId );
-    if ( SQLITE_ROW != sqlite3_step( stmtCrs.get() ) )
+    if ( !stmtCrs.nextRow() )
       throw GeoDiffException( "Unable to find entry in gpkg_spatial_ref_sys for srs_id = " + std::to_string( srsId ) );
 
     const unsigned char *chrAuthName = sqlite3_column_text( stmtCrs.get(), 2 );
@@ -435,7 +438,12 @@ static Value changesetValue( sqlite3_value *v )
   else if ( type == SQLITE_FLOAT )
     x.setDouble( sqlite3_value_double( v ) );
   else if ( type == SQLITE_TEXT )
-    x.setString( Value::TypeText, ( const char * )sqlite3_value_text( v ), sqlite3_value_bytes( v ) );
+  {
+    const char *text = ( const char * )sqlite3_value_text( v );
+    if ( !text )
+      throw GeoDiffException( "Unable to read text value" );
+    x.setString( Value::TypeText, text, sqlite3_value_bytes( v ) );
+  }
   else if ( type == SQLITE_BLOB )
     x.setString( Value::TypeBlob, ( const char * )sqlite3_value_blob( v ), sqlite3_value_bytes( v ) );
   else
@@ -449,7 +457,7 @@ static void handleInserted( const std::string &tableName, const TableSchema &tbl
   std::string sqlInserted = sqlFindInserted( tableName, tbl, reverse );
   Sqlite3Stmt statementI;
   statementI.prepare( db, "%s", sqlInserted.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+  while ( statementI.nextRow() )
   {
     if ( first )
     {
@@ -481,7 +489,7 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
   Sqlite3Stmt statement;
   statement.prepare( db, "%s", sqlModified.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     if ( first )
     {
@@ -949,7 +957,7 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
     bool first = true;
     Sqlite3Stmt statementI;
     statementI.prepare( mDb, "SELECT * FROM \"%w\".\"%w\"", dbName.c_str(), tableName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+    while ( statementI.nextRow() )
     {
       if ( first )
       {
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index b6c1ba6..51a63fe 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -121,6 +121,14 @@ void Sqlite3Stmt::prepare( std::shared_ptr<Sqlite3Db> db, const std::string &sql
   mStmt = pStmt;
 }
 
+bool Sqlite3Stmt::nextRow()
+{
+  int rc = sqlite3_step( mStmt );
+  if ( rc != SQLITE_ROW && rc != SQLITE_DONE )
+    throw GeoDiffException( "SQL statement error: " + std::string( sqlite3_errmsg( sqlite3_db_handle( mStmt ) ) ) );
+  return rc == SQLITE_ROW;
+}
+
 sqlite3_stmt *Sqlite3Stmt::get()
 {
   return mStmt;
@@ -154,6 +162,8 @@ Sqlite3Value::Sqlite3Value( const sqlite3_value *val )
   if ( val )
   {
     mVal = sqlite3_value_dup( val );
+    if ( !mVal )
+      throw GeoDiffException( "out of memory" );
   }
 }
 
@@ -233,13 +243,13 @@ void sqliteTriggers( std::shared_ptr<Sqlite3Db> db, std::vector<std::string> &tr
 
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", "select name, sql from sqlite_master where type = 'trigger'" );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  while ( statament.nextRow() )
   {
     const char *name = ( char * ) sqlite3_column_text( statament.get(), 0 );
     const char *sql = ( char * ) sqlite3_column_text( statament.get(), 1 );
 
     if ( !name || !sql )
-      continue;
+      throw GeoDiffException( "Unable to read definition of a trigger" );
 
     /* typically geopackage from ogr would have these (table name is simple)
         - gpkg_tile_matrix_zoom_level_insert
@@ -300,7 +310,7 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
     {
       Sqlite3Stmt pStmt;     /* SQL statement being run */
       pStmt.prepare( db, "SELECT * FROM %s.pragma_foreign_key_list(%Q)", dbName.c_str(), fromTableName.c_str() );
-      while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+      while ( pStmt.nextRow() )
       {
         const char *fk_to_table = ( const char * )sqlite3_column_text( pStmt.get(), 2 );
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
@@ -344,11 +354,11 @@ void sqliteTables( std::shared_ptr<Sqlite3Db> db,
                                " ORDER BY name";
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  while ( statament.nextRow() )
   {
     const char *name = ( const char * )sqlite3_column_text( statament.get(), 0 );
     if ( !name )
-      continue;
+      throw GeoDiffException( "Unable to read name of a table" );
 
     std::string tableName( name );
     /* typically geopackage from ogr would have these (table name is simple)
@@ -409,7 +419,7 @@ std::vector<std::string> sqliteColumnNames(
   */
   const char *zTab = tableName.c_str();
   pStmt.prepare( db, "PRAGMA %s.index_list=%Q", zDb.c_str(), zTab );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  while ( pStmt.nextRow() )
   {
     if ( sqlite3_stricmp( ( const char * )sqlite3_column_text( pStmt.get(), 3 ), "pk" ) == 0 )
     {
@@ -425,7 +435,7 @@ std::vector<std::string> sqliteColumnNames(
     int nCol = 0;
     truePk = 0;
     pStmt.prepare( db, "PRAGMA %s.index_xinfo=%Q", zDb.c_str(), zPkIdxName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+    while ( pStmt.nextRow() )
     {
       nCol++;
       if ( sqlite3_column_int( pStmt.get(), 5 ) ) { nKey++; continue; }
@@ -451,10 +461,13 @@ std::vector<std::string> sqliteColumnNames(
 
   naz = nPK;
   az.resize( naz );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  while ( pStmt.nextRow() )
   {
     int iPKey;
-    std::string name = ( char * )sqlite3_column_text( pStmt.get(), 1 );
+    const char *zName = ( const char * )sqlite3_column_text( pStmt.get(), 1 );
+    if ( !zName )
+      throw GeoDiffException( "Unable to read name of a column" );
+    std::string name = zName;
     if ( truePk && ( iPKey = sqlite3_column_int( pStmt.get(), 5 ) ) > 0 )
     {
       az[iPKey - 1] = name;
diff --git a/geodiff/src/drivers/sqliteutils.h b/geodiff/src/drivers/sqliteutils.h
index b6038f1..99faca2 100644
--- a/geodiff/src/drivers/sqliteutils.h
+++ b/geodiff/src/drivers/sqliteutils.h
@@ -42,6 +42,8 @@ class Sqlite3Stmt
     void prepare( std::shared_ptr<Sqlite3Db> db, const std::string &sql );
     void prepare( std::shared_ptr<Sqlite3Db> db, const char *zFormat, ... );
     sqlite3_stmt *get();
+    //! Steps to the next row of the result. Returns false when there are no more rows, throws exception on error
+    bool nextRow();
     void close();
     //! Returns SQL statement with bound parameters expanded
     std::string expandedSql() const;
-- 
2.43.0


From ab03bdb1a695b635a1326bfbb6cb3acac3537507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 09/56] fix: rebase refuses foreign keys that name the
 referenced column implicitly or in another letter case

---
 geodiff/src/drivers/sqliteutils.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index 51a63fe..7915bef 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -316,7 +316,8 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
         const char *fk_to = ( const char * )sqlite3_column_text( pStmt.get(), 4 );
 
-        if ( fk_to_table && fk_from && fk_to )
+        // fk_to is NULL if the key refers to the primary key of the other table implicitly
+        if ( fk_to_table && fk_from )
         {
           // TODO: this part is not speed-optimized and could be slower for databases with a lot of
           // columns and/or foreign keys. For each entry we grab column names again
@@ -327,9 +328,7 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
             continue;
 
           std::vector<std::string> toColumnNames = sqliteColumnNames( db, dbName, fk_to_table );
-          int fk_to_id = indexOf( toColumnNames, fk_to );
-          if ( fk_to_id < 0 )
-            continue;
+          int fk_to_id = fk_to ? indexOf( toColumnNames, fk_to ) : -1;  // column names are case-insensitive in SQL
 
           TableColumn from( fromTableName, fk_from_id );
           TableColumn to( fk_to_table, fk_to_id );
-- 
2.43.0


From eacb248827bdb695a4941f5f3378be1a9cbf170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 10/56] fix: SQLite diffs and dumps read all tables in a single
 transaction

---
 geodiff/src/drivers/sqlitedriver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index c528257..1344b72 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -529,6 +529,9 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
 void SqliteDriver::createChangeset( ChangesetWriter &writer )
 {
+  // read everything in a single transaction, so that other processes can't change data between our queries
+  Sqlite3SavepointTransaction readTransaction( mDb );
+
   std::vector<std::string> tablesBase = listTables( false );
   std::vector<std::string> tablesModified = listTables( true );
 
@@ -946,6 +949,9 @@ void SqliteDriver::createTables( const std::vector<TableSchema> &tables )
 
 void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
 {
+  // read everything in a single transaction, so that other processes can't change data between our queries
+  Sqlite3SavepointTransaction readTransaction( mDb );
+
   std::string dbName = databaseName( useModified );
   std::vector<std::string> tables = listTables();
   for ( const std::string &tableName : tables )
-- 
2.43.0


From 9578f0aafdcd996898f286022ed4716ea1b31a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:49 +0000
Subject: [PATCH 11/56] fix: applying a changeset stops when SQLite fails for
 other reason than a conflict

---
 geodiff/src/drivers/sqlitedriver.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 1344b72..ab030ce 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -677,6 +677,17 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
 }
 
 
+/**
+ * Call after a change could not be written. Only constraint violations are conflicts, other errors (e.g. I/O error,
+ * out of memory, full disk) mean that it is not possible to continue: SQLite may have ended our transaction already.
+ */
+static void checkChangeError( std::shared_ptr<Sqlite3Db> db )
+{
+  if ( ( sqlite3_errcode( db->get() ) & 0xff ) != SQLITE_CONSTRAINT || sqlite3_get_autocommit( db->get() ) )
+    throw GeoDiffException( "Unable to write a change: " + std::string( sqlite3_errmsg( db->get() ) ) );
+}
+
+
 void SqliteDriver::applyChangeset( ChangesetReader &reader )
 {
   std::string lastTableName;
@@ -750,6 +761,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       }
       if ( sqlite3_step( stmtInsert->get() ) != SQLITE_DONE )
       {
+        checkChangeError( mDb );
         // it could be that the primary key already exists or some constraint violation (e.g. not null, unique)
         logApplyConflict( "insert_failed", entry );
         ++conflictCount;
@@ -760,6 +772,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
     }
     else if ( entry.op == SQLITE_UPDATE )
     {
+      sqlite3_clear_bindings( stmtUpdate->get() );  // not all parameters get bound, do not use values of previous change
       for ( size_t i = 0; i < tbl.columns.size(); ++i )
       {
         const Value &vOld = entry.oldValues[i];
@@ -772,6 +785,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       }
       if ( sqlite3_step( stmtUpdate->get() ) != SQLITE_DONE )
       {
+        checkChangeError( mDb );
         // a constraint must have been violated (e.g. foreign key, not null, unique)
         logApplyConflict( "update_failed", entry );
         ++conflictCount;
@@ -793,6 +807,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       }
       if ( sqlite3_step( stmtDelete->get() ) != SQLITE_DONE )
       {
+        checkChangeError( mDb );
         // a foreign key constraint must have been violated
         logApplyConflict( "delete_failed", entry );
         ++conflictCount;
-- 
2.43.0


From 5023a7f3351548ed999917e15f14fa8b1ab883a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:49 +0000
Subject: [PATCH 12/56] fix: user triggers with unusual names do not fire while
 applying a changeset and errors dropping or recreating them are reported

---
 geodiff/src/drivers/sqlitedriver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index ab030ce..ecd3f11 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -714,8 +714,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   Sqlite3Stmt statament;
   for ( std::string name : triggerNames )
   {
-    statament.prepare( mDb, "drop trigger %s", name.c_str() );
-    sqlite3_step( statament.get() );
+    statament.prepare( mDb, "drop trigger \"%w\"", name.c_str() );
+    statament.nextRow();
     statament.close();
   }
 
@@ -828,7 +828,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   for ( std::string cmd : triggerCmds )
   {
     statament.prepare( mDb, "%s", cmd.c_str() );
-    sqlite3_step( statament.get() );
+    statament.nextRow();
     statament.close();
   }
 
-- 
2.43.0


From f2c038e146484e45a0d95c9949e5e0378a744735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:49 +0000
Subject: [PATCH 13/56] fix: texts with embedded zero characters are compared
 and applied in full (SQLite)

---
 geodiff/src/drivers/sqlitedriver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index ecd3f11..fe87084 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -411,7 +411,12 @@ static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
     return sqlite3_value_double( v1 ) == sqlite3_value_double( v2 );
   else if ( type1 == SQLITE_TEXT )
   {
-    return strcmp( ( const char * ) sqlite3_value_text( v1 ), ( const char * ) sqlite3_value_text( v2 ) ) == 0;
+    const unsigned char *text1 = sqlite3_value_text( v1 );
+    const unsigned char *text2 = sqlite3_value_text( v2 );
+    if ( !text1 || !text2 )
+      throw GeoDiffException( "Unable to read text value" );
+    int len1 = sqlite3_value_bytes( v1 );
+    return len1 == sqlite3_value_bytes( v2 ) && memcmp( text1, text2, len1 ) == 0;
   }
   else if ( type1 == SQLITE_BLOB )
   {
@@ -666,7 +671,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
   else if ( v.type() == Value::TypeNull )
     rc = sqlite3_bind_null( stmt, index );
   else if ( v.type() == Value::TypeText )
-    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), -1, SQLITE_TRANSIENT );
+    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else if ( v.type() == Value::TypeBlob )
     rc = sqlite3_bind_blob( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else
-- 
2.43.0


From c7e687ca810bc012c830ed0056fe1f82a314d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:03 +0000
Subject: [PATCH 14/56] fix: SQLite diffs and applies compare exact values:
 also in columns with a collation and in tables having only key columns

---
 geodiff/src/drivers/sqlitedriver.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index fe87084..db20462 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -381,13 +381,13 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
       exprPk += sqlitePrintf( "\"%w\".\"%w\".\"%w\"=\"%w\".\"%w\".\"%w\"",
                               "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
     }
-    else // not a primary key column
-    {
-      if ( !exprOther.empty() )
-        exprOther += " OR ";
-      exprOther += sqlitePrintf( "\"%w\".\"%w\".\"%w\" IS NOT \"%w\".\"%w\".\"%w\"",
-                                 "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
-    }
+
+    // compare bytes regardless of collation of the column (also of primary key columns: their values may be the same
+    // row according to the collation, and yet be different)
+    if ( !exprOther.empty() )
+      exprOther += " OR ";
+    exprOther += sqlitePrintf( "\"%w\".\"%w\".\"%w\" IS NOT \"%w\".\"%w\".\"%w\" COLLATE BINARY",
+                               "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
   }
 
   std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
@@ -631,9 +631,9 @@ static std::string sqlForUpdate( const std::string &tableName, const TableSchema
     if ( i > 0 )
       sql += " AND ";
     if ( tbl.columns[i].isPrimaryKey )
-      sql += sqlitePrintf( " \"%w\" = ?%d ", tbl.columns[i].name.c_str(), i * 3 + 1 );
+      sql += sqlitePrintf( " \"%w\" = ?%d AND \"%w\" IS ?%d COLLATE BINARY ", tbl.columns[i].name.c_str(), i * 3 + 1, tbl.columns[i].name.c_str(), i * 3 + 1 );
     else
-      sql += sqlitePrintf( " ( ?%d = 0 OR \"%w\" IS ?%d ) ", i * 3 + 2, tbl.columns[i].name.c_str(), i * 3 + 1 );
+      sql += sqlitePrintf( " ( ?%d = 0 OR \"%w\" IS ?%d COLLATE BINARY ) ", i * 3 + 2, tbl.columns[i].name.c_str(), i * 3 + 1 );
   }
 
   return sql;
@@ -654,9 +654,9 @@ static std::string sqlForDelete( const std::string &tableName, const TableSchema
     if ( i > 0 )
       sql += " AND ";
     if ( tbl.columns[i].isPrimaryKey )
-      sql += sqlitePrintf( "\"%w\" = ?", tbl.columns[i].name.c_str() );
+      sql += sqlitePrintf( "\"%w\" = ?%d AND \"%w\" IS ?%d COLLATE BINARY", tbl.columns[i].name.c_str(), i + 1, tbl.columns[i].name.c_str(), i + 1 );
     else
-      sql += sqlitePrintf( "\"%w\" IS ?", tbl.columns[i].name.c_str() );
+      sql += sqlitePrintf( "\"%w\" IS ?%d COLLATE BINARY", tbl.columns[i].name.c_str(), i + 1 );
   }
   return sql;
 }
-- 
2.43.0


From 8d481f4347e3da5a9ce36b9d4a2b36b9b95dce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 15/56] fix: two NULL values are equal

---
 geodiff/src/changeset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 45d97a6..a7feb01 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -56,7 +56,7 @@ struct Value
     {
       if ( mType != other.mType )
         return false;
-      if ( mType == TypeUndefined || mType == TypeUndefined )
+      if ( mType == TypeUndefined || mType == TypeNull )
         return true;
       if ( mType == TypeInt )
         return getInt() == other.getInt();
-- 
2.43.0


From 9def4b178b143abe32ea36f2fb080ac1e0b690f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 16/56] fix: losing connection to PostgreSQL while applying a
 changeset does not terminate the process

---
 geodiff/src/drivers/postgresdriver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index b078586..e5515dd 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -41,7 +41,8 @@ class PostgresTransaction
       if ( mConn )
       {
         // we had some problems - roll back any pending changes
-        PostgresResult res( execSql( mConn, "ROLLBACK" ) );
+        // (no exceptions from destructor: if the connection is lost, the server rolls back on its own)
+        ::PQclear( ::PQexec( mConn, "ROLLBACK" ) );
       }
     }
 
-- 
2.43.0


From 9010f8b10a33b1fce9927d2075ab2ceed033fad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 17/56] fix: deletion of a missing or modified row is a
 conflict also in PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index e5515dd..5ba8a3b 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -828,6 +828,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
       if ( res.affectedRows() != "1" )
       {
         logApplyConflict( "delete_nothing", entry );
+        ++conflictCount;
         Logger::instance().warn( "Wrong number of affected rows! Expected 1, got: " + res.affectedRows() );
       }
     }
-- 
2.43.0


From 0f251f29065db0efee9cec79aa8322a0b6f82db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 18/56] fix: connection to PostgreSQL is released when it fails

---
 geodiff/src/drivers/postgresdriver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 5ba8a3b..ec2897d 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -98,7 +98,9 @@ void PostgresDriver::openPrivate( const DriverParametersMap &conn )
 
   if ( PQstatus( c ) != CONNECTION_OK )
   {
-    throw GeoDiffException( "Cannot connect to PostgreSQL database: " + std::string( PQerrorMessage( c ) ) );
+    std::string errorMessage( PQerrorMessage( c ) );
+    PQfinish( c );
+    throw GeoDiffException( "Cannot connect to PostgreSQL database: " + errorMessage );
   }
 
   mConn = c;
-- 
2.43.0


From 76540bed5d5917ddda1cdcf15cdd9dccdbe58e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 19/56] fix: table names are quoted in all PostgreSQL queries

---
 geodiff/src/drivers/postgresdriver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index ec2897d..b488d49 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -363,9 +363,9 @@ static std::string sqlFindInserted( const std::string &schemaNameBase, const std
   }
 
   std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + quotedIdentifier( tableName ) +
                     " WHERE NOT EXISTS ( SELECT 1 FROM " +
-                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + quotedIdentifier( tableName ) +
                     " WHERE " + exprPk + ")";
   return sql;
 }
@@ -924,7 +924,7 @@ void PostgresDriver::createTables( const std::vector<TableSchema> &tables )
       }
     }
 
-    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + tbl.name + " (";
+    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + quotedIdentifier( tbl.name ) + " (";
     sql += columns;
     sql += ", PRIMARY KEY (" + pkeyCols + ")";
     sql += ");";
@@ -949,7 +949,7 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
       continue;  // ignore tables without primary key - they can't be compared properly
 
     std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + tableName;
+                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + quotedIdentifier( tableName );
 
     PostgresResult res( execSql( mConn, sql ) );
     int rows = res.rowCount();
-- 
2.43.0


From ec8ef6458674b8f33179db4d3972719e76dd7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 20/56] fix: doubles are written to PostgreSQL without loss of
 precision

---
 geodiff/src/drivers/postgresdriver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index b488d49..9cf11ea 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -505,7 +505,10 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
   }
   else if ( v.type() == Value::TypeDouble )
   {
-    return std::to_string( v.getDouble() );
+    // all digits are needed to get the same number, and the quotes make it a constant of the type of the column
+    char buf[32];
+    snprintf( buf, sizeof( buf ), "'%.17g'", v.getDouble() );
+    return buf;
   }
   else if ( v.type() == Value::TypeText || v.type() == Value::TypeBlob )
   {
-- 
2.43.0


From 37d62efbd4a0f02aa2b8407784cc88209617b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 21/56] fix: PostgreSQL sequence is moved also when the first
 inserted key is the initial value or values are large

---
 geodiff/src/drivers/postgresdriver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 9cf11ea..d065690 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -885,9 +885,10 @@ void PostgresDriver::updateSequenceObject( const std::string &seqName, int64_t m
 {
   PostgresResult resCurrVal( execSql( mConn, "SELECT last_value FROM " + seqName ) );
   std::string currValueStr = resCurrVal.value( 0, 0 );
-  int currValue = std::stoi( currValueStr );
+  int64_t currValue = std::stoll( currValueStr );
 
-  if ( currValue < maxValue )
+  // also if they are equal: a sequence not used yet has the last value 1, and would return it again
+  if ( currValue <= maxValue )
   {
     Logger::instance().info( "Updating sequence " + seqName + " from " + std::to_string( currValue ) + " to " + std::to_string( maxValue ) );
 
-- 
2.43.0


From 8b8d87b16837501067d9fea6a84642a6fd8ada94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 22/56] fix: table blocks with other key flags are checked
 against the table also in PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index d065690..a62c388 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -736,6 +736,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
     throw GeoDiffException( "Not connected to a database" );
 
   std::string lastTableName;
+  std::vector<bool> lastPrimaryKeys;
   TableSchema tbl;
 
   int autoIncrementPkeyIndex = -1;
@@ -755,9 +756,10 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
     if ( tableName.rfind( "gpkg_", 0 ) == 0 )
       continue;   // skip any changes to GPKG meta tables
 
-    if ( tableName != lastTableName )
+    if ( tbl.columns.empty() || tableName != lastTableName || entry.table->primaryKeys != lastPrimaryKeys )
     {
       lastTableName = tableName;
+      lastPrimaryKeys = entry.table->primaryKeys;
       tbl = tableSchema( tableName );
 
       if ( tbl.columns.size() == 0 )
-- 
2.43.0


From 29ecc7d2d1be7d981471b6288bed25af5abf0ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 23/56] fix: tables having only key columns can be diffed in
 PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index a62c388..4329260 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -564,6 +564,9 @@ static void handleInserted( const std::string &schemaNameBase, const std::string
 
 static void handleUpdated( const std::string &schemaNameBase, const std::string &schemaNameModified, const std::string &tableName, const TableSchema &tbl, PGconn *conn, ChangesetWriter &writer, bool &first )
 {
+  if ( std::all_of( tbl.columns.begin(), tbl.columns.end(), []( const TableColumnInfo & c ) { return c.isPrimaryKey; } ) )
+    return;  // there is nothing but the key, so rows do not get updated
+
   std::string sqlModified = sqlFindModified( schemaNameBase, schemaNameModified, tableName, tbl );
   PostgresResult res( execSql( conn, sqlModified ) );
 
-- 
2.43.0


From 1e61ee46321b4a14c68ea28cfee8a864dbae5699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 24/56] fix: PostgreSQL diffs and dumps read all tables in a
 single transaction

---
 geodiff/src/drivers/postgresdriver.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 4329260..213c1c8 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -28,10 +28,10 @@
 class PostgresTransaction
 {
   public:
-    PostgresTransaction( PGconn *conn )
+    PostgresTransaction( PGconn *conn, const char *beginSql = "BEGIN" )
       : mConn( conn )
     {
-      PostgresResult res( execSql( mConn, "BEGIN" ) );
+      PostgresResult res( execSql( mConn, beginSql ) );
       if ( res.status() != PGRES_COMMAND_OK )
         throw GeoDiffException( "Unable to start transaction" );
     }
@@ -610,11 +610,16 @@ static void handleUpdated( const std::string &schemaNameBase, const std::string
 }
 
 
+//! Starts a transaction where all queries see the same state of the database
+static const char *READ_TRANSACTION = "BEGIN ISOLATION LEVEL REPEATABLE READ";
+
 void PostgresDriver::createChangeset( ChangesetWriter &writer )
 {
   if ( !mConn )
     throw GeoDiffException( "Not connected to a database" );
 
+  PostgresTransaction transaction( mConn, READ_TRANSACTION );
+
   std::vector<std::string> tablesBase = listTables( false );
   std::vector<std::string> tablesModified = listTables( true );
 
@@ -950,6 +955,8 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
   if ( !mConn )
     throw GeoDiffException( "Not connected to a database" );
 
+  PostgresTransaction transaction( mConn, READ_TRANSACTION );
+
   std::vector<std::string> tables = listTables();
   for ( const std::string &tableName : tables )
   {
-- 
2.43.0


From 0797f3241e79be0d791fa3b19bad0e87a2fe6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 25/56] fix: geometries with an envelope in the GeoPackage
 header are written to PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 213c1c8..c51e439 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -515,9 +515,13 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
     if ( col.isGeometry )
     {
       // handling of geometries - they are encoded with GPKG header
+      // (8 bytes and an optional envelope, see http://www.geopackage.org/spec/#gpb_format)
       std::string gpkgWkb = v.getString();
-      std::string wkb( gpkgWkb.size() - 8, 0 );
-      memcpy( &wkb[0], &gpkgWkb[8], gpkgWkb.size() - 8 );
+      static const size_t envelopeSizes[] = { 0, 32, 48, 48, 64 };
+      size_t envelope = gpkgWkb.size() < 8 ? 0 : ( gpkgWkb[3] >> 1 ) & 0x07;
+      if ( gpkgWkb.size() < 8 || envelope > 4 || gpkgWkb.size() < 8 + envelopeSizes[envelope] )
+        throw GeoDiffException( "Unexpected header of a geometry value" );
+      std::string wkb = gpkgWkb.substr( 8 + envelopeSizes[envelope] );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
     return quotedString( v.getString() );
-- 
2.43.0


From d48244464394f55245cd7c2b105a243c9d82f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 26/56] fix: rebase handles 64-bit primary keys

---
 geodiff/src/geodiffrebase.cpp | 68 +++++++++++++++++------------------
 geodiff/src/geodiffutils.cpp  |  9 +++--
 geodiff/src/geodiffutils.hpp  |  8 ++---
 3 files changed, 42 insertions(+), 43 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index c067d92..199d947 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -35,11 +35,11 @@
  */
 struct TableRebaseInfo
 {
-  std::set<int> inserted;           //!< pkeys that were inserted
-  std::set<int> deleted;            //!< pkeys that were deleted
-  std::map<int, std::vector<Value> > updated;  //!< new column values for each recorded row (identified by pkey)
+  std::set<int64_t> inserted;           //!< pkeys that were inserted
+  std::set<int64_t> deleted;            //!< pkeys that were deleted
+  std::map<int64_t, std::vector<Value> > updated;  //!< new column values for each recorded row (identified by pkey)
 
-  void dump_set( const std::set<int> &data, std::ostringstream &ret )
+  void dump_set( const std::set<int64_t> &data, std::ostringstream &ret )
   {
     if ( data.empty() )
       ret << "--none --";
@@ -60,7 +60,7 @@ struct TableRebaseInfo
     ret << "  deleted  ";
     dump_set( deleted, ret );
     ret << "  updated  ";
-    std::set<int> updatedPkeys;
+    std::set<int64_t> updatedPkeys;
     for ( auto pk : updated )
       updatedPkeys.insert( pk.first );
     dump_set( updatedPkeys, ret );
@@ -98,35 +98,35 @@ struct RebaseMapping
 {
 
   // table name -> old fid --> new fid
-  std::map<std::string, std::map < int, int > > mapIds;
+  std::map<std::string, std::map < int64_t, int64_t > > mapIds;
 
   // table name -> set of fids of inserts that have been untouched
   // (this is important because our mapping could cause FID conflicts
   // with FIDs that weren't previously in conflict, e.g. if 4,5,6
   // get mapped 4->6, 5->7 then the original 6 will need to be remapped
   // too: 6->8)
-  std::map<std::string, std::set<int> > unmappedInsertIds;
+  std::map<std::string, std::set<int64_t> > unmappedInsertIds;
 
   // special pkey value for deleted rows
-  static const int INVALID_FID = -1;
+  static const int64_t INVALID_FID = -1;
 
-  void addPkeyMapping( const std::string &table, int id, int id2 )
+  void addPkeyMapping( const std::string &table, int64_t id, int64_t id2 )
   {
     auto ids = mapIds.find( table );
     if ( ids == mapIds.end() )
     {
-      std::map < int, int  > newSet;
-      newSet.insert( std::pair<int, int>( id, id2 ) );
+      std::map < int64_t, int64_t > newSet;
+      newSet.insert( std::pair<int64_t, int64_t>( id, id2 ) );
       mapIds[table] = newSet;
     }
     else
     {
-      std::map < int, int  > &oldSet = ids->second;
-      oldSet.insert( std::pair<int, int>( id, id2 ) );
+      std::map < int64_t, int64_t > &oldSet = ids->second;
+      oldSet.insert( std::pair<int64_t, int64_t>( id, id2 ) );
     }
   }
 
-  bool hasOldPkey( const std::string &table, int id ) const
+  bool hasOldPkey( const std::string &table, int64_t id ) const
   {
     auto mapId = mapIds.find( table );
     if ( mapId == mapIds.end() )
@@ -135,13 +135,13 @@ struct RebaseMapping
     }
     else
     {
-      const std::map < int, int  > &ids = mapId->second;
+      const std::map < int64_t, int64_t > &ids = mapId->second;
       auto fid =  ids.find( id );
       return fid != ids.end();
     }
   }
 
-  int getNewPkey( const std::string &table, int id ) const
+  int64_t getNewPkey( const std::string &table, int64_t id ) const
   {
     auto ids = mapIds.find( table );
     if ( ids == mapIds.end() )
@@ -150,7 +150,7 @@ struct RebaseMapping
     }
     else
     {
-      const std::map < int, int  > &oldSet = ids->second;
+      const std::map < int64_t, int64_t > &oldSet = ids->second;
       auto a = oldSet.find( id );
       if ( a == oldSet.end() )
         throw GeoDiffException( "internal error: _get_new MappingIds" );
@@ -192,9 +192,9 @@ struct RebaseMapping
 ///////////////////////////////////////
 
 
-int _get_primary_key( const ChangesetEntry &entry )
+int64_t _get_primary_key( const ChangesetEntry &entry )
 {
-  int fid;
+  int64_t fid;
   int nFidColumn;
   get_primary_key( entry, fid, nFidColumn );
   return fid;
@@ -206,7 +206,7 @@ int _parse_old_changeset( ChangesetReader &reader_BASE_THEIRS, DatabaseRebaseInf
   ChangesetEntry entry;
   while ( reader_BASE_THEIRS.nextEntry( entry ) )
   {
-    int pk = _get_primary_key( entry );
+    int64_t pk = _get_primary_key( entry );
 
     TableRebaseInfo &tableInfo = dbInfo.tables[entry.table->name];
 
@@ -234,10 +234,10 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
 {
   // figure out first free primary key value when rebasing for each table
   // TODO: should we consider all rows in the table instead of just the inserts? (maybe not needed - those were available in the other source too)
-  std::map<std::string, int> freeIndices;
+  std::map<std::string, int64_t> freeIndices;
   for ( auto mapId : dbInfo.tables )
   {
-    const std::set < int > &oldSet = mapId.second.inserted;
+    const std::set < int64_t > &oldSet = mapId.second.inserted;
     if ( oldSet.empty() )
       continue;  // TODO: or set 0 to free indices??
 
@@ -256,7 +256,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
 
     if ( entry.op == ChangesetEntry::OpInsert )
     {
-      int pk = _get_primary_key( entry );
+      int64_t pk = _get_primary_key( entry );
 
       if ( tableInfo.inserted.find( pk ) != tableInfo.inserted.end() )
       {
@@ -278,7 +278,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     }
     else if ( entry.op == ChangesetEntry::OpUpdate )
     {
-      int pk = _get_primary_key( entry );
+      int64_t pk = _get_primary_key( entry );
 
       if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
       {
@@ -288,7 +288,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     }
     else if ( entry.op == ChangesetEntry::OpDelete )
     {
-      int pk = _get_primary_key( entry );
+      int64_t pk = _get_primary_key( entry );
 
       if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
       {
@@ -305,12 +305,12 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     std::string tableName = pair.first;
 
     // make a set of all new pkeys
-    std::set<int> usedNewPkeys;
+    std::set<int64_t> usedNewPkeys;
     for ( auto oldNewPair : mapping.mapIds[tableName] )
       usedNewPkeys.insert( oldNewPair.second );
 
-    std::set<int> pkeys = pair.second;
-    for ( int pk : pkeys )
+    std::set<int64_t> pkeys = pair.second;
+    for ( int64_t pk : pkeys )
     {
       if ( usedNewPkeys.find( pk ) != usedNewPkeys.end() )
       {
@@ -343,8 +343,8 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.newValues.resize( numColumns );
 
   // resolve primary key and patched primary key
-  int pk = _get_primary_key( entry );
-  int newPk = pk;
+  int64_t pk = _get_primary_key( entry );
+  int64_t newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
@@ -375,8 +375,8 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.oldValues.resize( numColumns );
 
   // resolve primary key and patched primary key
-  int pk = _get_primary_key( entry );
-  int newPk = pk;
+  int64_t pk = _get_primary_key( entry );
+  int64_t newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
@@ -446,10 +446,10 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.newValues.resize( numColumns );
 
   // get values from patched (new) master
-  int pk = _get_primary_key( entry );
+  int64_t pk = _get_primary_key( entry );
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
-    int newPk = mapping.getNewPkey( entry.table->name, pk );
+    int64_t newPk = mapping.getNewPkey( entry.table->name, pk );
     if ( newPk == RebaseMapping::INVALID_FID )
       return false;
   }
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 4d39d5f..d29602d 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -380,7 +380,7 @@ bool isLayerTable( const std::string &tableName )
 
 ////
 
-void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn )
+void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn )
 {
   const std::vector<bool> &tablePkeys = entry.table->primaryKeys;
 
@@ -420,8 +420,7 @@ void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn )
 
   if ( pkeyValue.type() == Value::TypeInt )
   {
-    int val = pkeyValue.getInt();
-    fid = val;
+    fid = pkeyValue.getInt();
     return;
   }
   else if ( pkeyValue.type() == Value::TypeText )
@@ -535,7 +534,7 @@ const char *TmpFile::c_path() const
   return mPath.c_str();
 }
 
-ConflictFeature::ConflictFeature( int pk,
+ConflictFeature::ConflictFeature( int64_t pk,
                                   const std::string &tableName )
   : mPk( pk )
   , mTableName( tableName )
@@ -557,7 +556,7 @@ std::string ConflictFeature::tableName() const
   return mTableName;
 }
 
-int ConflictFeature::pk() const
+int64_t ConflictFeature::pk() const
 {
   return mPk;
 }
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index bd396fb..6d18599 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -105,7 +105,7 @@ int indexOf( const std::vector<std::string> &arr, const std::string &val );
 std::string concatNames( const std::vector<std::string> &names );
 
 
-void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn );
+void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn );
 
 
 
@@ -167,15 +167,15 @@ class ConflictItem
 class ConflictFeature
 {
   public:
-    ConflictFeature( int pk,
+    ConflictFeature( int64_t pk,
                      const std::string &tableName );
     bool isValid() const;
     void addItem( const ConflictItem &item );
     std::string tableName() const;
-    int pk() const;
+    int64_t pk() const;
     std::vector<ConflictItem> items() const;
   private:
-    int mPk;
+    int64_t mPk;
     std::string mTableName;
     std::vector<ConflictItem> mItems;
 };
-- 
2.43.0


From fd27293da274b9a90ad567da3e9975bf877ab970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 27/56] fix: rebase does not renumber rows with key -1 and does
 not overflow when there are no free keys

---
 geodiff/src/geodiffrebase.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 199d947..0abc2dc 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -229,10 +229,18 @@ int _parse_old_changeset( ChangesetReader &reader_BASE_THEIRS, DatabaseRebaseInf
   return GEODIFF_SUCCESS;
 }
 
+//! Returns the next free primary key value and advances to the following one
+static int64_t _take_free_index( int64_t &lastIndex )
+{
+  if ( lastIndex == INT64_MAX )
+    throw GeoDiffException( "unable to rebase: there is no free primary key value" );
+  return ++lastIndex;
+}
+
 int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseRebaseInfo &dbInfo,
                                      RebaseMapping &mapping )
 {
-  // figure out first free primary key value when rebasing for each table
+  // figure out last used primary key value when rebasing for each table
   // TODO: should we consider all rows in the table instead of just the inserts? (maybe not needed - those were available in the other source too)
   std::map<std::string, int64_t> freeIndices;
   for ( auto mapId : dbInfo.tables )
@@ -241,7 +249,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     if ( oldSet.empty() )
       continue;  // TODO: or set 0 to free indices??
 
-    freeIndices[mapId.first] = *std::max_element( oldSet.begin(), oldSet.end() ) + 1;
+    freeIndices[mapId.first] = *std::max_element( oldSet.begin(), oldSet.end() );
   }
 
   ChangesetEntry entry;
@@ -265,10 +273,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
         if ( it == freeIndices.end() )
           throw GeoDiffException( "internal error: freeIndices" );
 
-        mapping.addPkeyMapping( tableName, pk, it->second );
-
-        // increase counter
-        it->second ++;
+        mapping.addPkeyMapping( tableName, pk, _take_free_index( it->second ) );
       }
       else
       {
@@ -304,10 +309,12 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
   {
     std::string tableName = pair.first;
 
-    // make a set of all new pkeys
+    // make a set of all new pkeys (the mapping also contains deleted rows, those do not use any)
     std::set<int64_t> usedNewPkeys;
+    const std::set<int64_t> &insertedPkeys = dbInfo.tables.at( tableName ).inserted;
     for ( auto oldNewPair : mapping.mapIds[tableName] )
-      usedNewPkeys.insert( oldNewPair.second );
+      if ( insertedPkeys.count( oldNewPair.first ) )
+        usedNewPkeys.insert( oldNewPair.second );
 
     std::set<int64_t> pkeys = pair.second;
     for ( int64_t pk : pkeys )
@@ -320,11 +327,9 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
         if ( it == freeIndices.end() )
           throw GeoDiffException( "internal error: freeIndices (2)" );
 
-        mapping.addPkeyMapping( tableName, pk, it->second );
-        usedNewPkeys.insert( it->second );
-
-        // increase counter
-        it->second ++;
+        int64_t newPk = _take_free_index( it->second );
+        mapping.addPkeyMapping( tableName, pk, newPk );
+        usedNewPkeys.insert( newPk );
       }
     }
   }
-- 
2.43.0


From ff30ed4ee6067a1c27096e91aa4e92727c42e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 28/56] fix: rebase keeps text primary keys of inserted and
 deleted rows

---
 geodiff/src/geodiffrebase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 0abc2dc..9df407a 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -359,7 +359,7 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
 
   for ( size_t i = 0; i < numColumns; i++ )
   {
-    if ( entry.table->primaryKeys[i] )
+    if ( entry.table->primaryKeys[i] && entry.newValues[i].type() == Value::TypeInt )
     {
       outEntry.newValues[i].setInt( newPk );
     }
@@ -403,7 +403,7 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
 
   for ( size_t i = 0; i < numColumns; i++ )
   {
-    if ( entry.table->primaryKeys[i] )
+    if ( entry.table->primaryKeys[i] && entry.oldValues[i].type() == Value::TypeInt )
     {
       outEntry.oldValues[i].setInt( newPk );
     }
-- 
2.43.0


From 3a04960437db9cf52d4e5cb82de97f1e853de8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 29/56] fix: rebase reports conflicts only for values changed
 by both sides

---
 geodiff/src/geodiffrebase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 9df407a..822e2b1 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -472,8 +472,9 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   for ( size_t i = 0; i < numColumns; i++ )
   {
     // if the value was patched in the previous commit, use that one as base
+    // (unless we have not changed the value - then it does not matter what the other side did)
     Value patchedVal = patchedVals[i];
-    if ( patchedVal.type() != Value::TypeUndefined )
+    if ( patchedVal.type() != Value::TypeUndefined && entry.newValues[i].type() != Value::TypeUndefined )
     {
       outEntry.oldValues[i] = patchedVal;
       // conflict for this value
-- 
2.43.0


From 27f9840570bd700db45364f8f6b03b57abe424a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 30/56] fix: rebased changesets do not contain tables without
 changes

---
 geodiff/src/geodiffrebase.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 822e2b1..7bc468a 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -552,11 +552,10 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
 
   for ( auto it : tableDefinitions )
   {
-    writer.beginTable( it.second );
-
     auto chit = tableChanges.find( it.first );
     if ( chit != tableChanges.end() )
     {
+      writer.beginTable( it.second );
       const std::vector<ChangesetEntry> &changes = chit->second;
       for ( const ChangesetEntry &entry : changes )
       {
-- 
2.43.0


From 7b1752ddb4dc6eefad80e8a3905491ecad57d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 31/56] fix: rebase refuses changesets where a table has
 different number of columns

---
 geodiff/src/geodiffrebase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 7bc468a..47c021f 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -400,6 +400,8 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
     patchedVals.resize( static_cast<size_t>( numColumns ) );
   else
     patchedVals = a->second;
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "unable to rebase: different number of columns in table " + entry.table->name );
 
   for ( size_t i = 0; i < numColumns; i++ )
   {
@@ -466,6 +468,8 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
     patchedVals.resize( static_cast<size_t>( numColumns ) );
   else
     patchedVals = a->second;
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "unable to rebase: different number of columns in table " + entry.table->name );
 
   ConflictFeature conflictFeature( pk, entry.table->name );
 
-- 
2.43.0


From e31fe5eeef4b8b0788b18943343682c9bd14b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 32/56] fix: error is reported when changesets can't be
 concatenated

---
 geodiff/src/geodiffrebase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 47c021f..c2fb008 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -645,7 +645,7 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
     return true;
   }
 
-  sqlite3_changegroup *pGrp;
+  sqlite3_changegroup *pGrp = nullptr;
   int rc = sqlite3changegroup_new( &pGrp );
   if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufA.size(), bufA.v_buf() );
   if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufB.size(), bufB.v_buf() );
@@ -669,6 +669,6 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
   if ( pGrp )
     sqlite3changegroup_delete( pGrp );
 
-  return false;
+  return rc != SQLITE_OK;
 }
 
-- 
2.43.0


From de181b071cb281851b90caf4d7fc029792ebdb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 33/56] fix: JSON output is valid for any text and keeps full
 precision of numbers

---
 geodiff/src/changesetutils.cpp | 42 ++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index f348051..cd85a70 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -11,6 +11,10 @@
 #include "changesetwriter.h"
 #include "tableschema.h"
 
+#include <cmath>
+#include <stdio.h>
+#include <stdlib.h>
+
 
 ChangesetTable schemaToChangesetTable( const std::string &tableName, const TableSchema &tbl )
 {
@@ -78,14 +82,42 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
 
 std::string escapeJSONString( std::string val )
 {
-  //val = replace( val, "\\", "\\\\" );  // TODO: escaping of backslashes?
+  val = replace( val, "\\", "\\\\" );
   val = replace( val, "\n", "\\n" );
   val = replace( val, "\r", "\\r" );
   val = replace( val, "\t", "\\t" );
   val = replace( val, "\"", "\\\"" );
+  // the remaining control characters
+  for ( size_t i = 0; i < val.size(); ++i )
+  {
+    if ( ( unsigned char ) val[i] < 0x20 )
+    {
+      char code[8];
+      snprintf( code, sizeof( code ), "\\u%04x", ( unsigned char ) val[i] );
+      val.replace( i, 1, code );
+    }
+  }
   return "\"" + val + "\"";
 }
 
+static std::string doubleToJSON( double value )
+{
+  if ( std::isnan( value ) )
+    return "null";
+  if ( std::isinf( value ) )
+    return value > 0 ? "1e999" : "-1e999";   // there is no better way to write infinity in JSON
+
+  std::string res = std::to_string( value );
+  if ( strtod( res.c_str(), nullptr ) != value )
+  {
+    // six decimal places are not enough
+    char buf[32];
+    snprintf( buf, sizeof( buf ), "%.17g", value );
+    res = buf;
+  }
+  return res;
+}
+
 std::string valueToJSON( const Value &value )
 {
   switch ( value.type() )
@@ -95,7 +127,7 @@ std::string valueToJSON( const Value &value )
     case Value::TypeInt:
       return std::to_string( value.getInt() );
     case Value::TypeDouble:
-      return std::to_string( value.getDouble() );
+      return doubleToJSON( value.getDouble() );
     case Value::TypeText:
       return escapeJSONString( value.getString() );
     case Value::TypeBlob:
@@ -122,7 +154,7 @@ std::string changesetEntryToJSON( const ChangesetEntry &entry )
     status = "delete";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + entry.table->name + "\",\n";
+  res += "        \"table\": " + escapeJSONString( entry.table->name ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"changes\": [";
   bool first = true;
@@ -224,7 +256,7 @@ std::string changesetToJSONSummary( ChangesetReader &reader )
   {
     std::string tableJson;
     tableJson += "      {\n";
-    tableJson += "         \"table\": \"" + kv.first + "\",\n";
+    tableJson += "         \"table\": " + escapeJSONString( kv.first ) + ",\n";
     tableJson += "         \"insert\": " + std::to_string( kv.second.inserts ) + ",\n";
     tableJson += "         \"update\": " + std::to_string( kv.second.updates ) + ",\n";
     tableJson += "         \"delete\": " + std::to_string( kv.second.deletes ) + "\n";
@@ -252,7 +284,7 @@ std::string conflictToJSON( const ConflictFeature &conflict )
   std::string status = "conflict";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + std::string( conflict.tableName() ) + "\",\n";
+  res += "        \"table\": " + escapeJSONString( conflict.tableName() ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"fid\": \"" + std::to_string( conflict.pk() ) + "\",\n";
   res += "        \"changes\": [";
-- 
2.43.0


From 9d0cf376042a1af7ae467fc83ffabc57e987b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 34/56] fix: changeset having only tables without changes has
 no changes

---
 geodiff/src/geodiff.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 0f71524..f284d4d 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -292,7 +292,9 @@ try
     return -1;
   }
 
-  return !reader.isEmpty();
+  // there may be only tables without any changes
+  ChangesetEntry entry;
+  return reader.nextEntry( entry );
 }
 catch ( const std::exception &exc )
 {
-- 
2.43.0


From cffe877f41f3d5088f25f6574491cc1ab732ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 35/56] fix: NULL arguments are reported by all functions

---
 geodiff/src/geodiff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index f284d4d..7358785 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -186,7 +186,7 @@ int GEODIFF_createRebasedChangeset( const char *base,
                                   )
 try
 {
-  if ( !conflictfile )
+  if ( !base || !modified || !changeset_their || !changeset || !conflictfile )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_createRebasedChangeset" );
     return GEODIFF_ERROR;
@@ -379,7 +379,7 @@ int GEODIFF_listChangesSummary( const char *changeset, const char *jsonfile )
 int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
 try
 {
-  if ( !changeset )
+  if ( !changeset || !changeset_inv )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_invertChangeset" );
     return GEODIFF_ERROR;
@@ -468,7 +468,7 @@ int GEODIFF_rebaseEx( const char *driverName,
                       const char *conflictfile )
 try
 {
-  if ( !base || !modified || !modified || !conflictfile )
+  if ( !driverName || !base || !modified || !base2their || !conflictfile )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_rebase" );
     return GEODIFF_ERROR;
-- 
2.43.0


From bebf6b996d350aa9db6178a3cf35053c585d666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 36/56] fix: conflict file of an earlier rebase does not
 survive

---
 geodiff/src/geodiff.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 7358785..61be50d 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -247,6 +247,8 @@ try
 
   try
   {
+    fileremove( conflictfile );  // no matter if there are any conflicts this time
+
     std::vector<ConflictFeature> conflicts;
     int rc = rebase( base2their, rebased, base2modified, conflicts );
     if ( rc == GEODIFF_SUCCESS )
@@ -476,6 +478,8 @@ try
 
   try
   {
+    fileremove( conflictfile );  // no matter if there are any conflicts this time
+
     std::string root = tmpdir() + "geodiff_" + randomString( 6 );
 
     // situation 1: base2theirs is null, so we do not need rebase. modified is already fine
-- 
2.43.0


From ba0d31b924a42acece2a3f6fb42e2d35df3f877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 37/56] fix: names of temporary files are unique among
 processes

---
 geodiff/src/geodiff.cpp      |  2 +-
 geodiff/src/geodiffutils.cpp | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 61be50d..8d8bc5e 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -580,7 +580,7 @@ try
     return GEODIFF_ERROR;
   }
 
-  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + std::to_string( rand() ) );
+  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + randomString( 6 ) );
 
   try
   {
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index d29602d..ef273a3 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -24,6 +24,7 @@
 #include <cctype>
 #include <gpkg.h>
 #include <locale>
+#include <random>
 #include <codecvt>
 
 #ifdef _WIN32
@@ -471,7 +472,8 @@ std::string tmpdir()
 
   return wstringToString( tempDirPath );
 #else
-  return getEnvVar( "TMPDIR", "/tmp/" );
+  std::string dir = getEnvVar( "TMPDIR", "/tmp/" );
+  return dir.empty() || dir.back() == '/' ? dir : dir + '/';
 #endif
 }
 
@@ -629,14 +631,16 @@ std::string lowercaseString( const std::string &str )
 // from https://stackoverflow.com/questions/440133/how-do-i-create-a-random-alpha-numeric-string-in-c
 std::string randomString( size_t length )
 {
-  auto randchar = []() -> char
+  // (rand() would give the same names in all processes)
+  std::random_device rng;
+  auto randchar = [&rng]() -> char
   {
     const char charset[] =
     "0123456789"
     "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
     "abcdefghijklmnopqrstuvwxyz";
     const size_t max_index = ( sizeof( charset ) - 1 );
-    return charset[ rand() % max_index ];
+    return charset[ rng() % max_index ];
   };
   std::string str( length, 0 );
   std::generate_n( str.begin(), length, randchar );
-- 
2.43.0


From e775e8b29bef16527f3a3d792791cc846e167f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:21 +0000
Subject: [PATCH 38/56] fix: exceptions are caught by reference: no copy that
 may run out of memory

---
 geodiff/src/changesetreader.cpp |  2 +-
 geodiff/src/geodiff.cpp         | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 62786f5..8d144cf 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -27,7 +27,7 @@ bool ChangesetReader::open( const std::string &filename )
     mBuffer.reset( new Buffer );
     mBuffer->read( filename );
   }
-  catch ( GeoDiffException )
+  catch ( const GeoDiffException & )
   {
     return false;
   }
diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 8d8bc5e..08d7575 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -118,7 +118,7 @@ try
     driver->createChangeset( writer );
     writer.close();
   }
-  catch ( GeoDiffException exc )
+  catch ( const GeoDiffException &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -164,7 +164,7 @@ try
 
     driver->applyChangeset( reader );
   }
-  catch ( GeoDiffException exc )
+  catch ( const GeoDiffException &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -214,7 +214,7 @@ try
 
     return GEODIFF_createRebasedChangesetEx( "sqlite", "", base, changeset_BASE_MODIFIED.c_path(), changeset_their, changeset, conflictfile );
   }
-  catch ( GeoDiffException exc )
+  catch ( const GeoDiffException &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -266,7 +266,7 @@ try
     }
     return rc;
   }
-  catch ( GeoDiffException exc )
+  catch ( const GeoDiffException &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -355,7 +355,7 @@ try
     else
       res = changesetToJSON( reader );
   }
-  catch ( GeoDiffException exc )
+  catch ( const GeoDiffException &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -412,7 +412,7 @@ try
     invertChangeset( reader, writer );
     writer.close();
   }
-  catch ( GeoDiffException exc )
+  catch ( const GeoDiffException &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -544,7 +544,7 @@ try
 
     return GEODIFF_SUCCESS;
   }
-  catch ( GeoDiffException exc )
+  catch ( const GeoDiffException &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -628,7 +628,7 @@ try
       driverDst->applyChangeset( reader );
     }
   }
-  catch ( GeoDiffException exc )
+  catch ( const GeoDiffException &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -676,7 +676,7 @@ try
     driver->dumpData( writer );
     writer.close();
   }
-  catch ( GeoDiffException exc )
+  catch ( const GeoDiffException &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
-- 
2.43.0


From a53d3b3e5563705e23c696bd399d78c936cf8fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:41 +0000
Subject: [PATCH 39/56] fix: savepoint is not released when rolling back to it
 failed

---
 geodiff/src/drivers/sqlitedriver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index db20462..5861b35 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -59,9 +59,12 @@ class Sqlite3SavepointTransaction
     {
       if ( mDb )
       {
-        // we had some problems - roll back any pending changes
-        sqlite3_exec( mDb.get()->get(), "ROLLBACK TO changeset_apply", 0, 0, 0 );
-        sqlite3_exec( mDb.get()->get(), "RELEASE changeset_apply", 0, 0, 0 );
+        // we had some problems - roll back any pending changes. The savepoint must not be released
+        // unless that worked: it would commit them (closing the database rolls them back as well)
+        if ( sqlite3_exec( mDb.get()->get(), "ROLLBACK TO changeset_apply", 0, 0, 0 ) == SQLITE_OK )
+          sqlite3_exec( mDb.get()->get(), "RELEASE changeset_apply", 0, 0, 0 );
+        else
+          sqlite3_exec( mDb.get()->get(), "ROLLBACK", 0, 0, 0 );
       }
     }
 
-- 
2.43.0


From a5072625e20845e67924e60681865ce270eaf4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 40/56] fix: failure to remove an old conflict file is reported

---
 geodiff/src/geodiff.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 08d7575..7a1a68e 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -78,6 +78,14 @@ static int unexpectedError( const std::exception &exc, int rc )
   return rc;
 }
 
+//! Removes conflict file of an earlier rebase (no matter if there are going to be any conflicts this time)
+static void removeOldConflictFile( const std::string &conflictfile )
+{
+  fileremove( conflictfile );
+  if ( fileexists( conflictfile ) )
+    throw GeoDiffException( "Unable to remove old conflict file: " + conflictfile );
+}
+
 int GEODIFF_createChangeset( const char *base, const char *modified, const char *changeset )
 {
   return GEODIFF_createChangesetEx( "sqlite", nullptr, base, modified, changeset );
@@ -191,10 +199,11 @@ try
     Logger::instance().error( "NULL arguments to GEODIFF_createRebasedChangeset" );
     return GEODIFF_ERROR;
   }
-  fileremove( conflictfile );
 
   try
   {
+    removeOldConflictFile( conflictfile );
+
     // first verify if we are able to do rebase on this database schema at all
     {
       std::map<std::string, std::string> conn;
@@ -247,7 +256,7 @@ try
 
   try
   {
-    fileremove( conflictfile );  // no matter if there are any conflicts this time
+    removeOldConflictFile( conflictfile );
 
     std::vector<ConflictFeature> conflicts;
     int rc = rebase( base2their, rebased, base2modified, conflicts );
@@ -478,7 +487,7 @@ try
 
   try
   {
-    fileremove( conflictfile );  // no matter if there are any conflicts this time
+    removeOldConflictFile( conflictfile );
 
     std::string root = tmpdir() + "geodiff_" + randomString( 6 );
 
-- 
2.43.0


From 1d7296465de9e23ce81310fec9fffe1155ef3d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:40 +0000
Subject: [PATCH 41/56] fix: rebase stops when a changeset can't be read

---
 geodiff/src/geodiff.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 7a1a68e..d996732 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -492,7 +492,10 @@ try
     std::string root = tmpdir() + "geodiff_" + randomString( 6 );
 
     // situation 1: base2theirs is null, so we do not need rebase. modified is already fine
-    if ( !GEODIFF_hasChanges( base2their ) )
+    int hasChangesTheirs = GEODIFF_hasChanges( base2their );
+    if ( hasChangesTheirs < 0 )
+      return GEODIFF_ERROR;
+    if ( !hasChangesTheirs )
     {
       return GEODIFF_SUCCESS;
     }
@@ -505,7 +508,10 @@ try
     }
 
     // situation 2: we do not have changes (modified == base), so result is modified_theirs
-    if ( !GEODIFF_hasChanges( base2modified.c_path() ) )
+    int hasChangesModified = GEODIFF_hasChanges( base2modified.c_path() );
+    if ( hasChangesModified < 0 )
+      return GEODIFF_ERROR;
+    if ( !hasChangesModified )
     {
       if ( GEODIFF_applyChangesetEx( driverName, driverExtraInfo, modified, base2their ) != GEODIFF_SUCCESS )
       {
-- 
2.43.0


From 2ddc2aba5a29ba09f8feeba3c9972b07d8a86844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 42/56] fix: reject a changeset with a change record before any
 table record

---
 geodiff/src/changesetreader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 8d144cf..5d5f924 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -50,6 +50,9 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
     }
     else if ( type == ChangesetEntry::OpInsert || type == ChangesetEntry::OpUpdate || type == ChangesetEntry::OpDelete )
     {
+      if ( mCurrentTable.columnCount() == 0 )
+        throwReaderError( "nextEntry: change without a table record" );
+
       int indirect = readByte();
       if ( type != ChangesetEntry::OpInsert )
         readRowValues( entry.oldValues );
-- 
2.43.0


From 15a79a467d97cd679683fff23d7b9ea67dcf5c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 43/56] fix: do not crash in rebaseEx when table definitions of
 the changesets differ

---
 geodiff/src/geodiffrebase.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index c2fb008..955dcd3 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -629,6 +629,35 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   return GEODIFF_SUCCESS;
 }
 
+//! Whether every table has the same number of columns and the same key columns wherever it is used in the changesets.
+//! (sqlite3changegroup_add() takes that for granted and crashes when a table has fewer columns than before)
+static bool _sameTableDefinitions( const std::vector<std::string> &changesets )
+{
+  std::map<std::string, std::vector<bool>> definitions;
+  for ( const std::string &changeset : changesets )
+  {
+    ChangesetReader reader;
+    if ( !reader.open( changeset ) )
+      return false;
+
+    ChangesetEntry entry;
+    while ( reader.nextEntry( entry ) )
+    {
+      std::string name = entry.table->name;   // SQLite does not distinguish the case of table names
+      for ( char &c : name )
+        if ( c >= 'A' && c <= 'Z' )
+          c += 'a' - 'A';
+      auto it = definitions.insert( std::make_pair( name, entry.table->primaryKeys ) ).first;
+      if ( it->second != entry.table->primaryKeys )
+      {
+        Logger::instance().error( "Table definitions differ in changesets to be concatenated: " + entry.table->name );
+        return false;
+      }
+    }
+  }
+  return true;
+}
+
 bool concatChangesets( const std::string &A, const std::string &B, const std::string &C, const std::string &out )
 {
   Buffer bufA;
@@ -645,6 +674,9 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
     return true;
   }
 
+  if ( !_sameTableDefinitions( { A, B, C } ) )
+    return true;
+
   sqlite3_changegroup *pGrp = nullptr;
   int rc = sqlite3changegroup_new( &pGrp );
   if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufA.size(), bufA.v_buf() );
-- 
2.43.0


From c38fcf64816a9eee34c233ca1a408bc9fce2abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 44/56] fix: PostgreSQL columns that are in several indexes are
 read once

The query for columns joined all indexes of the table, so a column present in more of them
was returned several times: changesets and copies then had repeated columns.
---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index c51e439..de17184 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -255,7 +255,7 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
     "                 || '''::regclass)'"
     "       ) AS has_sequence"
     " FROM pg_catalog.pg_attribute a"
-    " LEFT JOIN pg_index i ON a.attrelid = i.indrelid AND a.attnum = ANY(i.indkey)"
+    " LEFT JOIN pg_index i ON a.attrelid = i.indrelid AND a.attnum = ANY(i.indkey) AND i.indisprimary"
     " WHERE"
     "   a.attnum > 0"
     "   AND NOT a.attisdropped"
-- 
2.43.0


From 62b78c5c76bd56550792026253cd9c973abf6515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 45/56] fix: PostgreSQL auto-incrementing keys are recognised
 also when names contain an apostrophe

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index de17184..a93cc89 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -251,7 +251,7 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
     "             AND    ad.adnum   = a.attnum"
     "             AND    pg_get_expr(ad.adbin, ad.adrelid)"
     "                  = 'nextval('''"
-    "                 || (pg_get_serial_sequence (a.attrelid::regclass::text, a.attname))::regclass"
+    "                 || replace((pg_get_serial_sequence (a.attrelid::regclass::text, a.attname))::regclass::text, '''', '''''')"
     "                 || '''::regclass)'"
     "       ) AS has_sequence"
     " FROM pg_catalog.pg_attribute a"
-- 
2.43.0


From de7a32a1e2b7c5109f9b886721736774331c4426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 46/56] fix: find PostgreSQL rows where a value changed from
 NULL or to NULL

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index a93cc89..c691787 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -391,7 +391,7 @@ static std::string sqlFindModified( const std::string &schemaNameBase, const std
 
       std::string colBase = "b." + quotedIdentifier( c.name );
       std::string colModified = "a." + quotedIdentifier( c.name );
-      exprOther += "NOT ((" + colBase + " IS NULL AND " + colModified + " IS NULL) OR (" + colBase + " = " + colModified + "))";
+      exprOther += colBase + " IS DISTINCT FROM " + colModified;  // NULLs are compared like other values
     }
   }
 
-- 
2.43.0


From 4aceebe9e4e9168fedfede487a8f634f869b77ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 47/56] fix: do not lose fractions of seconds of PostgreSQL
 timestamps

---
 geodiff/src/drivers/postgresdriver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index c691787..3ebd97d 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -338,7 +338,10 @@ static std::string allColumnNames( const TableSchema &tbl, const std::string &pr
     {
       // by default postgresql would return date/time as a formatted string
       // e.g. "2020-07-13 16:17:54" but we want IS0-8601 format "2020-07-13T16:17:54Z"
-      columns += "to_char(" + name + ",'YYYY-MM-DD\"T\"HH24:MI:SS\"Z\"')";
+      // with milliseconds (or microseconds) added when they are not zero
+      columns += "to_char(" + name + ",CASE WHEN date_trunc('second'," + name + ")=" + name + " THEN 'YYYY-MM-DD\"T\"HH24:MI:SS\"Z\"'"
+                 " WHEN date_trunc('milliseconds'," + name + ")=" + name + " THEN 'YYYY-MM-DD\"T\"HH24:MI:SS.MS\"Z\"'"
+                 " ELSE 'YYYY-MM-DD\"T\"HH24:MI:SS.US\"Z\"' END)";
     }
     else
       columns += name;
-- 
2.43.0


From 3fdb18da89bb6fb375f9506940563d6865f41d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 48/56] fix: find PostgreSQL rows where only the case of a
 citext value changed

---
 geodiff/src/drivers/postgresdriver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 3ebd97d..0888bd7 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -394,6 +394,12 @@ static std::string sqlFindModified( const std::string &schemaNameBase, const std
 
       std::string colBase = "b." + quotedIdentifier( c.name );
       std::string colModified = "a." + quotedIdentifier( c.name );
+      if ( c.type == "citext" )
+      {
+        // citext values that only differ in case are considered equal, but the change should not get lost
+        colBase += "::text";
+        colModified += "::text";
+      }
       exprOther += colBase + " IS DISTINCT FROM " + colModified;  // NULLs are compared like other values
     }
   }
-- 
2.43.0


From 253eb12fe7ec37b766430296ee9731ec40b172a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 49/56] fix: report through the logger that the rebased
 changeset cannot be written

---
 geodiff/src/geodiffrebase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 955dcd3..6491be1 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -550,7 +550,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
   ChangesetWriter writer;
   if ( !writer.open( changesetNew ) )
   {
-    std::cout << "unable to open file for writing " << changesetNew << std::endl;
+    Logger::instance().error( "Could not open file for writing: " + changesetNew );
     return GEODIFF_ERROR;
   }
 
-- 
2.43.0


From 119373cb360163fbb362f49ce5004687762a6007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 50/56] fix: print info messages in the default logger

---
 geodiff/src/geodifflogger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geodiff/src/geodifflogger.cpp b/geodiff/src/geodifflogger.cpp
index 8350f4d..2d42088 100644
--- a/geodiff/src/geodifflogger.cpp
+++ b/geodiff/src/geodifflogger.cpp
@@ -28,6 +28,9 @@ void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
     case LevelWarning:
       std::cout << "Warn: " << msg << std::endl;
       break;
+    case LevelInfo:
+      std::cout << "Info: " << msg << std::endl;
+      break;
     case LevelDebug:
       std::cout << "Debug: " << msg << std::endl;
       break;
-- 
2.43.0


From 413bdaa23ab61d3a711a427a2b8dc0843dd7acb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 51/56] fix: print errors by default when GEODIFF_LOGGER_LEVEL
 is not set

---
 geodiff/src/geodifflogger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodifflogger.cpp b/geodiff/src/geodifflogger.cpp
index 2d42088..3d22bcf 100644
--- a/geodiff/src/geodifflogger.cpp
+++ b/geodiff/src/geodifflogger.cpp
@@ -40,8 +40,8 @@ void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
 
 Logger::Logger()
 {
-  // Sort out which
-  int envLevel = _envInt( "GEODIFF_LOGGER_LEVEL" );
+  // Sort out which (errors are printed when the variable is not set)
+  int envLevel = getenv( "GEODIFF_LOGGER_LEVEL" ) ? _envInt( "GEODIFF_LOGGER_LEVEL" ) : static_cast<int>( maxLogLevel() );
   if ( envLevel >= 0 && envLevel <= GEODIFF_LoggerLevel::LevelDebug )
   {
     setMaxLogLevel( static_cast<GEODIFF_LoggerLevel>( envLevel ) );
-- 
2.43.0


From 856013de4b582ad3c822573f79fe34b1b29b3583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 52/56] fix: rebase does not take different text keys for the
 same row

---
 geodiff/src/geodiffutils.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index ef273a3..d612496 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -427,14 +427,13 @@ void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn )
   else if ( pkeyValue.type() == Value::TypeText )
   {
     std::string str = pkeyValue.getString();
-    const char *strData = str.data();
-    int hash = 0;
-    int len = str.size();
-    for ( int i = 0; i < len; i++ )
+    // FNV-1a: must be well distributed, otherwise different rows of a table would be taken for the same one
+    uint64_t hash = 14695981039346656037ULL;
+    for ( char c : str )
     {
-      hash = 33 * hash + ( unsigned char )strData[i];
+      hash = ( hash ^ ( unsigned char )c ) * 1099511628211ULL;
     }
-    fid = hash;
+    fid = static_cast<int64_t>( hash );
   }
   else
   {
-- 
2.43.0


From 6a2c78b00f1ee2486e8c9db4be559a1613f0a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 53/56] fix: PostgreSQL tells citext values apart that differ
 only in letter case

A change of only the letter case of a citext key got lost in diffs, and updates and deletes were accepted on rows
whose citext values differed from the old values of the changeset in letter case
---
 geodiff/src/drivers/postgresdriver.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 0888bd7..8a53851 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -387,7 +387,8 @@ static std::string sqlFindModified( const std::string &schemaNameBase, const std
       exprPk += "b." + quotedIdentifier( c.name ) + "=" +
                 "a." + quotedIdentifier( c.name );
     }
-    else // not a primary key column
+
+    if ( !c.isPrimaryKey || c.type == "citext" )
     {
       if ( !exprOther.empty() )
         exprOther += " OR ";
@@ -396,7 +397,7 @@ static std::string sqlFindModified( const std::string &schemaNameBase, const std
       std::string colModified = "a." + quotedIdentifier( c.name );
       if ( c.type == "citext" )
       {
-        // citext values that only differ in case are considered equal, but the change should not get lost
+        // citext values (also keys) that only differ in case are considered equal, but the change should not get lost
         colBase += "::text";
         colModified += "::text";
       }
@@ -577,7 +578,7 @@ static void handleInserted( const std::string &schemaNameBase, const std::string
 
 static void handleUpdated( const std::string &schemaNameBase, const std::string &schemaNameModified, const std::string &tableName, const TableSchema &tbl, PGconn *conn, ChangesetWriter &writer, bool &first )
 {
-  if ( std::all_of( tbl.columns.begin(), tbl.columns.end(), []( const TableColumnInfo & c ) { return c.isPrimaryKey; } ) )
+  if ( std::all_of( tbl.columns.begin(), tbl.columns.end(), []( const TableColumnInfo & c ) { return c.isPrimaryKey && c.type != "citext"; } ) )
     return;  // there is nothing but the key, so rows do not get updated
 
   std::string sqlModified = sqlFindModified( schemaNameBase, schemaNameModified, tableName, tbl );
@@ -692,6 +693,15 @@ static std::string sqlForInsert( const std::string &schemaName, const std::strin
 }
 
 
+//! Constructs the rest of a condition on value of a column: citext values that only differ in case are equal, but they are not the same
+static std::string sqlSameCase( const TableColumnInfo &col, const Value &v )
+{
+  if ( col.type != "citext" || v.type() == Value::TypeNull )
+    return "";
+  return " AND " + quotedIdentifier( col.name ) + "::text = " + valueToSql( v, col );
+}
+
+
 static std::string sqlForUpdate( const std::string &schemaName, const std::string &tableName, const TableSchema &tbl, const std::vector<Value> &oldValues, const std::vector<Value> &newValues )
 {
   std::string sql;
@@ -722,6 +732,7 @@ static std::string sqlForUpdate( const std::string &schemaName, const std::strin
         sql += " IS NULL";
       else
         sql += " = " + valueToSql( oldValues[i], tbl.columns[i] );
+      sql += sqlSameCase( tbl.columns[i], oldValues[i] );
     }
   }
 
@@ -746,6 +757,7 @@ static std::string sqlForDelete( const std::string &schemaName, const std::strin
       else
         sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( values[i], tbl.columns[i] ) ;
     }
+    sql += sqlSameCase( tbl.columns[i], values[i] );
   }
   return sql;
 }
-- 
2.43.0


From 892814724a05d3dbc37ab3f5d96bf0095ac5fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:32 +0000
Subject: [PATCH 54/56] fix: numbers in listings, conflict files and PostgreSQL
 do not depend on the locale

With a decimal comma in the program's LC_NUMERIC the JSON was invalid, numbers read
from PostgreSQL lost their fraction and numbers written to it were errors.
---
 geodiff/src/changesetutils.cpp         | 11 +++--------
 geodiff/src/drivers/postgresdriver.cpp |  6 ++----
 geodiff/src/geodiffutils.cpp           | 23 +++++++++++++++++++++++
 geodiff/src/geodiffutils.hpp           |  6 ++++++
 4 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index cd85a70..39852c8 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -107,14 +107,9 @@ static std::string doubleToJSON( double value )
   if ( std::isinf( value ) )
     return value > 0 ? "1e999" : "-1e999";   // there is no better way to write infinity in JSON
 
-  std::string res = std::to_string( value );
-  if ( strtod( res.c_str(), nullptr ) != value )
-  {
-    // six decimal places are not enough
-    char buf[32];
-    snprintf( buf, sizeof( buf ), "%.17g", value );
-    res = buf;
-  }
+  std::string res = doubleToString( value, 6, true );
+  if ( stringToDouble( res ) != value )
+    res = doubleToString( value, 17 );  // six decimal places are not enough
   return res;
 }
 
diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 8a53851..7c5ada0 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -454,7 +454,7 @@ static Value resultToValue( const PostgresResult &res, int r, size_t i, const Ta
     }
     else if ( isColumnDouble( col ) )
     {
-      v.setDouble( atof( valueStr.c_str() ) );
+      v.setDouble( stringToDouble( valueStr ) );
     }
     else if ( isColumnText( col ) )
     {
@@ -516,9 +516,7 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
   else if ( v.type() == Value::TypeDouble )
   {
     // all digits are needed to get the same number, and the quotes make it a constant of the type of the column
-    char buf[32];
-    snprintf( buf, sizeof( buf ), "'%.17g'", v.getDouble() );
-    return buf;
+    return "'" + doubleToString( v.getDouble(), 17 ) + "'";
   }
   else if ( v.type() == Value::TypeText || v.type() == Value::TypeBlob )
   {
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index d612496..3cf047e 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -626,6 +626,29 @@ std::string lowercaseString( const std::string &str )
   return ret;
 }
 
+std::string doubleToString( double value, int precision, bool fixed )
+{
+  std::ostringstream stream;
+  stream.exceptions( std::ios_base::badbit );
+  stream.imbue( std::locale::classic() );
+  if ( fixed )
+    stream.setf( std::ios_base::fixed, std::ios_base::floatfield );
+  stream.precision( precision );
+  stream << value;
+  return stream.str();
+}
+
+double stringToDouble( const std::string &str )
+{
+  std::istringstream stream( str );
+  stream.exceptions( std::ios_base::badbit );
+  stream.imbue( std::locale::classic() );
+  double value;
+  if ( stream >> value )
+    return value;
+  return atof( str.c_str() );  // streams do not read infinity and NaN
+}
+
 
 // from https://stackoverflow.com/questions/440133/how-do-i-create-a-random-alpha-numeric-string-in-c
 std::string randomString( size_t length )
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index 6d18599..7ee01e5 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -90,6 +90,12 @@ bool startsWith( const std::string &str, const std::string &substr );
 //! Returns the same string converted to lower-case
 std::string lowercaseString( const std::string &str );
 
+//! Returns the number as text like printf's "%.<precision>f" (fixed) or "%.<precision>g" does, but the same in every locale
+std::string doubleToString( double value, int precision, bool fixed = false );
+
+//! Returns the number written in the text like atof(), but the same in every locale
+double stringToDouble( const std::string &str );
+
 std::string replace( const std::string &str, const std::string &substr, const std::string &replacestr );
 
 //! writes std::string to file
-- 
2.43.0


From 80d6240970713531b6a3652d356227adf907c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:32 +0000
Subject: [PATCH 55/56] fix: column types in capital letters are recognised in
 every locale

(tolower() leaves 'I' as it is in the Turkish locale)
---
 geodiff/src/geodiffutils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 3cf047e..7e5889b 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -620,9 +620,10 @@ std::string concatNames( const std::vector<std::string> &names )
 
 std::string lowercaseString( const std::string &str )
 {
+  // (what std::tolower() makes of a letter depends on the locale)
   std::string ret = str;
   std::transform( ret.begin(), ret.end(), ret.begin(),
-  []( unsigned char c ) { return std::tolower( c ); } );
+  []( char c ) -> char { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; } );
   return ret;
 }
 
-- 
2.43.0


From 0cf1f596ff47618dd1b71ce6c1bc806fb3639b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 56/56] fix: geometry columns with Z keep it in copies of
 PostgreSQL data

The geometry_columns view never has Z in its types, only in the number of dimensions.
---
 geodiff/src/drivers/postgresdriver.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 7c5ada0..fd585f9 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -228,10 +228,11 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
   std::string schemaName = useModified ? mModifiedSchema : mBaseSchema;
 
   // try to figure out details of the geometry columns (if any)
-  std::string sqlGeomDetails = "SELECT f_geometry_column, type, srid FROM geometry_columns WHERE f_table_schema = " +
+  std::string sqlGeomDetails = "SELECT f_geometry_column, type, srid, coord_dimension FROM geometry_columns WHERE f_table_schema = " +
                                quotedString( schemaName ) + " AND f_table_name = " + quotedString( tableName );
   std::map<std::string, std::string> geomTypes;
   std::map<std::string, int> geomSrids;
+  std::map<std::string, int> geomDimensions;
   PostgresResult resGeomDetails( execSql( mConn, sqlGeomDetails ) );
   for ( int i = 0; i < resGeomDetails.rowCount(); ++i )
   {
@@ -241,6 +242,7 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
     int sridInt = srid.empty() ? -1 : atoi( srid.c_str() );
     geomTypes[name] = type;
     geomSrids[name] = sridInt;
+    geomDimensions[name] = atoi( resGeomDetails.value( i, 3 ).c_str() );
   }
 
   std::string sqlColumns =
@@ -286,6 +288,11 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
       if ( geomTypes.find( col.name ) != geomTypes.end() )
       {
         extractGeometryTypeDetails( geomTypes[col.name], col.geomType, col.geomHasZ, col.geomHasM );
+        // the types of the view never contain "Z" (and "M" only if there is no Z)
+        if ( geomDimensions[col.name] == 4 )
+          col.geomHasZ = col.geomHasM = true;
+        else if ( geomDimensions[col.name] == 3 && !col.geomHasM )
+          col.geomHasZ = true;
         col.geomSrsId = geomSrids[col.name];
         srsId = col.geomSrsId;
       }
-- 
2.43.0

