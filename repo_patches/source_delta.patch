From 1e5e49e1d8f984539914f933896f16ba5d4c0da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 01/59] fix: report moves out of the watched directories in
 order

The Delete of a file or directory moved out of the watched tree was only
reported once the whole batch of inotify events had been processed, so it could
follow events that happened after it (for example the Add of a new file with the
same name), and only one such move per watch was remembered. Report it as soon
as the next event shows that the other half of the move is not coming.
---
 src/efsw/FileWatcherInotify.cpp | 212 +++++++++-----------------------
 src/efsw/FileWatcherInotify.hpp |   4 +-
 2 files changed, 63 insertions(+), 153 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 7f5fde4..87a32f3 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -202,15 +202,6 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 
 	WatcherInotify* watch = iter->second;
 
-	for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-			  mMovedOutsideWatches.begin();
-		  mMovedOutsideWatches.end() != itm; ++itm ) {
-		if ( itm->first == watch ) {
-			mMovedOutsideWatches.erase( itm );
-			break;
-		}
-	}
-
 	if ( watch->Recursive && NULL == watch->Parent ) {
 		WatchMap::iterator it = mWatches.begin();
 		std::vector<WatchID> eraseWatches;
@@ -303,7 +294,6 @@ void FileWatcherInotify::run() {
 	WatcherInotify* curWatcher = NULL;
 	WatcherInotify* currentMoveFrom = NULL;
 	uint32_t currentMoveCookie = -1;
-	bool lastWasMovedFrom = false;
 	std::string prevOldFileName;
 
 	do {
@@ -326,6 +316,15 @@ void FileWatcherInotify::run() {
 					struct inotify_event* pevent = (struct inotify_event*)&buff[i];
 
 					{
+						// An IN_MOVED_FROM that is not followed by its other half left the watched
+						// directories: report it before anything that happened after it.
+						if ( currentMoveFrom && !( ( pevent->mask & IN_MOVED_TO ) &&
+												   pevent->cookie == currentMoveCookie ) ) {
+							handleMovedOutside( currentMoveFrom, prevOldFileName );
+							currentMoveFrom = NULL;
+							currentMoveCookie = -1;
+						}
+
 						curWatcher = NULL;
 
 						{
@@ -363,47 +362,13 @@ void FileWatcherInotify::run() {
 								currentMoveFrom = NULL;
 								currentMoveCookie = -1;
 							} else if ( pevent->mask & IN_MOVED_FROM ) {
-								// Previous event was moved from and current event is moved from
-								// Treat it as a DELETE or moved outside watches
-								if ( lastWasMovedFrom && currentMoveFrom ) {
-									mMovedOutsideWatches.push_back(
-										std::make_pair( currentMoveFrom, prevOldFileName ) );
-								}
-
-								currentMoveFrom = curWatcher;
-								currentMoveCookie = pevent->cookie;
-							} else {
 								/// Keep track of the IN_MOVED_FROM events to know
 								/// if the IN_MOVED_TO event is also fired
-								if ( currentMoveFrom ) {
-									if ( std::find_if( mMovedOutsideWatches.begin(),
-													   mMovedOutsideWatches.end(),
-													   [currentMoveFrom](
-														   const std::pair<WatcherInotify*,
-																		   std::string>& moved ) {
-														   return moved.first == currentMoveFrom;
-													   } ) == mMovedOutsideWatches.end() ) {
-										mMovedOutsideWatches.push_back(
-											std::make_pair( currentMoveFrom, prevOldFileName ) );
-									} else {
-										efDEBUG( "Info: Tried to add watch to the moved outside "
-												 "watches but it was already there, Watch ID: %d - "
-												 "Address: %p - Path: \"%s\" - prevOldFileName: "
-												 "\"%s\"\n",
-												 pevent->wd, currentMoveFrom,
-												 currentMoveFrom->Directory.c_str(),
-												 prevOldFileName.c_str() );
-									}
-								}
-
-								currentMoveFrom = NULL;
-								currentMoveCookie = -1;
+								currentMoveFrom = curWatcher;
+								currentMoveCookie = pevent->cookie;
+								prevOldFileName = std::string( (char*)pevent->name );
 							}
 						}
-
-						lastWasMovedFrom = ( pevent->mask & IN_MOVED_FROM ) != 0;
-						if ( pevent->mask & IN_MOVED_FROM )
-							prevOldFileName = std::string( (char*)pevent->name );
 					}
 
 					i += sizeof( struct inotify_event ) + pevent->len;
@@ -412,113 +377,11 @@ void FileWatcherInotify::run() {
 
 			// If the last event was also IN_MODEV_FROM we didn't generate any event for that one
 			// Treat it as a DELETE or moved outside watches
-			if ( lastWasMovedFrom && currentMoveFrom ) {
-				mMovedOutsideWatches.push_back(
-					std::make_pair( currentMoveFrom, prevOldFileName ) );
-				currentMoveFrom = NULL;
-				lastWasMovedFrom = false;
-				prevOldFileName.clear();
-			}
-		} else {
-			// Here means no event received
-			// If last event is IN_MOVED_FROM, we assume no IN_MOVED_TO
 			if ( currentMoveFrom ) {
-				if ( std::find_if(
-						 mMovedOutsideWatches.begin(), mMovedOutsideWatches.end(),
-						 [currentMoveFrom]( const std::pair<WatcherInotify*, std::string>& moved ) {
-							 return moved.first == currentMoveFrom;
-						 } ) == mMovedOutsideWatches.end() &&
-					 !currentMoveFrom->OldFileName.empty() ) {
-					mMovedOutsideWatches.push_back(
-						std::make_pair( currentMoveFrom, currentMoveFrom->OldFileName ) );
-				} else {
-					efDEBUG( "Warning: Tried to add watch to the moved outside "
-							 "watches but it was already there, Watch Address: %p\n",
-							 currentMoveFrom );
-				}
-			}
-
-			currentMoveFrom = NULL;
-			currentMoveCookie = -1;
-		}
-
-		if ( !mMovedOutsideWatches.empty() ) {
-			// We need to make a copy since the element mMovedOutsideWatches could be modified
-			// during the iteration.
-			std::vector<std::pair<WatcherInotify*, std::string>> movedOutsideWatches(
-				mMovedOutsideWatches );
-
-			/// In case that the IN_MOVED_TO is never fired means that the file was moved to other
-			/// folder
-			for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator it =
-					  movedOutsideWatches.begin();
-				  it != movedOutsideWatches.end(); ++it ) {
-
-				// Skip if the watch has already being removed
-				if ( mMovedOutsideWatches.size() != movedOutsideWatches.size() ) {
-					bool found = false;
-					for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-							  mMovedOutsideWatches.begin();
-						  mMovedOutsideWatches.end() != itm; ++itm ) {
-						if ( itm->first == it->first ) {
-							found = true;
-							break;
-						}
-					}
-					if ( !found )
-						continue;
-				}
-
-				Watcher* watch = it->first;
-
-				// Clear the stale OldFileName.
-				// Since this move is considered complete (moved outside),
-				// the watcher should not be waiting for a pair anymore.
-				watch->OldFileName = "";
-
-				const std::string& oldFileName = it->second;
-
-				/// Check if the file move was a folder already being watched
-				std::vector<Watcher*> eraseWatches;
-
-				{
-					Lock lock( mWatchesLock );
-
-					for ( auto wit : mWatches ) {
-						Watcher* oldWatch = wit.second;
-
-						if ( oldWatch != watch &&
-							 -1 != String::strStartsWith( watch->Directory + oldFileName + "/",
-														  oldWatch->Directory ) ) {
-							eraseWatches.push_back( oldWatch );
-						}
-					}
-				}
-
-				/// Remove invalid watches
-				std::stable_sort( eraseWatches.begin(), eraseWatches.end(),
-								  []( const Watcher* left, const Watcher* right ) {
-									  return left->Directory < right->Directory;
-								  } );
-
-				if ( eraseWatches.empty() ) {
-					handleAction( watch, oldFileName, IN_DELETE );
-				} else {
-					for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
-						  eit != eraseWatches.rend(); ++eit ) {
-						Watcher* rmWatch = *eit;
-
-						/// Create Delete event for removed watches that have been moved too
-						if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
-							handleAction( cntWatch,
-										  FileSystem::fileNameFromPath( rmWatch->Directory ),
-										  IN_DELETE );
-						}
-					}
-				}
+				handleMovedOutside( currentMoveFrom, prevOldFileName );
+				currentMoveFrom = NULL;
+				currentMoveCookie = -1;
 			}
-
-			mMovedOutsideWatches.clear();
 		}
 
 		{
@@ -535,6 +398,51 @@ void FileWatcherInotify::run() {
 	delete[] buff;
 }
 
+void FileWatcherInotify::handleMovedOutside( Watcher* watch, const std::string& oldFileName ) {
+	// Clear the stale OldFileName.
+	// Since this move is considered complete (moved outside),
+	// the watcher should not be waiting for a pair anymore.
+	watch->OldFileName = "";
+
+	/// Check if the file move was a folder already being watched
+	std::vector<Watcher*> eraseWatches;
+
+	{
+		Lock lock( mWatchesLock );
+
+		for ( auto wit : mWatches ) {
+			Watcher* oldWatch = wit.second;
+
+			if ( oldWatch != watch &&
+				 -1 != String::strStartsWith( watch->Directory + oldFileName + "/",
+											  oldWatch->Directory ) ) {
+				eraseWatches.push_back( oldWatch );
+			}
+		}
+	}
+
+	/// Remove invalid watches
+	std::stable_sort( eraseWatches.begin(), eraseWatches.end(),
+					  []( const Watcher* left, const Watcher* right ) {
+						  return left->Directory < right->Directory;
+					  } );
+
+	if ( eraseWatches.empty() ) {
+		handleAction( watch, oldFileName, IN_DELETE );
+	} else {
+		for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
+			  eit != eraseWatches.rend(); ++eit ) {
+			Watcher* rmWatch = *eit;
+
+			/// Create Delete event for removed watches that have been moved too
+			if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
+				handleAction( cntWatch, FileSystem::fileNameFromPath( rmWatch->Directory ),
+							  IN_DELETE );
+			}
+		}
+	}
+}
+
 void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath ) {
 	FileSystem::dirAddSlashAtEnd( fpath );
 
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 3b58a21..f7d914f 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -61,7 +61,6 @@ class FileWatcherInotify : public FileWatcherImpl {
 	Mutex mRealWatchesLock;
 	Mutex mInitLock;
 	bool mIsTakingAction;
-	std::vector<std::pair<WatcherInotify*, std::string>> mMovedOutsideWatches;
 	std::vector<WatcherInotify*> mDeletedWatches;
 
 	WatchID addWatch( const std::string& directory, FileWatchListener* watcher, bool recursive,
@@ -77,6 +76,9 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
+	/// Reports a file or directory that left the watched directories
+	void handleMovedOutside( Watcher* watch, const std::string& oldFileName );
+
 	Watcher* watcherContainsDirectory( std::string dir );
 };
 
-- 
2.43.0


From 83cfa0a15d8ab1822567963860da8596263dcb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 02/59] fix: forget the watches of replaced directories and of
 removed subtrees

A directory renamed or moved over an empty watched directory left the watch of
the replaced one registered with the same path, so the new one was never watched
or was reported under the wrong path. When a directory moved to a non recursive
watch the watches below it were left behind, reporting paths that no longer
exist. The relabeling of a renamed directory also depended on the current state
of the file system instead of what the event says.
---
 src/efsw/FileWatcherInotify.cpp | 34 +++++++++++++++++++++++++--------
 src/efsw/FileWatcherInotify.hpp |  3 +++
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 87a32f3..5a98167 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -240,6 +240,21 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 	mDeletedWatches.push_back( watch );
 }
 
+void FileWatcherInotify::removeWatchTree( const std::string& directory ) {
+	std::vector<WatchID> eraseWatches;
+
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it )
+		if ( it->second->Directory == directory ||
+			 ( NULL != it->second->Parent &&
+			   -1 != String::strStartsWith( directory, it->second->Directory ) ) )
+			eraseWatches.push_back( it->second->InotifyID );
+
+	for ( std::vector<WatchID>::iterator eit = eraseWatches.begin(); eit != eraseWatches.end();
+		  ++eit ) {
+		removeWatchLocked( *eit );
+	}
+}
+
 void FileWatcherInotify::removeWatch( const std::string& directory ) {
 	if ( !mInitOK )
 		return;
@@ -495,13 +510,19 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Modified );
 
+			if ( watch->Recursive && ( IN_ISDIR & action ) ) {
+				/// It could have replaced an empty directory
+				Lock lock( mWatchesLock );
+				removeWatchTree( fpath + "/" );
+			}
+
 			checkForNewWatcher( watch, fpath );
 		} else {
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Moved, watch->OldFileName );
 		}
 
-		if ( watch->Recursive && FileSystem::isDirectory( fpath ) && !watch->OldFileName.empty() ) {
+		if ( watch->Recursive && ( IN_ISDIR & action ) && !watch->OldFileName.empty() ) {
 			/// Update the new directory path
 			std::string opath( watch->Directory + watch->OldFileName );
 			FileSystem::dirAddSlashAtEnd( opath );
@@ -509,6 +530,9 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 
 			Lock lock( mWatchesLock );
 
+			/// It could have replaced an empty directory
+			removeWatchTree( fpath );
+
 			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
 				if ( it->second->Directory == opath ) {
 					it->second->Directory = fpath;
@@ -535,13 +559,7 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 		/// If the file erased is a directory and recursive is enabled, removes the directory erased
 		if ( watch->Recursive ) {
 			Lock l( mWatchesLock );
-
-			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( it->second->Directory == fpath ) {
-					removeWatchLocked( it->second->InotifyID );
-					break;
-				}
-			}
+			removeWatchTree( fpath );
 		}
 	}
 	mIsTakingAction = false;
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index f7d914f..6757917 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -74,6 +74,9 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void removeWatchLocked( WatchID watchid, bool skipInotifyRemove = false );
 
+	/// Removes the watches of a directory and of everything below it
+	void removeWatchTree( const std::string& directory );
+
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
 	/// Reports a file or directory that left the watched directories
-- 
2.43.0


From 4a75838055fc8f3d1f29833bc8e1d78caee42a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 03/59] fix: watch a directory that is renamed before its
 creation was processed

When a directory is created and renamed at once, the event of its creation is
processed when the first name no longer exists, and nothing was watched under the
final name.
---
 src/efsw/FileWatcherInotify.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 5a98167..4cff4a5 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -528,20 +528,30 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			FileSystem::dirAddSlashAtEnd( opath );
 			FileSystem::dirAddSlashAtEnd( fpath );
 
-			Lock lock( mWatchesLock );
+			bool found = false;
 
-			/// It could have replaced an empty directory
-			removeWatchTree( fpath );
+			{
+				Lock lock( mWatchesLock );
 
-			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( it->second->Directory == opath ) {
-					it->second->Directory = fpath;
-					it->second->DirInfo = FileInfo( fpath );
-				} else if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
-					it->second->Directory = fpath + it->second->Directory.substr( opath.size() );
-					it->second->DirInfo.Filepath = it->second->Directory;
+				/// It could have replaced an empty directory
+				removeWatchTree( fpath );
+
+				for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+					if ( it->second->Directory == opath ) {
+						found = true;
+						it->second->Directory = fpath;
+						it->second->DirInfo = FileInfo( fpath );
+					} else if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
+						it->second->Directory =
+							fpath + it->second->Directory.substr( opath.size() );
+						it->second->DirInfo.Filepath = it->second->Directory;
+					}
 				}
 			}
+
+			/// It could have been renamed before it was watched
+			if ( !found )
+				checkForNewWatcher( watch, fpath );
 		}
 
 		watch->OldFileName = "";
-- 
2.43.0


From 4d5b31ed52bded898602827d4a233dcce15031cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 04/59] fix: join the inotify thread before locking in the
 destructor

The thread could pass the mInitOK check in handleAction and set mIsTakingAction
(a plain bool read by the destructor) after the destructor had looked at it, and
then wait for mInitLock, held by the destructor that waits for the thread.
---
 src/efsw/FileWatcherInotify.cpp | 14 +++-----------
 src/efsw/FileWatcherInotify.hpp |  1 -
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 4cff4a5..bfca1a8 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -23,7 +23,7 @@
 namespace efsw {
 
 FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
-	FileWatcherImpl( parent ), mFD( -1 ), mThread( NULL ), mIsTakingAction( false ) {
+	FileWatcherImpl( parent ), mFD( -1 ), mThread( NULL ) {
 	mFD = inotify_init();
 
 	if ( mFD < 0 ) {
@@ -35,17 +35,11 @@ FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
 
 FileWatcherInotify::~FileWatcherInotify() {
 	mInitOK = false;
-	// There is deadlock when release FileWatcherInotify instance since its handAction
-	// function is still running and hangs in requiring lock without init lock captured.
-	while ( mIsTakingAction ) {
-		// It'd use condition-wait instead of sleep. Actually efsw has no such
-		// implementation so we just skip and sleep while for that to avoid deadlock.
-		usleep( 1000 );
-	};
-	Lock initLock( mInitLock );
 
+	// The thread must end before taking the locks, since it could be waiting for any of them.
 	efSAFE_DELETE( mThread );
 
+	Lock initLock( mInitLock );
 	Lock l( mWatchesLock );
 	Lock l2( mRealWatchesLock );
 
@@ -490,7 +484,6 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 	if ( !watch || !watch->Listener || !mInitOK ) {
 		return;
 	}
-	mIsTakingAction = true;
 	Lock initLock( mInitLock );
 
 	std::string fpath( watch->Directory + filename );
@@ -572,7 +565,6 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			removeWatchTree( fpath );
 		}
 	}
-	mIsTakingAction = false;
 }
 
 std::vector<std::string> FileWatcherInotify::directories() {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 6757917..310b621 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -60,7 +60,6 @@ class FileWatcherInotify : public FileWatcherImpl {
 	Mutex mWatchesLock;
 	Mutex mRealWatchesLock;
 	Mutex mInitLock;
-	bool mIsTakingAction;
 	std::vector<WatcherInotify*> mDeletedWatches;
 
 	WatchID addWatch( const std::string& directory, FileWatchListener* watcher, bool recursive,
-- 
2.43.0


From 20ad7d17642ef215b6ddc5516f03fac204d947f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 05/59] fix: no events for a watch after removeWatch returned

The inotify thread looks a watch up, and then waits for mInitLock to report the
event. When removeWatch was called meanwhile the listener was still called after
it returned. The same happened with the second event of a pair, and new
subdirectories were watched, when the watch was removed from the listener.
---
 src/efsw/FileWatcherInotify.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index bfca1a8..b35e6e8 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -162,6 +162,9 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 
 		if ( fromInternalEvent && parent != NULL && syntheticEvents ) {
 			for ( const auto& file : files ) {
+				if ( !pWatch->Listener )
+					break;
+
 				if ( file.second.isRegularFile() || file.second.isDirectory() ||
 					 file.second.isLink() ) {
 					pWatch->Listener->handleFileAction(
@@ -174,7 +177,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		std::map<std::string, FileInfo>::iterator it = files.begin();
 
 		for ( ; it != files.end(); ++it ) {
-			if ( !mInitOK )
+			if ( !mInitOK || !pWatch->Listener )
 				break;
 
 			const FileInfo& cfi = it->second;
@@ -213,6 +216,9 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 	mWatchesRef.erase( watch->Directory );
 	mWatches.erase( iter );
 
+	// The thread could be about to report an event of this watch
+	watch->Listener = NULL;
+
 	if ( NULL == watch->Parent ) {
 		WatchMap::iterator eraseit = mRealWatches.find( watch->InotifyID );
 
@@ -456,7 +462,7 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath )
 	FileSystem::dirAddSlashAtEnd( fpath );
 
 	/// If the watcher is recursive, checks if the new file is a folder, and creates a watcher
-	if ( watch->Recursive && FileSystem::isDirectory( fpath ) ) {
+	if ( watch->Listener && watch->Recursive && FileSystem::isDirectory( fpath ) ) {
 		bool found = false;
 
 		{
@@ -481,11 +487,16 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath )
 
 void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filename,
 									   unsigned long action, const std::string& ) {
-	if ( !watch || !watch->Listener || !mInitOK ) {
+	if ( !watch || !mInitOK ) {
 		return;
 	}
 	Lock initLock( mInitLock );
 
+	/// The watch could have been removed meanwhile
+	if ( !watch->Listener ) {
+		return;
+	}
+
 	std::string fpath( watch->Directory + filename );
 
 	if ( IN_Q_OVERFLOW & action ) {
@@ -500,8 +511,9 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Add );
 
-			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
-											   Actions::Modified );
+			if ( watch->Listener )
+				watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
+												   Actions::Modified );
 
 			if ( watch->Recursive && ( IN_ISDIR & action ) ) {
 				/// It could have replaced an empty directory
-- 
2.43.0


From 16a039df76f0bc2604077fd9f50c1a7783bf64ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 06/59] fix: lock mRealWatches when removing a watch

It is read by directories() and pathInWatches() with mRealWatchesLock held.
---
 src/efsw/FileWatcherInotify.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index b35e6e8..97952a1 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -220,6 +220,7 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 	watch->Listener = NULL;
 
 	if ( NULL == watch->Parent ) {
+		Lock l( mRealWatchesLock );
 		WatchMap::iterator eraseit = mRealWatches.find( watch->InotifyID );
 
 		if ( eraseit != mRealWatches.end() ) {
-- 
2.43.0


From 5b23f6a6efdf7726aa99029fd7f9443abad94593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 07/59] fix: report inotify queue overflows

IN_Q_OVERFLOW comes with wd -1, that is never found in mWatches, so
handleMissedFileActions was never called.
---
 src/efsw/FileWatcherInotify.cpp | 19 +++++++++++++++++++
 src/efsw/FileWatcherInotify.hpp |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 97952a1..828fb70 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -343,6 +343,11 @@ void FileWatcherInotify::run() {
 
 						curWatcher = NULL;
 
+						if ( pevent->mask & IN_Q_OVERFLOW ) {
+							// It doesn't belong to any watch
+							handleOverflow();
+						}
+
 						{
 							Lock lock( mWatchesLock );
 
@@ -414,6 +419,20 @@ void FileWatcherInotify::run() {
 	delete[] buff;
 }
 
+void FileWatcherInotify::handleOverflow() {
+	std::vector<Watcher*> watches;
+
+	{
+		Lock lock( mRealWatchesLock );
+
+		for ( auto& wit : mRealWatches )
+			watches.push_back( wit.second );
+	}
+
+	for ( Watcher* watch : watches )
+		handleAction( watch, "", IN_Q_OVERFLOW );
+}
+
 void FileWatcherInotify::handleMovedOutside( Watcher* watch, const std::string& oldFileName ) {
 	// Clear the stale OldFileName.
 	// Since this move is considered complete (moved outside),
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 310b621..72edc22 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -81,6 +81,9 @@ class FileWatcherInotify : public FileWatcherImpl {
 	/// Reports a file or directory that left the watched directories
 	void handleMovedOutside( Watcher* watch, const std::string& oldFileName );
 
+	/// Reports to every watch that events were lost
+	void handleOverflow();
+
 	Watcher* watcherContainsDirectory( std::string dir );
 };
 
-- 
2.43.0


From 0052db1095c446be160f02608ea3bfe4198b41dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 08/59] fix: use poll to wait for inotify events

FD_SET with a descriptor greater than FD_SETSIZE writes outside the fd_set, and
efsw itself raises the descriptor limit.
---
 src/efsw/FileWatcherInotify.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 828fb70..19caf38 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -5,10 +5,10 @@
 
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <stdio.h>
 #include <string.h>
 #include <sys/inotify.h>
-#include <sys/select.h>
 #include <sys/stat.h>
 #include <unistd.h>
 
@@ -313,14 +313,12 @@ void FileWatcherInotify::run() {
 	std::string prevOldFileName;
 
 	do {
-		fd_set rfds;
-		FD_ZERO( &rfds );
-		FD_SET( mFD, &rfds );
-		timeval timeout;
-		timeout.tv_sec = 0;
-		timeout.tv_usec = 100000;
-
-		if ( select( FD_SETSIZE, &rfds, NULL, NULL, &timeout ) > 0 ) {
+		pollfd pfd;
+		pfd.fd = mFD;
+		pfd.events = POLLIN;
+		pfd.revents = 0;
+
+		if ( poll( &pfd, 1, 100 ) > 0 ) {
 			ssize_t len;
 
 			len = read( mFD, buff, BUFF_SIZE );
-- 
2.43.0


From 87dfd023aeae27fab535c304c432e8b2d7b1f1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 09/59] fix: FileWatcherInotify::watch is thread safe and can
 be retried

Two concurrent calls could both create a thread, and when the thread could not be
created the next call to watch() did nothing.
---
 src/efsw/FileWatcherInotify.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 19caf38..35f52fa 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -282,9 +282,12 @@ void FileWatcherInotify::removeWatch( WatchID watchid ) {
 }
 
 void FileWatcherInotify::watch() {
+	Lock initLock( mInitLock );
+
 	if ( NULL == mThread ) {
-		mThread = new Thread( [this] { run(); } );
-		mThread->launch();
+		std::unique_ptr<Thread> thread( new Thread( [this] { run(); } ) );
+		thread->launch();
+		mThread = thread.release();
 	}
 }
 
-- 
2.43.0


From dfbed9bf0a5b3a59179a9c9c62c0e80a92b8187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 10/59] fix: set the last error code and make the last error
 thread safe

LastErrorCode was never assigned, so getLastErrorCode always returned NoError,
and LastError is written by the watcher thread and by the threads of the user.
---
 src/efsw/Log.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/efsw/Log.cpp b/src/efsw/Log.cpp
index 6f32df7..64643f9 100644
--- a/src/efsw/Log.cpp
+++ b/src/efsw/Log.cpp
@@ -1,25 +1,34 @@
 #include <efsw/efsw.hpp>
 #include <efsw/Debug.hpp>
+#include <efsw/Lock.hpp>
 
 namespace efsw { namespace Errors {
 
 static std::string LastError = "";
 static Error LastErrorCode = NoError;
+static Mutex LastErrorMutex;
 
 std::string Log::getLastErrorLog() {
+	Lock l( LastErrorMutex );
 	return LastError;
 }
 
 Error Log::getLastErrorCode() {
+	Lock l( LastErrorMutex );
 	return LastErrorCode;
 }
 
 void Log::clearLastError() {
+	Lock l( LastErrorMutex );
 	LastErrorCode = NoError;
 	LastError = "";
 }
 
 Error Log::createLastError( Error err, std::string log ) {
+	Lock l( LastErrorMutex );
+
+	LastErrorCode = err;
+
 	switch ( err ) {
 		case FileNotFound:
 			LastError = "File not found ( " + log + " )";
-- 
2.43.0


From b6b781ccc0a282db80b42f5972b006297f54fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 11/59] fix: life time of the callbacks of the C API

efsw_release deleted the callback object before the watcher, whose thread could
be using it, and only one of them when the watcher had several, leaving callbacks
that a later watcher created in the same address could reuse. Watches that only
differ in the missed actions callback shared the callback object of the first.
The string returned by efsw_getlasterror was shared between threads.
---
 src/efsw/FileWatcherCWrapper.cpp | 46 ++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index 4a82dfc..8079e40 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -1,4 +1,3 @@
-#include <algorithm>
 #include <efsw/Lock.hpp>
 #include <efsw/Mutex.hpp>
 #include <efsw/efsw.h>
@@ -40,24 +39,28 @@ class Watcher_CAPI : public efsw::FileWatchListener {
 static std::vector<Watcher_CAPI*> g_callbacks;
 static efsw::Mutex g_callbacksMutex;
 
-Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param ) {
-	efsw::Lock l( g_callbacksMutex );
+Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param,
+							 efsw_pfn_handle_missed_fileactions fnfa ) {
 	for ( Watcher_CAPI* callback : g_callbacks ) {
-		if ( callback->mFn == fn && callback->mWatcher == watcher && callback->mParam == param )
+		if ( callback->mFn == fn && callback->mWatcher == watcher && callback->mParam == param &&
+			 callback->mFnMissedFa == fnfa )
 			return callback;
 	}
 	return NULL;
 }
 
-void remove_callback( efsw_watcher watcher ) {
+static std::vector<Watcher_CAPI*> take_callbacks( efsw_watcher watcher ) {
+	std::vector<Watcher_CAPI*> callbacks;
 	efsw::Lock l( g_callbacksMutex );
-	auto found = std::find_if( g_callbacks.begin(), g_callbacks.end(),
-							   [watcher]( Watcher_CAPI* cb ) { return cb->mWatcher == watcher; } );
-	if ( found != g_callbacks.end() ) {
-		Watcher_CAPI* callback = *found;
-		delete callback;
-		g_callbacks.erase( found );
+	for ( auto it = g_callbacks.begin(); it != g_callbacks.end(); ) {
+		if ( ( *it )->mWatcher == watcher ) {
+			callbacks.push_back( *it );
+			it = g_callbacks.erase( it );
+		} else {
+			++it;
+		}
 	}
+	return callbacks;
 }
 
 /*************************************************************************************************/
@@ -66,12 +69,16 @@ efsw_watcher efsw_create( int generic_mode ) {
 }
 
 void efsw_release( efsw_watcher watcher ) {
-	remove_callback( watcher );
+	// The callbacks could be in use until the watcher is deleted, and once it is deleted a new
+	// watcher could be created in the same address.
+	std::vector<Watcher_CAPI*> callbacks = take_callbacks( watcher );
 	delete (efsw::FileWatcher*)watcher;
+	for ( Watcher_CAPI* callback : callbacks )
+		delete callback;
 }
 
 const char* efsw_getlasterror() {
-	static std::string log_str;
+	static thread_local std::string log_str;
 	log_str = efsw::Errors::Log::getLastErrorLog();
 	return log_str.c_str();
 }
@@ -91,12 +98,17 @@ efsw_addwatch_withoptions( efsw_watcher watcher, const char* directory,
 						   efsw_pfn_fileaction_callback callback_fn, int recursive,
 						   efsw_watcher_option* options, int options_number, void* param,
 						   efsw_pfn_handle_missed_fileactions callback_fn_missed_file_actions ) {
-	Watcher_CAPI* callback = find_callback( watcher, callback_fn, param );
+	Watcher_CAPI* callback = NULL;
 
-	if ( callback == NULL ) {
-		callback = new Watcher_CAPI( watcher, callback_fn, param, callback_fn_missed_file_actions );
+	{
 		efsw::Lock l( g_callbacksMutex );
-		g_callbacks.push_back( callback );
+		callback = find_callback( watcher, callback_fn, param, callback_fn_missed_file_actions );
+
+		if ( callback == NULL ) {
+			callback =
+				new Watcher_CAPI( watcher, callback_fn, param, callback_fn_missed_file_actions );
+			g_callbacks.push_back( callback );
+		}
 	}
 
 	std::vector<efsw::WatcherOption> watcher_options{};
-- 
2.43.0


From 6447542b6ba9920c5708119e8d92de01d61668ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 12/59] fix: System::sleep is not affected by changes of the
 wall clock

It waited until a point in time of the wall clock, so setting the clock back
stopped the polling of the generic watcher, and its destruction, for as long as
the clock was moved.
---
 src/efsw/platform/posix/SystemImpl.cpp | 40 +++-----------------------
 1 file changed, 4 insertions(+), 36 deletions(-)

diff --git a/src/efsw/platform/posix/SystemImpl.cpp b/src/efsw/platform/posix/SystemImpl.cpp
index 37d4120..077a532 100644
--- a/src/efsw/platform/posix/SystemImpl.cpp
+++ b/src/efsw/platform/posix/SystemImpl.cpp
@@ -2,11 +2,11 @@
 
 #if defined( EFSW_PLATFORM_POSIX )
 
+#include <chrono>
 #include <cstdio>
 #include <limits.h>
-#include <pthread.h>
 #include <sys/resource.h>
-#include <sys/time.h>
+#include <thread>
 
 #include <efsw/Debug.hpp>
 #include <efsw/FileSystem.hpp>
@@ -28,40 +28,8 @@
 namespace efsw { namespace Platform {
 
 void System::sleep( const unsigned long& ms ) {
-	// usleep( static_cast<unsigned long>( ms * 1000 ) );
-
-	// usleep is not reliable enough (it might block the
-	// whole process instead of just the current thread)
-	// so we must use pthread_cond_timedwait instead
-
-	// this implementation is inspired from Qt
-	// and taken from SFML
-
-	unsigned long long usecs = ms * 1000;
-
-	// get the current time
-	timeval tv;
-	gettimeofday( &tv, NULL );
-
-	// construct the time limit (current time + time to wait)
-	timespec ti;
-	ti.tv_nsec = ( tv.tv_usec + ( usecs % 1000000 ) ) * 1000;
-	ti.tv_sec = tv.tv_sec + ( usecs / 1000000 ) + ( ti.tv_nsec / 1000000000 );
-	ti.tv_nsec %= 1000000000;
-
-	// create a mutex and thread condition
-	pthread_mutex_t mutex;
-	pthread_mutex_init( &mutex, 0 );
-	pthread_cond_t condition;
-	pthread_cond_init( &condition, 0 );
-
-	// wait...
-	pthread_mutex_lock( &mutex );
-	pthread_cond_timedwait( &condition, &mutex, &ti );
-	pthread_mutex_unlock( &mutex );
-
-	// destroy the mutex and condition
-	pthread_cond_destroy( &condition );
+	// It must not depend on the wall clock, that can be changed at any moment
+	std::this_thread::sleep_for( std::chrono::milliseconds( ms ) );
 }
 
 std::string System::getProcessPath() {
-- 
2.43.0


From 40d9575fd00a7c8d1a6792250ed7eaca6ea91e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 13/59] fix: creating watchers from several threads

System::maxFD used an unprotected static flag.
---
 src/efsw/platform/posix/SystemImpl.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/efsw/platform/posix/SystemImpl.cpp b/src/efsw/platform/posix/SystemImpl.cpp
index 077a532..ba10f8a 100644
--- a/src/efsw/platform/posix/SystemImpl.cpp
+++ b/src/efsw/platform/posix/SystemImpl.cpp
@@ -103,9 +103,7 @@ std::string System::getProcessPath() {
 }
 
 void System::maxFD() {
-	static bool maxed = false;
-
-	if ( !maxed ) {
+	static const bool maxed = [] {
 		struct rlimit limit;
 		getrlimit( RLIMIT_NOFILE, &limit );
 		limit.rlim_cur = limit.rlim_max;
@@ -115,8 +113,10 @@ void System::maxFD() {
 
 		efDEBUG( "File descriptor limit %ld\n", limit.rlim_cur );
 
-		maxed = true;
-	}
+		return true;
+	}();
+
+	(void)maxed;
 }
 
 Uint64 System::getMaxFD() {
-- 
2.43.0


From 1cf505b41d30fbb416a9ee5fec77b5df28922f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 14/59] fix: lock the watches of the generic watcher in every
 access

addWatch and removeWatch looked into mWatches, and at the directories of each
watch, before locking mWatchesLock, while the polling thread was changing them.
Two concurrent addWatch could return the same id, and two concurrent calls to
watch() could create two threads.
---
 src/efsw/FileWatcherGeneric.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/efsw/FileWatcherGeneric.cpp b/src/efsw/FileWatcherGeneric.cpp
index 165fafa..8e43035 100644
--- a/src/efsw/FileWatcherGeneric.cpp
+++ b/src/efsw/FileWatcherGeneric.cpp
@@ -42,7 +42,11 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 		return Errors::Log::createLastError( Errors::FileNotFound, dir );
 	} else if ( !fi.isReadable() ) {
 		return Errors::Log::createLastError( Errors::FileNotReadable, dir );
-	} else if ( pathInWatches( dir ) ) {
+	}
+
+	Lock lock( mWatchesLock );
+
+	if ( pathInWatches( dir ) ) {
 		return Errors::Log::createLastError( Errors::FileRepeated, dir );
 	}
 
@@ -63,7 +67,6 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	WatcherGeneric* pWatch = new WatcherGeneric( mLastWatchID, dir, watcher, this, recursive );
 
-	Lock lock( mWatchesLock );
 	mWatches.push_back( pWatch );
 
 	return pWatch->ID;
@@ -73,14 +76,14 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 	std::string dir( directory );
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->Directory == dir ) {
 			WatcherGeneric* watch = ( *it );
 
-			Lock lock( mWatchesLock );
-
 			mWatches.erase( it );
 
 			efSAFE_DELETE( watch );
@@ -91,14 +94,14 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 }
 
 void FileWatcherGeneric::removeWatch( WatchID watchid ) {
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->ID == watchid ) {
 			WatcherGeneric* watch = ( *it );
 
-			Lock lock( mWatchesLock );
-
 			mWatches.erase( it );
 
 			efSAFE_DELETE( watch );
@@ -109,9 +112,12 @@ void FileWatcherGeneric::removeWatch( WatchID watchid ) {
 }
 
 void FileWatcherGeneric::watch() {
+	Lock lock( mWatchesLock );
+
 	if ( NULL == mThread ) {
-		mThread = new Thread( [this] { run(); } );
-		mThread->launch();
+		std::unique_ptr<Thread> thread( new Thread( [this] { run(); } ) );
+		thread->launch();
+		mThread = thread.release();
 	}
 }
 
@@ -154,6 +160,8 @@ std::vector<std::string> FileWatcherGeneric::directories() {
 }
 
 bool FileWatcherGeneric::pathInWatches( const std::string& path ) {
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
-- 
2.43.0


From af2162eec219e2ec1cf3959ad56c5bf7fbe2b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 15/59] fix: add and remove watches from the listener of a
 generic watcher

removeWatch deleted the watch that was being polled, and both invalidated the
iterator of the polling thread.
---
 src/efsw/DirWatcherGeneric.cpp  | 19 +++++++++++++------
 src/efsw/FileWatcherGeneric.cpp | 33 ++++++++++++++++++++++++++++-----
 src/efsw/FileWatcherGeneric.hpp |  8 ++++++++
 3 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index fee82ea..fcdd8b1 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -44,9 +44,12 @@ DirWatcherGeneric::~DirWatcherGeneric() {
 		}
 	}
 
-	DirWatchMap::iterator it = Directories.begin();
+	DirWatchMap directories;
+	directories.swap( Directories );
 
-	for ( ; it != Directories.end(); ++it ) {
+	DirWatchMap::iterator it = directories.begin();
+
+	for ( ; it != directories.end(); ++it ) {
 		if ( Deleted ) {
 			/// If the directory was deleted, mark the flag for file deletion
 			it->second->Deleted = true;
@@ -86,6 +89,10 @@ void DirWatcherGeneric::resetDirectory( std::string directory ) {
 
 void DirWatcherGeneric::handleAction( const std::string& filename, unsigned long action,
 									  const std::string& oldFilename ) {
+	/// Could have been removed from the listener
+	if ( !Watch->Listener )
+		return;
+
 	Watch->Listener->handleFileAction( Watch->ID, DirSnap.DirectoryInfo.Filepath,
 									   FileSystem::fileNameFromPath( filename ), (Action)action,
 									   oldFilename );
@@ -142,7 +149,7 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 void DirWatcherGeneric::watch( bool reportOwnChange ) {
 	DirectorySnapshotDiff Diff = DirSnap.scan();
 
-	if ( reportOwnChange && Diff.DirChanged && NULL != Parent ) {
+	if ( reportOwnChange && Diff.DirChanged && NULL != Parent && Watch->Listener ) {
 		Watch->Listener->handleFileAction(
 			Watch->ID, FileSystem::pathRemoveFileName( DirSnap.DirectoryInfo.Filepath ),
 			FileSystem::fileNameFromPath( DirSnap.DirectoryInfo.Filepath ), Actions::Modified );
@@ -342,11 +349,11 @@ void DirWatcherGeneric::removeDirectory( std::string dir ) {
 		/// Flag it as deleted so it fire the event for every file inside deleted
 		dw->Deleted = true;
 
+		/// Remove the directory from the map
+		Directories.erase( dit );
+
 		/// Delete the DirWatcherGeneric
 		efSAFE_DELETE( dw );
-
-		/// Remove the directory from the map
-		Directories.erase( dit->first );
 	}
 }
 
diff --git a/src/efsw/FileWatcherGeneric.cpp b/src/efsw/FileWatcherGeneric.cpp
index 8e43035..7afb617 100644
--- a/src/efsw/FileWatcherGeneric.cpp
+++ b/src/efsw/FileWatcherGeneric.cpp
@@ -86,7 +86,7 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 
 			mWatches.erase( it );
 
-			efSAFE_DELETE( watch );
+			deleteWatch( watch );
 
 			return;
 		}
@@ -104,13 +104,23 @@ void FileWatcherGeneric::removeWatch( WatchID watchid ) {
 
 			mWatches.erase( it );
 
-			efSAFE_DELETE( watch );
+			deleteWatch( watch );
 
 			return;
 		}
 	}
 }
 
+void FileWatcherGeneric::deleteWatch( WatcherGeneric* watch ) {
+	if ( mPolling ) {
+		/// Removed from the listener, it is still in use
+		watch->Listener = NULL;
+		mDeletedWatches.push_back( watch );
+	} else {
+		efSAFE_DELETE( watch );
+	}
+}
+
 void FileWatcherGeneric::watch() {
 	Lock lock( mWatchesLock );
 
@@ -126,11 +136,24 @@ void FileWatcherGeneric::run() {
 		{
 			Lock lock( mWatchesLock );
 
-			WatchList::iterator it = mWatches.begin();
+			/// The listeners could add and remove watches
+			WatchList watches( mWatches );
+			WatchList::iterator it = watches.begin();
+
+			mPolling = true;
 
-			for ( ; it != mWatches.end(); ++it ) {
-				( *it )->watch();
+			for ( ; it != watches.end(); ++it ) {
+				if ( ( *it )->Listener )
+					( *it )->watch();
 			}
+
+			mPolling = false;
+
+			for ( it = mDeletedWatches.begin(); it != mDeletedWatches.end(); ++it ) {
+				efSAFE_DELETE( *it );
+			}
+
+			mDeletedWatches.clear();
 		}
 
 		if ( mInitOK )
diff --git a/src/efsw/FileWatcherGeneric.hpp b/src/efsw/FileWatcherGeneric.hpp
index f70f512..8159ee2 100644
--- a/src/efsw/FileWatcherGeneric.hpp
+++ b/src/efsw/FileWatcherGeneric.hpp
@@ -54,10 +54,18 @@ class FileWatcherGeneric : public FileWatcherImpl {
 
 	int mPollingFreq{ 1000 };
 
+	/// True while the watches are being polled, with mWatchesLock locked
+	bool mPolling{ false };
+
+	/// Watches removed while polling
+	WatchList mDeletedWatches;
+
 	bool pathInWatches( const std::string& path ) override;
 
   private:
 	void run();
+
+	void deleteWatch( WatcherGeneric* watch );
 };
 
 } // namespace efsw
-- 
2.43.0


From 8c78d5c80110c87623a10dbae47924dbf076b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 16/59] fix: generic watcher misses deleted files

The files that disappeared were only reported when the information of the
directory had changed since the last scan, what is not the case if it was changed
twice within the resolution of its modification time, or if the information was
refreshed because the directory was renamed.
---
 src/efsw/DirectorySnapshot.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index f78475f..ab0566c 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -90,9 +90,7 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 	FileInfoMap::iterator it;
 	FileInfoMap::iterator fiIt;
 
-	if ( Diff.DirChanged ) {
-		FilesCpy = Files;
-	}
+	FilesCpy = Files;
 
 	for ( it = files.begin(); it != files.end(); it++ ) {
 		fi = it->second;
@@ -150,10 +148,6 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 		}
 	}
 
-	if ( !Diff.DirChanged ) {
-		return Diff;
-	}
-
 	/// The files or directories that remains were deleted
 	for ( it = FilesCpy.begin(); it != FilesCpy.end(); it++ ) {
 		fi = it->second;
-- 
2.43.0


From 7b4bcfd7fd1ae23a2511656e16a6f457752e4565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 17/59] fix: FileInfo::Size was not initialized

When the file can not be accessed it kept an indeterminate value that is used to
compare it.
---
 src/efsw/FileInfo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileInfo.cpp b/src/efsw/FileInfo.cpp
index 4dcbd7d..2600ddf 100644
--- a/src/efsw/FileInfo.cpp
+++ b/src/efsw/FileInfo.cpp
@@ -56,11 +56,12 @@ bool FileInfo::inodeSupported() {
 }
 
 FileInfo::FileInfo() :
-	ModificationTime( 0 ), OwnerId( 0 ), GroupId( 0 ), Permissions( 0 ), Inode( 0 ) {}
+	ModificationTime( 0 ), Size( 0 ), OwnerId( 0 ), GroupId( 0 ), Permissions( 0 ), Inode( 0 ) {}
 
 FileInfo::FileInfo( const std::string& filepath ) :
 	Filepath( filepath ),
 	ModificationTime( 0 ),
+	Size( 0 ),
 	OwnerId( 0 ),
 	GroupId( 0 ),
 	Permissions( 0 ),
@@ -71,6 +72,7 @@ FileInfo::FileInfo( const std::string& filepath ) :
 FileInfo::FileInfo( const std::string& filepath, bool linkInfo ) :
 	Filepath( filepath ),
 	ModificationTime( 0 ),
+	Size( 0 ),
 	OwnerId( 0 ),
 	GroupId( 0 ),
 	Permissions( 0 ),
-- 
2.43.0


From 676de45e5a67ee3b2fa66b7f8eb96f2211402527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 18/59] fix: generic watcher confuses hard links and reused
 inodes with renames

A new hard link was reported as the original file being renamed, and then
renamed back, again and again. A directory that got the inode of a file deleted
since the last scan was taken for that file renamed, and was not watched.
---
 src/efsw/DirectorySnapshot.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index ab0566c..067f5ec 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -123,8 +123,10 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 			FileInfoMap::iterator fit;
 			std::string oldFile = "";
 
-			/// Check if the same inode already existed
-			if ( ( fit = nodeInFiles( fi ) ) != Files.end() ) {
+			/// Check if the same inode already existed, and it is not another link of the same file
+			if ( ( fit = nodeInFiles( fi ) ) != Files.end() &&
+				 !( ( fiIt = files.find( fit->first ) ) != files.end() &&
+					fiIt->second.sameInode( fi ) ) ) {
 				oldFile = fit->first;
 
 				/// Avoid firing a Delete event
@@ -170,7 +172,8 @@ FileInfoMap::iterator DirectorySnapshot::nodeInFiles( FileInfo& fi ) {
 
 	if ( FileInfo::inodeSupported() ) {
 		for ( it = Files.begin(); it != Files.end(); it++ ) {
-			if ( it->second.sameInode( fi ) && it->second.Filepath != fi.Filepath ) {
+			if ( it->second.sameInode( fi ) && it->second.Filepath != fi.Filepath &&
+				 it->second.isDirectory() == fi.isDirectory() ) {
 				return it;
 			}
 		}
-- 
2.43.0


From 927932971b9d903d9165f37818852707dca93c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 19/59] fix: generic watcher and a file replaced by a directory
 of the same name

It was reported as modified, and the new directory was not watched.
---
 src/efsw/DirectorySnapshot.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index 067f5ec..ee17251 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -99,6 +99,11 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 		fiIt = Files.find( it->first );
 
 		if ( fiIt != Files.end() ) {
+			/// A file that takes the place of a directory, or the other way around, is reported as
+			/// new once the other has been reported as deleted
+			if ( fiIt->second.isDirectory() != fi.isDirectory() )
+				continue;
+
 			/// Erase from the file list copy
 			FilesCpy.erase( it->first );
 
-- 
2.43.0


From b2a25d80fee57db76bfd3124b09d70095117d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 20/59] fix: scope of the events of new directories in the
 generic watcher

The files that a new directory already contained when it was found were not
reported, while the ones in its subdirectories were, and non recursive watches
reported what happened inside the directories created after the watch was added.
---
 src/efsw/DirWatcherGeneric.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index fcdd8b1..9ee71e2 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -317,8 +317,12 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 	if ( !skip ) {
 		handleAction( newdir, Actions::Add );
 
+		if ( !Recursive ) {
+			return NULL;
+		}
+
 		/// Creates the new directory watcher of the subfolder and check for new files
-		dw = new DirWatcherGeneric( this, Watch, dir, Recursive );
+		dw = new DirWatcherGeneric( this, Watch, dir, Recursive, true );
 
 		dw->addChildren();
 
-- 
2.43.0


From 92475847a493d9bbc141976ec845788538784c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 21/59] fix: generic watcher and a new file with the name of a
 renamed one

The creation was reported before the move, so the new file was lost.
---
 src/efsw/DirectorySnapshot.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index ee17251..376d3e3 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -128,10 +128,10 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 			FileInfoMap::iterator fit;
 			std::string oldFile = "";
 
-			/// Check if the same inode already existed, and it is not another link of the same file
+			/// Check if the same inode already existed, and its name is not in use anymore ( it could be
+			/// another link of the same file, or the name could belong to a new file )
 			if ( ( fit = nodeInFiles( fi ) ) != Files.end() &&
-				 !( ( fiIt = files.find( fit->first ) ) != files.end() &&
-					fiIt->second.sameInode( fi ) ) ) {
+				 files.find( fit->first ) == files.end() ) {
 				oldFile = fit->first;
 
 				/// Avoid firing a Delete event
-- 
2.43.0


From b9fc7b0bfc9e2c5a267fc72fa9d23ce1b98fc2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 22/59] fix: lock the watches while their directories are
 listed

---
 src/efsw/FileWatcherInotify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 35f52fa..4468751 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -603,6 +603,8 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 std::vector<std::string> FileWatcherInotify::directories() {
 	std::vector<std::string> dirs;
 
+	/// The directories of the watches change when they are renamed
+	Lock lock( mWatchesLock );
 	Lock l( mRealWatchesLock );
 
 	dirs.reserve( mRealWatches.size() );
-- 
2.43.0


From dad06f0b2d8a0ef678639f995c253c81b37e1e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 23/59] fix: use after free when a watched subdirectory is
 added as a watch

---
 src/efsw/FileWatcherInotify.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 4468751..2fc9935 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -213,6 +213,11 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 		}
 	}
 
+	/// A subdirectory that is also added as a watch by the user leaves its children behind
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it )
+		if ( it->second->Parent == watch )
+			it->second->Parent = watch->Parent;
+
 	mWatchesRef.erase( watch->Directory );
 	mWatches.erase( iter );
 
-- 
2.43.0


From b4fd7b90ed7c1a048bf39811eabafa6f9d8b415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:35 +0000
Subject: [PATCH 24/59] fix: generic watcher and a directory renamed before it
 was watched

---
 src/efsw/DirWatcherGeneric.cpp | 9 +++++++--
 src/efsw/DirWatcherGeneric.hpp | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 9ee71e2..7599483 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -271,7 +271,7 @@ DirWatcherGeneric* DirWatcherGeneric::findDirWatcher( std::string dir ) {
 	return NULL;
 }
 
-DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
+DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir, bool reportDirectory ) {
 	FileSystem::dirRemoveSlashAtEnd( newdir );
 	newdir = FileSystem::fileNameFromPath( newdir );
 
@@ -315,7 +315,9 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 	}
 
 	if ( !skip ) {
-		handleAction( newdir, Actions::Add );
+		if ( reportDirectory ) {
+			handleAction( newdir, Actions::Add );
+		}
 
 		if ( !Recursive ) {
 			return NULL;
@@ -383,6 +385,9 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 		Directories[newDir] = dw;
 
 		dw->resetDirectory( newDir );
+	} else if ( Recursive ) {
+		/// It could have been renamed before it was watched
+		createDirectory( newDir, false );
 	}
 }
 
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index c1f7135..7d3f698 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -40,7 +40,7 @@ class DirWatcherGeneric {
   protected:
 	bool Deleted;
 
-	DirWatcherGeneric* createDirectory( std::string newdir );
+	DirWatcherGeneric* createDirectory( std::string newdir, bool reportDirectory = true );
 
 	void removeDirectory( std::string dir );
 
-- 
2.43.0


From 8a8e9e1ebc0c755cdb50b3f495bac2788c41efbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 25/59] fix: a watch removed and added again from its listener
 lost subdirectories

---
 src/efsw/FileWatcherInotify.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 2fc9935..d0ea7f9 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -541,7 +541,8 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 				watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 												   Actions::Modified );
 
-			if ( watch->Recursive && ( IN_ISDIR & action ) ) {
+			/// The listener could have removed the watch
+			if ( watch->Listener && watch->Recursive && ( IN_ISDIR & action ) ) {
 				/// It could have replaced an empty directory
 				Lock lock( mWatchesLock );
 				removeWatchTree( fpath + "/" );
@@ -553,7 +554,8 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 											   Actions::Moved, watch->OldFileName );
 		}
 
-		if ( watch->Recursive && ( IN_ISDIR & action ) && !watch->OldFileName.empty() ) {
+		if ( watch->Listener && watch->Recursive && ( IN_ISDIR & action ) &&
+			 !watch->OldFileName.empty() ) {
 			/// Update the new directory path
 			std::string opath( watch->Directory + watch->OldFileName );
 			FileSystem::dirAddSlashAtEnd( opath );
@@ -598,7 +600,7 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 		FileSystem::dirAddSlashAtEnd( fpath );
 
 		/// If the file erased is a directory and recursive is enabled, removes the directory erased
-		if ( watch->Recursive ) {
+		if ( watch->Listener && watch->Recursive ) {
 			Lock l( mWatchesLock );
 			removeWatchTree( fpath );
 		}
-- 
2.43.0


From c39f3b3a391311e0b0431a8bd38c60f050ab17f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:15 +0000
Subject: [PATCH 26/59] fix: generic watcher missed a directory created again
 while it was scanned

---
 src/efsw/DirWatcherGeneric.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 7599483..852dde2 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -286,6 +286,11 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir, bool
 
 	FileInfo fi( dir );
 
+	if ( !fi.isDirectory() && reportDirectory ) {
+		/// It was removed meanwhile, report it if it's created again
+		DirSnap.removeFile( newdir );
+	}
+
 	if ( !fi.isDirectory() || !fi.isReadable() || FileSystem::isRemoteFS( dir ) ) {
 		return NULL;
 	}
-- 
2.43.0


From 7ae39fe9b5715920d9c5991a512d2c59cd09e1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:20 +0000
Subject: [PATCH 27/59] fix: free the removed inotify watches when the thread
 isn't running

---
 src/efsw/FileWatcherInotify.cpp | 13 +++++++++++++
 src/efsw/FileWatcherInotify.hpp |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index d0ea7f9..a62aba7 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -276,6 +276,7 @@ void FileWatcherInotify::removeWatch( const std::string& directory ) {
 		return;
 
 	removeWatchLocked( ref->second );
+	freeDeletedWatches();
 }
 
 void FileWatcherInotify::removeWatch( WatchID watchid ) {
@@ -284,6 +285,18 @@ void FileWatcherInotify::removeWatch( WatchID watchid ) {
 	Lock initLock( mInitLock );
 	Lock lock( mWatchesLock );
 	removeWatchLocked( watchid );
+	freeDeletedWatches();
+}
+
+void FileWatcherInotify::freeDeletedWatches() {
+	/// The thread does it when it isn't using them
+	if ( NULL != mThread )
+		return;
+
+	for ( auto w : mDeletedWatches ) {
+		efSAFE_DELETE( w );
+	}
+	mDeletedWatches.clear();
 }
 
 void FileWatcherInotify::watch() {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 72edc22..5748465 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -73,6 +73,8 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void removeWatchLocked( WatchID watchid, bool skipInotifyRemove = false );
 
+	void freeDeletedWatches();
+
 	/// Removes the watches of a directory and of everything below it
 	void removeWatchTree( const std::string& directory );
 
-- 
2.43.0


From b9b93be99570a750c99808d6707b24155f90e9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:20 +0000
Subject: [PATCH 28/59] fix: keep the inotify path index up to date when
 directories are renamed

---
 src/efsw/FileWatcherInotify.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index a62aba7..1e26934 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -583,15 +583,22 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 				removeWatchTree( fpath );
 
 				for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+					if ( -1 == String::strStartsWith( opath, it->second->Directory ) )
+						continue;
+
+					mWatchesRef.erase( it->second->Directory );
+
 					if ( it->second->Directory == opath ) {
 						found = true;
 						it->second->Directory = fpath;
 						it->second->DirInfo = FileInfo( fpath );
-					} else if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
+					} else {
 						it->second->Directory =
 							fpath + it->second->Directory.substr( opath.size() );
 						it->second->DirInfo.Filepath = it->second->Directory;
 					}
+
+					mWatchesRef[it->second->Directory] = it->first;
 				}
 			}
 
-- 
2.43.0


From 7e104622767ce206515450da03f911073aa5736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:12 +0000
Subject: [PATCH 29/59] fix: adding a directory already watched under another
 name took over its watch id

---
 src/efsw/FileWatcherInotify.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 1e26934..47fd41b 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -131,8 +131,13 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	{
 		Lock lock( mWatchesLock );
 		auto watchIdExists = mWatches.find( wd );
-		if ( watchIdExists != mWatches.end() )
+		if ( watchIdExists != mWatches.end() ) {
+			/// The same directory can't be watched by the user twice, it has only one watch id
+			if ( NULL == parent && NULL == watchIdExists->second->Parent )
+				return Errors::Log::createLastError( Errors::FileRepeated, directory );
+
 			removeWatchLocked( wd, true );
+		}
 	}
 
 	efDEBUG( "Added watch %s with id: %d\n", dir.c_str(), wd );
-- 
2.43.0


From f0666dfa7d52fd300e107c7a6d542ca7251926f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:07 +0000
Subject: [PATCH 30/59] fix: find the mount point of FUSE directories without
 changing the working directory

---
 src/efsw/platform/posix/FileSystemImpl.cpp | 48 ++++++++--------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index 92eeb47..3d3ba41 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -61,51 +61,39 @@ namespace efsw { namespace Platform {
 #if EFSW_OS == EFSW_OS_LINUX
 
 std::string findMountPoint( std::string file ) {
-	std::string cwd = FileSystem::getCurrentWorkingDirectory();
-	struct stat last_stat;
-	struct stat file_stat;
+	/// Other threads could be using the working directory, so it must not be changed
+	char* real = realpath( file.c_str(), NULL );
 
-	stat( file.c_str(), &file_stat );
+	if ( NULL == real )
+		return "";
 
-	std::string mp;
+	std::string mp( real );
 
-	if ( efsw::FileSystem::isDirectory( file ) ) {
-		last_stat = file_stat;
+	free( real );
 
-		if ( !FileSystem::changeWorkingDirectory( file ) )
-			return "";
-	} else {
-		std::string dir = efsw::FileSystem::pathRemoveFileName( file );
+	struct stat last_stat;
 
-		if ( !FileSystem::changeWorkingDirectory( dir ) )
-			return "";
+	if ( stat( mp.c_str(), &last_stat ) < 0 )
+		return "";
 
-		if ( stat( ".", &last_stat ) < 0 )
-			return "";
-	}
+	while ( mp.size() > 1 ) {
+		std::string parent( efsw::FileSystem::pathRemoveFileName( mp ) );
+
+		if ( parent.size() > 1 )
+			efsw::FileSystem::dirRemoveSlashAtEnd( parent );
 
-	while ( true ) {
 		struct stat st;
 
-		if ( stat( "..", &st ) < 0 )
-			goto done;
+		if ( stat( parent.c_str(), &st ) < 0 )
+			return "";
 
-		if ( st.st_dev != last_stat.st_dev || st.st_ino == last_stat.st_ino )
+		if ( st.st_dev != last_stat.st_dev )
 			break;
 
-		if ( !FileSystem::changeWorkingDirectory( ".." ) ) {
-			goto done;
-		}
-
+		mp = parent;
 		last_stat = st;
 	}
 
-	/* Finally reached a mount point, see what it's called.  */
-	mp = FileSystem::getCurrentWorkingDirectory();
-
-done:
-	FileSystem::changeWorkingDirectory( cwd );
-
 	return mp;
 }
 
-- 
2.43.0


From f3cead6289fabf4accf48eb33cd19156648d83e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:07 +0000
Subject: [PATCH 31/59] fix: a failed statfs says nothing about the file system

---
 src/efsw/platform/posix/FileSystemImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index 3d3ba41..6649a82 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -192,7 +192,8 @@ bool FileSystem::isRemoteFS( const std::string& directory ) {
 	EFSW_OS == EFSW_OS_SOLARIS || EFSW_OS == EFSW_OS_ANDROID || EFSW_OS == EFSW_OS_IOS
 	struct statfs statfsbuf;
 
-	statfs( directory.c_str(), &statfsbuf );
+	if ( statfs( directory.c_str(), &statfsbuf ) < 0 )
+		return false;
 
 	switch ( statfsbuf.f_type | 0UL ) {
 		case S_MAGIC_FUSEBLK: /* 0x65735546 remote */
-- 
2.43.0


From 7f7557a8c60f47d9543e17462a0976bf3bcfec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:07 +0000
Subject: [PATCH 32/59] fix: SMB2 file systems are remote

---
 src/efsw/platform/posix/FileSystemImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index 6649a82..9c6e916 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -47,6 +47,7 @@
 #define S_MAGIC_PANFS 0xAAD7AAEA
 #define S_MAGIC_PIPEFS 0x50495045
 #define S_MAGIC_SMB 0x517B
+#define S_MAGIC_SMB2 0xFE534D42
 #define S_MAGIC_SNFS 0xBEEFDEAD
 #define S_MAGIC_VMHGFS 0xBACBACBC
 #define S_MAGIC_VXFS 0xA501FCF5
@@ -220,6 +221,7 @@ bool FileSystem::isRemoteFS( const std::string& directory ) {
 		case S_MAGIC_PANFS:	  /* 0xAAD7AAEA remote */
 		case S_MAGIC_PIPEFS:  /* 0x50495045 remote */
 		case S_MAGIC_SMB:	  /* 0x517B remote */
+		case S_MAGIC_SMB2:	  /* 0xFE534D42 remote */
 		case S_MAGIC_SNFS:	  /* 0xBEEFDEAD remote */
 		case S_MAGIC_VMHGFS:  /* 0xBACBACBC remote */
 		case S_MAGIC_VXFS:	  /* 0xA501FCF5 remote */
-- 
2.43.0


From 44cac7062973ba1fac2743ee9e011a2564a2a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:07 +0000
Subject: [PATCH 33/59] fix: report new directories that can not be read by the
 polling watcher

---
 src/efsw/DirWatcherGeneric.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 852dde2..e6b0771 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -292,6 +292,11 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir, bool
 	}
 
 	if ( !fi.isDirectory() || !fi.isReadable() || FileSystem::isRemoteFS( dir ) ) {
+		/// It can't be watched, but it's a new entry of this directory
+		if ( fi.isDirectory() && reportDirectory ) {
+			handleAction( newdir, Actions::Add );
+		}
+
 		return NULL;
 	}
 
-- 
2.43.0


From 8dadfe626b1244d115dc6ca8fc50fc88092bb549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 34/59] fix: notice changes of a file that happen in the same
 second as the last one

---
 src/efsw/FileInfo.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileInfo.cpp b/src/efsw/FileInfo.cpp
index 2600ddf..ffa5fbb 100644
--- a/src/efsw/FileInfo.cpp
+++ b/src/efsw/FileInfo.cpp
@@ -35,6 +35,14 @@
 #endif
 #endif
 
+#if EFSW_OS == EFSW_OS_LINUX
+/// Seconds are not enough to tell two changes apart
+#define MODIFICATION_TIME( st ) \
+	( (Uint64)( st ).st_mtim.tv_sec * 1000000000ull + (Uint64)( st ).st_mtim.tv_nsec )
+#else
+#define MODIFICATION_TIME( st ) ( ( st ).st_mtime )
+#endif
+
 namespace efsw {
 
 bool FileInfo::exists( const std::string& filePath ) {
@@ -108,7 +116,7 @@ void FileInfo::getInfo() {
 #endif
 
 	if ( 0 == res ) {
-		ModificationTime = st.st_mtime;
+		ModificationTime = MODIFICATION_TIME( st );
 		Size = st.st_size;
 		OwnerId = st.st_uid;
 		GroupId = st.st_gid;
@@ -137,7 +145,7 @@ void FileInfo::getRealInfo() {
 #endif
 
 	if ( 0 == res ) {
-		ModificationTime = st.st_mtime;
+		ModificationTime = MODIFICATION_TIME( st );
 		Size = st.st_size;
 		OwnerId = st.st_uid;
 		GroupId = st.st_gid;
-- 
2.43.0


From b03f33ac557f02e9281fd3d38d3ed045f25d43ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:21 +0000
Subject: [PATCH 35/59] fix: report the content of a directory that a file has
 replaced as deleted

---
 src/efsw/DirWatcherGeneric.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index e6b0771..7c7b9ab 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -31,7 +31,8 @@ DirWatcherGeneric::~DirWatcherGeneric() {
 	if ( Deleted ) {
 		DirectorySnapshotDiff Diff = DirSnap.scan();
 
-		if ( !DirSnap.exists() ) {
+		/// A file could have taken its place
+		if ( !FileSystem::isDirectory( DirSnap.DirectoryInfo.Filepath ) ) {
 			FileInfoList::iterator it;
 
 			DiffIterator( FilesDeleted ) {
-- 
2.43.0


From ffa3d71ba9eabd0354c83243a7d86701da944358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 36/59] fix: report every new directory that is found inside a
 new one when polling

---
 src/efsw/DirWatcherGeneric.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 7c7b9ab..6ecc262 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -105,6 +105,10 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 		std::string dir;
 
 		for ( FileInfoMap::iterator it = DirSnap.Files.begin(); it != DirSnap.Files.end(); it++ ) {
+			if ( it->second.isDirectory() && reportNewFiles ) {
+				handleAction( it->first, Actions::Add );
+			}
+
 			if ( it->second.isDirectory() && it->second.isReadable() &&
 				 !FileSystem::isRemoteFS( it->second.Filepath ) ) {
 				/// Check if the directory is a symbolic link
@@ -134,10 +138,6 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 					}
 				}
 
-				if ( reportNewFiles ) {
-					handleAction( dir, Actions::Add );
-				}
-
 				Directories[dir] =
 					new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles );
 
-- 
2.43.0


From 91889d49fe02f1511f06a930bd35258ced036de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 37/59] fix: watch a directory that becomes readable when
 polling

---
 src/efsw/DirWatcherGeneric.cpp | 13 ++++++++++++-
 src/efsw/DirWatcherGeneric.hpp |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 6ecc262..16db809 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -183,7 +183,7 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 		}
 
 		DiffIterator( DirsModified ) {
-			handleAction( ( *it ).Filepath, Actions::Modified );
+			updateDirectory( ( *it ).Filepath );
 		}
 
 		DiffIterator( DirsDeleted ) {
@@ -272,6 +272,17 @@ DirWatcherGeneric* DirWatcherGeneric::findDirWatcher( std::string dir ) {
 	return NULL;
 }
 
+void DirWatcherGeneric::updateDirectory( const std::string& path ) {
+	DirWatchMap::iterator dit = Directories.find( FileSystem::fileNameFromPath( path ) );
+
+	handleAction( path, Actions::Modified );
+
+	/// It could have been unreadable until now
+	if ( dit == Directories.end() ) {
+		createDirectory( path, false );
+	}
+}
+
 DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir, bool reportDirectory ) {
 	FileSystem::dirRemoveSlashAtEnd( newdir );
 	newdir = FileSystem::fileNameFromPath( newdir );
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index 7d3f698..4f5cee5 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -42,6 +42,8 @@ class DirWatcherGeneric {
 
 	DirWatcherGeneric* createDirectory( std::string newdir, bool reportDirectory = true );
 
+	void updateDirectory( const std::string& path );
+
 	void removeDirectory( std::string dir );
 
 	void moveDirectory( std::string oldDir, std::string newDir );
-- 
2.43.0


From 437763e91d2c39d9d4421d6d3bc706892dcfeab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 38/59] fix: report new links to directories that are not
 followed when polling

---
 src/efsw/DirWatcherGeneric.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 16db809..62c427a 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -336,11 +336,11 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir, bool
 		}
 	}
 
-	if ( !skip ) {
-		if ( reportDirectory ) {
-			handleAction( newdir, Actions::Add );
-		}
+	if ( reportDirectory ) {
+		handleAction( newdir, Actions::Add );
+	}
 
+	if ( !skip ) {
 		if ( !Recursive ) {
 			return NULL;
 		}
-- 
2.43.0


From be6959df397a9db5456dd2fff975aeeed6cf8861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 39/59] fix: followed links were not found by their name when
 polling

---
 src/efsw/DirWatcherGeneric.cpp | 25 +++++++++++++++++--------
 src/efsw/DirWatcherGeneric.hpp |  1 +
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 62c427a..0eb9958 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -8,7 +8,7 @@ namespace efsw {
 DirWatcherGeneric::DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric* ws,
 									  const std::string& directory, bool recursive,
 									  bool reportNewFiles ) :
-	Parent( parent ), Watch( ws ), Recursive( recursive ), Deleted( false ) {
+	Parent( parent ), Watch( ws ), Recursive( recursive ), Deleted( false ), Link( false ) {
 	resetDirectory( directory );
 
 	if ( !reportNewFiles ) {
@@ -84,7 +84,9 @@ void DirWatcherGeneric::resetDirectory( std::string directory ) {
 	DirSnap.setDirectoryInfo( dir );
 
 	for ( auto& child : Directories ) {
-		child.second->resetDirectory( child.first );
+		/// The target of a link stays where it is
+		if ( !child.second->Link )
+			child.second->resetDirectory( child.first );
 	}
 }
 
@@ -138,10 +140,14 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 					}
 				}
 
-				Directories[dir] =
+				DirWatcherGeneric* dw =
 					new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles );
 
-				Directories[dir]->addChildren( reportNewFiles );
+				dw->Link = "" != link;
+
+				Directories[it->first] = dw;
+
+				dw->addChildren( reportNewFiles );
 			}
 		}
 	}
@@ -348,12 +354,14 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir, bool
 		/// Creates the new directory watcher of the subfolder and check for new files
 		dw = new DirWatcherGeneric( this, Watch, dir, Recursive, true );
 
-		dw->addChildren();
-
-		dw->watch();
+		dw->Link = "" != link;
 
 		/// Add it to the list of directories
 		Directories[newdir] = dw;
+
+		dw->addChildren();
+
+		dw->watch();
 	}
 
 	return dw;
@@ -406,7 +414,8 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 
 		Directories[newDir] = dw;
 
-		dw->resetDirectory( newDir );
+		if ( !dw->Link )
+			dw->resetDirectory( newDir );
 	} else if ( Recursive ) {
 		/// It could have been renamed before it was watched
 		createDirectory( newDir, false );
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index 4f5cee5..2282518 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -39,6 +39,7 @@ class DirWatcherGeneric {
 
   protected:
 	bool Deleted;
+	bool Link; ///< It watches the target of a symbolic link
 
 	DirWatcherGeneric* createDirectory( std::string newdir, bool reportDirectory = true );
 
-- 
2.43.0


From ff052ce2ce8c1b89e29305245ad487aeda56e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 40/59] fix: do not poll a directory a second time through a
 link of the same tree

---
 src/efsw/DirWatcherGeneric.cpp | 10 ++++++++--
 src/efsw/DirWatcherGeneric.hpp |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 0eb9958..af202ea 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -127,7 +127,7 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 
 					/// If it's a symlink check if the realpath exists as a watcher, or
 					/// if the path is outside the current dir
-					if ( Watch->WatcherImpl->pathInWatches( link ) ||
+					if ( inTree( link ) || Watch->WatcherImpl->pathInWatches( link ) ||
 						 Watch->pathInWatches( link ) ||
 						 !Watch->WatcherImpl->linkAllowed( curPath, link ) ) {
 						continue;
@@ -330,7 +330,8 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir, bool
 
 		/// If it's a symlink check if the realpath exists as a watcher, or
 		/// if the path is outside the current dir
-		if ( Watch->WatcherImpl->pathInWatches( link ) || Watch->pathInWatches( link ) ||
+		if ( inTree( link ) || Watch->WatcherImpl->pathInWatches( link ) ||
+			 Watch->pathInWatches( link ) ||
 			 !Watch->WatcherImpl->linkAllowed( curPath, link ) ) {
 			skip = true;
 		} else {
@@ -422,6 +423,11 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 	}
 }
 
+bool DirWatcherGeneric::inTree( const std::string& link ) {
+	/// A directory inside the watch is already watched without the help of a link
+	return -1 != String::strStartsWith( Watch->Directory, link );
+}
+
 bool DirWatcherGeneric::pathInWatches( std::string path ) {
 	if ( DirSnap.DirectoryInfo.Filepath == path ) {
 		return true;
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index 2282518..6178836 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -49,6 +49,8 @@ class DirWatcherGeneric {
 
 	void moveDirectory( std::string oldDir, std::string newDir );
 
+	bool inTree( const std::string& link );
+
 	void resetDirectory( std::string directory );
 
 	void handleAction( const std::string& filename, unsigned long action,
-- 
2.43.0


From 41e8b39c7a2b1de9339b8fd32fb79e3daa1b0d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 41/59] fix: check the path of a new directory, it could be a
 link meanwhile, when polling

---
 src/efsw/DirWatcherGeneric.cpp | 16 ++++++++++++++--
 src/efsw/DirWatcherGeneric.hpp |  2 ++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index af202ea..3834000 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -135,7 +135,11 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 						dir = link;
 					}
 				} else {
-					if ( Watch->pathInWatches( dir ) || Watch->WatcherImpl->pathInWatches( dir ) ) {
+					std::string path( it->second.Filepath );
+					FileSystem::dirAddSlashAtEnd( path );
+
+					/// It could be a link by now
+					if ( !isRealDirectory( path ) || Watch->pathInWatches( path ) ) {
 						continue;
 					}
 				}
@@ -338,7 +342,9 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir, bool
 			dir = link;
 		}
 	} else {
-		if ( Watch->pathInWatches( dir ) || Watch->WatcherImpl->pathInWatches( dir ) ) {
+		/// It could be a link by now
+		if ( !isRealDirectory( dir ) || Watch->pathInWatches( dir ) ||
+			 Watch->WatcherImpl->pathInWatches( dir ) ) {
 			skip = true;
 		}
 	}
@@ -423,6 +429,12 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 	}
 }
 
+bool DirWatcherGeneric::isRealDirectory( std::string path ) {
+	FileSystem::dirRemoveSlashAtEnd( path );
+
+	return FileInfo( path, true ).isDirectory();
+}
+
 bool DirWatcherGeneric::inTree( const std::string& link ) {
 	/// A directory inside the watch is already watched without the help of a link
 	return -1 != String::strStartsWith( Watch->Directory, link );
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index 6178836..892f9bf 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -49,6 +49,8 @@ class DirWatcherGeneric {
 
 	void moveDirectory( std::string oldDir, std::string newDir );
 
+	static bool isRealDirectory( std::string path );
+
 	bool inTree( const std::string& link );
 
 	void resetDirectory( std::string directory );
-- 
2.43.0


From 2c183be9b355ae2d81d54df6bc820071805f510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 42/59] fix: notice when polling that a link points somewhere
 else or took the place of a directory

---
 src/efsw/DirWatcherGeneric.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 3834000..1471f01 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -285,6 +285,21 @@ DirWatcherGeneric* DirWatcherGeneric::findDirWatcher( std::string dir ) {
 void DirWatcherGeneric::updateDirectory( const std::string& path ) {
 	DirWatchMap::iterator dit = Directories.find( FileSystem::fileNameFromPath( path ) );
 
+	if ( dit != Directories.end() ) {
+		std::string curPath;
+		std::string link( FileSystem::getLinkRealPath( path, curPath ) );
+
+		/// A link could have taken its place, or it's a link that points somewhere else
+		if ( dit->second->Link ? dit->second->DirSnap.DirectoryInfo.Filepath != link
+							   : !link.empty() ) {
+			handleAction( path, Actions::Delete );
+			removeDirectory( path );
+			DirSnap.updateFile( path );
+			createDirectory( path );
+			return;
+		}
+	}
+
 	handleAction( path, Actions::Modified );
 
 	/// It could have been unreadable until now
-- 
2.43.0


From a89f7c4d1d914ae175f7153c4a2a2b9e6b9d4a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 43/59] fix: keep polling a directory while there is still
 another link to it

---
 src/efsw/DirWatcherGeneric.cpp | 19 +++++++++++++++++++
 src/efsw/DirWatcherGeneric.hpp |  3 +++
 src/efsw/WatcherGeneric.cpp    |  7 ++++++-
 src/efsw/WatcherGeneric.hpp    |  1 +
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 1471f01..1dcaf74 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -27,6 +27,10 @@ DirWatcherGeneric::DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric*
 }
 
 DirWatcherGeneric::~DirWatcherGeneric() {
+	if ( Link ) {
+		Watch->LinkRemoved = true;
+	}
+
 	/// If the directory was deleted mark the files as deleted
 	if ( Deleted ) {
 		DirectorySnapshotDiff Diff = DirSnap.scan();
@@ -308,6 +312,21 @@ void DirWatcherGeneric::updateDirectory( const std::string& path ) {
 	}
 }
 
+void DirWatcherGeneric::addSkipped() {
+	if ( !Recursive )
+		return;
+
+	for ( FileInfoMap::iterator it = DirSnap.Files.begin(); it != DirSnap.Files.end(); ++it ) {
+		if ( it->second.isDirectory() && Directories.find( it->first ) == Directories.end() ) {
+			createDirectory( it->first, false );
+		}
+	}
+
+	for ( DirWatchMap::iterator dit = Directories.begin(); dit != Directories.end(); ++dit ) {
+		dit->second->addSkipped();
+	}
+}
+
 DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir, bool reportDirectory ) {
 	FileSystem::dirRemoveSlashAtEnd( newdir );
 	newdir = FileSystem::fileNameFromPath( newdir );
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index 892f9bf..199fc66 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -33,6 +33,9 @@ class DirWatcherGeneric {
 
 	void addChildren( bool reportNewFiles = true );
 
+	/// Adds the directories that were watched through another link until now
+	void addSkipped();
+
 	DirWatcherGeneric* findDirWatcher( std::string dir );
 
 	DirWatcherGeneric* findDirWatcherFast( std::string dir );
diff --git a/src/efsw/WatcherGeneric.cpp b/src/efsw/WatcherGeneric.cpp
index e40a35e..1f4b223 100644
--- a/src/efsw/WatcherGeneric.cpp
+++ b/src/efsw/WatcherGeneric.cpp
@@ -6,7 +6,7 @@ namespace efsw {
 
 WatcherGeneric::WatcherGeneric( WatchID id, const std::string& directory, FileWatchListener* fwl,
 								FileWatcherImpl* fw, bool recursive ) :
-	Watcher( id, directory, fwl, recursive ), WatcherImpl( fw ), DirWatch( NULL ) {
+	Watcher( id, directory, fwl, recursive ), WatcherImpl( fw ), DirWatch( NULL ), LinkRemoved( false ) {
 	FileSystem::dirAddSlashAtEnd( Directory );
 
 	DirWatch = new DirWatcherGeneric( NULL, this, directory, recursive, false );
@@ -20,6 +20,11 @@ WatcherGeneric::~WatcherGeneric() {
 
 void WatcherGeneric::watch() {
 	DirWatch->watch();
+
+	if ( LinkRemoved ) {
+		LinkRemoved = false;
+		DirWatch->addSkipped();
+	}
 }
 
 void WatcherGeneric::watchDir( std::string dir ) {
diff --git a/src/efsw/WatcherGeneric.hpp b/src/efsw/WatcherGeneric.hpp
index d11ec20..2fd63d1 100644
--- a/src/efsw/WatcherGeneric.hpp
+++ b/src/efsw/WatcherGeneric.hpp
@@ -11,6 +11,7 @@ class WatcherGeneric : public Watcher {
   public:
 	FileWatcherImpl* WatcherImpl;
 	DirWatcherGeneric* DirWatch;
+	bool LinkRemoved; ///< Another link could point to the same directory
 
 	WatcherGeneric( WatchID id, const std::string& directory, FileWatchListener* fwl,
 					FileWatcherImpl* fw, bool recursive );
-- 
2.43.0


From 88a1fda2cb074c0ec9fbc66a0f2a4211c3fdc622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 44/59] fix: a link to a directory of the same tree crashed or
 took over its watch (inotify)

---
 src/efsw/FileWatcherInotify.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 47fd41b..08e2674 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -136,6 +136,10 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 			if ( NULL == parent && NULL == watchIdExists->second->Parent )
 				return Errors::Log::createLastError( Errors::FileRepeated, directory );
 
+			/// The target of the link is already watched, it could be one of its parents
+			if ( NULL != parent && "" != link && watchIdExists->second->Directory == dir )
+				return Errors::Log::createLastError( Errors::FileRepeated, directory );
+
 			removeWatchLocked( wd, true );
 		}
 	}
-- 
2.43.0


From fba5aab1a7642bde10e7b2007e9f24f3df3b7076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 45/59] fix: follow a link that is renamed right after it was
 created (inotify)

---
 src/efsw/FileWatcherInotify.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 08e2674..90c860e 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -574,6 +574,10 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 		} else {
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Moved, watch->OldFileName );
+
+			/// A link could have been renamed before it was followed
+			if ( !( IN_ISDIR & action ) )
+				checkForNewWatcher( watch, fpath );
 		}
 
 		if ( watch->Listener && watch->Recursive && ( IN_ISDIR & action ) &&
-- 
2.43.0


From 9cd2fbc8b02e3b3b8bba6c698504e4935f462dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 46/59] fix: do not watch the target of a link with the name of
 the directory it replaced (inotify)

---
 src/efsw/FileWatcherInotify.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 90c860e..d72d5da 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -112,9 +112,15 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		}
 	}
 
-	int wd = inotify_add_watch( mFD, dir.c_str(),
+	/// A link could have taken the place of the directory, it can't be watched with its name
+	std::string realDir( dir );
+
+	if ( realDir.size() > 1 )
+		FileSystem::dirRemoveSlashAtEnd( realDir );
+
+	int wd = inotify_add_watch( mFD, realDir.c_str(),
 								IN_CLOSE_WRITE | IN_MOVED_TO | IN_CREATE | IN_MOVED_FROM |
-									IN_DELETE | IN_MODIFY );
+									IN_DELETE | IN_MODIFY | IN_ONLYDIR | IN_DONT_FOLLOW );
 
 	if ( wd < 0 ) {
 		if ( errno == ENOENT ) {
-- 
2.43.0


From 5e9c90244c5163ca1cf866f2228d4a3813b2e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 47/59] fix: removeWatch only removes watches of the user

removeWatch( path ) or removeWatch( id ) with a directory that is only watched because of a
recursive watch removed its watch, and the recursive watch stopped reporting that directory.
The polling watcher ignores these.
---
 src/efsw/FileWatcherInotify.cpp | 15 ++++++++++++---
 src/efsw/FileWatcherInotify.hpp |  2 ++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index d72d5da..6fdbc5d 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -224,7 +224,7 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 
 		for ( std::vector<WatchID>::iterator eit = eraseWatches.begin(); eit != eraseWatches.end();
 			  ++eit ) {
-			removeWatch( *eit );
+			removeWatchLocked( *eit );
 		}
 	}
 
@@ -290,8 +290,7 @@ void FileWatcherInotify::removeWatch( const std::string& directory ) {
 	if ( ref == mWatchesRef.end() )
 		return;
 
-	removeWatchLocked( ref->second );
-	freeDeletedWatches();
+	removeUserWatch( ref->second );
 }
 
 void FileWatcherInotify::removeWatch( WatchID watchid ) {
@@ -299,6 +298,16 @@ void FileWatcherInotify::removeWatch( WatchID watchid ) {
 		return;
 	Lock initLock( mInitLock );
 	Lock lock( mWatchesLock );
+	removeUserWatch( watchid );
+}
+
+void FileWatcherInotify::removeUserWatch( WatchID watchid ) {
+	WatchMap::iterator iter = mWatches.find( watchid );
+
+	/// A directory watched because of a recursive watch is not a watch of the user
+	if ( iter == mWatches.end() || NULL != iter->second->Parent )
+		return;
+
 	removeWatchLocked( watchid );
 	freeDeletedWatches();
 }
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 5748465..fefc082 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -73,6 +73,8 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void removeWatchLocked( WatchID watchid, bool skipInotifyRemove = false );
 
+	void removeUserWatch( WatchID watchid );
+
 	void freeDeletedWatches();
 
 	/// Removes the watches of a directory and of everything below it
-- 
2.43.0


From 4e17e32720b384eca001738a0a3a4f826ce82ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 48/59] fix: process renamed directories before new links to
 them when polling

---
 src/efsw/DirWatcherGeneric.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 1dcaf74..4b89dcb 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -192,6 +192,12 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 		}
 
 		/// Directories
+		/// A new link could lead to a directory with its new name
+		DiffMovedIterator( DirsMoved ) {
+			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
+			moveDirectory( ( *mit ).first, ( *mit ).second.Filepath );
+		}
+
 		DiffIterator( DirsCreated ) {
 			createDirectory( ( *it ).Filepath );
 		}
@@ -204,11 +210,6 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 			handleAction( ( *it ).Filepath, Actions::Delete );
 			removeDirectory( ( *it ).Filepath );
 		}
-
-		DiffMovedIterator( DirsMoved ) {
-			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
-			moveDirectory( ( *mit ).first, ( *mit ).second.Filepath );
-		}
 	}
 
 	/// Process the subdirectories looking for changes
-- 
2.43.0


From 23986f0d9e9f8e019da53ec340298e7cc3059e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 49/59] fix: the options of a watcher can be changed while it
 is running

---
 include/efsw/efsw.hpp    | 10 ++++++----
 src/efsw/FileWatcher.cpp |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/efsw/efsw.hpp b/include/efsw/efsw.hpp
index 0fea3f1..b9c0dd5 100644
--- a/include/efsw/efsw.hpp
+++ b/include/efsw/efsw.hpp
@@ -28,6 +28,7 @@
 #ifndef ESFW_HPP
 #define ESFW_HPP
 
+#include <atomic>
 #include <string>
 #include <vector>
 
@@ -221,7 +222,7 @@ class EFSW_API FileWatcher {
 	void followSymlinks( bool follow );
 
 	/** @return If can follow symbolic links to directorioes */
-	const bool& followSymlinks() const;
+	bool followSymlinks() const;
 
 	/** When enable this it will allow symlinks to watch recursively out of the pointed directory.
 	 * follorSymlinks must be enabled to this work.
@@ -234,13 +235,14 @@ class EFSW_API FileWatcher {
 	void allowOutOfScopeLinks( bool allow );
 
 	/// @return Returns if out of scope links are allowed
-	const bool& allowOutOfScopeLinks() const;
+	bool allowOutOfScopeLinks() const;
 
   private:
 	/// The implementation
 	FileWatcherImpl* mImpl;
-	bool mFollowSymlinks;
-	bool mOutOfScopeLinks;
+	/// They can be changed while the watcher is running
+	std::atomic<bool> mFollowSymlinks;
+	std::atomic<bool> mOutOfScopeLinks;
 };
 
 /// Basic interface for listening for file events.
diff --git a/src/efsw/FileWatcher.cpp b/src/efsw/FileWatcher.cpp
index 5963a28..81a6443 100644
--- a/src/efsw/FileWatcher.cpp
+++ b/src/efsw/FileWatcher.cpp
@@ -105,7 +105,7 @@ void FileWatcher::followSymlinks( bool follow ) {
 	mFollowSymlinks = follow;
 }
 
-const bool& FileWatcher::followSymlinks() const {
+bool FileWatcher::followSymlinks() const {
 	return mFollowSymlinks;
 }
 
@@ -113,7 +113,7 @@ void FileWatcher::allowOutOfScopeLinks( bool allow ) {
 	mOutOfScopeLinks = allow;
 }
 
-const bool& FileWatcher::allowOutOfScopeLinks() const {
+bool FileWatcher::allowOutOfScopeLinks() const {
 	return mOutOfScopeLinks;
 }
 
-- 
2.43.0


From d46a7501849419bb8e0cb2da80cd59b9cef3f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 50/59] fix: a link to the root of a watch added with another
 path of it removed the watch

---
 src/efsw/FileWatcherInotify.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 6fdbc5d..6cdf348 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -142,8 +142,11 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 			if ( NULL == parent && NULL == watchIdExists->second->Parent )
 				return Errors::Log::createLastError( Errors::FileRepeated, directory );
 
-			/// The target of the link is already watched, it could be one of its parents
-			if ( NULL != parent && "" != link && watchIdExists->second->Directory == dir )
+			/// The target of the link is already watched, it could be one of its parents. The path
+			/// of the watch is not always its real path
+			if ( NULL != parent && "" != link &&
+				 ( watchIdExists->second == parent || parent->inParentTree( watchIdExists->second ) ||
+				   FileInfo( watchIdExists->second->Directory ).sameInode( FileInfo( dir ) ) ) )
 				return Errors::Log::createLastError( Errors::FileRepeated, directory );
 
 			removeWatchLocked( wd, true );
-- 
2.43.0


From 16facd79b3df3691d909969d12d652265b01b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 51/59] fix: polled directories added with a path that is not
 their real path were watched twice through links

---
 src/efsw/DirWatcherGeneric.cpp  |  4 +++-
 src/efsw/FileSystem.cpp         |  4 ++--
 src/efsw/FileWatcherGeneric.cpp |  8 +++++++-
 src/efsw/WatcherGeneric.cpp     | 13 ++++++++++++-
 src/efsw/WatcherGeneric.hpp     |  3 ++-
 5 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 4b89dcb..869fe05 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -472,7 +472,9 @@ bool DirWatcherGeneric::isRealDirectory( std::string path ) {
 
 bool DirWatcherGeneric::inTree( const std::string& link ) {
 	/// A directory inside the watch is already watched without the help of a link
-	return -1 != String::strStartsWith( Watch->Directory, link );
+	return -1 != String::strStartsWith( Watch->Directory, link ) ||
+		   ( !Watch->RealDirectory.empty() &&
+			 -1 != String::strStartsWith( Watch->RealDirectory, link ) );
 }
 
 bool DirWatcherGeneric::pathInWatches( std::string path ) {
diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index d17f00c..e372c9f 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -150,8 +150,8 @@ std::string FileSystem::getRealPath( const std::string& path ) {
 	std::string realPath;
 #if defined( EFSW_PLATFORM_POSIX )
 	char dir[PATH_MAX];
-	realpath( path.c_str(), &dir[0] );
-	realPath = std::string( dir );
+	if ( NULL != realpath( path.c_str(), &dir[0] ) )
+		realPath = std::string( dir );
 #elif EFSW_OS == EFSW_OS_WIN
 	wchar_t dir[_MAX_PATH + 1];
 	GetFullPathNameW( getWidePath( path ).c_str(), _MAX_PATH, &dir[0], nullptr );
diff --git a/src/efsw/FileWatcherGeneric.cpp b/src/efsw/FileWatcherGeneric.cpp
index 7afb617..0072503 100644
--- a/src/efsw/FileWatcherGeneric.cpp
+++ b/src/efsw/FileWatcherGeneric.cpp
@@ -46,7 +46,13 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	Lock lock( mWatchesLock );
 
-	if ( pathInWatches( dir ) ) {
+	std::string realDir( FileSystem::getRealPath( dir ) );
+
+	if ( !realDir.empty() )
+		FileSystem::dirAddSlashAtEnd( realDir );
+
+	/// It could be watched with another path
+	if ( pathInWatches( dir ) || ( !realDir.empty() && pathInWatches( realDir ) ) ) {
 		return Errors::Log::createLastError( Errors::FileRepeated, dir );
 	}
 
diff --git a/src/efsw/WatcherGeneric.cpp b/src/efsw/WatcherGeneric.cpp
index 1f4b223..1d610fc 100644
--- a/src/efsw/WatcherGeneric.cpp
+++ b/src/efsw/WatcherGeneric.cpp
@@ -1,5 +1,6 @@
 #include <efsw/DirWatcherGeneric.hpp>
 #include <efsw/FileSystem.hpp>
+#include <efsw/String.hpp>
 #include <efsw/WatcherGeneric.hpp>
 
 namespace efsw {
@@ -9,6 +10,11 @@ WatcherGeneric::WatcherGeneric( WatchID id, const std::string& directory, FileWa
 	Watcher( id, directory, fwl, recursive ), WatcherImpl( fw ), DirWatch( NULL ), LinkRemoved( false ) {
 	FileSystem::dirAddSlashAtEnd( Directory );
 
+	RealDirectory = FileSystem::getRealPath( Directory );
+
+	if ( !RealDirectory.empty() )
+		FileSystem::dirAddSlashAtEnd( RealDirectory );
+
 	DirWatch = new DirWatcherGeneric( NULL, this, directory, recursive, false );
 
 	DirWatch->addChildren( false );
@@ -32,7 +38,12 @@ void WatcherGeneric::watchDir( std::string dir ) {
 }
 
 bool WatcherGeneric::pathInWatches( std::string path ) {
-	return DirWatch->pathInWatches( path );
+	if ( DirWatch->pathInWatches( path ) )
+		return true;
+
+	return !RealDirectory.empty() && RealDirectory != Directory &&
+		   -1 != String::strStartsWith( RealDirectory, path ) &&
+		   DirWatch->pathInWatches( Directory + path.substr( RealDirectory.size() ) );
 }
 
 } // namespace efsw
diff --git a/src/efsw/WatcherGeneric.hpp b/src/efsw/WatcherGeneric.hpp
index 2fd63d1..7d3dae2 100644
--- a/src/efsw/WatcherGeneric.hpp
+++ b/src/efsw/WatcherGeneric.hpp
@@ -11,7 +11,8 @@ class WatcherGeneric : public Watcher {
   public:
 	FileWatcherImpl* WatcherImpl;
 	DirWatcherGeneric* DirWatch;
-	bool LinkRemoved; ///< Another link could point to the same directory
+	std::string RealDirectory; ///< The path of the watch is not always its real path
+	bool LinkRemoved;		   ///< Another link could point to the same directory
 
 	WatcherGeneric( WatchID id, const std::string& directory, FileWatchListener* fwl,
 					FileWatcherImpl* fw, bool recursive );
-- 
2.43.0


From 9d34d75076cc02f526ff9eb5afd5f469f54bfe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 52/59] fix: the root directory could not be watched

---
 src/efsw/FileSystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index e372c9f..182f765 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -46,7 +46,8 @@ void FileSystem::dirAddSlashAtEnd( std::string& dir ) {
 }
 
 void FileSystem::dirRemoveSlashAtEnd( std::string& dir ) {
-	if ( dir.size() >= 1 && dir[dir.size() - 1] == getOSSlash() ) {
+	/// The root directory is only its slash
+	if ( dir.size() > 1 && dir[dir.size() - 1] == getOSSlash() ) {
 		dir.erase( dir.size() - 1 );
 	}
 }
-- 
2.43.0


From b19b93fd17facaed6516f19dc0d2d5d71c84f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 53/59] fix: a directory renamed to what a new link leads to
 was polled twice

---
 src/efsw/DirWatcherGeneric.cpp | 35 +++++++++++++++++++++++++++++++---
 src/efsw/DirWatcherGeneric.hpp |  2 ++
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 869fe05..0659cf7 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -87,10 +87,21 @@ void DirWatcherGeneric::resetDirectory( std::string directory ) {
 
 	DirSnap.setDirectoryInfo( dir );
 
-	for ( auto& child : Directories ) {
+	DirWatchMap::iterator it = Directories.begin();
+
+	while ( it != Directories.end() ) {
+		DirWatchMap::iterator child = it++;
+
 		/// The target of a link stays where it is
-		if ( !child.second->Link )
-			child.second->resetDirectory( child.first );
+		if ( child->second->Link )
+			continue;
+
+		if ( watchedByLink( child->first ) ) {
+			efSAFE_DELETE( child->second );
+			Directories.erase( child );
+		} else {
+			child->second->resetDirectory( child->first );
+		}
 	}
 }
 
@@ -454,6 +465,11 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 		/// Remove the directory from the map
 		Directories.erase( dit->first );
 
+		if ( !dw->Link && watchedByLink( newDir ) ) {
+			efSAFE_DELETE( dw );
+			return;
+		}
+
 		Directories[newDir] = dw;
 
 		if ( !dw->Link )
@@ -464,6 +480,19 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 	}
 }
 
+bool DirWatcherGeneric::watchedByLink( const std::string& dir ) {
+	/// A link to the new name of a renamed directory could have been found before the rename
+	if ( !Watch->WatcherImpl->mFileWatcher->followSymlinks() )
+		return false;
+
+	std::string path( DirSnap.DirectoryInfo.Filepath );
+	FileSystem::dirAddSlashAtEnd( path );
+	path += dir;
+	FileSystem::dirAddSlashAtEnd( path );
+
+	return Watch->pathInWatches( path );
+}
+
 bool DirWatcherGeneric::isRealDirectory( std::string path ) {
 	FileSystem::dirRemoveSlashAtEnd( path );
 
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index 199fc66..358af0c 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -54,6 +54,8 @@ class DirWatcherGeneric {
 
 	static bool isRealDirectory( std::string path );
 
+	bool watchedByLink( const std::string& dir );
+
 	bool inTree( const std::string& link );
 
 	void resetDirectory( std::string directory );
-- 
2.43.0


From 1b01abe55f6f1f09250b0c788f44bbb721b070c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:52 +0000
Subject: [PATCH 54/59] fix: a directory or link that was replaced while it was
 examined wasn't polled

---
 src/efsw/DirWatcherGeneric.cpp | 21 ++++++++++++++++-----
 src/efsw/DirectorySnapshot.cpp | 11 +++++++++++
 src/efsw/DirectorySnapshot.hpp |  2 ++
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 0659cf7..3776a22 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -154,7 +154,12 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 					FileSystem::dirAddSlashAtEnd( path );
 
 					/// It could be a link by now
-					if ( !isRealDirectory( path ) || Watch->pathInWatches( path ) ) {
+					if ( !isRealDirectory( path ) ) {
+						DirSnap.replacedFile( it->first );
+						continue;
+					}
+
+					if ( Watch->pathInWatches( path ) ) {
 						continue;
 					}
 				}
@@ -354,9 +359,13 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir, bool
 
 	FileInfo fi( dir );
 
-	if ( !fi.isDirectory() && reportDirectory ) {
+	if ( !fi.isDirectory() ) {
 		/// It was removed meanwhile, report it if it's created again
-		DirSnap.removeFile( newdir );
+		if ( reportDirectory ) {
+			DirSnap.removeFile( newdir );
+		} else {
+			DirSnap.replacedFile( newdir );
+		}
 	}
 
 	if ( !fi.isDirectory() || !fi.isReadable() || FileSystem::isRemoteFS( dir ) ) {
@@ -389,8 +398,10 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir, bool
 		}
 	} else {
 		/// It could be a link by now
-		if ( !isRealDirectory( dir ) || Watch->pathInWatches( dir ) ||
-			 Watch->WatcherImpl->pathInWatches( dir ) ) {
+		if ( !isRealDirectory( dir ) ) {
+			DirSnap.replacedFile( newdir );
+			skip = true;
+		} else if ( Watch->pathInWatches( dir ) || Watch->WatcherImpl->pathInWatches( dir ) ) {
 			skip = true;
 		}
 	}
diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index 376d3e3..0c60d0a 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -202,6 +202,17 @@ void DirectorySnapshot::removeFile( std::string path ) {
 	}
 }
 
+void DirectorySnapshot::replacedFile( std::string path ) {
+	FileInfoMap::iterator it = Files.find( FileSystem::fileNameFromPath( path ) );
+
+	/// Whatever has its name now is a new file for the next scan
+	if ( Files.end() != it ) {
+		FileInfo fi;
+		fi.Filepath = it->second.Filepath;
+		it->second = fi;
+	}
+}
+
 void DirectorySnapshot::moveFile( std::string oldPath, std::string newPath ) {
 	removeFile( oldPath );
 	addFile( newPath );
diff --git a/src/efsw/DirectorySnapshot.hpp b/src/efsw/DirectorySnapshot.hpp
index 0e60542..829e827 100644
--- a/src/efsw/DirectorySnapshot.hpp
+++ b/src/efsw/DirectorySnapshot.hpp
@@ -30,6 +30,8 @@ class DirectorySnapshot {
 
 	void removeFile( std::string path );
 
+	void replacedFile( std::string path );
+
 	void moveFile( std::string oldPath, std::string newPath );
 
 	void updateFile( std::string path );
-- 
2.43.0


From 87740e5e2406b2f7ed32ca24bf479bd16dce7e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:02 +0000
Subject: [PATCH 55/59] fix: a link to a directory with the inode of a removed
 one isn't a rename of it

---
 src/efsw/DirWatcherGeneric.cpp | 43 ++++++++++++++++++++++------------
 src/efsw/DirWatcherGeneric.hpp |  2 ++
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 3776a22..bfacb6c 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -210,8 +210,15 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 		/// Directories
 		/// A new link could lead to a directory with its new name
 		DiffMovedIterator( DirsMoved ) {
-			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
-			moveDirectory( ( *mit ).first, ( *mit ).second.Filepath );
+			if ( replacedByLink( ( *mit ).first, ( *mit ).second.Filepath ) ) {
+				/// The inode of a removed directory belongs to another one now
+				handleAction( ( *mit ).first, Actions::Delete );
+				removeDirectory( ( *mit ).first );
+				createDirectory( ( *mit ).second.Filepath );
+			} else {
+				handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
+				moveDirectory( ( *mit ).first, ( *mit ).second.Filepath );
+			}
 		}
 
 		DiffIterator( DirsCreated ) {
@@ -306,19 +313,12 @@ DirWatcherGeneric* DirWatcherGeneric::findDirWatcher( std::string dir ) {
 void DirWatcherGeneric::updateDirectory( const std::string& path ) {
 	DirWatchMap::iterator dit = Directories.find( FileSystem::fileNameFromPath( path ) );
 
-	if ( dit != Directories.end() ) {
-		std::string curPath;
-		std::string link( FileSystem::getLinkRealPath( path, curPath ) );
-
-		/// A link could have taken its place, or it's a link that points somewhere else
-		if ( dit->second->Link ? dit->second->DirSnap.DirectoryInfo.Filepath != link
-							   : !link.empty() ) {
-			handleAction( path, Actions::Delete );
-			removeDirectory( path );
-			DirSnap.updateFile( path );
-			createDirectory( path );
-			return;
-		}
+	if ( replacedByLink( path, path ) ) {
+		handleAction( path, Actions::Delete );
+		removeDirectory( path );
+		DirSnap.updateFile( path );
+		createDirectory( path );
+		return;
 	}
 
 	handleAction( path, Actions::Modified );
@@ -491,6 +491,19 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 	}
 }
 
+bool DirWatcherGeneric::replacedByLink( const std::string& watched, const std::string& path ) {
+	DirWatchMap::iterator dit = Directories.find( FileSystem::fileNameFromPath( watched ) );
+
+	if ( dit == Directories.end() )
+		return false;
+
+	std::string curPath;
+	std::string link( FileSystem::getLinkRealPath( path, curPath ) );
+
+	/// A link could have taken its place, or it's a link that points somewhere else
+	return dit->second->Link ? dit->second->DirSnap.DirectoryInfo.Filepath != link : !link.empty();
+}
+
 bool DirWatcherGeneric::watchedByLink( const std::string& dir ) {
 	/// A link to the new name of a renamed directory could have been found before the rename
 	if ( !Watch->WatcherImpl->mFileWatcher->followSymlinks() )
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index 358af0c..378ec4b 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -54,6 +54,8 @@ class DirWatcherGeneric {
 
 	static bool isRealDirectory( std::string path );
 
+	bool replacedByLink( const std::string& watched, const std::string& path );
+
 	bool watchedByLink( const std::string& dir );
 
 	bool inTree( const std::string& link );
-- 
2.43.0


From 4d4b9426d1363b486c69cff0491c49f26d17cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 56/59] fix: directories that only their owner can read were
 not refused as unreadable

---
 src/efsw/FileInfo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileInfo.cpp b/src/efsw/FileInfo.cpp
index ffa5fbb..726f55a 100644
--- a/src/efsw/FileInfo.cpp
+++ b/src/efsw/FileInfo.cpp
@@ -175,7 +175,8 @@ bool FileInfo::isRegularFile() const {
 bool FileInfo::isReadable() const {
 #if EFSW_PLATFORM != EFSW_PLATFORM_WIN32
 	static bool isRoot = getuid() == 0;
-	return isRoot || 0 != S_ISRDBL( Permissions );
+	/// The permissions of the owner are not the ones of everybody else
+	return isRoot || 0 == access( Filepath.c_str(), R_OK );
 #else
 	return 0 != S_ISRDBL( Permissions );
 #endif
-- 
2.43.0


From 40e5eae95662f9de581811bdc9456df88961925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:39 +0000
Subject: [PATCH 57/59] fix: look for mounts with getmntent_r(), getmntent()
 shares its buffer between threads

---
 src/efsw/platform/posix/FileSystemImpl.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index 9c6e916..c80857d 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -99,7 +99,9 @@ std::string findMountPoint( std::string file ) {
 }
 
 std::string findDevicePath( const std::string& directory ) {
-	struct mntent* ent;
+	/// getmntent() shares its buffer with the other threads
+	struct mntent ent;
+	char buffer[2 * PATH_MAX];
 	FILE* aFile;
 
 	aFile = setmntent( "/proc/mounts", "r" );
@@ -107,11 +109,11 @@ std::string findDevicePath( const std::string& directory ) {
 	if ( aFile == NULL )
 		return "";
 
-	while ( NULL != ( ent = getmntent( aFile ) ) ) {
-		std::string dirName( ent->mnt_dir );
+	while ( NULL != getmntent_r( aFile, &ent, buffer, sizeof( buffer ) ) ) {
+		std::string dirName( ent.mnt_dir );
 
 		if ( dirName == directory ) {
-			std::string fsName( ent->mnt_fsname );
+			std::string fsName( ent.mnt_fsname );
 
 			endmntent( aFile );
 
-- 
2.43.0


From 87de0eb4f085325a1c0882ca47111fea2a510f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:27 +0000
Subject: [PATCH 58/59] fix: a link inside a watch could lead to the directory
 of a watch added under another path and take it over

---
 src/efsw/FileWatcherInotify.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 6cdf348..8f8d0a8 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -142,12 +142,17 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 			if ( NULL == parent && NULL == watchIdExists->second->Parent )
 				return Errors::Log::createLastError( Errors::FileRepeated, directory );
 
-			/// The target of the link is already watched, it could be one of its parents. The path
-			/// of the watch is not always its real path
-			if ( NULL != parent && "" != link &&
-				 ( watchIdExists->second == parent || parent->inParentTree( watchIdExists->second ) ||
-				   FileInfo( watchIdExists->second->Directory ).sameInode( FileInfo( dir ) ) ) )
-				return Errors::Log::createLastError( Errors::FileRepeated, directory );
+			/// The directory is already watched, a link could lead to one of its parents. The path of
+			/// the watch is not always its real path
+			if ( NULL != parent ) {
+				bool isParent = watchIdExists->second == parent ||
+								parent->inParentTree( watchIdExists->second );
+
+				if ( ( isParent && "" != link ) ||
+					 ( ( isParent || "" != link || NULL == watchIdExists->second->Parent ) &&
+					   FileInfo( watchIdExists->second->Directory ).sameInode( FileInfo( dir ) ) ) )
+					return Errors::Log::createLastError( Errors::FileRepeated, directory );
+			}
 
 			removeWatchLocked( wd, true );
 		}
-- 
2.43.0


From 889b4f81b77e3353378de19532e90a59979fff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:27 +0000
Subject: [PATCH 59/59] fix: don't free removed watches while another thread is
 adding directories

---
 src/efsw/FileWatcherInotify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 8f8d0a8..fa90c2f 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -457,6 +457,8 @@ void FileWatcherInotify::run() {
 		}
 
 		{
+			// A watch could be removed while another thread is adding its subdirectories
+			Lock initLock( mInitLock );
 			Lock lock( mWatchesLock );
 			if ( !mDeletedWatches.empty() ) {
 				for ( auto w : mDeletedWatches ) {
-- 
2.43.0

