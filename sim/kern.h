// Simulated kernel: file system, inotify, descriptors, with fault injection.
#pragma once
#include "rt.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <sys/stat.h>
#include <vector>

struct dirent;
struct mntent;

namespace kern {
using rt::i64;
using rt::u32;
using rt::u64;

enum Type { REG, DIR_, LNK, FIFO };

struct Inode;
struct Dentry {
	Inode* dir;
	std::string name;
	Inode* inode;
	bool hashed;
	int opens = 0;	 // open files, which keep the directory as well
};
struct Mark;
struct Inode {
	u64 ino = 0, gen = 0;
	Type type = REG;
	unsigned mode = 0644;
	unsigned uid = 0, gid = 0;
	i64 size = 0;
	i64 mtime = 0;
	int nlink = 0;
	int pins = 0;
	u64 dev = 1;
	long fstype = 0xEF53;
	std::string target;
	std::map<std::string, Dentry*> kids;
	Inode* parent = nullptr;
	Dentry* de = nullptr;  // directories: the only dentry
	std::vector<Mark*> marks;
	bool dead = false;
	int locked = -1;
	u64 hseed = 0;	// directory listing order
};

struct Config {
	unsigned uid = 0;
	int fdBase = 3;
	int fdMax = 1048576;
	size_t maxQueued = 16384;
	int maxWatches = 1 << 20;
	int inodeReuse = 0;
	bool inodeHigh = false;	 // inode numbers that differ in their high halves only
	u64 idBase = 1;			 // the first watch descriptor and cookie
	int dirSizeMode = 0;   // 0: constant 4096, 1: proportional to the number of entries
	bool noDtype = false;  // the file system does not tell types in directory entries
	int readdirChunk = 0;  // 0: whole directory in one getdents
	u64 dirSeed = 1;
	int statDelay = 0;	   // microseconds a metadata system call of the library takes
};
extern Config cfg;

struct Fault {
	int phase = -1;	 // -1: any
	std::string call;
	int nth = 1;
	std::string kind;  // errno name or DELAY<ms>
	int count = 1;
	int seen = 0;
	int fired = 0;
};
extern std::vector<Fault> faults;
// when a call about an inode failed the last time, and when a directory could not be listed
extern std::map<u64, u64> faultedGens, unlistedGens;
void setPhase( int p );	 // restarts the per-phase call counters
int curPhase();
void disarmFaults();

// what the OS told the library (after coalescing), for reference models
struct RawEvent {
	u64 seq;
	int wd;
	u32 mask;
	u32 cookie;
	std::string name;
	std::string dir;	 // path of the directory when queued
	u64 ino = 0, gen = 0;	 // inode of the child concerned
	bool dropped = false;
	u64 qn = 0;		   // position in the queue of its inotify instance
	int inst = 0;	   // inotify instance
	int readId = -1;   // read() call that returned it
};
extern std::vector<RawEvent> raw;

// file-system truth log
struct FsRec {
	u64 seq;
	i64 t;
	int actor;
	char op;	 // C create, D delete, R rename, W content
	std::string path, path2;
	u64 ino, gen;
	Type type;
};
extern std::vector<FsRec> fslog;

void init();

// --- host side operations (the rest of the machine); return 0 or an errno value
int hMkdir( const std::string& p, unsigned mode = 0755, unsigned uid = 1000 );
int hCreate( const std::string& p, unsigned mode = 0644 );			  // open(O_CREAT)+close
int hWrite( const std::string& p, i64 bytes, bool trunc, bool create );  // open,[trunc],write,close
int hTruncate( const std::string& p, i64 size );
int hUnlink( const std::string& p );
int hRmdir( const std::string& p );
int hRename( const std::string& a, const std::string& b );
int hSymlink( const std::string& target, const std::string& p );
int hLink( const std::string& a, const std::string& b );
int hMkfifo( const std::string& p );
int hChmod( const std::string& p, unsigned mode );
int hMount( const std::string& p );	  // another file system over the directory
int hUmount( const std::string& p );  // what is there goes away
int hChown( const std::string& p, unsigned uid );
bool readable( Inode* n );	// for the process
bool reachable( const std::string& p );  // by the process
int hUtime( const std::string& p, i64 t );
int hRmRf( const std::string& p );
int hMkdirs( const std::string& p );
int hOpen( const std::string& p, bool create );	 // handle for later writes, <0: -errno
int hFdWrite( int h, int bytes );
int hFdClose( int h );
int hSetFs( const std::string& p, long fstype, bool newDev );  // subtree
int hChdir( const std::string& p );

// --- inspection
Inode* lookup( const std::string& p, bool follow = true, int* err = nullptr );
std::string pathOf( Inode* dir );
struct Entry {
	std::string path;
	Type type;
	u64 ino, gen;
	i64 size, mtime;
	std::string target;
	unsigned mode;
};
void listTree( const std::string& root, std::vector<Entry>& out );  // not following links
bool inotifyIdle();	 // no queued events, nobody reading late
size_t queuedEvents( int inst = -1 );
int lastInstance( int fiber );	// most recent inotify instance this thread opened
int openFds( std::vector<std::string>* desc = nullptr );
int watchCount();
bool watched( Inode* d );
std::string cwdPath();
struct ReaderState {
	bool inSelect;
};
// library threads currently blocked waiting for input with nothing to read
bool quiescentReader();
void forceOverflow();  // behave as if the queue limit was reached
void addMount( const std::string& dir, const std::string& fsname );	// an entry of /proc/mounts
bool mounted( const std::string& dir );
u64 mutationSeq();

// --- library side system calls: return value / -1 and errno set
int sStat( const char* p, struct stat* st, bool follow );
int sFstat( int fd, struct stat* st );
void* sOpendir( const char* p );
struct dirent* sReaddir( void* d );
int sClosedir( void* d );
int sDirfd( void* d );
int sInotifyInit( int flags );
int sInotifyAdd( int fd, const char* p, u32 mask );
int sInotifyRm( int fd, int wd );
long sRead( int fd, void* buf, size_t n );
long sWrite( int fd, const void* buf, size_t n );
int sClose( int fd );
int sDup( int fd );
int sPipe( int* fds, int flags );
int sEventfd( unsigned v, int flags );
int sFcntl( int fd, int cmd, long arg );
int sIoctl( int fd, unsigned long req, void* arg );
bool readable( int fd, bool* bad );
bool writable( int fd );
int faultAt( const char* call );  // errno to fail with, or 0; may delay
int sOpen( const char* p, int flags );
int sAccess( const char* p, int mode );
long sReadlink( const char* p, char* buf, size_t n );
int sRealpath( const char* p, std::string& out );  // errno
int sChdir( const char* p );
int sFchdir( int fd );
int sGetcwd( std::string& out );
int sStatfs( const char* p, long* type );
int sUnlinkUser( const char* p );
void* sSetmntent( const char* p );
struct mntent* sGetmntent( void* f );
int sEndmntent( void* f );
void enterSys( const char* name );
}  // namespace kern
namespace kern {
int wdOf( Inode* d );		// watch descriptor on this directory in the first instance, or -1
size_t markCount( Inode* d );
}  // namespace kern
