#include <functional>
#include "kern.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <mntent.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/eventfd.h>
#include <unistd.h>

namespace kern {
using namespace rt;

Config cfg;
std::vector<Fault> faults;
std::vector<RawEvent> raw;
std::vector<FsRec> fslog;

static Inode* root;
static Inode* cwd;
static u64 nextIno = 100, nextGen = 1;
static std::vector<u64> freeInos;
static u32 cookies = 0;
static int phase = -1;
static u64 mutSeq = 0;

// ------------------------------------------------------------------ inotify objects
struct QEv {
	int wd;
	u32 mask, cookie;
	std::string name;
	size_t rawIdx = ~size_t( 0 );
};
struct Instance {
	int no = 0;
	u64 queued = 0;
	std::deque<QEv> q;
	int nextWd = (int)std::min<u64>( cfg.idBase, 2000000000 );
	std::map<int, Mark*> wds;
	bool overflow = false;
	int fd = -1;
};
struct Mark {
	Instance* in;
	Inode* node;
	int wd;
	u32 mask;
};
struct DirObj {
	Inode* node;
	std::vector<std::string> names;
	std::vector<std::pair<u64, unsigned char>> info;
	size_t pos = 0;
	bool loaded = false;
	bool eof = false;
	u64 lastHash = 0;
	bool first = true;
	bool open = true;
	int fd = -1;
	dirent de;
};
enum FdType { FD_INOTIFY, FD_DIR, FD_PIPE_R, FD_PIPE_W, FD_EVENT, FD_FILE };
struct Pipe {
	u64 bytes = 0;
};
struct Fd {
	FdType type;
	Instance* in = nullptr;
	DirObj* dir = nullptr;
	Inode* node = nullptr;
	Pipe* pipe = nullptr;
	u64 val = 0;
	int flags = 0;
	int readers = 0;
};
static std::map<int, Fd*> fds;
static std::set<int> everOpen;
static std::vector<Instance*> instances;
static int fdAlloc() {
	int n = cfg.fdBase;
	while ( fds.count( n ) )
		n++;
	return n;
}
static int installFd( Fd* f ) {
	int n = fdAlloc();
	if ( n >= cfg.fdMax ) {
		delete f;
		errno = EMFILE;
		return -1;
	}
	fds[n] = f;
	everOpen.insert( n );
	return n;
}

// ------------------------------------------------------------------ faults
static const struct {
	const char* n;
	int e;
} errs[] = { { "EINTR", EINTR },   { "EAGAIN", EAGAIN }, { "ENOENT", ENOENT },
			 { "EACCES", EACCES }, { "EIO", EIO },		 { "ENOMEM", ENOMEM },
			 { "ENOSPC", ENOSPC }, { "EMFILE", EMFILE }, { "ENFILE", ENFILE },
			 { "ELOOP", ELOOP },   { "ESTALE", ESTALE }, { "ENOSYS", ENOSYS },
			 { "ENOTDIR", ENOTDIR }, { "EINVAL", EINVAL }, { "EPERM", EPERM } };

void setPhase( int p ) {
	phase = p;
	for ( auto& f : faults )
		if ( f.phase == p )
			f.seen = 0;
}
int curPhase() { return phase; }
void disarmFaults() {
	for ( auto& f : faults )
		f.fired = 1 << 30;
}

std::map<u64, u64> faultedGens, unlistedGens;
static void noteFaulted( Inode* n, bool listing = false ) {
	if ( n )
		( listing ? unlistedGens : faultedGens )[n->gen] = seq();
}
static int faultOn( const char* call, const char* path ) {
	int e = faultAt( call );
	if ( e ) {
		bool list = !strcmp( call, "opendir" );
		noteFaulted( lookup( path, true ), list );
		noteFaulted( lookup( path, false ), list );
	}
	return e;
}
int faultAt( const char* call ) {
	for ( auto& f : faults ) {
		if ( f.phase != -1 && f.phase != phase )
			continue;
		if ( f.call != call )
			continue;
		f.seen++;
		if ( f.fired >= f.count || f.seen < f.nth )
			continue;
		f.fired++;
		faultFired( f.call + ":" + f.kind.substr( 0, f.kind.compare( 0, 5, "DELAY" ) == 0
														 ? 5
														 : std::string::npos ) );
		logf( "fault %s #%d -> %s", call, f.seen, f.kind.c_str() );
		if ( f.kind.compare( 0, 5, "DELAY" ) == 0 ) {
			sleepFor( atoll( f.kind.c_str() + 5 ) * MS );
			continue;
		}
		for ( auto& e : errs )
			if ( f.kind == e.n )
				return e.e;
	}
	return 0;
}

void enterSys( const char* what ) {
	stats().syscalls++;
	advance( 1000 );
	point( P_SYS );
	if ( cfg.statDelay && ( strstr( what, "stat" ) || strstr( what, "dir" ) ) && inEfsw() ) {
		faultFired( "slow-file-system" );
		sleepFor( cfg.statDelay * 1000ll );
	}
}

// ------------------------------------------------------------------ tree
static i64 stamp() { return now( CLK_REAL ) / 4000000 * 4000000; }

static Inode* newInode( Type t, unsigned mode, Inode* dir ) {
	Inode* n = new Inode;
	if ( cfg.inodeReuse && !freeInos.empty() ) {
		n->ino = freeInos.back();
		freeInos.pop_back();
		probe( "inode-number-reused" );
	} else
		n->ino = cfg.inodeHigh ? 100 + ( nextIno++ << 32 ) : nextIno++;
	n->gen = nextGen++;
	n->type = t;
	n->mode = mode;
	n->uid = 1000;
	n->gid = 1000;
	n->mtime = stamp();
	if ( t == DIR_ )
		n->size = cfg.dirSizeMode ? 0 : 4096;
	if ( dir ) {
		n->dev = dir->dev;
		n->fstype = dir->fstype;
	}
	n->hseed = Rng( cfg.dirSeed * 1000003 + n->gen ).next();
	return n;
}
static void dirTouched( Inode* d ) {
	d->mtime = stamp();
	if ( cfg.dirSizeMode )
		d->size = 20 * (i64)d->kids.size();
}
std::string pathOf( Inode* d ) {
	if ( d == root )
		return "/";
	std::string p;
	int guard = 0;
	while ( d != root && d && guard++ < 100 ) {
		p = "/" + ( d->de ? d->de->name : std::string( "?" ) ) + p;
		d = d->parent;
	}
	return p.empty() ? "/" : p;
}
static std::string childPath( Inode* d, const std::string& n ) {
	std::string p = pathOf( d );
	if ( p != "/" )
		p += "/";
	return p + n;
}

static void log_( char op, const std::string& p, const std::string& p2, Inode* n ) {
	FsRec r;
	r.seq = seq();
	r.t = now( CLK_MONO );
	r.actor = self();
	r.op = op;
	r.path = p;
	r.path2 = p2;
	r.ino = n ? n->ino : 0;
	r.gen = n ? n->gen : 0;
	r.type = n ? n->type : REG;
	fslog.push_back( r );
	mutSeq++;
}
u64 mutationSeq() { return mutSeq; }

// ------------------------------------------------------------------ notification
static void queueEv( Instance* in, int wd, u32 mask, u32 cookie, const std::string& name,
					 Inode* dir, Inode* child ) {
	RawEvent r;
	r.seq = seq();
	r.wd = wd;
	r.mask = mask;
	r.cookie = cookie;
	r.name = name;
	r.dir = dir ? pathOf( dir ) : "";
	r.ino = child ? child->ino : 0;
	r.gen = child ? child->gen : 0;
	if ( !in->q.empty() && !( mask & IN_IGNORED ) ) {
		QEv& l = in->q.back();
		if ( l.wd == wd && l.mask == mask && l.name == name ) {
			probe( "inotify-coalesced" );
			return;
		}
	}
	if ( in->q.size() >= cfg.maxQueued ) {
		r.dropped = true;
		r.inst = in->no;
		raw.push_back( r );
		if ( !in->overflow ) {
			in->overflow = true;
			in->q.push_back( { -1, IN_Q_OVERFLOW, 0, "", ~size_t( 0 ) } );
			raw.back().mask |= IN_Q_OVERFLOW;
			faultFired( "queue-overflow" );
			logf( "kernel: inotify queue overflow" );
		}
		return;
	}
	r.qn = in->queued++;
	r.inst = in->no;
	raw.push_back( r );
	in->q.push_back( { wd, mask, cookie, name, raw.size() - 1 } );
}

static void notify( Inode* dir, u32 mask, u32 cookie, const std::string& name, Inode* child ) {
	if ( !dir )
		return;
	for ( Mark* m : dir->marks )
		if ( m->mask & mask & IN_ALL_EVENTS )
			queueEv( m->in, m->wd, mask, cookie, name, dir, child );
}
static void notifySelf( Inode* n, u32 mask ) {
	for ( Mark* m : n->marks )
		if ( m->mask & mask )
			queueEv( m->in, m->wd, mask, 0, "", n, n );
}
static void dropMark( Mark* m, bool ignored ) {
	Inode* n = m->node;
	n->marks.erase( std::find( n->marks.begin(), n->marks.end(), m ) );
	m->in->wds.erase( m->wd );
	if ( ignored )
		queueEv( m->in, m->wd, IN_IGNORED, 0, "", nullptr, nullptr );
	delete m;
}
static void maybeFree( Inode* n ) {
	if ( n->nlink == 0 && n->pins == 0 && !n->dead ) {
		n->dead = true;
		notifySelf( n, IN_DELETE_SELF );
		while ( !n->marks.empty() )
			dropMark( n->marks.back(), true );
		freeInos.push_back( n->ino );
	}
}
// what is in use keeps the directories above it, even once they are removed
static void pin( Inode* n ) {
	if ( n->pins++ == 0 && n->type == DIR_ && n->parent && n->parent != n )
		pin( n->parent );
}
static void unpin( Inode* n ) {
	if ( --n->pins )
		return;
	Inode* par = n->type == DIR_ && n->parent != n ? n->parent : nullptr;
	maybeFree( n );
	if ( par )
		unpin( par );
}
static void pinFile( Dentry* de ) {
	pin( de->inode );
	de->opens++;
	pin( de->dir );
}
static void unpinFile( Dentry* de ) {
	unpin( de->inode );
	de->opens--;
	unpin( de->dir );
}

// ------------------------------------------------------------------ path walk
static bool mayRead( Inode* n, unsigned uid ) {
	return uid == 0 || ( n->mode & ( n->uid == uid ? 0400 : 0004 ) );
}
static bool maySearch( Inode* n, unsigned uid ) {
	return uid == 0 || ( n->mode & ( n->uid == uid ? 0100 : 0001 ) );
}

// walk to the parent directory of the last component
static Inode* walk( const std::string& path, bool follow, int& err, unsigned uid, Inode** parentOut,
					std::string* lastOut, Dentry** deOut, int depth = 0 ) {
	if ( parentOut )
		*parentOut = nullptr;
	if ( path.empty() ) {
		err = ENOENT;
		return nullptr;
	}
	if ( path.size() >= PATH_MAX ) {
		err = ENAMETOOLONG;
		return nullptr;
	}
	Inode* c = path[0] == '/' ? root : cwd;
	if ( c->nlink == 0 && c != root ) {
		err = ENOENT;
		if ( path != "." )
			return nullptr;
	}
	size_t i = 0;
	std::vector<std::string> parts;
	while ( i < path.size() ) {
		while ( i < path.size() && path[i] == '/' )
			i++;
		size_t j = i;
		while ( j < path.size() && path[j] != '/' )
			j++;
		if ( j > i )
			parts.push_back( path.substr( i, j - i ) );
		i = j;
	}
	bool trailing = path.back() == '/';
	if ( parts.empty() )
		return c;
	for ( size_t k = 0; k < parts.size(); k++ ) {
		bool last = k + 1 == parts.size();
		const std::string& n = parts[k];
		if ( c->type != DIR_ ) {
			err = ENOTDIR;
			return nullptr;
		}
		if ( !maySearch( c, uid ) ) {
			err = EACCES;
			return nullptr;
		}
		if ( n.size() > 255 ) {
			err = ENAMETOOLONG;
			return nullptr;
		}
		if ( n == "." )
			continue;
		if ( n == ".." ) {
			if ( c->parent )
				c = c->parent;
			continue;
		}
		if ( last && parentOut ) {
			*parentOut = c;
			*lastOut = n;
		}
		auto it = c->kids.find( n );
		if ( it == c->kids.end() ) {
			err = ENOENT;
			return nullptr;
		}
		Inode* x = it->second->inode;
		if ( last && deOut )
			*deOut = it->second;
		if ( x->type == LNK && ( !last || follow || trailing ) ) {
			if ( depth > 40 ) {
				err = ELOOP;
				return nullptr;
			}
			std::string t = x->target;
			if ( t.empty() || t[0] != '/' ) {
				std::string base = pathOf( c );
				if ( base != "/" )
					base += "/";
				t = base + t;
			}
			x = walk( t, true, err, uid, nullptr, nullptr, nullptr, depth + 1 );
			if ( !x )
				return nullptr;
		}
		if ( last && trailing && x->type != DIR_ ) {
			err = ENOTDIR;
			return nullptr;
		}
		c = x;
	}
	return c;
}

Inode* lookup( const std::string& p, bool follow, int* err ) {
	int e = 0;
	if ( p.empty() )
		return root;
	Inode* n = walk( p, follow, e, 0, nullptr, nullptr, nullptr );
	if ( err )
		*err = e;
	return n;
}

void init() {
	root = new Inode;
	root->ino = 2;
	root->type = DIR_;
	root->mode = 0755;
	root->nlink = 2;
	root->size = 4096;
	root->mtime = stamp();
	cwd = root;
	pin( root );
}

// ------------------------------------------------------------------ host operations
// Directory locks give the same atomicity the kernel gives: a directory cannot be listed or
// changed between a change and its notification, but path lookups see the change at once.
static void lockDir( Inode* d ) {
	int me = self();
	waitUntil( [d, me] { return d->locked < 0 || d->locked == me; }, "directory lock" );
	d->locked = me;
}
static void unlockDir( Inode* d ) { d->locked = -1; }

static Inode* parentFor( const std::string& p, std::string& name, int& err, Inode** existing,
						 Dentry** de ) {
	Inode* par = nullptr;
	Dentry* d = nullptr;
	int e = 0;
	std::string q = p;
	while ( q.size() > 1 && q.back() == '/' )
		q.pop_back();
	Inode* x = walk( q, false, e, 0, &par, &name, &d );
	*existing = x;
	if ( de )
		*de = x ? d : nullptr;
	if ( !par ) {
		err = e ? e : EINVAL;
		return nullptr;
	}
	return par;
}

// run fn with the parent directory locked and looked up again under the lock
template <class Fn> static int withParent( const std::string& p, Fn fn ) {
	advance( 20000 );
	point( P_USER );
	for ( int tries = 0; tries < 50; tries++ ) {
		std::string name;
		Inode* ex;
		Dentry* de;
		int err = 0;
		Inode* par = parentFor( p, name, err, &ex, &de );
		if ( !par )
			return err;
		lockDir( par );
		std::string n2;
		Inode* par2 = parentFor( p, n2, err, &ex, &de );
		if ( par2 != par ) {
			unlockDir( par );
			continue;
		}
		int r = fn( par, name, ex, de );
		unlockDir( par );
		return r;
	}
	return EAGAIN;
}

static Dentry* addDentry( Inode* par, const std::string& name, Inode* n ) {
	Dentry* de = new Dentry{ par, name, n, true };
	par->kids[name] = de;
	n->nlink++;
	if ( n->type == DIR_ ) {
		n->parent = par;
		n->de = de;
	}
	dirTouched( par );
	return de;
}

static int createNode( const std::string& p, Type t, unsigned mode, const std::string& target, unsigned uid = 1000 ) {
	return withParent( p, [&]( Inode* par, const std::string& name, Inode* ex, Dentry* ) {
		if ( ex )
			return EEXIST;
		Inode* n = newInode( t, mode, par );
		n->uid = n->gid = uid;
		n->target = target;
		addDentry( par, name, n );
		log_( 'C', childPath( par, name ), "", n );
		point( P_USER );
		notify( par, IN_CREATE | ( t == DIR_ ? IN_ISDIR : 0 ), 0, name, n );
		return 0;
	} );
}
int hMkdir( const std::string& p, unsigned mode, unsigned uid ) {
	return createNode( p, DIR_, mode, "", uid );
}
int hMkfifo( const std::string& p ) { return createNode( p, FIFO, 0644, "" ); }
int hSymlink( const std::string& t, const std::string& p ) { return createNode( p, LNK, 0777, t ); }

// open files of the host
struct HFile {
	Dentry* de;
	bool open;
};
static std::vector<HFile> hfiles;

static void contentChanged( Dentry* de, i64 newSize ) {
	Inode* n = de->inode;
	n->size = newSize;
	n->mtime = stamp();
	point( P_USER );
	std::string where = childPath( de->dir, de->name );
	if ( lookup( where, false ) == n )	// not through a handle to something already deleted
		log_( 'W', where, "", n );
	notify( de->dir, IN_MODIFY, 0, de->name, n );
}

static int openFile( const std::string& p, bool create, unsigned mode, Dentry** out,
					 bool* created ) {
	*created = false;
	// follow a final symlink
	Inode* t = lookup( p, false );
	std::string q = p;
	for ( int i = 0; t && t->type == LNK && i < 8; i++ ) {
		std::string d = q.substr( 0, q.rfind( '/' ) + 1 );
		q = t->target[0] == '/' ? t->target : d + t->target;
		t = lookup( q, false );
	}
	return withParent( q, [&]( Inode* par, const std::string& name, Inode* ex, Dentry* de ) {
		if ( ex ) {
			if ( ex->type == DIR_ )
				return EISDIR;
			if ( ex->type != REG )
				return EINVAL;
			*out = de;
			pinFile( de );
			return 0;
		}
		if ( !create )
			return ENOENT;
		Inode* n = newInode( REG, mode, par );
		*out = addDentry( par, name, n );
		*created = true;
		pinFile( *out );
		log_( 'C', childPath( par, name ), "", n );
		point( P_USER );
		notify( par, IN_CREATE, 0, name, n );
		return 0;
	} );
}
static void closeFile( Dentry* de ) {
	point( P_USER );
	notify( de->dir, IN_CLOSE_WRITE, 0, de->name, de->inode );
	unpinFile( de );
}

int hCreate( const std::string& p, unsigned mode ) {
	Dentry* de;
	bool c;
	int r = openFile( p, true, mode, &de, &c );
	if ( r )
		return r;
	closeFile( de );
	return 0;
}
int hWrite( const std::string& p, i64 bytes, bool trunc, bool create ) {
	Dentry* de;
	bool c;
	int r = openFile( p, create, 0644, &de, &c );
	if ( r )
		return r;
	if ( !c && trunc )
		contentChanged( de, 0 );
	advance( 10000 );
	point( P_USER );
	if ( bytes > 0 )
		contentChanged( de, de->inode->size + bytes );
	advance( 10000 );
	closeFile( de );
	return 0;
}
int hOpen( const std::string& p, bool create ) {
	Dentry* de;
	bool c;
	int r = openFile( p, create, 0644, &de, &c );
	if ( r )
		return -r;
	hfiles.push_back( { de, true } );
	return (int)hfiles.size() - 1;
}
int hFdWrite( int h, int bytes ) {
	if ( h < 0 || h >= (int)hfiles.size() || !hfiles[h].open )
		return EBADF;
	advance( 10000 );
	point( P_USER );
	contentChanged( hfiles[h].de, hfiles[h].de->inode->size + bytes );
	return 0;
}
int hFdClose( int h ) {
	if ( h < 0 || h >= (int)hfiles.size() || !hfiles[h].open )
		return EBADF;
	hfiles[h].open = false;
	closeFile( hfiles[h].de );
	return 0;
}
int hTruncate( const std::string& p, i64 size ) {
	Dentry* de;
	bool c;
	int r = openFile( p, false, 0644, &de, &c );
	if ( r )
		return r;
	contentChanged( de, size );
	unpinFile( de );
	return 0;
}

int hUnlink( const std::string& p ) {
	return withParent( p, [&]( Inode* par, const std::string& name, Inode* ex, Dentry* de ) {
		if ( !ex )
			return ENOENT;
		if ( ex->type == DIR_ )
			return EISDIR;
		pin( ex );
		par->kids.erase( name );
		de->hashed = false;
		ex->nlink--;
		dirTouched( par );
		log_( 'D', childPath( par, name ), "", ex );
		point( P_USER );
		notify( par, IN_DELETE, 0, name, ex );
		unpin( ex );
		return 0;
	} );
}
int hRmdir( const std::string& p ) {
	return withParent( p, [&]( Inode* par, const std::string& name, Inode* ex, Dentry* de ) {
		if ( !ex )
			return ENOENT;
		if ( ex->type != DIR_ )
			return ENOTDIR;
		if ( ex == root || ex == par || ex->dev != par->dev )
			return EBUSY;
		lockDir( ex );
		if ( !ex->kids.empty() ) {
			unlockDir( ex );
			return ENOTEMPTY;
		}
		pin( ex );
		std::string path = childPath( par, name );
		par->kids.erase( name );
		de->hashed = false;
		ex->nlink = 0;
		dirTouched( par );
		log_( 'D', path, "", ex );
		unlockDir( ex );
		point( P_USER );
		// the victim's marks go before the parent is told (observed on Linux)
		unpin( ex );
		point( P_USER );
		notify( par, IN_DELETE | IN_ISDIR, 0, name, ex );
		return 0;
	} );
}

static int renameLock = -1;
int hRename( const std::string& a, const std::string& b ) {
	advance( 20000 );
	point( P_USER );
	int me = self();
	waitUntil( [me] { return renameLock < 0 || renameLock == me; }, "rename lock" );
	renameLock = me;
	struct Un {
		~Un() { renameLock = -1; }
	} un;
	for ( int tries = 0; tries < 50; tries++ ) {
		std::string an, bn;
		Inode *ax, *bx;
		Dentry *ade, *bde;
		int err = 0;
		Inode* ap = parentFor( a, an, err, &ax, &ade );
		if ( !ap )
			return err;
		Inode* bp = parentFor( b, bn, err, &bx, &bde );
		if ( !bp )
			return err;
		Inode *l1 = ap, *l2 = bp;
		if ( l1->gen > l2->gen )
			std::swap( l1, l2 );
		auto above = []( Inode* a, Inode* x ) {
			for ( x = x->parent; x; x = x == root ? nullptr : x->parent )
				if ( x == a )
					return true;
			return false;
		};
		if ( above( l2, l1 ) )	// parents before children
			std::swap( l1, l2 );
		lockDir( l1 );
		if ( l2 != l1 )
			lockDir( l2 );
		auto unlock = [&] {
			unlockDir( l1 );
			if ( l2 != l1 )
				unlockDir( l2 );
		};
		std::string an2, bn2;
		Inode* ap2 = parentFor( a, an2, err, &ax, &ade );
		Inode* bp2 = parentFor( b, bn2, err, &bx, &bde );
		if ( ap2 != ap || bp2 != bp ) {
			unlock();
			continue;
		}
		int r = 0;
		Inode* victim = nullptr;
		if ( !ax )
			r = ENOENT;
		else if ( ap->dev != bp->dev )
			r = EXDEV;
		else if ( ax->dev != ap->dev || ( bx && bx->dev != bp->dev ) )
			r = EBUSY;	// a mount point
		else if ( ax == bx )
			r = -1;	 // same inode: no-op, success
		else if ( ax->type == DIR_ ) {
			for ( Inode* x = bp; x; x = x->parent ) {
				if ( x == ax ) {
					r = EINVAL;
					break;
				}
				if ( x == root )
					break;
			}
			if ( !r && bx && bx->type != DIR_ )
				r = ENOTDIR;
			if ( !r && bx && above( bx, ap ) )
				r = ENOTEMPTY;
			// the victim is locked while it is replaced, so no change inside it is in progress
			if ( !r && bx && bx != ap && bx != bp ) {
				lockDir( bx );
				victim = bx;
			}
			if ( !r && bx && !bx->kids.empty() )
				r = ENOTEMPTY;
		} else if ( bx && bx->type == DIR_ )
			r = EISDIR;
		if ( r ) {
			if ( victim )
				unlockDir( victim );
			unlock();
			return r < 0 ? 0 : r;
		}
		std::string pa = childPath( ap, an ), pb = childPath( bp, bn );
		if ( bx ) {
			pin( bx );
			bde->hashed = false;
			bx->nlink = bx->type == DIR_ ? 0 : bx->nlink - 1;
			log_( 'D', pb, "", bx );
		}
		ap->kids.erase( an );
		bp->kids[bn] = ade;
		for ( int i = 0; i < ade->opens + ( ax->type == DIR_ && ax->pins > 0 ); i++ ) {
			pin( bp );
			unpin( ap );
		}
		ade->dir = bp;
		ade->name = bn;
		if ( ax->type == DIR_ )
			ax->parent = bp;
		dirTouched( ap );
		dirTouched( bp );
		log_( 'R', pa, pb, ax );
		if ( victim )
			unlockDir( victim );
		u32 ck = (u32)cfg.idBase + cookies++;
		u32 isdir = ax->type == DIR_ ? IN_ISDIR : 0;
		point( P_USER );
		notify( ap, IN_MOVED_FROM | isdir, ck, an, ax );
		point( P_USER );
		notify( bp, IN_MOVED_TO | isdir, ck, bn, ax );
		notifySelf( ax, IN_MOVE_SELF );
		if ( bx ) {
			point( P_USER );
			unpin( bx );
		}
		unlock();
		return 0;
	}
	return EAGAIN;
}

int hLink( const std::string& a, const std::string& b ) {
	int err = 0;
	Inode* x = lookup( a, false, &err );
	if ( !x )
		return err;
	if ( x->type == DIR_ )
		return EPERM;
	return withParent( b, [&]( Inode* par, const std::string& name, Inode* ex, Dentry* ) {
		if ( ex )
			return EEXIST;
		if ( x->nlink == 0 )
			return ENOENT;
		if ( x->dev != par->dev )
			return EXDEV;
		addDentry( par, name, x );
		log_( 'C', childPath( par, name ), "", x );
		point( P_USER );
		notify( par, IN_CREATE, 0, name, x );
		return 0;
	} );
}
static int chattr( const std::string& p, std::function<void( Inode* )> change );
bool readable( Inode* n ) { return mayRead( n, cfg.uid ); }
bool reachable( const std::string& p ) {
	int e = 0;
	return walk( p, true, e, cfg.uid, nullptr, nullptr, nullptr );
}
int hChmod( const std::string& p, unsigned mode ) {
	return chattr( p, [mode]( Inode* x ) { x->mode = mode; } );
}
int hChown( const std::string& p, unsigned uid ) {
	return chattr( p, [uid]( Inode* x ) { x->uid = x->gid = uid; } );
}
static int chattr( const std::string& p, std::function<void( Inode* )> change ) {
	advance( 20000 );
	point( P_USER );
	int err = 0;
	Inode* x = lookup( p, true, &err );
	if ( !x )
		return err;
	change( x );
	log_( 'A', p, "", x );
	if ( x->type == DIR_ && x->parent )
		notify( x->parent, IN_ATTRIB | IN_ISDIR, 0, x->de ? x->de->name : "", x );
	notifySelf( x, IN_ATTRIB );
	return 0;
}
int hUtime( const std::string& p, i64 t ) {
	int err = 0;
	Inode* x = lookup( p, true, &err );
	if ( !x )
		return err;
	x->mtime = t;
	log_( 'W', p, "", x );
	return 0;
}
int hRmRf( const std::string& p ) {
	Inode* x = lookup( p, false );
	if ( !x )
		return ENOENT;
	if ( x->type != DIR_ )
		return hUnlink( p );
	for ( int pass = 0; pass < 20; pass++ ) {
		std::vector<std::string> names;
		for ( auto& k : x->kids )
			names.push_back( k.first );
		for ( auto& n : names ) {
			int c = hRmRf( p + "/" + n );
			if ( c && c != ENOENT )
				return c;
		}
		int r = hRmdir( p );
		if ( r != ENOTEMPTY )
			return r;
	}
	return ENOTEMPTY;
}
int hMkdirs( const std::string& p ) {
	std::string cur;
	size_t i = 1;
	int r = 0;
	while ( i <= p.size() ) {
		size_t j = p.find( '/', i );
		if ( j == std::string::npos )
			j = p.size();
		cur = p.substr( 0, j );
		if ( !cur.empty() && !lookup( cur ) )
			r = hMkdir( cur );
		i = j + 1;
	}
	return r;
}
static void setFsRec( Inode* n, long t, u64 dev ) {
	n->fstype = t;
	n->dev = dev;
	for ( auto& k : n->kids )
		if ( k.second->inode->type != LNK )
			setFsRec( k.second->inode, t, dev );
}
static u64 devs = 10;
// file systems are mounted and unmounted: nothing tells but, for the latter, IN_UNMOUNT
static std::map<Inode*, Dentry*> overlaid;  // the root of a mount and what it hides
static bool busy( Inode* n, Inode* top ) {
	if ( n->pins || n->locked >= 0 || n == cwd || ( n != top && overlaid.count( n ) ) )
		return true;
	for ( auto& k : n->kids )
		if ( busy( k.second->inode, top ) )
			return true;
	return false;
}
static void dropMarks( Inode* n ) {
	while ( !n->marks.empty() ) {
		Mark* m = n->marks.back();
		queueEv( m->in, m->wd, IN_UNMOUNT | IN_ISDIR, 0, "", nullptr, nullptr );
		dropMark( m, true );
	}
	for ( auto& k : n->kids )
		dropMarks( k.second->inode );
}
static int swapDir( const std::string& p, bool over ) {
	return withParent( p, [&]( Inode* par, const std::string& name, Inode* ex, Dentry* de ) {
		if ( !ex || ex->type != DIR_ || ex == root )
			return EINVAL;
		if ( !over && busy( ex, ex ) )
			return EBUSY;
		std::string path = childPath( par, name ), away = "/(mount)/" + std::to_string( ex->gen );
		Dentry* now = nullptr;
		auto hidden = overlaid.find( ex );
		if ( !over && hidden != overlaid.end() ) {
			now = hidden->second;
			now->hashed = true;
		} else {
			Inode* n = newInode( DIR_, 0755, par );
			if ( over )
				n->dev = devs++;
			n->nlink = 1;
			n->parent = par;
			n->de = now = new Dentry{ par, name, n, true };
			if ( over )
				overlaid[n] = de;
		}
		par->kids[name] = now;
		de->hashed = false;
		log_( 'R', path, away, ex );
		log_( 'C', path, "", now->inode );
		probe( over ? "mounted" : "unmounted" );
		if ( !over ) {
			overlaid.erase( ex );
			ex->nlink = 0;
			dropMarks( ex );
		}
		return 0;
	} );
}
int hMount( const std::string& p ) { return swapDir( p, true ); }
int hUmount( const std::string& p ) { return swapDir( p, false ); }
int hSetFs( const std::string& p, long t, bool newDev ) {
	Inode* n = lookup( p );
	if ( !n )
		return ENOENT;
	setFsRec( n, t, newDev ? devs++ : n->dev );
	return 0;
}
int hChdir( const std::string& p ) {
	Inode* n = lookup( p );
	if ( !n || n->type != DIR_ )
		return ENOENT;
	pin( n );
	unpin( cwd );
	cwd = n;
	return 0;
}

// ------------------------------------------------------------------ inspection
static void listRec( Inode* d, const std::string& path, std::vector<Entry>& out ) {
	for ( auto& k : d->kids ) {
		Inode* n = k.second->inode;
		Entry e;
		e.path = path + "/" + k.first;
		e.type = n->type;
		e.ino = n->ino;
		e.gen = n->gen;
		e.size = n->size;
		e.mtime = n->mtime;
		e.target = n->target;
		e.mode = n->mode;
		out.push_back( e );
		if ( n->type == DIR_ )
			listRec( n, e.path, out );
	}
}
void listTree( const std::string& r, std::vector<Entry>& out ) {
	Inode* n = lookup( r );
	if ( n && n->type == DIR_ )
		listRec( n, r == "/" ? "" : r, out );
}
size_t queuedEvents( int inst ) {
	size_t n = 0;
	for ( auto* i : instances )
		if ( inst < 0 || i->no == inst )
			n += i->q.size();
	return n;
}
int openFds( std::vector<std::string>* desc ) {
	if ( desc )
		for ( auto& f : fds ) {
			static const char* tn[] = { "inotify", "dir", "pipe", "pipe", "eventfd", "file" };
			desc->push_back( std::string( tn[f.second->type] ) + " fd " +
							 std::to_string( f.first ) +
							 ( f.second->dir ? " " + pathOf( f.second->dir->node ) : "" ) );
		}
	return (int)fds.size();
}
int watchCount() {
	int n = 0;
	for ( auto* i : instances )
		n += (int)i->wds.size();
	return n;
}
bool watched( Inode* d ) { return !d->marks.empty(); }
std::string cwdPath() { return pathOf( cwd ); }
void forceOverflow() {
	for ( auto* i : instances )
		if ( !i->overflow ) {
			i->overflow = true;
			i->q.push_back( { -1, IN_Q_OVERFLOW, 0, "", ~size_t( 0 ) } );
			RawEvent r;
			r.seq = seq();
			r.wd = -1;
			r.mask = IN_Q_OVERFLOW;
			r.cookie = 0;
			r.dropped = true;
			r.inst = i->no;
			raw.push_back( r );
			faultFired( "queue-overflow" );
			logf( "kernel: inotify queue overflow (forced)" );
		}
}
static std::vector<std::pair<std::string, std::string>> mounts;
void addMount( const std::string& dir, const std::string& fsname ) {
	mounts.push_back( { dir, fsname } );
}
bool mounted( const std::string& dir ) {
	for ( auto& m : mounts )
		if ( m.first == dir )
			return true;
	return false;
}

// ------------------------------------------------------------------ library system calls
static int fail( int e ) {
	errno = e;
	return -1;
}
static void fillStat( Inode* n, struct stat* st ) {
	memset( st, 0, sizeof *st );
	st->st_ino = n->ino;
	st->st_dev = n->dev;
	st->st_mode = n->mode | ( n->type == REG ? S_IFREG
							  : n->type == DIR_ ? S_IFDIR
							  : n->type == LNK	? S_IFLNK
												: S_IFIFO );
	st->st_nlink = n->nlink;
	st->st_uid = n->uid;
	st->st_gid = n->gid;
	st->st_size = n->type == LNK ? (i64)n->target.size() : n->size;
	st->st_mtim.tv_sec = n->mtime / SEC;
	st->st_mtim.tv_nsec = n->mtime % SEC;
	st->st_ctim = st->st_atim = st->st_mtim;
	st->st_blksize = 4096;
}
int sStat( const char* p, struct stat* st, bool follow ) {
	enterSys( follow ? "stat" : "lstat" );
	if ( int e = faultOn( follow ? "stat" : "lstat", p ) )
		return fail( e );
	int e = 0;
	Inode* n = walk( p, follow, e, cfg.uid, nullptr, nullptr, nullptr );
	if ( !n )
		return fail( e );
	fillStat( n, st );
	return 0;
}
int sAccess( const char* p, int mode ) {
	enterSys( "access" );
	if ( int e = faultOn( "access", p ) )
		return fail( e );
	int e = 0;
	Inode* n = walk( p, true, e, cfg.uid, nullptr, nullptr, nullptr );
	if ( !n )
		return fail( e );
	if ( ( mode & R_OK ) && !mayRead( n, cfg.uid ) )
		return fail( EACCES );
	if ( ( mode & X_OK ) && !maySearch( n, cfg.uid ) )
		return fail( EACCES );
	return 0;
}
static Fd* getFd( int fd ) {
	auto it = fds.find( fd );
	if ( it != fds.end() )
		return it->second;
	if ( everOpen.count( fd ) )
		violation( "use-after-close", "system call on descriptor " + std::to_string( fd ) +
										  " after it was closed" + backtrace() );
	errno = EBADF;
	return nullptr;
}
int sFstat( int fd, struct stat* st ) {
	enterSys( "stat" );
	int fe = faultAt( "stat" );
	Fd* f = getFd( fd );
	if ( fe ) {
		noteFaulted( f && f->dir ? f->dir->node : f ? f->node : nullptr );
		return fail( fe );
	}
	if ( !f )
		return -1;
	if ( f->type == FD_DIR || f->type == FD_FILE )
		fillStat( f->dir ? f->dir->node : f->node, st );
	else
		memset( st, 0, sizeof *st );
	return 0;
}
static DirObj* newDir( Inode* n ) {
	DirObj* d = new DirObj;
	d->node = n;
	pin( n );
	Fd* f = new Fd;
	f->type = FD_DIR;
	f->dir = d;
	d->fd = installFd( f );
	return d;
}
void* sOpendir( const char* p ) {
	enterSys( "opendir" );
	if ( int e = faultOn( "opendir", p ) ) {
		errno = e;
		return nullptr;
	}
	int e = 0;
	Inode* n = walk( p, true, e, cfg.uid, nullptr, nullptr, nullptr );
	if ( n && n->type != DIR_ ) {
		n = nullptr;
		e = ENOTDIR;
	}
	if ( n && !mayRead( n, cfg.uid ) ) {
		n = nullptr;
		e = EACCES;
	}
	if ( !n ) {
		errno = e;
		return nullptr;
	}
	return newDir( n );
}
static u64 nameHash( Inode* d, const std::string& n ) {
	u64 h = fnv( d->hseed | 1, n.data(), n.size() );
	h ^= h >> 29;
	h *= 0xbf58476d1ce4e5b9ull;
	return ( h >> 8 ) + 2;
}
struct dirent* sReaddir( void* dd ) {
	DirObj* d = (DirObj*)dd;
	if ( !d->open )
		violation( "use-after-close", "readdir on a closed directory stream" + backtrace() );
	enterSys( "readdir" );
	if ( int e = faultAt( "readdir" ) ) {
		noteFaulted( d->node, true );
		errno = e;
		return nullptr;
	}
	if ( d->pos >= d->names.size() ) {
		if ( d->eof && d->loaded )
			return nullptr;
		// one getdents call: entries in hash order after the last one returned
		int me = self();
		Inode* n = d->node;
		waitUntil( [n, me] { return n->locked < 0 || n->locked == me; }, "directory lock" );
		std::vector<std::pair<u64, std::string>> v;
		if ( n->nlink > 0 ) {
			v.push_back( { 0, "." } );
			v.push_back( { 1, ".." } );
			for ( auto& k : n->kids )
				v.push_back( { nameHash( n, k.first ), k.first } );
		}
		std::sort( v.begin(), v.end() );
		size_t lim = cfg.readdirChunk ? (size_t)cfg.readdirChunk : v.size();
		d->eof = true;
		for ( auto& e : v ) {
			if ( d->loaded && e.first <= d->lastHash )
				continue;
			if ( lim == 0 ) {
				d->eof = false;
				break;
			}
			lim--;
			d->names.push_back( e.second );
			unsigned char t = DT_DIR;
			u64 ino = n->ino;
			auto it = n->kids.find( e.second );
			if ( it != n->kids.end() ) {
				Inode* c = it->second->inode;
				ino = c->ino;
				t = c->type == REG ? DT_REG : c->type == DIR_ ? DT_DIR : c->type == LNK ? DT_LNK : DT_FIFO;
			}
			d->info.push_back( { ino, t } );
			if ( e.first > d->lastHash )
				d->lastHash = e.first;
		}
		d->loaded = true;
		if ( d->pos >= d->names.size() )
			return nullptr;
	}
	memset( &d->de, 0, sizeof d->de );
	d->de.d_ino = d->info[d->pos].first;
	d->de.d_type = cfg.noDtype ? DT_UNKNOWN : d->info[d->pos].second;
	d->de.d_reclen = sizeof d->de;
	strncpy( d->de.d_name, d->names[d->pos].c_str(), sizeof d->de.d_name - 1 );
	d->pos++;
	return &d->de;
}
int sClosedir( void* dd ) {
	DirObj* d = (DirObj*)dd;
	enterSys( "closedir" );
	if ( !d->open )
		violation( "double-close", "closedir on a closed directory stream" + backtrace() );
	d->open = false;
	delete fds[d->fd];
	fds.erase( d->fd );
	unpin( d->node );
	return 0;
}
int sDirfd( void* dd ) { return ( (DirObj*)dd )->fd; }

static int lastInst[MAXF];
int lastInstance( int fiber ) { return lastInst[fiber]; }
int sInotifyInit( int flags ) {
	enterSys( "inotify_init" );
	if ( int e = faultAt( "inotify_init" ) )
		return fail( e );
	Instance* in = new Instance;
	static int instNo = 0;
	in->no = ++instNo;
	lastInst[self()] = in->no;
	Fd* f = new Fd;
	f->type = FD_INOTIFY;
	f->in = in;
	f->flags = flags & IN_NONBLOCK ? O_NONBLOCK : 0;
	int fd = installFd( f );
	if ( fd < 0 )
		return -1;
	in->fd = fd;
	instances.push_back( in );
	return fd;
}
int sInotifyAdd( int fd, const char* p, u32 mask ) {
	enterSys( "inotify_add_watch" );
	int fe = faultOn( "inotify_add_watch", p );
	Fd* f = getFd( fd );
	if ( !f )
		return -1;
	if ( f->type != FD_INOTIFY )
		return fail( EINVAL );
	if ( fe )
		return fail( fe );
	int e = 0;
	Inode* n = walk( p, !( mask & IN_DONT_FOLLOW ), e, cfg.uid, nullptr, nullptr, nullptr );
	if ( !n )
		return fail( e );
	if ( ( mask & IN_ONLYDIR ) && n->type != DIR_ )
		return fail( ENOTDIR );
	if ( !mayRead( n, cfg.uid ) )
		return fail( EACCES );
	u32 m = mask & IN_ALL_EVENTS;
	for ( Mark* k : n->marks )
		if ( k->in == f->in ) {
			if ( mask & IN_MASK_ADD )
				k->mask |= m;
			else
				k->mask = m;
			probe( "inotify-wd-reused" );
			logf( "kernel: add_watch %s -> existing wd %d", p, k->wd );
			return k->wd;
		}
	if ( watchCount() >= cfg.maxWatches ) {
		faultFired( "watch-limit:ENOSPC" );
		noteFaulted( n );
		return fail( ENOSPC );
	}
	Mark* k = new Mark{ f->in, n, f->in->nextWd++, m };
	n->marks.push_back( k );
	f->in->wds[k->wd] = k;
	logf( "kernel: add_watch %s -> wd %d", p, k->wd );
	return k->wd;
}
int sInotifyRm( int fd, int wd ) {
	enterSys( "inotify_rm_watch" );
	if ( int e = faultAt( "inotify_rm_watch" ) )
		return fail( e );
	Fd* f = getFd( fd );
	if ( !f )
		return -1;
	if ( f->type != FD_INOTIFY )
		return fail( EINVAL );
	auto it = f->in->wds.find( wd );
	if ( it == f->in->wds.end() )
		return fail( EINVAL );
	logf( "kernel: rm_watch wd %d", wd );
	dropMark( it->second, true );
	return 0;
}

bool readable( int fd, bool* bad ) {
	if ( bad )
		*bad = false;
	auto it = fds.find( fd );
	if ( it == fds.end() ) {
		if ( bad )
			*bad = true;
		return false;
	}
	Fd* f = it->second;
	switch ( f->type ) {
		case FD_INOTIFY:
			return !f->in->q.empty();
		case FD_PIPE_R:
			return f->pipe->bytes > 0;
		case FD_EVENT:
			return f->val > 0;
		default:
			return true;
	}
}
bool writable( int fd ) { return fds.count( fd ) > 0; }

static size_t evLen( const QEv& e ) {
	size_t n = e.name.empty() ? 0 : ( e.name.size() + 1 + 15 ) / 16 * 16;
	return sizeof( inotify_event ) + n;
}
long sRead( int fd, void* buf, size_t n ) {
	enterSys( "read" );
	if ( int e = faultAt( "read" ) )
		return fail( e );
	Fd* f = getFd( fd );
	if ( !f )
		return -1;
	if ( f->type == FD_PIPE_R || f->type == FD_EVENT ) {
		if ( !readable( fd, nullptr ) && ( f->flags & O_NONBLOCK ) )
			return fail( EAGAIN );
		waitUntil( [fd] { return readable( fd, nullptr ) || !fds.count( fd ); }, "read" );
		if ( f->type == FD_EVENT ) {
			*(u64*)buf = f->val;
			f->val = 0;
			return 8;
		}
		u64 k = std::min<u64>( n, f->pipe->bytes );
		memset( buf, 0, k );
		f->pipe->bytes -= k;
		return (long)k;
	}
	if ( f->type != FD_INOTIFY )
		return fail( EISDIR );
	if ( f->in->q.empty() ) {
		if ( f->flags & O_NONBLOCK )
			return fail( EAGAIN );
		waitUntil( [fd] { return readable( fd, nullptr ) || !fds.count( fd ); }, "read(inotify)" );
	}
	if ( evLen( f->in->q.front() ) > n )
		return fail( EINVAL );
	size_t o = 0;
	char* b = (char*)buf;
	int cnt = 0;
	static int readNo = 0;
	readNo++;
	while ( true ) {
		// the queue isn't locked while an event is copied: others may append to it
		if ( cnt ) {
			point( P_SYS );
			auto it = fds.find( fd );
			if ( it == fds.end() || it->second != f )
				break;
		}
		if ( f->in->q.empty() )
			break;
		QEv& e = f->in->q.front();
		size_t l = evLen( e );
		if ( o + l > n )
			break;
		inotify_event* ev = (inotify_event*)( b + o );
		ev->wd = e.wd;
		ev->mask = e.mask;
		ev->cookie = e.cookie;
		ev->len = (u32)( l - sizeof( inotify_event ) );
		memset( ev->name, 0, ev->len );
		memcpy( ev->name, e.name.data(), e.name.size() );
		if ( e.mask & IN_Q_OVERFLOW )
			f->in->overflow = false;
		o += l;
		cnt++;
		if ( e.rawIdx < raw.size() )
			raw[e.rawIdx].readId = readNo;
		f->in->q.pop_front();
	}
	touch( buf, o, true );
	logf( "kernel: read %d events", cnt );
	return (long)o;
}
long sWrite( int fd, const void* buf, size_t n ) {
	enterSys( "write" );
	if ( fd == 1 || fd == 2 )
		return (long)n;
	Fd* f = getFd( fd );
	if ( !f )
		return -1;
	if ( f->type == FD_EVENT )
		f->val += *(const u64*)buf;
	else if ( f->type == FD_PIPE_W )
		f->pipe->bytes += n;
	else
		return fail( EBADF );
	return (long)n;
}
int sClose( int fd ) {
	enterSys( "close" );
	auto it = fds.find( fd );
	if ( it == fds.end() ) {
		violation( "double-close", "close of descriptor " + std::to_string( fd ) +
									   " which is not open" + backtrace() );
	}
	Fd* f = it->second;
	if ( f->type == FD_DIR )
		violation( "double-close", "close of a directory stream's descriptor" + backtrace() );
	fds.erase( it );
	if ( f->type == FD_INOTIFY ) {
		Instance* in = f->in;
		while ( !in->wds.empty() )
			dropMark( in->wds.begin()->second, false );
		in->q.clear();
		instances.erase( std::find( instances.begin(), instances.end(), in ) );
	} else if ( f->type == FD_FILE )
		unpin( f->node );
	return 0;
}
int sDup( int fd ) {
	(void)fd;
	return fail( EMFILE );
}
int sPipe( int* out, int flags ) {
	enterSys( "pipe" );
	if ( int e = faultAt( "pipe" ) )
		return fail( e );
	Pipe* p = new Pipe;
	for ( int i = 0; i < 2; i++ ) {
		Fd* f = new Fd;
		f->type = i ? FD_PIPE_W : FD_PIPE_R;
		f->pipe = p;
		f->flags = flags & O_NONBLOCK;
		out[i] = installFd( f );
		if ( out[i] < 0 )
			return -1;
	}
	return 0;
}
int sEventfd( unsigned v, int flags ) {
	enterSys( "eventfd" );
	if ( int e = faultAt( "eventfd" ) )
		return fail( e );
	Fd* f = new Fd;
	f->type = FD_EVENT;
	f->val = v;
	f->flags = flags & EFD_NONBLOCK ? O_NONBLOCK : 0;
	return installFd( f );
}
int sFcntl( int fd, int cmd, long arg ) {
	Fd* f = getFd( fd );
	if ( !f )
		return -1;
	if ( cmd == F_GETFL )
		return f->flags;
	if ( cmd == F_SETFL ) {
		f->flags = (int)arg;
		return 0;
	}
	return 0;
}
int sIoctl( int fd, unsigned long req, void* arg ) {
	Fd* f = getFd( fd );
	if ( !f )
		return -1;
	if ( req == FIONREAD ) {
		size_t n = 0;
		if ( f->type == FD_INOTIFY )
			for ( auto& e : f->in->q )
				n += evLen( e );
		*(int*)arg = (int)n;
		return 0;
	}
	return fail( EINVAL );
}
int sOpen( const char* p, int flags ) {
	enterSys( "open" );
	if ( int e = faultOn( "open", p ) )
		return fail( e );
	int e = 0;
	Inode* n = walk( p, true, e, cfg.uid, nullptr, nullptr, nullptr );
	if ( !n )
		return fail( e );
	if ( ( flags & O_DIRECTORY ) && n->type != DIR_ )
		return fail( ENOTDIR );
	if ( !mayRead( n, cfg.uid ) )
		return fail( EACCES );
	Fd* f = new Fd;
	f->type = FD_FILE;
	f->node = n;
	pin( n );
	return installFd( f );
}
long sReadlink( const char* p, char* buf, size_t n ) {
	enterSys( "readlink" );
	if ( int e = faultOn( "readlink", p ) )
		return fail( e );
	std::string t;
	if ( !strcmp( p, "/proc/self/exe" ) )
		t = "/usr/bin/app";
	else {
		int e = 0;
		Inode* x = walk( p, false, e, cfg.uid, nullptr, nullptr, nullptr );
		if ( !x )
			return fail( e );
		if ( x->type != LNK )
			return fail( EINVAL );
		t = x->target;
	}
	size_t k = std::min( n, t.size() );
	memcpy( buf, t.data(), k );
	return (long)k;
}
int sRealpath( const char* p, std::string& out ) {
	enterSys( "realpath" );
	if ( int e = faultOn( "realpath", p ) )
		return e;
	int e = 0;
	Inode* par = nullptr;
	std::string last;
	Dentry* de = nullptr;
	Inode* n = walk( p, true, e, cfg.uid, &par, &last, &de );
	if ( !n )
		return e;
	if ( n->type == DIR_ ) {
		out = pathOf( n );
		return 0;
	}
	// resolve a non-directory: follow links by hand
	std::string q = p;
	for ( int i = 0; i < 40; i++ ) {
		Inode* x = walk( q, false, e, cfg.uid, &par, &last, &de );
		if ( !x )
			return e;
		if ( x->type != LNK ) {
			out = childPath( par, last );
			return 0;
		}
		std::string base = pathOf( par );
		if ( base != "/" )
			base += "/";
		q = x->target[0] == '/' ? x->target : base + x->target;
	}
	return ELOOP;
}
int sChdir( const char* p ) {
	enterSys( "chdir" );
	if ( int e = faultAt( "chdir" ) )
		return fail( e );
	int e = 0;
	Inode* n = walk( p, true, e, cfg.uid, nullptr, nullptr, nullptr );
	if ( !n )
		return fail( e );
	if ( n->type != DIR_ )
		return fail( ENOTDIR );
	if ( !maySearch( n, cfg.uid ) )
		return fail( EACCES );
	pin( n );
	unpin( cwd );
	cwd = n;
	logf( "kernel: chdir %s", p );
	return 0;
}
int sFchdir( int fd ) {
	enterSys( "chdir" );
	Fd* f = getFd( fd );
	if ( !f )
		return -1;
	Inode* n = f->dir ? f->dir->node : f->node;
	if ( !n || n->type != DIR_ )
		return fail( ENOTDIR );
	pin( n );
	unpin( cwd );
	cwd = n;
	return 0;
}
int sGetcwd( std::string& out ) {
	enterSys( "getcwd" );
	if ( int e = faultAt( "getcwd" ) )
		return e;
	if ( cwd->nlink == 0 && cwd != root )
		return ENOENT;
	out = pathOf( cwd );
	return 0;
}
int sStatfs( const char* p, long* type ) {
	enterSys( "statfs" );
	if ( int e = faultOn( "statfs", p ) )
		return fail( e );
	int e = 0;
	Inode* n = walk( p, true, e, cfg.uid, nullptr, nullptr, nullptr );
	if ( !n )
		return fail( e );
	*type = n->fstype;
	return 0;
}
struct Mnt {
	size_t pos = 0;
	std::string a, b;
	mntent m;
	int fd = -1;
};
void* sSetmntent( const char* ) {
	enterSys( "setmntent" );
	if ( faultAt( "setmntent" ) ) {
		errno = EMFILE;
		return nullptr;
	}
	Mnt* m = new Mnt;
	Fd* f = new Fd;
	f->type = FD_FILE;
	f->node = root;
	pin( root );
	m->fd = installFd( f );
	return m;
}
struct mntent* sGetmntent( void* f ) {
	Mnt* m = (Mnt*)f;
	if ( m->pos >= mounts.size() )
		return nullptr;
	m->a = mounts[m->pos].first;
	m->b = mounts[m->pos].second;
	m->pos++;
	memset( &m->m, 0, sizeof m->m );
	m->m.mnt_fsname = (char*)m->b.c_str();
	m->m.mnt_dir = (char*)m->a.c_str();
	m->m.mnt_type = (char*)"fuseblk";
	m->m.mnt_opts = (char*)"rw";
	return &m->m;
}
int sEndmntent( void* f ) {
	Mnt* m = (Mnt*)f;
	if ( m->fd < 0 )
		violation( "double-close", "endmntent twice" + backtrace() );
	sClose( m->fd );
	m->fd = -1;
	return 1;
}

}  // namespace kern
namespace kern {
int wdOf( Inode* d ) { return d->marks.empty() ? -1 : d->marks[0]->wd; }
size_t markCount( Inode* d ) { return d->marks.size(); }
}  // namespace kern
