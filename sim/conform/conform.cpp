// Compares the kernel model of the simulator (sim/kern.cpp) with the real kernel: random sequences
// of file system and inotify calls are made against both, and every result and every inotify event
// has to be the same. Everything happens below a scratch directory.
//   conform DIR SECONDS [SEED]
#include "../kern.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/inotify.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// ---- the parts of the runtime that the model needs, without any scheduling
namespace rt {
static i64 clk = 1000 * SEC;
static RunStats st;
static Counters ct;
u64 fnv( u64 h, const void* p, size_t n ) {
	for ( size_t i = 0; i < n; i++ )
		h = ( h ^ ( (const u8*)p )[i] ) * 1099511628211ull;
	return h;
}
i64 now( int ) { return clk; }
u64 seq() {
	static u64 s = 0;
	return s++;
}
void logf( const char*, ... ) {}
int self() { return 0; }
void point( Point ) {}
RunStats& stats() { return st; }
Counters& counters() { return ct; }
void touch( const void*, size_t, bool ) {}
bool inEfsw() { return true; }
void advance( i64 n ) { clk += n; }
void sleepFor( i64 n ) { clk += n; }
std::string backtrace() { return ""; }
[[noreturn]] void violation( const std::string& a, const std::string& b ) {
	printf( "model: %s %s\n", a.c_str(), b.c_str() );
	exit( 1 );
}
void waitUntil( const std::function<bool()>& p, const char* w ) {
	if ( !p() ) {
		printf( "model would block: %s\n", w );
		exit( 1 );
	}
}
}  // namespace rt

using namespace rt;
static std::string base;
static std::vector<std::string> history;

[[noreturn]] static void differ( const std::string& what ) {
	printf( "DIFFERENT %s\n", what.c_str() );
	for ( auto& h : history )
		printf( "  %s\n", h.c_str() );
	fflush( stdout );
	_exit( 1 );
}

struct Ev {
	int wd;
	u32 mask;
	int cookie;
	std::string name;
	std::string str() const {
		char b[600];
		snprintf( b, sizeof b, "wd=%d mask=%x cookie=%d name=%s", wd, mask, cookie, name.c_str() );
		return b;
	}
};
static std::vector<Ev> parse( const char* b, long n, std::map<u32, int>& cookies ) {
	std::vector<Ev> r;
	for ( long i = 0; i + (long)sizeof( inotify_event ) <= n; ) {
		auto* e = (const inotify_event*)( b + i );
		int c = 0;
		if ( e->cookie ) {
			if ( !cookies.count( e->cookie ) )
				cookies.insert( { e->cookie, (int)cookies.size() + 1 } );
			c = cookies[e->cookie];
		}
		r.push_back( { e->wd, e->mask, c, e->len ? e->name : "" } );
		// the padding is part of what a reader sees
		if ( e->len % sizeof( inotify_event ) )
			differ( "padding" );
		i += sizeof( inotify_event ) + e->len;
	}
	return r;
}

static std::string real( const std::string& p ) { return base + p; }
static std::string targetOf( const std::string& t ) { return t[0] == '/' ? base + t : t; }

static int ret( int r ) { return r < 0 ? errno : 0; }

static int rWrite( const std::string& p, int n, bool trunc, bool create ) {
	int fd = open( real( p ).c_str(),
				   O_WRONLY | O_APPEND | O_NONBLOCK | ( trunc ? O_TRUNC : 0 ) | ( create ? O_CREAT : 0 ), 0644 );
	if ( fd < 0 )
		return errno;
	std::string d( n, 'x' );
	if ( n > 0 && write( fd, d.data(), n ) != n )
		differ( "short write" );
	close( fd );
	return 0;
}
static int rRmRf( const std::string& p ) {
	struct stat s;
	if ( lstat( real( p ).c_str(), &s ) )
		return errno;
	if ( !S_ISDIR( s.st_mode ) )
		return ret( unlink( real( p ).c_str() ) );
	std::set<std::string> names;
	DIR* d = opendir( real( p ).c_str() );
	while ( dirent* e = readdir( d ) )
		if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) )
			names.insert( e->d_name );
	closedir( d );
	for ( auto& n : names )
		rRmRf( p + "/" + n );
	return ret( rmdir( real( p ).c_str() ) );
}

static int mfd, rfd;
static bool unpriv;
static int asDepth;
struct AsLibrary {	// the real calls of the library side are made without privileges as well
	AsLibrary() {
		if ( unpriv && asDepth++ == 0 && seteuid( 65534 ) )
			abort();
	}
	~AsLibrary() {
		if ( unpriv && --asDepth == 0 && seteuid( 0 ) )
			abort();
	}
};
static std::map<u32, int> mcook, rcook;
static int nEvents = 0, nOps = 0;

static void drain( size_t size ) {
	std::vector<char> b( size );
	std::vector<Ev> m, r;
	for ( int k = 0; k < 2; k++ ) {
		long a = kern::sRead( mfd, b.data(), size );
		int ea = errno;
		if ( a > 0 )
			for ( auto& e : parse( b.data(), a, mcook ) )
				m.push_back( e );
		long c = read( rfd, b.data(), size );
		int ec = errno;
		if ( c > 0 )
			for ( auto& e : parse( b.data(), c, rcook ) )
				r.push_back( e );
		std::string d;
		for ( size_t i = 0; i < std::max( m.size(), r.size() ); i++ )
			d += "\n    model " + ( i < m.size() ? m[i].str() : "-" ) + "\n    real  " +
				 ( i < r.size() ? r[i].str() : "-" );
		if ( a != c || ( a < 0 && ea != ec ) )
			differ( "read returns " + std::to_string( a ) + " / " + std::to_string( c ) + d );
		for ( size_t i = 0; i < m.size(); i++ )
			if ( m[i].str() != r[i].str() )
				differ( "events" + d );
		nEvents += (int)m.size();
		m.clear();
		r.clear();
		if ( a < 0 )
			break;
	}
}

// everything that a stat of the library could tell apart
static std::map<std::string, std::pair<u64, u64>> inoM2R;
static std::map<u64, u64> m2r;
static void compareTree( const std::string& p, bool times ) {
	AsLibrary as;
	struct stat a, b;
	for ( int follow = 0; follow < 2; follow++ ) {
		int ea = kern::sStat( p.c_str(), &a, follow ) ? errno : 0;
		int eb = ( follow ? stat( real( p ).c_str(), &b ) : lstat( real( p ).c_str(), &b ) ) ? errno : 0;
		if ( ea != eb )
			differ( "stat " + p + " errno " + std::to_string( ea ) + " / " + std::to_string( eb ) );
		if ( ea )
			continue;
		if ( a.st_mode != b.st_mode )
			differ( "mode of " + p );
		if ( S_ISREG( a.st_mode ) && a.st_size != b.st_size )
			differ( "size of " + p + " " + std::to_string( a.st_size ) + " / " +
					std::to_string( b.st_size ) );
		if ( !S_ISDIR( a.st_mode ) && a.st_nlink != b.st_nlink )
			differ( "link count of " + p + " " + std::to_string( a.st_nlink ) + " / " +
					std::to_string( b.st_nlink ) );
		if ( times && ( a.st_mtime == 1000000 ) != ( b.st_mtime == 1000000 ) )
			differ( "modification time of " + p );
	}
	std::string out;
	int e = kern::sRealpath( p.c_str(), out );
	char buf[PATH_MAX];
	char* rp = realpath( real( p ).c_str(), buf );
	int er = rp ? 0 : errno;
	if ( e != er || ( rp && base + out != rp ) )
		differ( "realpath of " + p + ": " + out + " / " + ( rp ? rp : "" ) + " errno " +
				std::to_string( e ) + " / " + std::to_string( er ) );
	char l1[PATH_MAX], l2[PATH_MAX];
	long n1 = kern::sReadlink( p.c_str(), l1, sizeof l1 );
	int e1 = errno;
	long n2 = readlink( real( p ).c_str(), l2, sizeof l2 );
	int e2 = errno;
	if ( ( n1 < 0 ) != ( n2 < 0 ) || ( n1 < 0 && e1 != e2 ) )
		differ( "readlink of " + p );
	std::string c = p + "/";
	if ( n1 >= 0 )	// a link with a slash at its end leads to its target
		for ( int follow = 0; follow < 2; follow++ ) {
			int ea = kern::sStat( c.c_str(), &a, follow ) ? errno : 0;
			int eb = ( follow ? stat( real( c ).c_str(), &b ) : lstat( real( c ).c_str(), &b ) ) ? errno : 0;
			if ( ea != eb || ( !ea && a.st_mode != b.st_mode ) )
				differ( "stat " + c + " " + std::to_string( ea ) + " / " + std::to_string( eb ) );
		}
	for ( int m : { R_OK, F_OK } ) {
		int a1 = kern::sAccess( p.c_str(), m ) ? errno : 0;
		int a2 = faccessat( AT_FDCWD, real( p ).c_str(), m, AT_EACCESS ) ? errno : 0;
		if ( a1 != a2 )
			differ( "access to " + p + " " + std::to_string( a1 ) + " / " + std::to_string( a2 ) );
	}
	if ( kern::sStat( p.c_str(), &a, false ) || !S_ISDIR( a.st_mode ) )
		return;
	std::map<std::string, int> k1, k2;
	int o1 = 0, o2 = 0;
	if ( void* d = kern::sOpendir( p.c_str() ) ) {
		while ( dirent* x = kern::sReaddir( d ) )
			k1[x->d_name] = x->d_type;
		kern::sClosedir( d );
	} else
		o1 = errno;
	if ( DIR* d = opendir( real( p ).c_str() ) ) {
		while ( dirent* x = readdir( d ) )
			k2[x->d_name] = x->d_type;
		closedir( d );
	} else
		o2 = errno;
	if ( k1 != k2 || o1 != o2 )
		differ( "content of " + p );
	for ( auto& k : k1 )
		if ( k.first != "." && k.first != ".." )
			compareTree( p + "/" + k.first, times );
}

static void list( const std::string& p, std::vector<std::string>& all ) {
	std::vector<kern::Entry> v;
	kern::listTree( p, v );
	for ( auto& e : v )
		all.push_back( e.path );
}

static void run( u64 seed ) {
	Rng r( seed );
	unpriv = r.chance( 0.4 );
	kern::cfg.uid = unpriv ? 65534 : 0;
	kern::init();
	kern::hMkdirs( "/w" );
	mkdir( real( "/w" ).c_str(), 0755 );
	mfd = kern::sInotifyInit( IN_NONBLOCK );
	rfd = inotify_init1( IN_NONBLOCK );
	const u32 lib = IN_CLOSE_WRITE | IN_MOVED_TO | IN_CREATE | IN_MOVED_FROM | IN_DELETE | IN_MODIFY;
	std::vector<int> handles, rhandles;
	int wds = 0, steps = r.range( 5, 60 );
	int perRead = r.range( 1, 12 );
	for ( int i = 0; i < steps; i++ ) {
		std::vector<std::string> all = { "/w" };
		list( "/w", all );
		auto any = [&]() { return r.pick( all ); };
		auto fresh = [&]() {
			std::string d;
			for ( int t = 0; t < 8; t++ ) {
				d = any();
				kern::Inode* x = kern::lookup( d );
				if ( x && x->type == kern::DIR_ )
					break;
			}
			static const char* pre = "abcd";
			std::string n( 1, pre[r.below( 4 )] );
			if ( r.chance( 0.2 ) )
				n += std::string( (size_t)r.range( 1, 40 ), 'n' );
			return d + "/" + n;
		};
		bool times = r.chance( 0.5 );
		if ( times ) {
			std::vector<std::string> v = all;
			for ( auto& p : v ) {
				kern::Inode* x = kern::lookup( p, false );
				if ( x && x->type != kern::LNK ) {
					struct timespec t[2] = { { 1000000, 0 }, { 1000000, 0 } };
					utimensat( AT_FDCWD, real( p ).c_str(), t, AT_SYMLINK_NOFOLLOW );
					kern::hUtime( p, 1000000 * SEC );
				}
			}
		}
		int k = (int)r.below( 19 ), a = 0, b = 0;
		std::string p, q, what;
		switch ( k ) {
			case 0:
			case 1:
				p = fresh();
				what = "mkdir " + p;
				history.push_back( what );
				a = kern::hMkdir( p );
				b = ret( mkdir( real( p ).c_str(), 0755 ) );
				break;
			case 2: {
				p = r.chance( 0.5 ) ? fresh() : any();
				int n = r.range( 0, 20 );
				bool tr = r.chance( 0.4 ), cr = r.chance( 0.7 );
				kern::Inode* x = kern::lookup( p, true );
				if ( ( x && x->type != kern::REG ) || ( !x && kern::lookup( p, false ) ) )
					continue;  // the harness writes regular files only
				what = "write " + p + " " + std::to_string( n ) + ( tr ? " trunc" : "" ) +
					   ( cr ? " create" : "" );
				history.push_back( what );
				a = kern::hWrite( p, n, tr, cr );
				b = rWrite( p, n, tr, cr );
				break;
			}
			case 3: {
				p = any();
				kern::Inode* x = kern::lookup( p, true );
				if ( !x || x->type != kern::REG )
					continue;
				int n = r.range( 0, 20 );
				what = "truncate " + p;
				history.push_back( what );
				a = kern::hTruncate( p, n );
				b = ret( truncate( real( p ).c_str(), n ) );
				break;
			}
			case 4:
				p = any();
				if ( p == "/w" )
					continue;
				what = "unlink " + p;
				history.push_back( what );
				a = kern::hUnlink( p );
				b = ret( unlink( real( p ).c_str() ) );
				break;
			case 5:
				p = any();
				if ( p == "/w" )
					continue;
				what = "rmdir " + p;
				history.push_back( what );
				a = kern::hRmdir( p );
				b = ret( rmdir( real( p ).c_str() ) );
				break;
			case 6:
			case 7:
			case 8:
				p = any();
				q = r.chance( 0.7 ) ? fresh() : any();
				if ( p == "/w" || q == "/w" )
					continue;
				what = "rename " + p + " " + q;
				history.push_back( what );
				a = kern::hRename( p, q );
				b = ret( rename( real( p ).c_str(), real( q ).c_str() ) );
				break;
			case 9:
				p = any();
				q = fresh();
				if ( kern::lookup( p, false )->type == kern::LNK )
					continue;
				what = "link " + p + " " + q;
				history.push_back( what );
				a = kern::hLink( p, q );
				b = ret( link( real( p ).c_str(), real( q ).c_str() ) );
				break;
			case 10:
				p = r.chance( 0.6 ) ? any() : r.chance( 0.5 ) ? "." : fresh();
				q = fresh();
				what = "symlink " + p + " " + q;
				history.push_back( what );
				a = kern::hSymlink( p, q );
				b = ret( symlink( targetOf( p ).c_str(), real( q ).c_str() ) );
				break;
			case 11:
				p = fresh();
				what = "mkfifo " + p;
				history.push_back( what );
				a = kern::hMkfifo( p );
				b = ret( mkfifo( real( p ).c_str(), 0644 ) );
				break;
			case 12: {
				p = any();
				if ( !kern::lookup( p ) )
					continue;
				static const unsigned modes[] = { 0700, 0755, 0711, 0744, 0000 };
				unsigned m = modes[r.below( 5 )];
				what = "chmod " + p;
				history.push_back( what );
				a = kern::hChmod( p, m );
				b = ret( chmod( real( p ).c_str(), m ) );
				break;
			}
			case 13:
				p = any();
				if ( p == "/w" )
					continue;
				what = "rmrf " + p;
				history.push_back( what );
				a = kern::hRmRf( p );
				b = rRmRf( p );
				break;
			case 14: {
				if ( handles.empty() || r.chance( 0.4 ) ) {
					p = r.chance( 0.5 ) ? fresh() : any();
					kern::Inode* x = kern::lookup( p, true );
					if ( ( x && x->type != kern::REG ) || ( !x && kern::lookup( p, false ) ) )
						continue;
					what = "open " + p;
					history.push_back( what );
					int h = kern::hOpen( p, true );
					int fd = open( real( p ).c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644 );
					a = h < 0 ? -h : 0;
					b = ret( fd );
					if ( h >= 0 ) {
						handles.push_back( h );
						rhandles.push_back( fd );
					}
				} else {
					size_t j = r.below( handles.size() );
					if ( r.chance( 0.5 ) ) {
						what = "write to handle " + std::to_string( j );
						history.push_back( what );
						a = kern::hFdWrite( handles[j], 3 );
						b = write( rhandles[j], "abc", 3 ) == 3 ? 0 : errno;
					} else {
						what = "close handle " + std::to_string( j );
						history.push_back( what );
						a = kern::hFdClose( handles[j] );
						b = ret( close( rhandles[j] ) );
						handles.erase( handles.begin() + j );
						rhandles.erase( rhandles.begin() + j );
					}
				}
				break;
			}
			case 15:
			case 16:
			case 17: {
				p = r.chance( 0.9 ) ? any() : fresh();
				if ( r.chance( 0.3 ) )
					p += "/";
				u32 m = lib;
				if ( r.chance( 0.4 ) )
					m |= IN_ONLYDIR;
				if ( r.chance( 0.4 ) )
					m |= IN_DONT_FOLLOW;
				kern::Inode* x = kern::lookup( p );
				// watches on files are not modelled: the library has none
				if ( x && x->type != kern::DIR_ && !( m & IN_ONLYDIR ) )
					continue;
				kern::Inode* y = kern::lookup( p, false );
				if ( y && y->type == kern::LNK && p.back() != '/' && ( m & IN_DONT_FOLLOW ) &&
					 !( m & IN_ONLYDIR ) )
					continue;
				char t[40];
				snprintf( t, sizeof t, " %x", m );
				what = "inotify_add_watch " + p + t;
				history.push_back( what );
				a = kern::sInotifyAdd( mfd, p.c_str(), m );
				int ea = a < 0 ? errno : 0;
				int eb;
				{
					AsLibrary as;
					b = inotify_add_watch( rfd, real( p ).c_str(), m );
					eb = b < 0 ? errno : 0;
				}
				if ( ea != eb )
					a = ea, b = eb;
				if ( a > wds )
					wds = a;
				break;
			}
			default: {
				int wd = r.range( 1, wds + 1 );
				what = "inotify_rm_watch " + std::to_string( wd );
				history.push_back( what );
				a = kern::sInotifyRm( mfd, wd ) < 0 ? errno : 0;
				b = ret( inotify_rm_watch( rfd, wd ) );
			}
		}
		nOps++;
		rt::clk += 50 * MS;
		if ( ( a == 0 ) != ( b == 0 ) || ( k >= 15 && a != b ) ||
			 ( a && b && a != b && ( k < 2 || k == 4 ) ) )
			differ( what + ": " + std::to_string( a ) + " / " + std::to_string( b ) );
		if ( r.below( perRead ) == 0 )
			drain( r.chance( 0.8 ) ? 65536 : 300 );
		compareTree( "/w", times );
	}
	for ( int i = 0; i < 3; i++ )
		drain( 65536 );
}

int main( int argc, char** argv ) {
	if ( argc < 3 )
		return 2;
	std::string scratch = argv[1];
	double secs = atof( argv[2] );
	u64 seed = argc > 3 ? strtoull( argv[3], 0, 10 ) : 1;
	bool one = argc > 4;
	time_t end = time( nullptr ) + (time_t)secs;
	char res[PATH_MAX];
	if ( !realpath( scratch.c_str(), res ) )
		return 2;
	u64 runs = 0;
	long ops = 0, events = 0;
	while ( time( nullptr ) < end ) {
		base = std::string( res ) + "/c" + std::to_string( getpid() );
		mkdir( base.c_str(), 0755 );
		int pp[2];
		if ( pipe( pp ) )
			return 2;
		pid_t c = fork();
		if ( !c ) {
			umask( 022 );
			run( seed );
			long v[2] = { nOps, nEvents };
			if ( write( pp[1], v, sizeof v ) < 0 )
				_exit( 3 );
			_exit( 0 );
		}
		close( pp[1] );
		int st = 0;
		waitpid( c, &st, 0 );
		long v[2] = { 0, 0 };
		if ( read( pp[0], v, sizeof v ) == sizeof v )
			ops += v[0], events += v[1];
		close( pp[0] );
		std::string tmp = base;
		base = "";
		rRmRf( tmp );
		if ( st ) {
			printf( "seed %llu\n", (unsigned long long)seed );
			return 1;
		}
		runs++;
		if ( one )
			break;
		seed += 8;
	}
	printf( "CONFORM sequences=%llu operations=%ld events=%ld\n", (unsigned long long)runs, ops,
			events );
	return 0;
}
