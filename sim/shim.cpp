// Symbol-level seam: every libc / libstdc++ function through which the library under test meets
// the operating system, threads, time or the heap is renamed (objcopy) to sim_<name> and lands here.
#include "kern.h"
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <memory>
#include <mntent.h>
#include <mutex>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/time.h>
#include <system_error>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

using namespace rt;

// same layout as std::thread::_State
struct SimThState {
	virtual ~SimThState();
	virtual void _M_run() = 0;
};
SimThState::~SimThState() {}
namespace {
typedef SimThState ThState;
struct Mtx {
	int owner = -1;
	int count = 0;
	int kind = 0;
	int readers = 0;
};
std::unordered_map<const void*, Mtx>& mtxs() {
	static auto* m = new std::unordered_map<const void*, Mtx>;
	return *m;
}
Mtx& mtxOf( const void* p ) {
	auto it = mtxs().find( p );
	if ( it != mtxs().end() )
		return it->second;
	Mtx& m = mtxs()[p];
	m.kind = ( (const pthread_mutex_t*)p )->__data.__kind & 3;
	return m;
}
int lockMutex( const void* p, const i64* deadline, int clk ) {
	if ( inArena( p ) )
		touch( p, 1, false );
	LeaveEfsw lv;
	point( P_SYNC );
	Mtx* m = &mtxOf( p );
	int me = self();
	if ( m->owner == me ) {
		if ( m->kind == PTHREAD_MUTEX_RECURSIVE ) {
			m->count++;
			return 0;
		}
		if ( m->kind == PTHREAD_MUTEX_ERRORCHECK )
			return EDEADLK;
		// a plain mutex locked twice by one thread never returns
		waitUntil( [] { return false; }, "mutex already held by the same thread" );
	}
	auto ok = [p] { return mtxOf( p ).owner < 0 && mtxOf( p ).readers == 0; };
	if ( deadline ) {
		if ( !waitUntilOr( ok, clk, *deadline, "mutex" ) )
			return ETIMEDOUT;
	} else {
		if ( !ok() )
			probe( "mutex-contended" );
		waitUntil( ok, "mutex" );
	}
	m = &mtxOf( p );
	m->owner = me;
	m->count = 1;
	hbAcquire( p );
	if ( inArena( p ) )
		touch( p, 1, false );
	return 0;
}
int unlockMutex( const void* p ) {
	if ( inArena( p ) )
		touch( p, 1, false );
	LeaveEfsw lv;
	Mtx& m = mtxOf( p );
	if ( m.owner != self() ) {
		if ( m.kind )
			return EPERM;
		violation( "bad-unlock", "mutex unlocked by a thread that does not hold it" + backtrace() );
	}
	if ( --m.count > 0 )
		return 0;
	hbRelease( p );
	m.owner = -1;
	point( P_SYNC );
	return 0;
}
struct Cond {
	u64 gen = 0;
	int waiters = 0;
	int tokens = 0;
	int clk = CLK_REAL;
};
std::unordered_map<const void*, Cond>& conds() {
	static auto* m = new std::unordered_map<const void*, Cond>;
	return *m;
}
i64 tsNs( const timespec* t ) { return (i64)t->tv_sec * SEC + t->tv_nsec; }
int condWait( const void* c, const void* m, const i64* deadline, int clk ) {
	LeaveEfsw lv;
	Cond& k = conds()[c];
	k.waiters++;
	u64 g = k.gen;
	Mtx& mm = mtxOf( m );
	int saveCount = mm.count;
	mm.count = 1;
	{
		EnterEfsw e;
		unlockMutex( m );
	}
	auto pred = [c, g] {
		Cond& k = conds()[c];
		return k.tokens > 0 || k.gen != g;
	};
	bool ok = true;
	// spurious wake-ups are allowed by POSIX; injected through the fault plan
	int sp = kern::faultAt( "cond_wait" );
	if ( sp == 0 ) {
		if ( deadline )
			ok = waitUntilOr( pred, clk, *deadline, "condition variable (timed)" );
		else
			waitUntil( pred, "condition variable" );
	}
	Cond& k2 = conds()[c];
	k2.waiters--;
	if ( k2.tokens > 0 )
		k2.tokens--;
	{
		EnterEfsw e;
		lockMutex( m, nullptr, 0 );
	}
	mtxOf( m ).count = saveCount;
	hbAcquire( c );
	return ok ? 0 : ETIMEDOUT;
}
void condWake( const void* c, bool all ) {
	LeaveEfsw lv;
	point( P_SYNC );
	hbRelease( c );
	Cond& k = conds()[c];
	if ( all )
		k.gen++;
	else if ( k.tokens < k.waiters )
		k.tokens++;
}
int clkOf( clockid_t c ) {
	return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? CLK_REAL : CLK_MONO;
}
std::unordered_map<u64, int>& joined() {
	static auto* m = new std::unordered_map<u64, int>;
	return *m;
}
struct ThreadRet {
	void* ret[MAXF];
};
ThreadRet rets;
int threadNo = 0;

int newThread( std::function<void()> fn ) {
	// returns fiber id or -errno
	point( P_SYNC );
	if ( int e = kern::faultAt( "pthread_create" ) )
		return -e;
	std::string name = "efsw" + std::to_string( ++threadNo );
	return spawn( name, std::move( fn ), true );
}
int joinThread( u64 t ) {
	int id = (int)t - 1;
	if ( id < 0 || id >= fiberCount() )
		return ESRCH;
	if ( id == self() )
		return EDEADLK;
	if ( joined()[t] )
		return EINVAL;
	point( P_SYNC );
	waitUntil( [id] { return finished( id ); }, "thread join" );
	joined()[t] = 1;
	hbAcquire( (void*)( 0x1000 + t ) );
	return 0;
}
}  // namespace

extern "C" {
// ------------------------------------------------------------------ memory
void* sim_malloc( size_t n ) { return simMalloc( n, false ); }
void* sim_calloc( size_t a, size_t b ) {
	void* p = simMalloc( a * b, false );
	if ( a * b < ( 1 << 20 ) )
		memset( p, 0, a * b );
	return p;
}
void sim_free( void* p ) {
	LeaveEfsw lv;
	if ( p && !inArena( p ) ) {
		free( p );
		return;
	}
	EnterEfsw e;
	simFree( p, -1 );
}
void* sim_realloc( void* p, size_t n ) {
	void* q = simMalloc( n, false );
	if ( p ) {
		size_t old = ( (u64*)p )[-4];
		memcpy( q, p, old < n ? old : n );
		simFree( p, -1 );
	}
	return q;
}
char* sim_strdup( const char* s ) {
	size_t n = strlen( s ) + 1;
	char* q = (char*)simMalloc( n, false );
	memcpy( q, s, n );
	return q;
}
void* sim__Znwm( size_t n ) { return simMalloc( n, false ); }
void* sim__Znam( size_t n ) { return simMalloc( n, true ); }
void* sim__ZnwmRKSt9nothrow_t( size_t n, const std::nothrow_t& ) { return simMalloc( n, false ); }
void* sim__ZnamRKSt9nothrow_t( size_t n, const std::nothrow_t& ) { return simMalloc( n, true ); }
static void del( void* p, int kind ) {
	if ( !p )
		return;
	if ( !inArena( p ) ) {
		free( p );
		return;
	}
	simFree( p, kind );
}
void sim__ZdlPv( void* p ) { del( p, 0 ); }
void sim__ZdaPv( void* p ) { del( p, 1 ); }
void sim__ZdlPvm( void* p, size_t ) { del( p, 0 ); }
void sim__ZdaPvm( void* p, size_t ) { del( p, 1 ); }
void sim__ZdlPvRKSt9nothrow_t( void* p, const std::nothrow_t& ) { del( p, 0 ); }
void sim__ZdaPvRKSt9nothrow_t( void* p, const std::nothrow_t& ) { del( p, 1 ); }

int sim_memcmp( const void* a, const void* b, size_t n ) {
	if ( n ) {
		touch( a, n, false );
		touch( b, n, false );
	}
	return memcmp( a, b, n );
}
int sim_bcmp( const void* a, const void* b, size_t n ) { return sim_memcmp( a, b, n ); }
size_t sim_strlen( const char* s ) {
	if ( inArena( s ) )
		touch( s, 1, false );
	size_t n = strlen( s );
	touch( s, n + 1, false );
	return n;
}
int sim_strcmp( const char* a, const char* b ) {
	if ( inArena( a ) )
		touch( a, strlen( a ) + 1, false );
	if ( inArena( b ) )
		touch( b, strlen( b ) + 1, false );
	return strcmp( a, b );
}
void* sim_memchr( const void* a, int c, size_t n ) {
	void* r = (void*)memchr( a, c, n );
	size_t k = r ? (size_t)( (char*)r - (char*)a ) + 1 : n;
	if ( k )
		touch( a, k, false );
	return r;
}

// ------------------------------------------------------------------ files
#define SYS LeaveEfsw lv__
static void pathIn( const char* p ) {
	if ( inArena( p ) )
		touch( p, strlen( p ) + 1, false );
}
int sim_stat( const char* p, struct stat* st ) {
	pathIn( p );
	SYS;
	return kern::sStat( p, st, true );
}
int sim_lstat( const char* p, struct stat* st ) {
	pathIn( p );
	SYS;
	return kern::sStat( p, st, false );
}
int sim_fstat( int fd, struct stat* st ) {
	SYS;
	return kern::sFstat( fd, st );
}
int sim_fstatat( int dfd, const char* p, struct stat* st, int flags ) {
	SYS;
	if ( dfd == AT_FDCWD || p[0] == '/' )
		return kern::sStat( p, st, !( flags & AT_SYMLINK_NOFOLLOW ) );
	errno = ENOSYS;
	return -1;
}
int sim_access( const char* p, int m ) {
	pathIn( p );
	SYS;
	return kern::sAccess( p, m );
}
DIR* sim_opendir( const char* p ) {
	pathIn( p );
	SYS;
	return (DIR*)kern::sOpendir( p );
}
struct dirent* sim_readdir( DIR* d ) {
	SYS;
	return kern::sReaddir( d );
}
int sim_closedir( DIR* d ) {
	SYS;
	return kern::sClosedir( d );
}
int sim_dirfd( DIR* d ) {
	SYS;
	return kern::sDirfd( d );
}
int sim_inotify_init() {
	SYS;
	return kern::sInotifyInit( 0 );
}
int sim_inotify_init1( int f ) {
	SYS;
	return kern::sInotifyInit( f );
}
int sim_inotify_add_watch( int fd, const char* p, uint32_t m ) {
	pathIn( p );
	SYS;
	return kern::sInotifyAdd( fd, p, m );
}
int sim_inotify_rm_watch( int fd, int wd ) {
	SYS;
	return kern::sInotifyRm( fd, wd );
}
ssize_t sim_read( int fd, void* b, size_t n ) {
	SYS;
	return kern::sRead( fd, b, n );
}
ssize_t sim_write( int fd, const void* b, size_t n ) {
	SYS;
	return kern::sWrite( fd, b, n );
}
int sim_close( int fd ) {
	SYS;
	return kern::sClose( fd );
}
int sim_pipe( int* f ) {
	SYS;
	return kern::sPipe( f, 0 );
}
int sim_pipe2( int* f, int fl ) {
	SYS;
	return kern::sPipe( f, fl );
}
int sim_eventfd( unsigned v, int f ) {
	SYS;
	return kern::sEventfd( v, f );
}
int sim_fcntl( int fd, int cmd, ... ) {
	va_list ap;
	va_start( ap, cmd );
	long a = va_arg( ap, long );
	va_end( ap );
	SYS;
	return kern::sFcntl( fd, cmd, a );
}
int sim_ioctl( int fd, unsigned long r, ... ) {
	va_list ap;
	va_start( ap, r );
	void* a = va_arg( ap, void* );
	va_end( ap );
	SYS;
	return kern::sIoctl( fd, r, a );
}
int sim_open( const char* p, int fl, ... ) {
	pathIn( p );
	SYS;
	return kern::sOpen( p, fl );
}
ssize_t sim_readlink( const char* p, char* b, size_t n ) {
	pathIn( p );
	SYS;
	return kern::sReadlink( p, b, n );
}
char* sim_realpath( const char* p, char* out ) {
	pathIn( p );
	std::string* r;
	int e;
	{
		SYS;
		r = new std::string;
		e = kern::sRealpath( p, *r );
	}
	char* res = nullptr;
	if ( e )
		errno = e;
	else {
		res = out ? out : (char*)simMalloc( r->size() + 1, false );
		memcpy( res, r->c_str(), r->size() + 1 );
	}
	{
		SYS;
		delete r;
	}
	return res;
}
int sim_chdir( const char* p ) {
	pathIn( p );
	SYS;
	return kern::sChdir( p );
}
int sim_fchdir( int fd ) {
	SYS;
	return kern::sFchdir( fd );
}
char* sim_getcwd( char* b, size_t n ) {
	SYS;
	std::string s;
	if ( int e = kern::sGetcwd( s ) ) {
		errno = e;
		return nullptr;
	}
	if ( s.size() + 1 > n ) {
		errno = ERANGE;
		return nullptr;
	}
	memcpy( b, s.c_str(), s.size() + 1 );
	return b;
}
int sim_statfs( const char* p, struct statfs* s ) {
	pathIn( p );
	SYS;
	long t = 0;
	if ( kern::sStatfs( p, &t ) )
		return -1;
	memset( s, 0, sizeof *s );
	s->f_type = t;
	return 0;
}
FILE* sim_setmntent( const char* p, const char* ) {
	SYS;
	return (FILE*)kern::sSetmntent( p );
}
static struct mntent* fillMnt( FILE* f, struct mntent* m, char* buf, size_t n ) {
	struct mntent* e;
	{
		SYS;
		e = kern::sGetmntent( f );
	}
	if ( !e )
		return nullptr;
	touch( buf, n, true );
	char* end = buf + n;
	auto put = [&]( const char* s ) {
		char* at = buf;
		size_t k = std::min<size_t>( strlen( s ), end - buf - 1 );
		memcpy( at, s, k );
		at[k] = 0;
		buf += k + ( buf + k + 1 < end );
		return at;
	};
	mntent r;
	memset( &r, 0, sizeof r );
	r.mnt_fsname = put( e->mnt_fsname );
	r.mnt_dir = put( e->mnt_dir );
	r.mnt_type = put( e->mnt_type );
	r.mnt_opts = put( e->mnt_opts );
	touch( m, sizeof *m, true );
	*m = r;
	return m;
}
// one buffer for all threads, as in the C library
static struct {
	struct mntent m;
	char buf[4096];
} mntBuf __attribute__( ( section( "efsw_data" ) ) );
struct mntent* sim_getmntent( FILE* f ) {
	return fillMnt( f, &mntBuf.m, mntBuf.buf, sizeof mntBuf.buf );
}
struct mntent* sim_getmntent_r( FILE* f, struct mntent* m, char* buf, int n ) {
	return fillMnt( f, m, buf, n );
}
int sim_endmntent( FILE* f ) {
	SYS;
	return kern::sEndmntent( f );
}
unsigned sim_getuid() { return kern::cfg.uid; }
unsigned sim_geteuid() { return kern::cfg.uid; }
static rlimit nofile = { 1024, 1048576 };
int sim_getrlimit( int, struct rlimit* r ) {
	*r = nofile;
	return 0;
}
int sim_setrlimit( int, const struct rlimit* r ) {
	nofile = *r;
	return 0;
}

// ------------------------------------------------------------------ waiting for input
int sim_select( int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv ) {
	SYS;
	kern::enterSys( "select" );
	if ( int e = kern::faultAt( "select" ) ) {
		errno = e;
		return -1;
	}
	if ( n > FD_SETSIZE )
		n = FD_SETSIZE;
	std::vector<int> rd, wr;
	for ( int i = 0; i < n; i++ ) {
		if ( r && FD_ISSET( i, r ) )
			rd.push_back( i );
		if ( w && FD_ISSET( i, w ) )
			wr.push_back( i );
	}
	bool bad = false;
	for ( int f : rd ) {
		bool b;
		kern::readable( f, &b );
		bad |= b;
	}
	if ( bad ) {
		violation( "use-after-close",
				   "select on a descriptor that is not open" + backtrace() );
	}
	auto pred = [&rd, &wr] {
		if ( !wr.empty() )
			return true;
		for ( int f : rd )
			if ( kern::readable( f, nullptr ) )
				return true;
		return false;
	};
	if ( tv ) {
		i64 t = (i64)tv->tv_sec * SEC + (i64)tv->tv_usec * 1000;
		if ( tv->tv_sec < 0 || tv->tv_usec < 0 ) {
			errno = EINVAL;
			return -1;
		}
		i64 start = now( CLK_MONO );
		waitUntilOr( pred, CLK_MONO, start + t, "select" );
		i64 left = start + t - now( CLK_MONO );
		if ( left < 0 )
			left = 0;
		tv->tv_sec = left / SEC;
		tv->tv_usec = left % SEC / 1000;
	} else
		waitUntil( pred, "select" );
	int cnt = 0;
	fd_set out;
	FD_ZERO( &out );
	for ( int f : rd )
		if ( kern::readable( f, nullptr ) ) {
			FD_SET( f, &out );
			cnt++;
		}
	if ( r )
		for ( int i = 0; i < n; i++ )
			if ( !FD_ISSET( i, &out ) )
				FD_CLR( i, r );
	if ( x )
		FD_ZERO( x );
	return cnt + (int)wr.size();
}
int sim_pselect( int n, fd_set* r, fd_set* w, fd_set* x, const struct timespec* ts, const void* ) {
	struct timeval tv;
	if ( ts ) {
		tv.tv_sec = ts->tv_sec;
		tv.tv_usec = ts->tv_nsec / 1000;
	}
	return sim_select( n, r, w, x, ts ? &tv : nullptr );
}
int sim_poll( struct pollfd* p, nfds_t n, int ms ) {
	SYS;
	kern::enterSys( "select" );
	if ( int e = kern::faultAt( "select" ) ) {
		errno = e;
		return -1;
	}
	for ( nfds_t i = 0; i < n; i++ ) {
		bool bad = false;
		if ( p[i].fd >= 0 )
			kern::readable( p[i].fd, &bad );
		if ( bad )
			violation( "use-after-close", "poll on a descriptor that is not open" + backtrace() );
	}
	auto eval = [p, n]( bool set ) {
		int c = 0;
		for ( nfds_t i = 0; i < n; i++ ) {
			short re = 0;
			if ( p[i].fd >= 0 ) {
				if ( ( p[i].events & POLLIN ) && kern::readable( p[i].fd, nullptr ) )
					re |= POLLIN;
				if ( ( p[i].events & POLLOUT ) && kern::writable( p[i].fd ) )
					re |= POLLOUT;
			}
			if ( set )
				p[i].revents = re;
			c += re != 0;
		}
		return c;
	};
	if ( ms >= 0 )
		waitUntilOr( [&] { return eval( false ) > 0; }, CLK_MONO, now( CLK_MONO ) + ms * MS, "poll" );
	else
		waitUntil( [&] { return eval( false ) > 0; }, "poll" );
	return eval( true );
}
int sim_ppoll( struct pollfd* p, nfds_t n, const struct timespec* ts, const void* ) {
	return sim_poll( p, n, ts ? (int)( tsNs( ts ) / MS ) : -1 );
}

// ------------------------------------------------------------------ time
int sim_gettimeofday( struct timeval* tv, void* ) {
	SYS;
	advance( 100 );
	i64 t = now( CLK_REAL );
	tv->tv_sec = t / SEC;
	tv->tv_usec = t % SEC / 1000;
	return 0;
}
int sim_clock_gettime( clockid_t c, struct timespec* ts ) {
	SYS;
	advance( 100 );
	i64 t = now( clkOf( c ) );
	ts->tv_sec = t / SEC;
	ts->tv_nsec = t % SEC;
	return 0;
}
time_t sim_time( time_t* o ) {
	SYS;
	time_t t = now( CLK_REAL ) / SEC;
	if ( o )
		*o = t;
	return t;
}
long sim__ZNSt6chrono3_V212system_clock3nowEv() {
	SYS;
	advance( 100 );
	return now( CLK_REAL );
}
long sim__ZNSt6chrono3_V212steady_clock3nowEv() {
	SYS;
	advance( 100 );
	return now( CLK_MONO );
}
static int napNs( i64 ns ) {
	SYS;
	kern::enterSys( "nanosleep" );
	int e = kern::faultAt( "nanosleep" );
	if ( e )
		return e;
	sleepFor( ns );
	return 0;
}
int sim_usleep( useconds_t u ) {
	if ( int e = napNs( (i64)u * 1000 ) ) {
		errno = e;
		return -1;
	}
	return 0;
}
unsigned sim_sleep( unsigned s ) { return napNs( (i64)s * SEC ) ? s : 0; }
int sim_nanosleep( const struct timespec* a, struct timespec* rem ) {
	if ( int e = napNs( tsNs( a ) ) ) {
		if ( rem )
			*rem = *a;
		errno = e;
		return -1;
	}
	return 0;
}
int sim_clock_nanosleep( clockid_t c, int fl, const struct timespec* a, struct timespec* rem ) {
	if ( !( fl & TIMER_ABSTIME ) ) {
		int e = napNs( tsNs( a ) );
		if ( e && rem )
			*rem = *a;
		return e;
	}
	SYS;
	kern::enterSys( "nanosleep" );
	if ( int e = kern::faultAt( "nanosleep" ) )
		return e;
	waitUntilOr( [] { return false; }, clkOf( c ), tsNs( a ), "clock_nanosleep" );
	return 0;
}
int sim_sched_yield() {
	SYS;
	point( P_SYNC );
	yieldNow();
	return 0;
}
void sim__ZNSt11this_thread11__sleep_forENSt6chrono8durationIlSt5ratioILl1ELl1EEEENS1_IlS2_ILl1ELl1000000000EEEE(
	i64 s, i64 ns ) {
	napNs( s * SEC + ns );
}

// ------------------------------------------------------------------ threads
int sim_pthread_mutex_init( pthread_mutex_t* m, const pthread_mutexattr_t* a ) {
	SYS;
	Mtx& x = mtxs()[m];
	x = Mtx();
	int k = 0;
	if ( a )
		pthread_mutexattr_gettype( a, &k );
	x.kind = k;
	return 0;
}
int sim_pthread_mutex_destroy( pthread_mutex_t* m ) {
	SYS;
	auto it = mtxs().find( m );
	if ( it != mtxs().end() ) {
		if ( it->second.owner >= 0 )
			violation( "bad-unlock", "mutex destroyed while locked" + backtrace() );
		mtxs().erase( it );
	}
	return 0;
}
int sim_pthread_mutex_lock( pthread_mutex_t* m ) { return lockMutex( m, nullptr, 0 ); }
int sim_pthread_mutex_trylock( pthread_mutex_t* m ) {
	SYS;
	point( P_SYNC );
	Mtx& x = mtxOf( m );
	if ( x.owner == self() && x.kind == PTHREAD_MUTEX_RECURSIVE ) {
		x.count++;
		return 0;
	}
	if ( x.owner >= 0 )
		return EBUSY;
	x.owner = self();
	x.count = 1;
	hbAcquire( m );
	return 0;
}
int sim_pthread_mutex_timedlock( pthread_mutex_t* m, const struct timespec* t ) {
	i64 d = tsNs( t );
	return lockMutex( m, &d, CLK_REAL );
}
int sim_pthread_mutex_clocklock( pthread_mutex_t* m, clockid_t c, const struct timespec* t ) {
	i64 d = tsNs( t );
	return lockMutex( m, &d, clkOf( c ) );
}
int sim_pthread_mutex_unlock( pthread_mutex_t* m ) { return unlockMutex( m ); }
static int rwLock( const void* p, bool wr, bool tryOnly ) {
	SYS;
	point( P_SYNC );
	auto ok = [p, wr] {
		Mtx& m = mtxs()[p];
		return m.owner < 0 && ( !wr || m.readers == 0 );
	};
	if ( tryOnly && !ok() )
		return EBUSY;
	waitUntil( ok, "rwlock" );
	Mtx& m = mtxs()[p];
	if ( wr ) {
		m.owner = self();
	} else
		m.readers++;
	hbAcquire( p );
	return 0;
}
int sim_pthread_rwlock_init( pthread_rwlock_t* l, const void* ) {
	SYS;
	mtxs()[l] = Mtx();
	return 0;
}
int sim_pthread_rwlock_destroy( pthread_rwlock_t* l ) {
	SYS;
	mtxs().erase( l );
	return 0;
}
int sim_pthread_rwlock_rdlock( pthread_rwlock_t* l ) { return rwLock( l, false, false ); }
int sim_pthread_rwlock_wrlock( pthread_rwlock_t* l ) { return rwLock( l, true, false ); }
int sim_pthread_rwlock_tryrdlock( pthread_rwlock_t* l ) { return rwLock( l, false, true ); }
int sim_pthread_rwlock_trywrlock( pthread_rwlock_t* l ) { return rwLock( l, true, true ); }
int sim_pthread_rwlock_unlock( pthread_rwlock_t* l ) {
	SYS;
	Mtx& m = mtxs()[l];
	hbRelease( l );
	if ( m.owner == self() )
		m.owner = -1;
	else
		m.readers--;
	point( P_SYNC );
	return 0;
}
int sim_pthread_cond_init( pthread_cond_t* c, const pthread_condattr_t* a ) {
	SYS;
	Cond k;
	if ( a ) {
		clockid_t id = CLOCK_REALTIME;
		pthread_condattr_getclock( a, &id );
		k.clk = clkOf( id );
	}
	conds()[c] = k;
	return 0;
}
int sim_pthread_cond_destroy( pthread_cond_t* c ) {
	SYS;
	conds().erase( c );
	return 0;
}
int sim_pthread_cond_wait( pthread_cond_t* c, pthread_mutex_t* m ) {
	return condWait( c, m, nullptr, 0 );
}
int sim_pthread_cond_timedwait( pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t ) {
	i64 d = tsNs( t );
	int clk;
	{
		SYS;
		clk = conds()[c].clk;
	}
	return condWait( c, m, &d, clk );
}
int sim_pthread_cond_clockwait( pthread_cond_t* c, pthread_mutex_t* m, clockid_t id,
								const struct timespec* t ) {
	i64 d = tsNs( t );
	return condWait( c, m, &d, clkOf( id ) );
}
int sim_pthread_cond_signal( pthread_cond_t* c ) {
	condWake( c, false );
	return 0;
}
int sim_pthread_cond_broadcast( pthread_cond_t* c ) {
	condWake( c, true );
	return 0;
}
void sim__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(
	void* c, std::unique_lock<std::mutex>& l ) {
	condWait( c, l.mutex(), nullptr, 0 );
}
void sim__ZNSt18condition_variable10notify_oneEv( void* c ) { condWake( c, false ); }
void sim__ZNSt18condition_variable10notify_allEv( void* c ) { condWake( c, true ); }
void sim__ZNSt18condition_variableC1Ev( void* c ) {
	SYS;
	memset( c, 0, sizeof( pthread_cond_t ) );
	conds()[c] = Cond();
}
void sim__ZNSt18condition_variableD1Ev( void* c ) {
	SYS;
	conds().erase( c );
}
int sim_pthread_create( pthread_t* t, const pthread_attr_t*, void* ( *fn )( void* ), void* arg ) {
	SYS;
	int id = newThread( [fn, arg] {
		void* r = fn( arg );
		rets.ret[self()] = r;
		hbRelease( (void*)( 0x1000 + (u64)self() + 1 ) );
	} );
	if ( id < 0 )
		return -id;
	*t = (pthread_t)( id + 1 );
	point( P_SYNC );
	return 0;
}
int sim_pthread_join( pthread_t t, void** r ) {
	SYS;
	int e = joinThread( t );
	if ( !e && r )
		*r = rets.ret[t - 1];
	return e;
}
int sim_pthread_detach( pthread_t ) { return 0; }
pthread_t sim_pthread_self() { return (pthread_t)( self() + 1 ); }
int sim_pthread_equal( pthread_t a, pthread_t b ) { return a == b; }
int sim_pthread_setname_np( pthread_t, const char* ) { return 0; }
int sim_pthread_once( pthread_once_t* o, void ( *fn )() ) {
	point( P_SYNC );
	if ( *o == 0 ) {
		*o = 1;
		fn();
		*o = 2;
	} else if ( *o == 1 )
		waitUntil( [o] { return *o == 2; }, "pthread_once" );
	return 0;
}
void sim__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
	std::thread* th, ThState** st, void ( * )() ) {
	ThState* s = *st;
	*st = nullptr;
	int id;
	{
		SYS;
		id = newThread( [s] {
			s->_M_run();
			delete s;
			{
				LeaveEfsw lv;
				hbRelease( (void*)( 0x1000 + (u64)self() + 1 ) );
			}
		} );
	}
	if ( id < 0 ) {
		delete s;
		throw std::system_error( std::error_code( -id, std::generic_category() ), "thread" );
	}
	*(u64*)th = (u64)id + 1;
	SYS;
	point( P_SYNC );
}
void sim__ZNSt6thread4joinEv( std::thread* th ) {
	u64 t = *(u64*)th;
	int e;
	{
		SYS;
		e = t ? joinThread( t ) : EINVAL;
	}
	if ( e )
		throw std::system_error( std::error_code( e, std::generic_category() ), "join" );
	*(u64*)th = 0;
}
void sim__ZNSt6thread6detachEv( std::thread* th ) { *(u64*)th = 0; }
unsigned sim__ZNSt6thread20hardware_concurrencyEv() { return 4; }

// semaphores
static std::unordered_map<const void*, int>& sems() {
	static auto* m = new std::unordered_map<const void*, int>;
	return *m;
}
int sim_sem_init( void* s, int, unsigned v ) {
	SYS;
	sems()[s] = (int)v;
	return 0;
}
int sim_sem_destroy( void* ) { return 0; }
int sim_sem_post( void* s ) {
	SYS;
	point( P_SYNC );
	hbRelease( s );
	sems()[s]++;
	return 0;
}
int sim_sem_wait( void* s ) {
	SYS;
	point( P_SYNC );
	waitUntil( [s] { return sems()[s] > 0; }, "semaphore" );
	sems()[s]--;
	hbAcquire( s );
	return 0;
}
int sim_sem_timedwait( void* s, const struct timespec* t ) {
	SYS;
	if ( !waitUntilOr( [s] { return sems()[s] > 0; }, CLK_REAL, tsNs( t ), "semaphore" ) ) {
		errno = ETIMEDOUT;
		return -1;
	}
	sems()[s]--;
	hbAcquire( s );
	return 0;
}

// function-local statics
int sim___cxa_guard_acquire( char* g ) {
	if ( *g )
		{ hbAcquire( g ); return 0; }
	SYS;
	point( P_SYNC );
	waitUntil( [g] { return g[1] == 0; }, "static initialisation" );
	if ( *g ) {
		hbAcquire( g );
		return 0;
	}
	g[1] = 1;
	return 1;
}
void sim___cxa_guard_release( char* g ) {
	SYS;
	g[1] = 0;
	*g = 1;
	hbRelease( g );
}
void sim___cxa_guard_abort( char* g ) { g[1] = 0; }

// std::call_once support (thread-local slots are per simulated thread)
struct EmuCtl {
	size_t size, align;
	void* off;
	void* init;
};
static std::map<std::pair<const void*, int>, void*>& emu() {
	static auto* m = new std::map<std::pair<const void*, int>, void*>;
	return *m;
}
void* __emutls_get_address( EmuCtl* c ) {
	LeaveEfsw lv;
	auto k = std::make_pair( (const void*)c, self() );
	auto it = emu().find( k );
	if ( it != emu().end() )
		return it->second;
	void* p = aligned_alloc( c->align < 16 ? 16 : c->align, ( c->size + 63 ) & ~size_t( 63 ) );
	if ( c->init )
		memcpy( p, c->init, c->size );
	else
		memset( p, 0, c->size );
	emu()[k] = p;
	addTlsRoot( p, c->size );
	return p;
}
int sim___cxa_thread_atexit( void ( *fn )( void* ), void* obj, void* ) {
	LeaveEfsw lv;
	atThreadExit( fn, obj );
	return 0;
}
EmuCtl sim_emu_once_call = { 8, 8, nullptr, nullptr };
EmuCtl sim_emu_once_callable = { 8, 8, nullptr, nullptr };
void sim___once_proxy() {
	void ( **f )() = ( void ( ** )() )__emutls_get_address( &sim_emu_once_call );
	( *f )();
}

// ------------------------------------------------------------------ fatal paths
void sim__ZSt9terminatev() {
	LeaveEfsw lv;
	violation( "terminate", "std::terminate called" + backtrace() );
}
void sim___cxa_pure_virtual() {
	LeaveEfsw lv;
	violation( "pure-virtual-call", "pure virtual function called" + backtrace() );
}
void sim_abort() {
	LeaveEfsw lv;
	violation( "abort", "abort called" + backtrace() );
}
void sim_exit( int ) {
	LeaveEfsw lv;
	violation( "abort", "exit called" + backtrace() );
}
void sim__ZSt21__glibcxx_assert_failPKciS0_S0_( const char* f, int l, const char* fn,
												const char* c ) {
	LeaveEfsw lv;
	violation( "assertion", std::string( "libstdc++ precondition: " ) + ( c ? c : "" ) + " in " +
								( fn ? fn : "" ) + " " + ( f ? f : "" ) + ":" +
								std::to_string( l ) + backtrace() );
}
void sim___assert_fail( const char* e, const char* f, unsigned l, const char* ) {
	LeaveEfsw lv;
	violation( "assertion", std::string( e ) + " " + f + ":" + std::to_string( l ) + backtrace() );
}
int sim_rand() {
	static u32 s = 12345;
	s = s * 1103515245u + 12345u;
	return ( s >> 16 ) & 0x7fff;
}
int sim_printf( const char*, ... ) { return 0; }
int sim_puts( const char* ) { return 0; }
int sim_putchar( int c ) { return c; }
int sim_fprintf( FILE*, const char*, ... ) { return 0; }
size_t sim_fwrite( const void*, size_t, size_t n, FILE* ) { return n; }
int sim_fputs( const char*, FILE* ) { return 0; }
int sim_fflush( FILE* ) { return 0; }

// red-black tree helpers live in libstdc++ (not instrumented): mark the header as written
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_( bool, void*, void*, void* );
void* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_( void*, void* );
void sim__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_( bool l, void* x, void* p,
																		  void* h ) {
	touch( x, 32, true );
	touch( p, 32, true );
	touch( h, 32, true );
	_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_( l, x, p, h );
}
void* sim__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_( void* z, void* h ) {
	touch( z, 32, true );
	touch( h, 32, true );
	return _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_( z, h );
}
}
