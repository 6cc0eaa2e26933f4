// Deterministic runtime: see rt.h.
#include "rt.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <errno.h>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>

extern "C" {
// bounds of the renamed data sections of the library under test
extern char __start_efsw_data[] __attribute__( ( weak ) );
extern char __stop_efsw_data[] __attribute__( ( weak ) );
extern char __start_efsw_bss[] __attribute__( ( weak ) );
extern char __stop_efsw_bss[] __attribute__( ( weak ) );
}

namespace rt {

u64 fnv( u64 h, const void* p, size_t n ) {
	const u8* b = (const u8*)p;
	for ( size_t i = 0; i < n; i++ ) {
		h ^= b[i];
		h *= 1099511628211ull;
	}
	return h;
}
u64 hashStr( const std::string& s ) {
	return fnv( 1469598103934665603ull, s.data(), s.size() );
}

// ------------------------------------------------------------------ state
enum State { READY, WAIT, DONE };

struct VC {
	u32 c[MAXF];
	VC() { memset( c, 0, sizeof c ); }
	void join( const VC& o ) {
		for ( int i = 0; i < MAXF; i++ )
			if ( o.c[i] > c[i] )
				c[i] = o.c[i];
	}
};

struct Fiber {
	std::vector<std::pair<void ( * )( void* ), void*>> tls;  // thread-exit destructors
	int id = 0;
	std::string name;
	void* sp = nullptr;
	char* stack = nullptr;
	std::function<void()> fn;
	State st = READY;
	std::function<bool()> pred;
	bool hasPred = false;
	bool hasDeadline = false;
	int dclk = 0;
	i64 deadline = 0;
	const char* why = "";
	bool efsw = false;	// a thread created by the library
	int mode = 0;		// 1 while executing library code
	u64 ctr = 0;		// decision counter
	u64 memLeft = 0;	// accesses until the next random preemption
	u64 sinceSwitch = 0;
	VC vc;
	int err = 0;
	u64 eh[2] = { 0, 0 };
	i64 apiSince = -1;
	const char* apiWhat = "";
	u32 calls[8192];
	u32 depth = 0;
	size_t devIdx = 0;
	std::vector<Deviation> devs;
};

static Fiber* F[MAXF];
static int nF = 0;
static Fiber* cur = nullptr;
static Options opt;
static SchedSpec spec;
static Rng srng;
static EndFn endFn = nullptr;
static RunStats st;
static Counters cn;
static std::vector<Deviation> recDev;
static std::string logBuf;
static u64 gSeq = 0;
static i64 monoNow = 1000ll * 1000000000ll;
static i64 realOff = 1700000000ll * 1000000000ll + 123456789ll;
static bool raceOn = false;
static bool started = false;
static bool ending = false;

RunStats& stats() { return st; }
Counters& counters() { return cn; }
const std::vector<Deviation>& recorded() { return recDev; }
const std::string& fullLog() { return logBuf; }

void endRun( const char* status, const std::string& cls, const std::string& msg ) {
	if ( ending )
		_exit( 95 );
	ending = true;
	if ( cur )
		cur->mode = 0;
	endFn( status, cls, msg );
	_exit( 99 );
}
void violation( const std::string& cls, const std::string& msg ) {
	if ( ending )
		_exit( 98 );
	logf( "VIOLATION %s: %s", cls.c_str(), msg.c_str() );
	endRun( "violation", cls, msg );
	_exit( 99 );
}
void inconclusive( const std::string& why ) {
	endRun( "inconclusive", "inconclusive", why );
	_exit( 99 );
}
void finishOk() {
	endRun( "ok", "", "" );
	_exit( 99 );
}

void logf( const char* fmt, ... ) {
	char tmp[1024];
	int saved = cur ? cur->mode : 0;
	if ( cur )
		cur->mode = 0;
	int n = snprintf( tmp, sizeof tmp, "%llu %lld.%06lld [%s] ", (unsigned long long)gSeq++,
					  (long long)( monoNow / 1000000000 ),
					  (long long)( monoNow / 1000 % 1000000 ), cur ? cur->name.c_str() : "-" );
	va_list ap;
	va_start( ap, fmt );
	int m = vsnprintf( tmp + n, sizeof tmp - n - 2, fmt, ap );
	va_end( ap );
	if ( m < 0 )
		m = 0;
	n = std::min( n + m, (int)sizeof tmp - 2 );
	tmp[n++] = '\n';
	st.logHash = fnv( st.logHash, tmp, n );
	st.logLines++;
	if ( opt.trace )
		(void)!write( 1, tmp, n );
	if ( cur )
		cur->mode = saved;
}
u64 seq() { return gSeq++; }

// ------------------------------------------------------------------ context switch
extern "C" void rt_switch( void** from, void* to );
asm( R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8, %rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size rt_switch,.-rt_switch
)" );

static const size_t STACK = 512 << 10;
static const uintptr_t STACKS = 0x300000000000ull;

static void pickNext( bool blocked );

static void fiberMain() {
	Fiber* me = cur;
	me->fn();
	me->mode = 1;
	while ( !me->tls.empty() ) {
		auto d = me->tls.back();
		me->tls.pop_back();
		d.first( d.second );
	}
	me->mode = 0;
	me->st = DONE;
	pickNext( true );
	abort();
}

static void doSwitch( Fiber* to ) {
	Fiber* from = cur;
	if ( to == from )
		return;
	st.switches++;
	u64 rec[2] = { (u64)from->id << 8 | to->id, from->ctr };
	st.schedHash = fnv( st.schedHash, rec, sizeof rec );
	from->err = errno;
	u64* eh = (u64*)abi::__cxa_get_globals();
	from->eh[0] = eh[0];
	from->eh[1] = eh[1];
	to->sinceSwitch = 0;
	from->sinceSwitch = 0;
	cur = to;
	eh[0] = to->eh[0];
	eh[1] = to->eh[1] & 0xffffffffu;
	errno = to->err;
	rt_switch( &from->sp, to->sp );
}

static void drawMem( Fiber* f ) {
	if ( spec.replay || spec.pMem <= 0 ) {
		f->memLeft = ~0ull;
		return;
	}
	double u = srng.unit();
	// geometric with mean 1/p
	f->memLeft = 1 + (u64)( -__builtin_log( 1.0 - u ) / spec.pMem );
}

int spawn( const std::string& name, std::function<void()> fn, bool efsw ) {
	if ( nF >= MAXF )
		inconclusive( "too many simulated threads" );
	Fiber* f = new Fiber;
	f->id = nF;
	f->name = name;
	f->fn = std::move( fn );
	f->efsw = efsw;
	f->mode = efsw ? 1 : 0;
	f->stack = (char*)mmap( (void*)( STACKS + (uintptr_t)nF * ( STACK + ( 64 << 10 ) ) ), STACK,
							PROT_READ | PROT_WRITE,
							MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0 );
	if ( f->stack == MAP_FAILED ) {
		perror( "mmap" );
		_exit( 97 );
	}
	void** sp = (void**)( f->stack + STACK - 64 );
	*--sp = nullptr;
	*--sp = (void*)fiberMain;
	for ( int i = 0; i < 6; i++ )
		*--sp = nullptr;
	u32 mx;
	asm volatile( "stmxcsr %0" : "=m"( mx ) );
	unsigned short cw;
	asm volatile( "fnstcw %0" : "=m"( cw ) );
	--sp;
	( (u32*)sp )[0] = mx;
	( (u32*)sp )[1] = cw;
	f->sp = sp;
	for ( auto& d : spec.dev )
		if ( d.fiber == f->id )
			f->devs.push_back( d );
	std::sort( f->devs.begin(), f->devs.end(),
			   []( const Deviation& a, const Deviation& b ) { return a.point < b.point; } );
	drawMem( f );
	F[nF++] = f;
	if ( cur ) {
		f->vc = cur->vc;
		cur->vc.c[cur->id]++;
	}
	f->vc.c[f->id] = 1;
	return f->id;
}

void atThreadExit( void ( *fn )( void* ), void* obj ) { cur->tls.push_back( { fn, obj } ); }
struct TlsRoot {
	int fiber;
	uintptr_t lo, hi;
};
static std::vector<TlsRoot>* tlsRoots = new std::vector<TlsRoot>;
void addTlsRoot( const void* p, size_t n ) {
	tlsRoots->push_back( { cur->id, (uintptr_t)p, (uintptr_t)p + n } );
}

int self() { return cur->id; }
const std::string& nameOf( int i ) { return F[i]->name; }
bool finished( int i ) { return F[i]->st == DONE; }
int fiberCount() { return nF; }
bool inEfsw() { return started && cur && cur->mode == 1; }
std::vector<int> efswThreads() {
	std::vector<int> r;
	for ( int i = 0; i < nF; i++ )
		if ( F[i]->efsw )
			r.push_back( i );
	return r;
}
bool efswAsleep() {
	for ( int i = 0; i < nF; i++ )
		if ( F[i]->efsw && F[i]->st != DONE && !( F[i]->st == WAIT && F[i]->hasDeadline ) )
			return false;
	return true;
}
int liveEfswThreads() {
	int n = 0;
	for ( int i = 0; i < nF; i++ )
		n += F[i]->efsw && F[i]->st != DONE;
	return n;
}
EnterEfsw::EnterEfsw() {
	saved = cur->mode;
	cur->mode = 1;
}
EnterEfsw::~EnterEfsw() { cur->mode = saved; }
LeaveEfsw::LeaveEfsw() {
	saved = cur->mode;
	cur->mode = 0;
}
LeaveEfsw::~LeaveEfsw() { cur->mode = saved; }

// ------------------------------------------------------------------ scheduling
static i64 clkNow( int c ) { return c == CLK_MONO ? monoNow : monoNow + realOff; }
i64 now( int c ) { return clkNow( c ); }

static bool runnable( Fiber* f ) {
	if ( f->st == DONE )
		return false;
	if ( f->st == READY )
		return true;
	if ( f->hasPred && f->pred() )
		return true;
	if ( f->hasDeadline && clkNow( f->dclk ) >= f->deadline )
		return true;
	return false;
}

static void watchdog() {
	for ( int i = 0; i < nF; i++ )
		if ( F[i]->st != DONE && F[i]->apiSince >= 0 && monoNow - F[i]->apiSince > opt.apiLimit ) {
			std::string m = std::string( F[i]->apiWhat ) + " has not returned after " +
							std::to_string( ( monoNow - F[i]->apiSince ) / 1000000000 ) +
							" simulated seconds; thread " + F[i]->name + " waits for: " +
							( F[i]->st == WAIT ? F[i]->why : "cpu" );
			violation( "api-hang", m );
		}
	if ( monoNow > opt.maxSimNs )
		inconclusive( "simulated time limit" );
}

void advance( i64 ns ) { monoNow += ns; }
void jumpReal( i64 d ) { realOff += d; }

static void describeBlocked( std::string& m ) {
	for ( int i = 0; i < nF; i++ )
		if ( F[i]->st != DONE ) {
			m += " " + F[i]->name + "(" + ( F[i]->st == WAIT ? F[i]->why : "ready" );
			if ( F[i]->apiSince >= 0 )
				m += std::string( ", in " ) + F[i]->apiWhat;
			m += ")";
		}
}

// current fiber cannot (or must not) go on: choose the next one by the default policy, or by a
// recorded/random deviation
static void pickNext( bool blocked ) {
	if ( ending )
		return;
	int savedMode = cur->mode;
	cur->mode = 0;
	if ( ++st.decisions > opt.maxDecisions ) {
		std::string m = "no end after " + std::to_string( st.decisions ) + " scheduling steps:";
		describeBlocked( m );
		violation( "livelock", m );
	}
	int cand[MAXF], n;
	for ( ;; ) {
		n = 0;
		for ( int k = 1; k <= nF; k++ ) {
			Fiber* f = F[( cur->id + k ) % nF];
			if ( !blocked && f == cur )
				continue;
			if ( runnable( f ) )
				cand[n++] = f->id;
		}
		if ( n || !blocked )
			break;
		i64 best = -1;
		for ( int i = 0; i < nF; i++ )
			if ( F[i]->st == WAIT && F[i]->hasDeadline ) {
				i64 left = F[i]->deadline - clkNow( F[i]->dclk );
				if ( left < 0 )
					left = 0;
				if ( best < 0 || left < best )
					best = left;
			}
		if ( best < 0 ) {
			std::string m = "no thread can make progress:";
			describeBlocked( m );
			violation( "deadlock", m );
		}
		monoNow += best;
		watchdog();
	}
	if ( n == 0 ) {	 // forced rotation with nobody else to run
		cur->mode = savedMode;
		cur->sinceSwitch = 0;
		return;
	}
	int choice = cand[0];
	Fiber* me = cur;
	me->ctr++;
	if ( spec.replay ) {
		while ( me->devIdx < me->devs.size() && me->devs[me->devIdx].point < me->ctr )
			me->devIdx++;
		if ( me->devIdx < me->devs.size() && me->devs[me->devIdx].point == me->ctr ) {
			int t = me->devs[me->devIdx].target;
			for ( int i = 0; i < n; i++ )
				if ( cand[i] == t ) {
					choice = t;
					break;
				}
			me->devIdx++;
		}
	} else if ( n > 1 && spec.pPick > 0 && srng.chance( spec.pPick ) ) {
		choice = cand[srng.below( n )];
	}
	if ( choice != cand[0] )
		recDev.push_back( { me->id, me->ctr, choice } );
	Fiber* to = F[choice];
	me->mode = savedMode;
	if ( to->st == WAIT )
		to->st = READY;
	doSwitch( to );
}

static void preempt() {
	// optional preemption: the default is to stay
	int savedMode = cur->mode;
	cur->mode = 0;
	if ( ++st.decisions > opt.maxDecisions ) {
		std::string m = "no end after " + std::to_string( st.decisions ) + " scheduling steps:";
		describeBlocked( m );
		violation( "livelock", m );
	}
	int cand[MAXF], n = 0;
	for ( int k = 1; k < nF; k++ ) {
		Fiber* f = F[( cur->id + k ) % nF];
		if ( runnable( f ) )
			cand[n++] = f->id;
	}
	int choice = -1;
	Fiber* me = cur;
	if ( spec.replay ) {
		int t = me->devs[me->devIdx].target;
		for ( int i = 0; i < n; i++ )
			if ( cand[i] == t )
				choice = t;
		me->devIdx++;
	} else if ( n )
		choice = cand[srng.below( n )];
	if ( choice >= 0 ) {
		recDev.push_back( { me->id, me->ctr, choice } );
		st.preemptions++;
	}
	cur->mode = savedMode;
	if ( choice < 0 )
		return;
	Fiber* to = F[choice];
	if ( to->st == WAIT )
		to->st = READY;
	doSwitch( to );
}

static inline bool devHere( Fiber* me ) {
	while ( me->devIdx < me->devs.size() && me->devs[me->devIdx].point < me->ctr )
		me->devIdx++;
	return me->devIdx < me->devs.size() && me->devs[me->devIdx].point == me->ctr;
}

void point( Point k ) {
	if ( !started || ending )
		return;
	Fiber* me = cur;
	me->ctr++;
	bool go;
	if ( spec.replay ) {
		go = devHere( me );
	} else {
		double p = k == P_SYNC ? spec.pSync
							   : k == P_SYS ? spec.pSys : k == P_USER ? spec.pUser : spec.pComm;
		go = p > 0 && srng.chance( p );
	}
	if ( go ) {
		preempt();
		return;
	}
	if ( ++me->sinceSwitch > 3000 )
		pickNext( false );
}

static u64 accSince = 0;
static void memPoint( bool comm ) {
	Fiber* me = cur;
	me->ctr++;
	if ( ++st.memAccesses > opt.maxAccesses ) {
		std::string m = "no end after " + std::to_string( st.memAccesses ) + " memory accesses:";
		describeBlocked( m );
		violation( "livelock", m );
	}
	bool go = false;
	if ( spec.replay ) {
		if ( me->devIdx < me->devs.size() )
			go = devHere( me );
	} else {
		if ( --me->memLeft == 0 ) {
			drawMem( me );
			go = true;
		} else if ( comm && spec.pComm > 0 )
			go = srng.chance( spec.pComm );
	}
	if ( go ) {
		preempt();
		accSince = 0;
		return;
	}
	if ( ++accSince > 400000 ) {
		accSince = 0;
		pickNext( false );
	}
}

void waitUntil( const std::function<bool()>& pred, const char* why ) {
	if ( pred() )
		return;
	for ( ;; ) {
		cur->st = WAIT;
		cur->pred = pred;
		cur->hasPred = true;
		cur->hasDeadline = false;
		cur->why = why;
		Fiber* me = cur;
		pickNext( true );
		me->st = READY;
		if ( pred() )
			return;
	}
}
bool waitUntilOr( const std::function<bool()>& pred, int clk, i64 deadline, const char* why ) {
	for ( ;; ) {
		if ( pred() )
			return true;
		if ( clkNow( clk ) >= deadline )
			return false;
		cur->st = WAIT;
		cur->pred = pred;
		cur->hasPred = true;
		cur->hasDeadline = true;
		cur->dclk = clk;
		cur->deadline = deadline;
		cur->why = why;
		Fiber* me = cur;
		pickNext( true );
		me->st = READY;
	}
}
void sleepFor( i64 ns ) {
	if ( ns <= 0 ) {
		point( P_SYS );
		return;
	}
	i64 dl = monoNow + ns;
	while ( monoNow < dl ) {
		cur->st = WAIT;
		cur->hasPred = false;
		cur->hasDeadline = true;
		cur->dclk = CLK_MONO;
		cur->deadline = dl;
		cur->why = "sleep";
		Fiber* me = cur;
		pickNext( true );
		me->st = READY;
	}
}
void yieldNow() { pickNext( false ); }

void apiBegin( const char* what ) {
	cur->apiSince = monoNow;
	cur->apiWhat = what;
}
void apiEnd() { cur->apiSince = -1; }

// ------------------------------------------------------------------ memory arena + shadow
struct Block {
	u64 size;
	u32 array;
	u32 state;	// 1 live, 2 freed
	u32 allocPc, freePc;
	u32 allocF, freeF;
};
constexpr size_t RED = 32;	// block header / red zone
static constexpr uintptr_t SHADOW = 0x210000000000ull;	// 1 byte per 8
static u8* const shadow = (u8*)SHADOW;
// accesses are packed as thread:6 | bytes:4 | clock:22
struct Cell {
	u32 w, wpc;
	u32 r[3], rpc[3];
};
static constexpr uintptr_t CELLS = 0x220000000000ull;
static Cell* const cells = (Cell*)CELLS;
static constexpr uintptr_t GCELLS = 0x230000000000ull;
static Cell* const gcells = (Cell*)GCELLS;
static size_t bump = 64;
static uintptr_t gLo = 0, gHi = 0;
static const size_t BIG = 1 << 20;
struct BigBlock {
	uintptr_t lo, hi;
	bool fresh;
};
static std::vector<BigBlock>* bigs;
static std::vector<uintptr_t>* blocks;	// user pointers in order
static size_t liveB = 0;
static bool memReuse = false;
static std::map<size_t, std::vector<uintptr_t>>* freeLists;

static void mapAt( uintptr_t a, size_t n ) {
	void* p = mmap( (void*)a, n, PROT_READ | PROT_WRITE,
					MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0 );
	if ( p != (void*)a ) {
		perror( "mmap arena" );
		_exit( 97 );
	}
}

static u32 callerPc() { return cur && cur->depth ? cur->calls[cur->depth - 1] : 0; }

std::string symbolize( uintptr_t pc ) {
	char b[32];
	snprintf( b, sizeof b, "{{%lx}}", (unsigned long)pc );
	return b;
}
std::string backtrace() {
	std::string s;
	if ( !cur )
		return s;
	int n = 0;
	for ( size_t i = cur->depth; i-- > 0 && n < 12; n++ )
		s += " < " + symbolize( cur->calls[i] );
	return s;
}

static Block* hdr( uintptr_t user ) { return (Block*)( user - RED ); }

void* simMalloc( size_t n, bool array ) {
	LeaveEfsw quiet;
	size_t sz = ( n + 7 ) & ~size_t( 7 );
	if ( sz == 0 )
		sz = 8;
	if ( n > ARENA_SZ || bump + sz + 2 * RED + 64 > ARENA_SZ ) {
		cur->mode = 0;
		inconclusive( "simulated heap exhausted by a request of " + std::to_string( n ) +
					  " bytes" + backtrace() );
	}
	if ( memReuse && sz < BIG ) {
		auto it = freeLists->find( sz );
		if ( it != freeLists->end() && !it->second.empty() ) {
			uintptr_t u = it->second.back();
			it->second.pop_back();
			Block* b = hdr( u );
			b->size = n;
			b->array = array;
			b->state = 1;
			b->allocPc = callerPc();
			b->allocF = cur ? cur->id : 0;
			memset( (void*)u, 0xCD, sz );
			size_t g = ( u - ARENA ) / 8;
			for ( size_t i = 0; i < sz / 8; i++ )
				shadow[g + i] = 8;
			if ( n % 8 )
				shadow[g + n / 8] = n % 8;
			if ( n == 0 )
				shadow[g] = 0;
			liveB += n;
			return (void*)u;
		}
	}
	bump = ( bump + 15 ) & ~size_t( 15 );
	uintptr_t u = ARENA + bump + RED;
	Block* b = hdr( u );
	b->size = n;
	b->array = array;
	b->state = 1;
	b->allocPc = callerPc();
	b->allocF = cur ? cur->id : 0;
	bump += RED + sz + 8;
	if ( sz >= BIG ) {
		bigs->push_back( { u, u + n, true } );
	} else {
		memset( (void*)u, 0xCD, sz );
		size_t g = ( u - ARENA ) / 8;
		for ( size_t i = 0; i < sz / 8; i++ )
			shadow[g + i] = 8;
		if ( n % 8 )
			shadow[g + n / 8] = n % 8;
		if ( n == 0 )
			shadow[g] = 0;
	}
	blocks->push_back( u );
	liveB += n;
	return (void*)u;
}
size_t liveBytes() { return liveB; }

static void badAccess( const char* what, uintptr_t a, size_t n ) {
	cur->mode = 0;
	// find the enclosing/nearest block
	std::string where = "no allocation";
	auto it = std::upper_bound( blocks->begin(), blocks->end(), a );
	bool freed = false;
	if ( it != blocks->begin() ) {
		uintptr_t u = *( it - 1 );
		Block* b = hdr( u );
		freed = b->state == 2;
		where = "offset " + std::to_string( (long)( a - u ) ) + " of a " +
				std::to_string( b->size ) + "-byte block allocated by " + F[b->allocF]->name +
				" at " + symbolize( b->allocPc );
		if ( freed )
			where += " and freed by " + F[b->freeF]->name + " at " + symbolize( b->freePc );
	}
	violation( freed ? "use-after-free" : "out-of-bounds",
			   std::string( what ) + " of " + std::to_string( n ) + " bytes at " + where +
				   "; by thread " + cur->name + backtrace() );
}

static Cell* cellOf( uintptr_t a ) {
	if ( a - ARENA < ARENA_SZ )
		return &cells[( a - ARENA ) / 4];
	if ( a >= gLo && a < gHi )
		return &gcells[( a - gLo ) / 4];
	return nullptr;
}

static inline bool ordered( u32 e ) {
	u32 f = e >> 26, c = e & 0x3fffff;
	return c <= cur->vc.c[f];
}

static void raceReport( uintptr_t a, bool write, u32 pc, u32 e, u32 epc, bool ewrite ) {
	cur->mode = 0;
	std::string m = std::string( "data race: " ) + ( write ? "write" : "read" ) + " by " +
					cur->name + " at " + symbolize( pc ) + " conflicts with earlier " +
					( ewrite ? "write" : "read" ) + " by " + F[e >> 26]->name + " at " +
					symbolize( epc );
	if ( a - ARENA < ARENA_SZ ) {
		auto it = std::upper_bound( blocks->begin(), blocks->end(), a );
		if ( it != blocks->begin() ) {
			uintptr_t u = *( it - 1 );
			Block* b = hdr( u );
			m += "; offset " + std::to_string( (long)( a - u ) ) + " of a " +
				 std::to_string( b->size ) + "-byte block allocated at " + symbolize( b->allocPc );
		}
	} else
		m += "; library global";
	m += "; stack" + backtrace();
	violation( "data-race", m );
}

// returns true when the location was last touched by another thread ("communication")
static bool cellAccess( uintptr_t a, size_t n, bool write, u32 pc, bool atomic ) {
	bool comm = false;
	uintptr_t end = a + n;
	u32 me = (u32)cur->id;
	u32 ep = me << 26 | ( cur->vc.c[me] & 0x3fffff );
	while ( a < end ) {
		uintptr_t g = a & ~uintptr_t( 3 );
		unsigned lo = a - g, hi = std::min<uintptr_t>( end - g, 4 );
		u32 mask = ( ( 1u << hi ) - 1 ) & ~( ( 1u << lo ) - 1 );
		Cell* c = cellOf( g );
		if ( !c )
			return comm;
		u32 e = ep | mask << 22;
		u32 w = c->w;
		if ( w && ( w >> 26 ) != me ) {
			comm = true;
			if ( raceOn && !atomic && ( w >> 22 & 15 & mask ) && !ordered( w ) )
				raceReport( a, write, pc, w, c->wpc, true );
		}
		if ( write ) {
			for ( int i = 0; i < 3; i++ ) {
				u32 r = c->r[i];
				if ( r && ( r >> 26 ) != me ) {
					comm = true;
					if ( raceOn && !atomic && ( r >> 22 & 15 & mask ) && !ordered( r ) )
						raceReport( a, write, pc, r, c->rpc[i], false );
				}
			}
			if ( !atomic ) {
				c->w = e;
				c->wpc = pc;
				c->r[0] = c->r[1] = c->r[2] = 0;
			} else {
				// remember the toucher for the communication heuristic only
				c->w = ( me << 26 ) | 0;
			}
		} else if ( !atomic ) {
			int slot = -1;
			for ( int i = 0; i < 3; i++ )
				if ( c->r[i] == 0 || ( c->r[i] >> 26 ) == me ) {
					slot = i;
					break;
				}
			if ( slot < 0 )
				slot = ( a >> 2 ) % 3;
			if ( c->r[slot] && ( c->r[slot] >> 26 ) == me )
				e |= c->r[slot] & ( 15u << 22 );
			c->r[slot] = e;
			c->rpc[slot] = pc;
		}
		a = g + 4;
	}
	return comm;
}

static inline bool bigRange( uintptr_t a, size_t n, const char* what ) {
	for ( auto& b : *bigs )
		if ( a >= b.lo && a < b.hi ) {
			if ( a + n > b.hi || hdr( b.lo )->state != 1 )
				badAccess( what, a, n );
			b.fresh = false;
			return true;
		}
	return false;
}

static inline void checkArena( uintptr_t a, size_t n, bool write ) {
	if ( n == 0 )
		return;
	if ( !bigs->empty() && bigRange( a, n, write ? "write" : "read" ) )
		return;
	uintptr_t o = a - ARENA, e = o + n;
	for ( uintptr_t g = o / 8; g <= ( e - 1 ) / 8; g++ ) {
		u8 s = shadow[g];
		if ( s == 8 )
			continue;
		uintptr_t need = std::min<uintptr_t>( e - g * 8, 8 );
		if ( s > 8 || s < need )
			badAccess( write ? "write" : "read", a, n );
	}
}

static void access( uintptr_t a, size_t n, bool write, u32 pc ) {
	if ( !started || ending || cur->mode != 1 )
		return;
	bool ar = a - ARENA < ARENA_SZ;
	if ( !ar && !( a >= gLo && a < gHi ) ) {
		return;
	}
	if ( opt.memCheck && ar )
		checkArena( a, n, write );
	bool big = false;
	if ( ar && !bigs->empty() )
		for ( auto& b : *bigs )
			if ( a >= b.lo && a < b.hi )
				big = true;
	bool comm = big ? false : cellAccess( a, n, write, pc, false );
	memPoint( comm );
	// the block may have been freed while this thread was preempted
	if ( opt.memCheck && ar && comm )
		checkArena( a, n, write );
}

void touch( const void* p, size_t n, bool write ) {
	if ( !started || ending )
		return;
	int saved = cur->mode;
	cur->mode = 1;
	access( (uintptr_t)p, n, write, callerPc() );
	cur->mode = saved;
}

void simFree( void* p, int kind ) {
	if ( !p || ending )
		return;
	bool lib = cur->mode == 1;
	LeaveEfsw quiet;
	uintptr_t u = (uintptr_t)p;
	if ( u - ARENA >= ARENA_SZ )
		violation( "bad-free", "free of a pointer not from the heap" + backtrace() );
	if ( u % 16 != 0 || !std::binary_search( blocks->begin(), blocks->end(), u ) )
		violation( "bad-free", "free of a pointer that is not the start of a block" + backtrace() );
	Block* b = hdr( u );
	if ( b->state != 1 )
		violation( "double-free", "block allocated at " + symbolize( b->allocPc ) +
									  " already freed by " + F[b->freeF]->name + " at " +
									  symbolize( b->freePc ) + "; freed again by " + cur->name +
									  backtrace() );
	if ( kind >= 0 && (u32)kind != b->array )
		violation( "alloc-mismatch", "new/delete/malloc/free mismatch" + backtrace() );
	size_t sz = ( b->size + 7 ) & ~size_t( 7 );
	if ( sz == 0 )
		sz = 8;
	if ( raceOn && sz < BIG && lib )
		cellAccess( u, std::min<size_t>( sz, 4096 ), true, callerPc(), false );
	b->state = 2;
	b->freePc = callerPc();
	b->freeF = cur->id;
	liveB -= b->size;
	if ( sz < BIG ) {
		size_t g = ( u - ARENA ) / 8;
		memset( shadow + g, 0xFD, sz / 8 );
		memset( p, 0xDD, sz );
		if ( memReuse )
			( *freeLists )[sz].push_back( u );
	}
}

void leakCheck( std::vector<std::string>& leaks ) {
	// conservative scan from the library's globals through live blocks
	std::vector<uintptr_t> work;
	std::vector<char> mark( blocks->size(), 0 );
	auto scan = [&]( uintptr_t lo, uintptr_t hi ) {
		for ( uintptr_t a = ( lo + 7 ) & ~uintptr_t( 7 ); a + 8 <= hi; a += 8 ) {
			uintptr_t v = *(uintptr_t*)a;
			if ( v - ARENA >= ARENA_SZ )
				continue;
			auto it = std::upper_bound( blocks->begin(), blocks->end(), v );
			if ( it == blocks->begin() )
				continue;
			size_t i = it - blocks->begin() - 1;
			uintptr_t u = ( *blocks )[i];
			Block* b = hdr( u );
			if ( mark[i] || b->state != 1 || v > u + b->size )
				continue;
			mark[i] = 1;
			work.push_back( u );
		}
	};
	scan( gLo, gHi );
	for ( auto& t : *tlsRoots )
		if ( F[t.fiber]->st != DONE )
			scan( t.lo, t.hi );
	while ( !work.empty() ) {
		uintptr_t u = work.back();
		work.pop_back();
		scan( u, u + hdr( u )->size );
	}
	for ( size_t i = 0; i < blocks->size(); i++ ) {
		Block* b = hdr( ( *blocks )[i] );
		if ( b->state == 1 && !mark[i] )
			leaks.push_back( std::to_string( b->size ) + " bytes allocated by " +
							 F[b->allocF]->name + " at " + symbolize( b->allocPc ) );
	}
}

void setRaceDetect( bool on ) { raceOn = on; }

// happens-before through synchronisation objects
static std::unordered_map<const void*, VC>* syncs;
void hbRelease( const void* k ) {
	if ( !cur )
		return;
	int saved = cur->mode;
	cur->mode = 0;
	( *syncs )[k].join( cur->vc );
	cur->vc.c[cur->id]++;
	cur->mode = saved;
}
void hbAcquire( const void* k ) {
	auto it = syncs->find( k );
	if ( it != syncs->end() )
		cur->vc.join( it->second );
}

int& simErrno() { return errno; }

// ------------------------------------------------------------------ crash handler
static void onCrash( int sig, siginfo_t* si, void* ) {
	if ( ending || !cur )
		_exit( 96 );
	char b[128];
	snprintf( b, sizeof b, "signal %d at address %p in thread ", sig, si->si_addr );
	std::string m = std::string( b ) + cur->name + backtrace();
	sigset_t s;
	sigemptyset( &s );
	sigprocmask( SIG_SETMASK, &s, nullptr );
	violation( sig == SIGABRT ? "abort" : "crash", m );
}

void start( const SchedSpec& s, const Options& o, EndFn end ) {
	spec = s;
	opt = o;
	endFn = end;
	srng.reseed( s.seed ^ 0x5c4ed );
	raceOn = o.raceDetect;
	mapAt( ARENA, ARENA_SZ );
	mapAt( SHADOW, ARENA_SZ / 8 );
	mapAt( CELLS, ARENA_SZ / 4 * sizeof( Cell ) );
	bigs = new std::vector<BigBlock>;
	blocks = new std::vector<uintptr_t>;
	freeLists = new std::map<size_t, std::vector<uintptr_t>>;
	memReuse = o.memReuse;
	syncs = new std::unordered_map<const void*, VC>;
	uintptr_t lo = ~0ull, hi = 0;
	auto ext = [&]( char* a, char* b ) {
		if ( a && a < b ) {
			lo = std::min( lo, (uintptr_t)a );
			hi = std::max( hi, (uintptr_t)b );
		}
	};
	ext( __start_efsw_data, __stop_efsw_data );
	ext( __start_efsw_bss, __stop_efsw_bss );
	if ( hi ) {
		gLo = lo & ~7ull;
		gHi = hi;
		mapAt( GCELLS, ( gHi - gLo + 8 ) / 4 * sizeof( Cell ) + 4096 );
	}
	Fiber* f = new Fiber;
	f->id = 0;
	f->name = "main";
	f->vc.c[0] = 1;
	for ( auto& d : spec.dev )
		if ( d.fiber == 0 )
			f->devs.push_back( d );
	std::sort( f->devs.begin(), f->devs.end(),
			   []( const Deviation& a, const Deviation& b ) { return a.point < b.point; } );
	F[0] = f;
	nF = 1;
	cur = f;
	drawMem( f );
	stack_t ss;
	memset( &ss, 0, sizeof ss );
	ss.ss_size = 256 << 10;
	ss.ss_sp = mmap( nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1,
					 0 );
	sigaltstack( &ss, nullptr );
	struct sigaction sa;
	memset( &sa, 0, sizeof sa );
	sa.sa_sigaction = onCrash;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for ( int sg : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT } )
		sigaction( sg, &sa, nullptr );
	started = true;
}

}	 // namespace rt

// ------------------------------------------------------------------ allocation interposition
using namespace rt;
void* operator new( size_t n ) {
	if ( inEfsw() )
		return simMalloc( n, false );
	void* p = malloc( n ? n : 1 );
	if ( !p )
		abort();
	return p;
}
void* operator new[]( size_t n ) {
	if ( inEfsw() )
		return simMalloc( n, true );
	void* p = malloc( n ? n : 1 );
	if ( !p )
		abort();
	return p;
}
void* operator new( size_t n, const std::nothrow_t& ) noexcept { return operator new( n ); }
void* operator new[]( size_t n, const std::nothrow_t& ) noexcept { return operator new[]( n ); }
void operator delete( void* p ) noexcept {
	if ( inArena( p ) )
		simFree( p, 0 );
	else
		free( p );
}
void operator delete[]( void* p ) noexcept {
	if ( inArena( p ) )
		simFree( p, 1 );
	else
		free( p );
}
void operator delete( void* p, size_t ) noexcept { operator delete( p ); }
void operator delete[]( void* p, size_t ) noexcept { operator delete[]( p ); }
void operator delete( void* p, const std::nothrow_t& ) noexcept { operator delete( p ); }
void operator delete[]( void* p, const std::nothrow_t& ) noexcept { operator delete[]( p ); }

// ------------------------------------------------------------------ compiler instrumentation hooks
#define PC ( (u32)(uintptr_t)__builtin_return_address( 0 ) )
namespace rt {
static inline void acc( void* a, size_t n, bool w, u32 pc ) { access( (uintptr_t)a, n, w, pc ); }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry( void* pc ) {
	if ( rt::started && rt::cur && !rt::ending ) {
		rt::cur->calls[rt::cur->depth++] = (u32)(uintptr_t)pc;
		if ( rt::cur->depth > 8000 )
			rt::violation( "stack-overflow", "unbounded recursion" + rt::backtrace() );
	}
}
void __tsan_func_exit() {
	if ( rt::started && rt::cur && rt::cur->depth )
		rt::cur->depth--;
}
#define RW( n )                                                                          \
	void __tsan_read##n( void* a ) { rt::acc( a, n, false, PC ); }                       \
	void __tsan_write##n( void* a ) { rt::acc( a, n, true, PC ); }                       \
	void __tsan_unaligned_read##n( void* a ) { rt::acc( a, n, false, PC ); }             \
	void __tsan_unaligned_write##n( void* a ) { rt::acc( a, n, true, PC ); }             \
	void __tsan_volatile_read##n( void* a ) { rt::acc( a, n, false, PC ); }              \
	void __tsan_volatile_write##n( void* a ) { rt::acc( a, n, true, PC ); }              \
	void __tsan_read_write##n( void* a ) {                                               \
		rt::acc( a, n, false, PC );                                                      \
		rt::acc( a, n, true, PC );                                                       \
	}                                                                                    \
	void __tsan_unaligned_read_write##n( void* a ) {                                     \
		rt::acc( a, n, false, PC );                                                      \
		rt::acc( a, n, true, PC );                                                       \
	}
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_vptr_read( void** a ) { rt::acc( a, 8, false, PC ); }
void __tsan_vptr_update( void** a, void* v ) {
	if ( *a != v )
		rt::acc( a, 8, true, PC );
}
void __tsan_read_range( void* a, size_t n ) { rt::acc( a, n, false, PC ); }
void __tsan_write_range( void* a, size_t n ) { rt::acc( a, n, true, PC ); }
void* __tsan_memcpy( void* d, const void* s, size_t n ) {
	if ( n ) {
		rt::acc( (void*)s, n, false, PC );
		rt::acc( d, n, true, PC );
		memcpy( d, s, n );
	}
	return d;
}
void* __tsan_memmove( void* d, const void* s, size_t n ) {
	if ( n ) {
		rt::acc( (void*)s, n, false, PC );
		rt::acc( d, n, true, PC );
		memmove( d, s, n );
	}
	return d;
}
void* __tsan_memset( void* d, int c, size_t n ) {
	if ( n >= rt::BIG && c == 0 && rt::started )
		for ( auto& b : *rt::bigs )
			if ( (uintptr_t)d == b.lo && (uintptr_t)d + n <= b.hi && b.fresh )
				return d;  // memory fresh from mmap is already zero
	if ( n ) {
		rt::acc( d, n, true, PC );
		memset( d, c, n );
	}
	return d;
}
// atomics: executed one at a time by construction; acquire/release edges feed the race detector
static void atomicOp( void* a, size_t n, bool w, bool acq, bool rel ) {
	if ( !rt::started || rt::ending || rt::cur->mode != 1 )
		return;
	rt::point( rt::P_SYNC );
	uintptr_t p = (uintptr_t)a;
	if ( rt::inArena( a ) )
		rt::checkArena( p, n, w );
	if ( acq )
		rt::hbAcquire( a );
	if ( rel )
		rt::hbRelease( a );
}
#define ACQ( mo ) ( mo != 0 && mo != 3 )
#define REL( mo ) ( mo == 3 || mo == 4 || mo == 5 )
#define ATOMIC( bits, T )                                                                       \
	T __tsan_atomic##bits##_load( const volatile T* a, int mo ) {                               \
		atomicOp( (void*)a, sizeof( T ), false, ACQ( mo ), false );                             \
		return *a;                                                                              \
	}                                                                                           \
	void __tsan_atomic##bits##_store( volatile T* a, T v, int mo ) {                            \
		atomicOp( (void*)a, sizeof( T ), true, false, REL( mo ) );                              \
		*a = v;                                                                                 \
	}                                                                                           \
	T __tsan_atomic##bits##_exchange( volatile T* a, T v, int mo ) {                            \
		atomicOp( (void*)a, sizeof( T ), true, ACQ( mo ), REL( mo ) );                          \
		T o = *a;                                                                               \
		*a = v;                                                                                 \
		return o;                                                                               \
	}                                                                                           \
	T __tsan_atomic##bits##_fetch_add( volatile T* a, T v, int mo ) {                           \
		atomicOp( (void*)a, sizeof( T ), true, ACQ( mo ), REL( mo ) );                          \
		T o = *a;                                                                               \
		*a = o + v;                                                                             \
		return o;                                                                               \
	}                                                                                           \
	T __tsan_atomic##bits##_fetch_sub( volatile T* a, T v, int mo ) {                           \
		atomicOp( (void*)a, sizeof( T ), true, ACQ( mo ), REL( mo ) );                          \
		T o = *a;                                                                               \
		*a = o - v;                                                                             \
		return o;                                                                               \
	}                                                                                           \
	T __tsan_atomic##bits##_fetch_and( volatile T* a, T v, int mo ) {                           \
		atomicOp( (void*)a, sizeof( T ), true, ACQ( mo ), REL( mo ) );                          \
		T o = *a;                                                                               \
		*a = o & v;                                                                             \
		return o;                                                                               \
	}                                                                                           \
	T __tsan_atomic##bits##_fetch_or( volatile T* a, T v, int mo ) {                            \
		atomicOp( (void*)a, sizeof( T ), true, ACQ( mo ), REL( mo ) );                          \
		T o = *a;                                                                               \
		*a = o | v;                                                                             \
		return o;                                                                               \
	}                                                                                           \
	T __tsan_atomic##bits##_fetch_xor( volatile T* a, T v, int mo ) {                           \
		atomicOp( (void*)a, sizeof( T ), true, ACQ( mo ), REL( mo ) );                          \
		T o = *a;                                                                               \
		*a = o ^ v;                                                                             \
		return o;                                                                               \
	}                                                                                           \
	T __tsan_atomic##bits##_fetch_nand( volatile T* a, T v, int mo ) {                          \
		atomicOp( (void*)a, sizeof( T ), true, ACQ( mo ), REL( mo ) );                          \
		T o = *a;                                                                               \
		*a = ~( o & v );                                                                        \
		return o;                                                                               \
	}                                                                                           \
	int __tsan_atomic##bits##_compare_exchange_strong( volatile T* a, T* c, T v, int mo,        \
													   int ) {                                  \
		atomicOp( (void*)a, sizeof( T ), true, ACQ( mo ), REL( mo ) );                          \
		if ( *a == *c ) {                                                                       \
			*a = v;                                                                             \
			return 1;                                                                           \
		}                                                                                       \
		*c = *a;                                                                                \
		return 0;                                                                               \
	}                                                                                           \
	int __tsan_atomic##bits##_compare_exchange_weak( volatile T* a, T* c, T v, int mo,          \
													 int f ) {                                  \
		return __tsan_atomic##bits##_compare_exchange_strong( a, c, v, mo, f );                 \
	}                                                                                           \
	T __tsan_atomic##bits##_compare_exchange_val( volatile T* a, T c, T v, int mo, int ) {      \
		atomicOp( (void*)a, sizeof( T ), true, ACQ( mo ), REL( mo ) );                          \
		T o = *a;                                                                               \
		if ( o == c )                                                                           \
			*a = v;                                                                             \
		return o;                                                                               \
	}
ATOMIC( 8, u8 ) ATOMIC( 16, unsigned short ) ATOMIC( 32, u32 ) ATOMIC( 64, u64 )
void __tsan_atomic_thread_fence( int ) {}
void __tsan_atomic_signal_fence( int ) {}
}
