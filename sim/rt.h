// Deterministic runtime: fibers, seeded scheduler, simulated clock, memory arena,
// shadow-memory oracles (use-after-free / out-of-bounds / data race) and fault plumbing.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace rt {

typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;
typedef uint8_t u8;

constexpr int MAXF = 64;
constexpr i64 MS = 1000000ll;
constexpr i64 SEC = 1000000000ll;

// ---------------------------------------------------------------- PRNG
struct Rng {
	u64 s[2];
	explicit Rng( u64 seed = 1 ) { reseed( seed ); }
	static u64 mix( u64& x ) {
		u64 z = ( x += 0x9e3779b97f4a7c15ull );
		z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
		z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
		return z ^ ( z >> 31 );
	}
	void reseed( u64 seed ) {
		s[0] = mix( seed );
		s[1] = mix( seed );
		if ( !s[0] && !s[1] )
			s[0] = 1;
	}
	u64 next() {
		u64 a = s[0], b = s[1];
		s[0] = b;
		a ^= a << 23;
		s[1] = a ^ b ^ ( a >> 17 ) ^ ( b >> 26 );
		return s[1] + b;
	}
	u64 below( u64 n ) { return n ? next() % n : 0; }
	int range( int lo, int hi ) { return lo + (int)below( (u64)( hi - lo + 1 ) ); }
	double unit() { return ( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
	bool chance( double p ) { return unit() < p; }
	template <class T> const T& pick( const std::vector<T>& v ) { return v[below( v.size() )]; }
};

u64 fnv( u64 h, const void* p, size_t n );
u64 hashStr( const std::string& s );

// ---------------------------------------------------------------- schedule
struct Deviation {
	int fiber;	 // fiber at the decision
	u64 point;	 // its decision counter
	int target;	 // fiber chosen instead of the default
};

struct SchedSpec {
	bool replay = false;
	u64 seed = 1;
	// random mode
	double pMem = 0;	 // mean preemptions per shared memory access
	double pComm = 0;	 // preemption prob. at an access to memory last touched by another thread
	double pSync = 0;	 // at lock/unlock/atomic
	double pSys = 0;	 // at system calls
	double pUser = 0;	 // at workload operations
	double pPick = 0;	 // choosing a random (instead of the default) runnable thread when blocked
	std::vector<Deviation> dev;	 // replay mode
};

struct Counters {
	std::map<std::string, u64> fault;	 // fault kinds that actually fired
	std::map<std::string, u64> probe;	 // rare conditions reached
};

struct RunStats {
	u64 switches = 0;
	u64 preemptions = 0;
	u64 memAccesses = 0;
	u64 syscalls = 0;
	u64 callbacks = 0;
	u64 decisions = 0;
	u64 schedHash = 1469598103934665603ull;	 // hash of the context-switch sequence
	u64 logHash = 1469598103934665603ull;	 // hash of the whole event log
	u64 logLines = 0;
};

enum Point { P_MEM, P_SYNC, P_SYS, P_USER };

// Violation/ending handler installed by the driver; must not return.
typedef void ( *EndFn )( const char* status, const std::string& cls, const std::string& msg );

struct Options {
	bool raceDetect = false;
	bool memCheck = true;
	bool memReuse = false;	// freed blocks are handed out again at once, as real allocators do
	bool trace = false;	   // print the log
	u64 maxAccesses = 150000000;
	u64 maxDecisions = 4000000;
	i64 maxSimNs = 40000ll * 1000000000ll;
	i64 apiLimit = 60ll * 1000000000ll;	 // simulated time an API call may take
};

void start( const SchedSpec& s, const Options& o, EndFn end );
[[noreturn]] void violation( const std::string& cls, const std::string& msg );
[[noreturn]] void inconclusive( const std::string& why );
[[noreturn]] void finishOk();

RunStats& stats();
Counters& counters();
inline void faultFired( const std::string& k ) { counters().fault[k]++; }
inline void probe( const std::string& k ) { counters().probe[k]++; }
const std::vector<Deviation>& recorded();

// ---------------------------------------------------------------- log
void logf( const char* fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
u64 seq();	// global event sequence number

// ---------------------------------------------------------------- fibers
int spawn( const std::string& name, std::function<void()> fn, bool efsw = false );
int self();
void atThreadExit( void ( *fn )( void* ), void* obj );
void addTlsRoot( const void* p, size_t n );
const std::string& nameOf( int fiber );
bool finished( int fiber );
int fiberCount();
bool inEfsw();	// current fiber is executing library code
std::vector<int> efswThreads();
int liveEfswThreads();
bool efswAsleep();	// every library thread is waiting for a time to come

// Guards marking entry to library code / back to harness code (callbacks).
struct EnterEfsw {
	EnterEfsw();
	~EnterEfsw();
	int saved;
};
struct LeaveEfsw {
	LeaveEfsw();
	~LeaveEfsw();
	int saved;
};

void point( Point k );							 // scheduling point
void waitUntil( const std::function<bool()>& pred, const char* why );	 // block until pred
bool waitUntilOr( const std::function<bool()>& pred, int clk, i64 deadline,
				  const char* why );	// false on timeout
void sleepFor( i64 ns );
void yieldNow();

// ---------------------------------------------------------------- time
enum { CLK_MONO = 0, CLK_REAL = 1 };
i64 now( int clk );
void advance( i64 ns );
void jumpReal( i64 delta );

// ---------------------------------------------------------------- memory
constexpr uintptr_t ARENA = 0x200000000000ull;
constexpr size_t ARENA_SZ = 256ull << 20;
inline bool inArena( const void* p ) { return (uintptr_t)p - ARENA < ARENA_SZ; }
void* simMalloc( size_t n, bool array = false );
void simFree( void* p, int kind );
void touch( const void* p, size_t n, bool write );	 // library-side access from a shim
void leakCheck( std::vector<std::string>& leaks );
size_t liveBytes();
void hbRelease( const void* key );
void hbAcquire( const void* key );
std::string backtrace();
std::string symbolize( uintptr_t pc );
void setRaceDetect( bool on );
void endRun( const char* status, const std::string& cls, const std::string& msg );
void apiBegin( const char* what );	// arms the liveness watchdog of this fiber
void apiEnd();
int& simErrno();
const std::string& fullLog();

}	 // namespace rt
